"""Probe/specification pairs for soa_array, soa_vector, aligned_allocator.

The specification of the containers is a plain array of cells with an element count (struct M); a container in
an arbitrary state is made by filling one with caller-provided cells and a caller-provided count."""
import itertools
import soa
from soa import Unit, Cell, SIZES, copy_elems, cellelem, LHEAD, HEAD

ACELLS = {
    'A': [('double', 'd', None), ('char', 'c', None), ('int', 'i', None)],
    'B': [('short', 's', None), ('float', 'arr', 3), ('double', 'd', None)],
}


def pod(name, members, defaults=True, extra=''):
    """a cell class with a default constructor that sets every member, and a constructor from values"""
    c = Cell(name, members)
    s = f'class {name} {{ public: {extra}\n {name}() {{'
    v = 3
    for e in c.elems():
        s += f' {e[1]} = {v};'
        v += 2
    s += ' }\n'
    for t, n, k in members:
        s += f' {t} {n}' + (f'[{k}]' if k else '') + ';\n'
    s += '};\n'
    s += f'LIBFLATARRAY_REGISTER_SOA({name}, ' + ''.join(f'(({t})({n})' + (f'({k})' if k else '') + ')' for t, n, k in members) + ')\n'
    return c, s


MODEL = '''
// memberwise copy, so that padding does not matter
static inline void cp(CX& d, const CX& s) { %s }
template<int N> struct M { szt n; CX c[N]; M() : n(0) {}
    void push(const CX& x) { if (n >= N) throw std::out_of_range("x"); cp(c[n], x); ++n; }
    void pop() { if (n == 0) throw std::out_of_range("x"); --n; } };
template<int N> static inline void fillm(M<N>& m, szt n, const CX *src) { m.n = n; for (int k = 0; k < N; ++k) cp(m.c[k], src[k]); }
template<int N> static inline void filla(soa_array<CX, N>& a, const CX *src) { for (int k = 0; k < N; ++k) a[k] << src[k]; }
// observation: the count and every element below it
template<int N> static inline void obsm(const M<N>& m, szt *cnt, CX *out) { *cnt = m.n; for (int k = 0; k < N; ++k) if ((szt)k < m.n) cp(out[k], m.c[k]); }
template<int N> static inline void obsa(const soa_array<CX, N>& a, szt *cnt, CX *out) { *cnt = a.size(); for (int k = 0; k < N; ++k) if ((szt)k < a.size()) { CX t = a[k]; cp(out[k], t); } }
'''


BIGARR = {'A': [(130, (0, 1, 63, 64, 65, 127, 128, 129, 130)), (300, (254, 255, 256, 257, 300)), (33, (31, 32, 33))], 'B': [(70, (8, 16, 69, 70)), (600, (511, 512, 513))]}


def unit_array(sizes=(1, 4, 6), big=BIGARR):
    """fixed-capacity arrays behave like an array with a count: growing, shrinking, element access, refusal when full"""
    us = []
    for m in ACELLS:
        c, decl = pod('CX', ACELLS[m])
        u = Unit(f'arr{m}', HEAD + decl + MODEL % copy_elems(c, cellelem('d.'), cellelem('s.')))
        for N in sizes:
            A, MM = f'soa_array<CX, {N}>', f'M<{N}>'
            tr = lambda op: f'try {{ {op} }} catch (const std::out_of_range&) {{ ev_val(77); }}'
            endp, endr = 'obsa(a, cnt, out);', 'obsm(m, cnt, out);'
            for n in range(N + 1):
                st = 'const CX *src'
                P = st + ', szt *cnt, CX *out'
                mkp = f'{A} a({n}); filla(a, src);'
                mkr = f'{MM} m; fillm(m, {n}, src);'

                def pair(name, params, p, r):
                    u.pair(f'{name}{N}_{n}', params, mkp + p, mkr + r)
                pair('state', P, endp, endr)
                pair('push', P + ', const CX *x', tr('a.push_back(*x);') + endp, tr('m.push(*x);') + endr)
                pair('shl', P + ', const CX *x, const CX *y', tr('a << *x << *y;') + endp, tr('m.push(*x); m.push(*y);') + endr)
                pair('pushthrow', st + ', const CX *x', 'a << *x;', 'm.push(*x);')
                pair('pop', P, tr('a.pop_back();') + endp, tr('m.pop();') + endr)
                pair('popthrow', st, 'a.pop_back();', 'm.pop();')
                pair('poppush', P + ', const CX *x', tr('a.pop_back(); a.push_back(*x);') + endp, tr('m.pop(); m.push(*x);') + endr)
                pair('clear', P + ', const CX *x', 'a.clear(); ev_val(a.size()); a << *x;' + endp, 'ev_val(0); m.n = 0; m.push(*x);' + endr)
                if n:
                    pair('back', st + ', CX *x', 'CX t = a.back(); cp(*x, t);', f'cp(*x, m.c[{n - 1}]);')
                    pair('setback', P + ', const CX *x', 'a.back() << *x;' + endp, f'cp(m.c[{n - 1}], *x);' + endr)
                pair('misc', st, f'const {A}& ca = a; ev_val(ca.size()); ev_val2(ca.capacity(), {A}::SIZE); ev_val2(ca.byte_size(), {A}::BYTE_SIZE);', f'ev_val({n}); ev_val2({N}, {N}); ev_val2({n * c.agg}, {N * c.agg});')
                pair('iter', st + ', double *o', f'int j = 0; for (typename {A}::iterator i = a.begin(); i != a.end(); ++i) {{ o[j++] = i.d(); }} ev_val(j);', f'int j = 0; for (szt k = 0; k < {n}; ++k) {{ o[j++] = m.c[k].d; }} ev_val(j);')
                if n == N:
                    for how, ix in (('at', 'int'), ('ats', 'szt'), ('idx', 'int')):
                        ac = 'a.at(k)' if how[0] == 'a' else 'a[k]'
                        for k in range(N):
                            K = f'{ix} k = {k};'
                            pair(f'{how}get{k}', st + ', CX *x', f'{K} CX t = {ac}; cp(*x, t);', f'cp(*x, m.c[{k}]);')
                            pair(f'{how}cget{k}', st + ', CX *x', f'{K} const {A}& ca = a; CX t = c{ac}; cp(*x, t);', f'cp(*x, m.c[{k}]);')
                            pair(f'{how}set{k}', P + ', const CX *x', f'{K} {ac} << *x;' + endp, f'cp(m.c[{k}], *x);' + endr)
                            # writing one member leaves the others alone
                            pair(f'{how}member{k}', P + ', double v', f'{K} {ac}.d() = v;' + endp, f'm.c[{k}].d = v;' + endr)
                    pair('layout', st, ' '.join(f'for (int k = 0; k < {N}; ++k) ev_val((char*)&a[k].{e[4]}(){"" if e[5] is None else f"[{e[5]}]"} - a.data());' for e in c.elems()),
                         ' '.join(f'for (int k = 0; k < {N}; ++k) ev_val({N * e[2]} + k * {e[3]});' for e in c.elems()))
                u.pair(f'ctorval{N}_{n}', 'const CX *v, szt *cnt, CX *out', f'{A} a({n}, *v);' + endp, f'{MM} m; m.n = {n}; for (int k = 0; k < {N}; ++k) cp(m.c[k], *v);' + endr)
                u.pair(f'ctorn{N}_{n}', 'szt *cnt, CX *out', f'{A} a({n});' + endp, f'{MM} m; m.n = {n};' + endr)
            for n in (N + 1, N + 7, 1000000, '(szt)-1', '((szt)1 << 32)'):
                nn = str(n) if isinstance(n, int) else ('max' if '-1' in n else 'p32')
                u.pair(f'overval{N}_{nn}', 'const CX *v', f'{A} a({n}, *v);', 'throw std::out_of_range("x");')
                u.pair(f'over{N}_{nn}', '', f'{A} a({n});', 'throw std::out_of_range("x");')
            u.pair(f'ctor0{N}', 'szt *cnt, CX *out', f'{A} a;' + endp, '*cnt = 0;')
            # filling up element by element
            xs = ', '.join(f'const CX *x{k}' for k in range(N + 1))
            # histories: every sequence of four operations, from every count
            if N in (1, 4) and m == 'A':
                for n in range(min(N, 3) + 1):
                    for ops in itertools.product('+-0', repeat=4):
                        if n not in (0, N - 1, N) and ops[0] == '0':
                            continue
                        tp, tm = '', ''
                        for j, o in enumerate(ops):
                            tp += tr({'+': f'a.push_back(x[{j}]);', '-': 'a.pop_back();', '0': 'a.clear();'}[o])
                            tm += tr({'+': f'm.push(x[{j}]);', '-': 'm.pop();', '0': 'm.n = 0;'}[o])
                        nm = ''.join({'+': 'p', '-': 'o', '0': 'c'}[o] for o in ops)
                        u.pair(f'hist{N}_{n}{nm}', 'const CX *src, szt *cnt, CX *out, const CX *x', f'{A} a({n}); filla(a, src);' + tp + endp, f'{MM} m; fillm(m, {n}, src);' + tm + endr)
            u.pair(f'fill{N}', f'szt *cnt, CX *out, {xs}', f'{A} a; ' + tr(' '.join(f'a << *x{k};' for k in range(N + 1))) + endp, f'{MM} m; ' + tr(' '.join(f'm.push(*x{k});' for k in range(N + 1))) + endr)
        us.append(u)
    # larger capacities: counters of any width, blocked loops
    for m in big:
        c, decl = pod('CX', ACELLS[m])
        u = Unit(f'arrbig{m}', HEAD + decl + MODEL % copy_elems(c, cellelem('d.'), cellelem('s.')))
        endp, endr = 'obsa(a, cnt, out);', 'obsm(m, cnt, out);'
        for N, ns in big[m]:
            A, MM = f'soa_array<CX, {N}>', f'M<{N}>'
            for n in ns:
                u.pair(f'ctorval{N}_{n}', 'const CX *v, szt *cnt, CX *out', f'{A} a({n}, *v);' + endp, f'{MM} m; m.n = {n}; for (int k = 0; k < {n}; ++k) cp(m.c[k], *v);' + endr)
                u.pair(f'ctorn{N}_{n}', 'szt *cnt, CX *out', f'{A} a({n});' + endp, f'{MM} m; m.n = {n};' + endr)
                u.pair(f'iter{N}_{n}', 'const CX *src, double *o', f'{A} a({n}); filla(a, src); int j = 0; for (typename {A}::iterator i = a.begin(); i != a.end(); ++i) {{ o[j++] = i.d(); }} ev_val(j);', f'for (int k = 0; k < {n}; ++k) {{ o[k] = src[k].d; }} ev_val({n});')
                u.pair(f'pushall{N}_{n}', 'const CX *src, szt *cnt, CX *out', f'{A} a; for (int k = 0; k < {n}; ++k) a << src[k];' + endp, f'*cnt = {n}; for (int k = 0; k < {n}; ++k) cp(out[k], src[k]);')
                u.pair(f'popall{N}_{n}', 'const CX *src', f'{A} a({n}); for (int k = 0; k < {n}; ++k) a.pop_back(); ev_val(a.size()); a.pop_back();', 'ev_val(0); throw std::out_of_range("x");')
                if n:
                    u.pair(f'last{N}_{n}', 'const CX *src, CX *x', f'{A} a({n}); filla(a, src); CX t = a.back(); cp(*x, t);', f'cp(*x, src[{n - 1}]);')
            u.pair(f'over{N}', 'const CX *src, const CX *x', f'{A} a({N}); a << *x;', 'throw std::out_of_range("x");')
        us.append(u)
    return us


def unit_array_copy(sizes=((3, 3), (2, 4), (4, 2), (1, 3), (3, 1), (5, 5), (3, 4)), big=((300, 300, (37, 128, 255, 256, 257, 300)), (40, 140, (15, 16, 17, 31, 32, 33, 40)), (140, 130, (63, 64, 65, 127, 128, 129, 130)))):
    """copies between arrays of equal and different capacity, bulk loading, exchange"""
    us = []
    for m in ACELLS:
        c, decl = pod('CX', ACELLS[m])
        for N, K in sizes:
            u = Unit(f'arrcp{m}{N}{K}', HEAD + decl + MODEL % copy_elems(c, cellelem('d.'), cellelem('s.')))
            tr = lambda op: f'try {{ {op} }} catch (const std::out_of_range&) {{ ev_val(77); }}'
            A, B = f'soa_array<CX, {N}>', f'soa_array<CX, {K}>'
            P = 'const CX *src, const CX *src2, szt *cnt, CX *out, szt *cnt2, CX *out2'
            P1 = 'const CX *src, szt *cnt, CX *out, szt *cnt2, CX *out2'
            endp = 'obsa(a, cnt, out); obsa(b, cnt2, out2);'
            endr = 'obsm(m, cnt, out); obsm(q, cnt2, out2);'
            for n in range(N + 1):
                mkp = f'{A} a({n}); filla(a, src);'
                mkr = f'M<{N}> m; fillm(m, {n}, src);'
                asg = 'throw std::out_of_range("x");' if n > K else f'q.n = {n};' + ''.join(f' cp(q.c[{j}], m.c[{j}]);' for j in range(n))
                for cst in ('', 'const '):
                    t = 'c' if cst else ''
                    u.pair(f'{t}ctor{n}', P1, mkp + f'{cst}{A}& r = a; {B} b(r);' + endp, mkr + f'M<{K}> q; {asg}' + endr)
                if N == K:
                    u.pair(f'self{n}', 'const CX *src, szt *cnt, CX *out', mkp + f'{A}& r = a; a = r; obsa(a, cnt, out);', mkr + 'obsm(m, cnt, out);')
                for k in range(K + 1):
                    nm = f'{n}_{k}'
                    mkp2 = mkp + f'{B} b({k}); filla(b, src2);'
                    mkr2 = mkr + f'M<{K}> q; fillm(q, {k}, src2);'
                    for cst in ('', 'const '):
                        t = 'c' if cst else ''
                        u.pair(f'{t}assign{nm}', P, mkp2 + f'{cst}{A}& r = a; ' + tr('b = r;') + endp, mkr2 + tr(asg) + endr)
                        # the copy is independent of its origin
                        if 0 < n <= K:
                            u.pair(f'{t}indep{nm}', P + ', const CX *x', mkp2 + f'{cst}{A}& r = a; b = r; a[0] << *x; b.pop_back();' + endp, mkr2 + asg + 'cp(m.c[0], *x); q.pop();' + endr)
                    if N == K:
                        u.pair(f'swap{nm}', P, mkp2 + 'using std::swap; swap(a, b);' + endp, mkr2 + 'obsm(q, cnt, out); obsm(m, cnt2, out2);')
                    if n != N:
                        continue
                    for num in range(N + 1):
                        for off in range(K + 2):
                            e = max(num + off, k)
                            ld = 'throw std::out_of_range("x");' if e > K else ''.join(f' cp(q.c[{off + i}], m.c[{i}]);' for i in range(num)) + f' q.n = {e};'
                            u.pair(f'load{nm}_{num}_{off}', P, mkp2 + tr(f'b.load(a[0], {num}, {off});') + endp, mkr2 + tr(ld) + endr)
                        ld = 'throw std::out_of_range("x");' if num + k > K else ''.join(f' cp(q.c[{k + i}], m.c[{i}]);' for i in range(num)) + f' q.n = {num + k};'
                        u.pair(f'loadend{nm}_{num}', P, mkp2 + tr(f'b.load(a[0], {num});') + endp, mkr2 + tr(ld) + endr)
                    for at in range(1, N):
                        for num in range(1, N - at + 1):
                            for off in range(K + 1 - num):
                                e = max(num + off, k)
                                u.pair(f'loadfrom{nm}_{at}_{num}_{off}', P, mkp2 + tr(f'b.load(a[{at}], {num}, {off});') + endp, mkr2 + ''.join(f' cp(q.c[{off + i}], m.c[{at + i}]);' for i in range(num)) + f' q.n = {e};' + endr)
                    # sequences of transfers
                    u.pair(f'loadtwice{nm}', P, mkp2 + tr('b.load(a[0], 1);') + tr('b.load(a[0], 1);') + endp,
                           mkr2 + tr('q.push(m.c[0]);') + tr('q.push(m.c[0]);') + endr)
                    u.pair(f'assignpush{nm}', P + ', const CX *x', mkp2 + tr('b = a; b << *x;') + tr('a << *x;') + endp, mkr2 + tr(asg + ' q.push(*x);') + tr('m.push(*x);') + endr)
                    u.pair(f'assignback{nm}', P, mkp2 + tr('b = a;') + tr('a = b;') + endp, mkr2 + tr(asg) + tr('m.n = q.n; for (szt j = 0; j < q.n; ++j) { if (j >= %d) throw std::out_of_range("x"); }' % N + f' for (int j = 0; j < {min(N, K)}; ++j) if ((szt)j < q.n) cp(m.c[j], q.c[j]);' if K <= N else f'if (q.n > {N}) throw std::out_of_range("x"); m.n = q.n; for (int j = 0; j < {N}; ++j) if ((szt)j < q.n) cp(m.c[j], q.c[j]);') + endr)
                    if N == K:
                        u.pair(f'swaptwice{nm}', P, mkp2 + 'using std::swap; swap(a, b); swap(b, a);' + endp, mkr2 + endr)
                        u.pair(f'swappush{nm}', P + ', const CX *x', mkp2 + 'using std::swap; swap(a, b); ' + tr('a << *x;') + endp, mkr2 + tr('q.push(*x);') + 'obsm(q, cnt, out); obsm(m, cnt2, out2);')
            us.append(u)
    # long copies
    for m in ACELLS:
        c, decl = pod('CX', ACELLS[m])
        u = Unit(f'arrcpbig{m}', HEAD + decl + MODEL % copy_elems(c, cellelem('d.'), cellelem('s.')))
        for N, K, ns in big:
            A, B = f'soa_array<CX, {N}>', f'soa_array<CX, {K}>'
            for n in ns:
                mkp = f'{A} a({n}); for (int k = 0; k < {n}; ++k) a[k] << src[k];'
                P = 'const CX *src, szt *cnt, CX *out'
                exp = lambda lo, num: f'*cnt = {lo + num}; for (int k = 0; k < {num}; ++k) cp(out[{lo} + k], src[k]);'
                u.pair(f'ctor{N}_{K}_{n}', P, mkp + f'const {A}& r = a; {B} b(r); obsa(b, cnt, out);', exp(0, n))
                u.pair(f'assign{N}_{K}_{n}', P, mkp + f'{B} b; b = a; obsa(b, cnt, out);', exp(0, n))
                u.pair(f'load{N}_{K}_{n}', P, mkp + f'{B} b; b.load(a[0], {n}); obsa(b, cnt, out);', exp(0, n))
                if n + 3 <= K:
                    u.pair(f'loadoff{N}_{K}_{n}', P, mkp + f'{B} b(3); b.load(a[0], {n}); *cnt = b.size(); for (int k = 3; k < {n + 3}; ++k) {{ CX t = b[k]; cp(out[k], t); }}', exp(3, n))
                if N == K:
                    u.pair(f'swap{N}_{n}', P, mkp + f'{A} b(2); using std::swap; swap(a, b); ev_val(a.size()); obsa(b, cnt, out);', 'ev_val(2);' + exp(0, n))
        us.append(u)
    return us


TCELL = [('Trk', 't', None), ('double', 'd', None), ('Trk', 'u', 2)]


def unit_array_life(sizes=(1, 2, 3)):
    """every member of every slot of an array is constructed once and destroyed once, whatever happens in between"""
    c, _ = pod('CX', TCELL)
    u = Unit('arrlife', LHEAD + 'class CX { public: CX() : d(0) {} Trk t; double d; Trk u[2]; };\nLIBFLATARRAY_REGISTER_SOA(CX, ((Trk)(t))((double)(d))((Trk)(u)(2)))\n')
    for N in sizes:
        A = f'soa_array<CX, {N}>'
        for nm, txt in (
                ('plain', f'{A} a;'), ('n', f'{A} a({N});'), ('val', f'CX v; {A} a({N}, v);'),
                ('push', f'CX v; {A} a; a << v; a.pop_back(); a << v; a.clear();'),
                ('full', f'CX v; {A} a({N}, v); try {{ a << v; }} catch (const std::out_of_range&) {{ ev_val(1); }}'),
                ('over', f'CX v; try {{ {A} a({N + 1}, v); }} catch (const std::out_of_range&) {{ ev_val(1); }}'),
                ('copy', f'CX v; {A} a({N}, v); {A} b(a); b.clear();'),
                ('assign', f'CX v; {A} a({N}, v); {A} b; b = a;'),
                ('copylarger', f'CX v; {A} a({N}, v); soa_array<CX, {N + 2}> b(a); b << v;'),
                ('copysmaller', f'CX v; {A} a(1, v); soa_array<CX, 1> b(a);'),
                ('load', f'CX v; {A} a({N}, v); soa_array<CX, {N + 2}> b; b.load(a[0], {N}); b.load(a[0], 1, 0);'),
                ('overcopy', f'CX v; soa_array<CX, {N + 2}> a({N + 1}, v); try {{ {A} b(a); }} catch (const std::out_of_range&) {{ ev_val(1); }}'),
                ('overccopy', f'CX v; const soa_array<CX, {N + 2}> a({N + 1}, v); try {{ {A} b(a); }} catch (const std::out_of_range&) {{ ev_val(1); }}'),
                ('overassign', f'CX v; const soa_array<CX, {N + 2}> a({N + 1}, v); {A} b; try {{ b = a; }} catch (const std::out_of_range&) {{ ev_val(1); }}'),
                ('overload', f'CX v; soa_array<CX, {N + 2}> a({N + 1}, v); {A} b(1); try {{ b.load(a[0], {N + 1}); }} catch (const std::out_of_range&) {{ ev_val(1); }} try {{ b.load(a[0], 1, {N}); }} catch (const std::out_of_range&) {{ ev_val(1); }}'),
                ('at', f'CX v; {A} a({N}, v); a[0] << v; CX w; a[{N - 1}] >> w; CX x = a.at({N - 1});')):
            ev = 'ev_val(1); ev_val(1);' if nm == 'overload' else 'ev_val(1);' if nm == 'full' or nm[:4] == 'over' else ''
            u.pair(f'{nm}{N}', '', txt, ev, opts='balance')
        # histories of two arrays
        OPS = {'P': 'try { a << v; } catch (const std::out_of_range&) {}', 'O': 'try { a.pop_back(); } catch (const std::out_of_range&) {}', 'C': 'a.clear();', 'A': 'a = b;', 'B': 'b = a;',
               'L': 'try { a.load(b[0], 1); } catch (const std::out_of_range&) {}', 'W': 'a[0] << v;', 'K': f'{{ {A} t(a); t << v; }}' if False else f'{{ const {A}& r = a; {A} t(r); b = t; }}'}
        for ops in itertools.product(OPS, repeat=3):
            u.pair(f'hist{N}{"".join(ops)}', '', f'CX v; {A} a(1, v); {A} b; ' + ' '.join(OPS[o] for o in ops), '', opts='balance')
    for N in (40, 130):
        A = f'soa_array<CX, {N}>'
        for n in (0, 1, N - 1, N):
            u.pair(f'big{N}_{n}', '', f'CX v; {A} a({n}, v); {A} b(a); b = a;', '', opts='balance')
    return [u]


VTABLE = [2, 4, 7, 16]
VAPI = 'class API : public api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((2)(4)(7)(16)) };'
VMODEL = '''
typedef soa_vector<CX> V;
static inline void cp(CX& d, const CX& s) { %s }
template<class VV> static inline void obsv(const VV& v, szt n, szt *cnt, CX *out) { *cnt = v.size(); ev_val(v.empty()); ev_val(v.capacity() >= v.size()); for (szt k = 0; k < n; ++k) { CX t = v.get(k); cp(out[k], t); } }
static inline void obsm(const CX *const *m, szt n, szt *cnt, CX *out) { *cnt = n; ev_val(n == 0); ev_val(1); for (szt k = 0; k < n; ++k) cp(out[k], *m[k]); }
'''


def vmodel(other):
    return VMODEL.replace('soa_vector<CX>', 'soa_vector<CX, rec_alloc<char> >') if other else VMODEL


def trkcell():
    return '''class CX { public: %s CX() : d(3) { t.v = 1; u[0].v = 2; u[1].v = 4; } CX(double x, int y) : d(x) { t.v = y; u[0].v = y; u[1].v = 5; } Trk t; double d; Trk u[2]; };
LIBFLATARRAY_REGISTER_SOA(CX, ((Trk)(t))((double)(d))((Trk)(u)(2)))
''' % VAPI


# cells that are used in grids of three dimensions as well: their smallest layouts have several rows
VAPI3 = ('3', VAPI.replace('_1D_UNIFORM((2)(4)(7)(16))', '((2)(4)(7)(16), (3)(5), (2))'))
VAPIU3 = ('u3', VAPI.replace('1D_UNIFORM', '3D_UNIFORM'))
BIGVEC = {'P': (31, 32, 33, 63, 64, 65, 127, 128, 129, 300), 'T': (5, 31, 32, 33, 65)}


def unit_vector(sizes=(0, 1, 2, 3, 4, 6, 7), cells=('T', 'P'), starts=(0, 2, 4), length=3, bigs=BIGVEC, other=False, api=('', VAPI)):
    """runtime-sized arrays behave like a vector: contents, count, growth, copies; members live exactly as long as needed"""
    us = []
    for cell in cells:
        if cell == 'T':
            c = Cell('CX', TCELL)
            decl = trkcell().replace(VAPI, api[1])
            mem = 'd.t.v = s.t.v; d.d = s.d; d.u[0].v = s.u[0].v; d.u[1].v = s.u[1].v;'
        else:
            c, decl = pod('CX', ACELLS['B'], extra=api[1] + ' CX(double x, int y) { s = 1; arr[0] = arr[1] = arr[2] = y; d = x; }')
            mem = copy_elems(c, cellelem('d.'), cellelem('s.'))
        u = Unit(f'vec{"any" if other else ""}{api[0]}{cell}', (soa.anyhead(LHEAD) if other else LHEAD).replace('#include <libflatarray/flat_array.hpp>', '#include <libflatarray/flat_array.hpp>\n#include <libflatarray/soa_vector.hpp>') + decl + vmodel(other) % mem)
        tr = lambda op: f'try {{ {op} }} catch (const std::out_of_range&) {{ ev_val(77); }}'
        for n in sizes:
            P = 'const CX *src, szt *cnt, CX *out'
            mk = f'V v({n}); for (int k = 0; k < {n}; ++k) v.set(k, src[k]);'
            S = [f'src + {k}' for k in range(n)]

            def arr(l):
                return 'const CX *m[] = { ' + ', '.join(l + ['src']) + ' };'

            def pair(name, params, p, elems, extra_r='', n_=n, pre_r=''):
                u.pair(f'{name}{n_}', params, p + f' obsv(v, {len(elems)}, cnt, out);', pre_r + arr(elems) + extra_r + f' obsm(m, {len(elems)}, cnt, out);', opts='balance')
            pair('state', P, mk, S)
            pair('push', P + ', const CX *x', mk + 'v.push_back(*x);', S + ['x'])
            pair('push2', P + ', const CX *x, const CX *y', mk + 'v.push_back(*x); v.push_back(*y);', S + ['x', 'y'])
            pair('pushn', P + ', const CX *x', mk + ' '.join(f'v.push_back(x[{k}]);' for k in range(5)), S + [f'x + {k}' for k in range(5)])
            pair('emplace', P + ', double x, int y', mk + 'v.emplace_back(x, y);', S + ['&e'], pre_r='CX e(x, y);')
            if n:
                pair('pop', P, mk + 'v.pop_back();', S[:-1])
                pair('poppush', P + ', const CX *x', mk + 'v.pop_back(); v.push_back(*x);', S[:-1] + ['x'])
                pair('set', P + ', const CX *x', mk + f'v.set({n - 1}, *x); v.set(0, *x);', (['x'] + S[1:-1] + ['x']) if n > 1 else ['x'])
                for k in range(n):
                    u.pair(f'member{n}_{k}', P + ', const CX *x', mk + f'v.set({k}, *x); obsv(v, {n}, cnt, out);', arr(S[:k] + ['x'] + S[k + 1:]) + f'obsm(m, {n}, cnt, out);', opts='balance')
            # emptied vectors take new elements from the start
            pair('clear', P + ', const CX *x', mk + 'v.clear(); ev_val(v.size()); v.push_back(*x);', ['x'], 'ev_val(0);')
            for k in sorted({0, 1, n // 2, n, n + 1, n + 2, 7, 9, 16}):
                # contents survive, whatever the new count
                u.pair(f'resize{n}_{k}', P, mk + f'v.resize({k}); ev_val(v.size()); ev_val(v.capacity() >= v.size()); v.resize({min(n, k)}); obsv(v, {min(n, k)}, cnt, out);', arr(S[:k]) + f'ev_val({k}); ev_val(1); obsm(m, {min(n, k)}, cnt, out);', opts='balance')
                u.pair(f'resizeset{n}_{k}', P + ', const CX *x', mk + f'v.resize({k}); for (int j = {min(n, k)}; j < {k}; ++j) v.set(j, *x); obsv(v, {k}, cnt, out);', arr((S + ['x'] * 20)[:k]) + f'obsm(m, {k}, cnt, out);', opts='balance')
                u.pair(f'reserve{n}_{k}', P, mk + f'v.reserve({k}); ev_val(v.capacity() >= {k}); obsv(v, {n}, cnt, out);', arr(S) + f'ev_val(1); obsm(m, {n}, cnt, out);', opts='balance')
                u.pair(f'reservepush{n}_{k}', P + ', const CX *x', mk + f'v.reserve({k}); v.push_back(*x); obsv(v, {n + 1}, cnt, out);', arr(S + ['x']) + f'obsm(m, {n + 1}, cnt, out);', opts='balance')
            for k in (17, 1000):
                pair(f'toobig{k}_', P, mk + tr(f'v.resize({k});') + tr(f'v.reserve({k});'), S, 'ev_val(77); ev_val(77);')
            # copies are independent
            pair('copy', P + ', const CX *x, szt *cnt2, CX *out2', mk + f'const V& r = v; V w(r); v.push_back(*x); obsv(w, {n}, cnt2, out2);', S + ['x'], arr(S).replace('m[]', 'm2[]') + f'obsm(m2, {n}, cnt2, out2);')
            pair('copygrow', P + ', const CX *x, szt *cnt2, CX *out2', mk + f'V w(v); w.push_back(*x); obsv(w, {n + 1}, cnt2, out2);', S, arr(S + ['x']).replace('m[]', 'm2[]') + f'obsm(m2, {n + 1}, cnt2, out2);')
            for k in (0, 1, 3, 7):
                u.pair(f'assign{n}_{k}', P + ', const CX *x, szt *cnt2, CX *out2', mk + f'V w({k}, *x); w = v; v.push_back(*x); obsv(w, {n}, cnt2, out2); obsv(v, {n + 1}, cnt, out);', arr(S) + f'obsm(m, {n}, cnt2, out2);' + '{' + arr(S + ['x']) + f'obsm(m, {n + 1}, cnt, out); }}', opts='balance')
            pair('self', P, mk + 'V& r = v; v = r;', S)
            u.pair(f'ctorval{n}', P + ', const CX *x', f'V v({n}, *x); obsv(v, {n}, cnt, out);', arr(['x'] * n) + f'obsm(m, {n}, cnt, out);', opts='balance')
            # struct-of-arrays view: element k of every member, through both kinds of callback
            u.raw(f'struct see{n} {{ double *o; template<class ACC> void operator()(ACC& a) const {{ for (int k = 0; k < {n}; ++k) {{ o[k] = a.d(); ++a; }} }} }};')
            u.pair(f'cb{n}', 'const CX *src, double *o', mk + f'v.callback(see{n}{{o}});', f'for (int k = 0; k < {n}; ++k) o[k] = src[k].d;', opts='balance')
            u.pair(f'ccb{n}', 'const CX *src, double *o', mk + f'const V& r = v; r.callback(see{n}{{o}});', f'for (int k = 0; k < {n}; ++k) o[k] = src[k].d;', opts='balance')
            u.raw(f'struct put{n} {{ double x; template<class ACC> void operator()(ACC& a) const {{ a += {max(n - 1, 0)}; a.d() = x; }} }};')
            if n:
                u.pair(f'cbput{n}', P + ', double x', mk + f'v.callback(put{n}{{x}}); obsv(v, {n}, cnt, out);', f'CX e; cp(e, src[{n - 1}]); e.d = x;' + arr(S[:-1] + ['&e']) + f'obsm(m, {n}, cnt, out);', opts='balance')
        # histories: every sequence of operations, contents tracked where they are specified
        OPS = {'P': 'push', 'O': 'pop', 'C': 'clear', 'R1': ('resize', 1), 'R5': ('resize', 5), 'V9': ('reserve', 9), 'S': 'set', 'K': 'copy', 'A': 'assign'}
        for n in starts:
            for ops in itertools.product(OPS, repeat=length):
                cont, txt, ok = [f'src[{k}]' for k in range(n)], f'V v({n}); for (int k = 0; k < {n}; ++k) v.set(k, src[k]);', True
                for j, o in enumerate(ops):
                    if o == 'P':
                        txt += f' v.push_back(x[{j}]);'; cont = cont + [f'x[{j}]']
                    elif o == 'O':
                        ok = ok and bool(cont); txt += ' v.pop_back();'; cont = cont[:-1]
                    elif o == 'C':
                        txt += ' v.clear();'; cont = []
                    elif o == 'S':
                        ok = ok and bool(cont)
                        if cont:
                            i = (j * 2 + 1) % len(cont); txt += f' v.set({i}, x[{j}]);'; cont = cont[:i] + [f'x[{j}]'] + cont[i + 1:]
                    elif o == 'K':
                        txt += ' { const V& r = v; V w(r); w.push_back(x[0]); v = w; v.pop_back(); }'
                    elif o == 'A':
                        txt += f' {{ V w(3); w = v; v.clear(); v = w; }}'
                    elif OPS[o][0] == 'resize':
                        k = OPS[o][1]; txt += f' v.resize({k});'; cont = (cont + [None] * k)[:k]
                    else:
                        txt += f' v.reserve({OPS[o][1]}); ev_val(v.capacity() >= {OPS[o][1]});'
                if not ok:
                    continue
                nres = sum(1 for o in ops if o == 'V9')
                txt += ' *cnt = v.size(); ev_val(v.empty()); ev_val(v.capacity() >= v.size());' + ''.join(f' {{ CX t = v.get({k}); cp(out[{k}], t); }}' for k, e in enumerate(cont) if e)
                spec = 'ev_val(1);' * nres + f' *cnt = {len(cont)}; ev_val({int(not cont)}); ev_val(1);' + ''.join(f' cp(out[{k}], {e});' for k, e in enumerate(cont) if e)
                u.pair(f'hist{n}_' + '_'.join(ops), 'const CX *src, szt *cnt, CX *out, const CX *x', txt, spec, opts='balance')
        u.pair('full', 'const CX *src, const CX *x, szt *cnt, CX *out', 'V v(16); for (int k = 0; k < 16; ++k) v.set(k, src[k]);' + tr('v.push_back(*x);') + 'obsv(v, 16, cnt, out);', 'const CX *m[16]; for (int k = 0; k < 16; ++k) m[k] = src + k; ev_val(77); obsm(m, 16, cnt, out);', opts='balance')
        u.pair('grow', 'const CX *src, szt *cnt, CX *out', 'V v; for (int k = 0; k < 16; ++k) v.push_back(src[k]); obsv(v, 16, cnt, out);', 'const CX *m[16]; for (int k = 0; k < 16; ++k) m[k] = src + k; obsm(m, 16, cnt, out);', opts='balance')
        us.append(u)
    # the default size table, larger counts
    for cell in cells:
        if cell == 'T':
            decl = trkcell().replace(VAPI, '')
            mem = 'd.t.v = s.t.v; d.d = s.d; d.u[0].v = s.u[0].v; d.u[1].v = s.u[1].v;'
        else:
            c, decl = pod('CX', ACELLS['A'])
            mem = copy_elems(c, cellelem('d.'), cellelem('s.'))
        u = Unit(f'vec{"any" if other else ""}{cell}big', (soa.anyhead(LHEAD) if other else LHEAD).replace('#include <libflatarray/flat_array.hpp>', '#include <libflatarray/flat_array.hpp>\n#include <libflatarray/soa_vector.hpp>') + decl + vmodel(other) % mem)
        for n in bigs[cell]:
            mk = f'V v({n}); for (int k = 0; k < {n}; ++k) v.set(k, src[k]);'
            P = 'const CX *src, szt *cnt, CX *out, const CX *x'
            cp_ = lambda k: f'for (int k = 0; k < {k}; ++k) cp(out[k], src[k]);'
            ob = lambda k: f'*cnt = v.size(); ev_val(v.capacity() >= v.size()); for (int k = 0; k < {k}; ++k) {{ CX t = v.get(k); cp(out[k], t); }}'
            sp = lambda k, kk: f'*cnt = {k}; ev_val(1); ' + cp_(kk)
            u.pair(f'push{n}', P, mk + ' v.push_back(*x);' + ob(n + 1), sp(n + 1, n) + f'cp(out[{n}], *x);', opts='balance')
            u.pair(f'reserve{n}', P, mk + f' v.reserve({2 * n + 5}); ev_val(v.capacity() >= {2 * n + 5});' + ob(n), 'ev_val(1);' + sp(n, n), opts='balance')
            u.pair(f'resize{n}', P, mk + f' v.resize({n + 40});' + ob(n), sp(n + 40, n), opts='balance')
            u.pair(f'shrink{n}', P, mk + f' v.resize({n // 2}); v.resize({n // 2 + 1}); v.pop_back();' + ob(n // 2), sp(n // 2, n // 2), opts='balance')
            u.pair(f'copy{n}', P, mk + ' const V& r = v; V w(r); v.clear(); v = w; v.push_back(*x);' + ob(n + 1), sp(n + 1, n) + f'cp(out[{n}], *x);', opts='balance')
            u.pair(f'val{n}', P, f'V v({n}, *x);' + ob(n), f'*cnt = {n}; ev_val(1); for (int k = 0; k < {n}; ++k) cp(out[k], *x);', opts='balance')
            u.pair(f'grow{n}', P, f'V v; for (int k = 0; k < {n}; ++k) v.push_back(src[k]);' + ob(n), sp(n, n), opts='balance')
        us.append(u)
    return us


IDHEAD = """
// refers to itself, and so does not survive being copied or moved bytewise
struct Self { const Self *me; int v; Self() : me(this), v(0) {} Self(int x) : me(this), v(x) {} Self(const Self& o) : me(this), v(o.v) {} ~Self() { me = 0; } Self& operator=(const Self& o) { v = o.v; return *this; } };
class CX { public: %s CX() : d(0) {} CX(int x, double y) : t(x), d(y) { u[0].v = x; u[1].v = 7; } Self t; double d; Self u[2]; };
LIBFLATARRAY_REGISTER_SOA(CX, ((Self)(t))((double)(d))((Self)(u)(2)))
template<class A> static inline void obs(A& a, int n, int *o, long *ok) { for (int k = 0; k < n; ++k) { o[2 * k] = a[k].t().v; o[2 * k + 1] = a[k].u()[0].v; ok[2 * k] = a[k].t().me == &a[k].t(); ok[2 * k + 1] = a[k].u()[1].me == &a[k].u()[1]; } }
struct seev { int n, *o; long *ok; template<class ACC> void operator()(ACC& a) const { for (int k = 0; k < n; ++k) { o[2 * k] = a.t().v; o[2 * k + 1] = a.u()[0].v; ok[2 * k] = a.t().me == &a.t(); ok[2 * k + 1] = a.u()[1].me == &a.u()[1]; ++a; } } };
"""


def unit_ident(length=3, vlength=3):
    """members that refer to themselves: no operation copies, moves or creates them bytewise"""
    us = []
    hd = LHEAD.replace('#include <libflatarray/flat_array.hpp>', '#include <libflatarray/flat_array.hpp>\n#include <libflatarray/soa_vector.hpp>')
    idh = IDHEAD
    mkcell = lambda k: f'CX(src[{k}], 1.5)'
    exp = lambda l: ' '.join(f'o[{2 * k}] = o[{2 * k + 1}] = {e}; ok[{2 * k}] = 1; ok[{2 * k + 1}] = 1;' for k, e in enumerate(l))
    u = Unit('identarr', hd + idh % '')
    for N in (1, 3, 4):
        A = f'soa_array<CX, {N}>'
        OPS = 'PpOCABSLKW'
        for ops in itertools.product(OPS, repeat=length):
            a, b, n, txt, ok = ['src[0]'], [], 1, f'{A} a; a << {mkcell(0)}; {A} b;', True
            for o in ops:
                if o in 'Pp':
                    x = f'src[{n}]'; n += 1
                    w = 'a' if o == 'P' else 'b'
                    l = a if o == 'P' else b
                    ok = ok and len(l) < N
                    txt += f' {w} << {mkcell(n - 1)};'; l.append(x)
                elif o == 'O': ok = ok and bool(a); txt += ' a.pop_back();'; a = a[:-1]
                elif o == 'C': txt += ' a.clear();'; a = []
                elif o == 'A': txt += ' a = b;'; a = list(b)
                elif o == 'B': txt += ' b = a;'; b = list(a)
                elif o == 'S': txt += ' { using std::swap; swap(a, b); }'; a, b = b, a
                elif o == 'L': ok = ok and bool(a) and len(b) < N; txt += f' b.load(a[0], 1, {len(b)});'; b = b + a[:1]
                elif o == 'K': txt += f' {{ {A} t(a); soa_array<CX, {N + 2}> w(t); w << {mkcell(0)}; const {A}& r = t; {A} t2(r); b = t2; }}'; b = list(a)
                elif o == 'W': ok = ok and bool(a); txt += f' a[{max(len(a) - 1, 0)}] = CX(src[9], 2);'; a = a[:-1] + ['src[9]']
            if ok and len(a) <= N and len(b) <= N:
                u.pair(f'{N}_{"".join(ops)}', 'const int *src, int *o, long *ok', txt + f' obs(a, {len(a)}, o, ok); obs(b, {len(b)}, o + {2 * len(a)}, ok + {2 * len(a)});', exp(a + b))
    us.append(u)
    u = Unit('identvec', hd + idh % VAPI + 'typedef soa_vector<CX> V;')
    for n in (0, 1, 2, 4):
        for ops in itertools.product('POR9KAW', repeat=vlength):
            c, m, ok = [f'src[{k}]' for k in range(n)], n, True
            txt = f'V v({n});' + ''.join(f' v.set({k}, {mkcell(k)});' for k in range(n))
            for o in ops:
                if o == 'P': txt += f' v.push_back({mkcell(m)});'; c = c + [f'src[{m}]']; m += 1
                elif o == 'O': ok = ok and bool(c); txt += ' v.pop_back();'; c = c[:-1]
                elif o == 'R': txt += f' v.resize({len(c) + 2}); v.resize({len(c)});'
                elif o == '9': txt += ' v.reserve(9);'
                elif o == 'K': txt += f' {{ V w(v); w.push_back({mkcell(0)}); v = w; v.pop_back(); }}'
                elif o == 'A': txt += ' { V w(5); w = v; v.clear(); v = w; }'
                elif o == 'W': ok = ok and bool(c); txt += f' v.set({max(len(c) - 1, 0)}, CX(src[15], 2));'; c = c[:-1] + ['src[15]']
            if ok:
                u.pair(f'{n}_{"".join(ops)}', 'const int *src, int *o, long *ok', txt + f' v.callback(seev{{{len(c)}, o, ok}});', exp(c), opts='balance')
    us.append(u)
    u = Unit('identgrid', hd + idh % soa.GRIDAPI['cus'][0] + 'typedef soa_grid<CX> G;')
    D = [(3, 2, 1), (2, 1, 2), (1, 1, 1), (5, 1, 1)]
    nm = lambda d: 'x'.join(map(str, d))
    row = lambda g, d: f'{g}.set(0, 0, 0, {mkcell(0)}); CX r[] = {{ {mkcell(1)} }}; {g}.set({d[0] - 1}, {d[1] - 1}, {d[2] - 1}, r, 1);'
    see = lambda g, d, off=0: f' {g}.callback(seexyz{{0, 0, 0, o + {off}, ok + {off}}}); {g}.callback(seexyz{{{d[0] - 1}, {d[1] - 1}, {d[2] - 1}, o + {off + 2}, ok + {off + 2}}});'
    u.raw('struct seexyz { long x, y, z; int *o; long *ok; template<class ACC> void operator()(ACC& a) const { a.index() = ACC::gen_index(x, y, z); seev{1, o, ok}(a); } };')
    for d in D:
        both = ['src[1]', 'src[1]'] if d == (1, 1, 1) else ['src[0]', 'src[1]']
        P = 'const int *src, int *o, long *ok'
        u.pair(f'set{nm(d)}', P, f'G g({d[0]}, {d[1]}, {d[2]}); {row("g", d)}' + see('g', d), exp(both), opts='balance')
        u.pair(f'copy{nm(d)}', P, f'G g({d[0]}, {d[1]}, {d[2]}); {row("g", d)} G h(g); g.resize(0, 0, 0);' + see('h', d), exp(both), opts='balance')
        u.pair(f'bcast{nm(d)}', P, f'G g({d[0]}, {d[1]}, {d[2]}); g.broadcast(0, 0, 0, {mkcell(0)}, {d[0]}); CX c[{d[0]}]; g.get(0, 0, 0, c, {d[0]}); ok[0] = c[0].t.me == &c[0].t; o[0] = c[0].t.v; CX e = g.get(0, 0, 0); ok[1] = e.u[1].me == &e.u[1]; o[1] = e.u[0].v;', exp(['src[0]']), opts='balance')
        for k in D:
            u.pair(f'assign{nm(d)}_{nm(k)}', P, f'G g({d[0]}, {d[1]}, {d[2]}), h({k[0]}, {k[1]}, {k[2]}); {row("g", d)} h = g; g.resize(1, 1, 1);' + see('h', d), exp(both), opts='balance')
            u.pair(f'swap{nm(d)}_{nm(k)}', P, f'G g({d[0]}, {d[1]}, {d[2]}), h({k[0]}, {k[1]}, {k[2]}); {row("g", d)} swap(g, h);' + see('h', d), exp(both), opts='balance')
            u.pair(f'resize{nm(d)}_{nm(k)}', P, f'G g({d[0]}, {d[1]}, {d[2]}); g.resize({k[0]}, {k[1]}, {k[2]}); {row("g", k)}' + see('g', k), exp(['src[1]', 'src[1]'] if k == (1, 1, 1) else ['src[0]', 'src[1]']), opts='balance')
    us.append(u)
    return us


FAILHEAD = """
struct flaky { static int armed;
    char *allocate(szt n) { if (armed) { if (ev_fail(n)) throw std::bad_alloc(); } return ev_alloc(n); }
    void deallocate(char *p, szt n) { ev_free(p, n); } };
int flaky::armed;
#define TRY(X) { flaky::armed = 1; try { X } catch (const std::bad_alloc&) { failed = 1; } flaky::armed = 0; }
"""


def unit_fail(sizes=(0, 1, 2, 3, 4, 7)):
    """requests for storage that may fail at any point: nothing leaks, nothing is released twice, no dead member is touched,
    source operands keep their contents, and the objects remain usable"""
    us = []
    LH = soa.anyhead(LHEAD).replace('#include "vf.hpp"', '#include <new>\n#include "vf.hpp"')
    for api, m in (('cus', 'T'), ('def', 'P')):
        c = Cell('CX', soa.LMEMB[m], soa.GRIDAPI[api][0])
        u = Unit(f'fail_{api}{m}', LH + c.decl() + soa.filler(c, True) + FAILHEAD + 'typedef soa_grid<CX, flaky> G;')
        nm = lambda d: 'x'.join(map(str, d))
        B = 'balance'
        fp, rp, fs, rs = soa.fill_probe, soa.read_probe, soa.fill_spec, soa.read_spec
        END = ' flaky::armed = 0;'
        for a, b in soa.dpairs(api, 1):
            g, h = soa.G_(c, api, a, 's'), soa.G_(c, api, b, 't')
            P = 'const char *src, const char *src2, char *out, char *out2'
            # whatever happened before: the next successful resize gives a complete grid
            u.pair(f'resize{nm(a)}_{nm(b)}', P, f'flaky::armed = 0; int failed = 0; G g({g.dims()}); {fp(g, "g", "src")} TRY(g.resize({h.dims()});) g.resize({h.dims()}); BOBS(g) {fp(h, "g", "src")} {rp(h, "g", "out")}',
                   h.alloc() + h.bobs() + fs(h, 'src') + rs(h, 'out') + END, opts=B)
            u.pair(f'twice{nm(a)}_{nm(b)}', P, f'flaky::armed = 0; int failed = 0; G g({g.dims()}); TRY(g.resize({h.dims()});) TRY(g.resize({g.dims()});) if (failed) g.resize(0, 0, 0); else {{ {fp(g, "g", "src")} }} g.resize({g.dims()}); BOBS(g) {fp(g, "g", "src2")} {rp(g, "g", "out")}',
                   g.alloc() + g.bobs() + fs(g, 'src2') + rs(g, 'out') + END, opts=B)
            # a failed resize leaves dimensions and storage in agreement
            u.pair(f'dims{nm(a)}_{nm(b)}', P, f'flaky::armed = 0; int failed = 0; G g({g.dims()}); TRY(g.resize({h.dims()});) ev_val((g.dim_x() * g.dim_y() * g.dim_z() != 0) == (g.byte_size() != 0)); ev_val((g.data() != 0) == (g.byte_size() != 0));', 'ev_val(1); ev_val(1);' + END, opts=B)
            u.pair(f'copy{nm(a)}_{nm(b)}', P, f'flaky::armed = 0; int failed = 0; G g({g.dims()}); {fp(g, "g", "src")} TRY(G k(g); G l(k); l = g;) BOBS(g) {rp(g, "g", "out")}',
                   g.alloc() + fs(g, 'src') + g.bobs() + rs(g, 'out') + END, opts=B)
            u.pair(f'assign{nm(a)}_{nm(b)}', P, f'flaky::armed = 0; int failed = 0; G g({g.dims()}), h({h.dims()}); {fp(g, "g", "src")} {fp(h, "h", "src2")} TRY(h = g;) BOBS(g) {rp(g, "g", "out")} if (failed) h = g; BOBS(h) {rp(g, "h", "out2")}',
                   g.alloc() + fs(g, 'src') + g.bobs() + g.bobs() + rs(g, 'out') + rs(g, 'out2') + END, opts=B)
            u.pair(f'swap{nm(a)}_{nm(b)}', P, f'flaky::armed = 0; int failed = 0; G g({g.dims()}), h({h.dims()}); {fp(g, "g", "src")} {fp(h, "h", "src2")} TRY(g.swap(h);) ev_val(failed); {rp(g, "h", "out")} {rp(h, "g", "out2")}',
                   g.alloc() + h.alloc() + fs(g, 'src') + fs(h, 'src2') + 'ev_val(0);' + rs(g, 'out') + rs(h, 'out2') + END, opts=B)
            u.pair(f'ctor{nm(a)}_{nm(b)}', P, f'flaky::armed = 0; int failed = 0; TRY(G g({g.dims()}); G h({h.dims()}); {fp(g, "g", "src")})', END, opts=B)
        us.append(u)
    for cell in ('T', 'P'):
        if cell == 'T':
            decl = trkcell()
            mem = 'd.t.v = s.t.v; d.d = s.d; d.u[0].v = s.u[0].v; d.u[1].v = s.u[1].v;'
        else:
            c, decl = pod('CX', ACELLS['B'], extra=VAPI + ' CX(double x, int y) { s = 1; arr[0] = arr[1] = arr[2] = y; d = x; }')
            mem = copy_elems(c, cellelem('d.'), cellelem('s.'))
        u = Unit(f'failvec_{cell}', LH.replace('#include <libflatarray/flat_array.hpp>', '#include <libflatarray/flat_array.hpp>\n#include <libflatarray/soa_vector.hpp>') + decl + FAILHEAD + VMODEL.replace('soa_vector<CX>', 'soa_vector<CX, flaky>') % mem)
        P = 'const CX *src, szt *cnt, CX *out, const CX *x'
        for n in sizes:
            mk = f'flaky::armed = 0; int failed = 0; V v({n}); for (int k = 0; k < {n}; ++k) v.set(k, src[k]);'

            def pair(name, p, elems, extra='', pre=''):
                u.pair(f'{name}{n}', P, mk + p + f' obsv(v, {len(elems)}, cnt, out);', pre + 'const CX *m[] = { ' + ', '.join(elems + ['src']) + ' };' + extra + f' obsm(m, {len(elems)}, cnt, out); flaky::armed = 0;', opts='balance')
            S = [f'src + {k}' for k in range(n)]
            # count and contents are those of the vector before the failed operation
            pair('push', 'TRY(v.push_back(*x);) if (!failed) v.pop_back();', S)
            pair('push2', 'TRY(v.push_back(*x);) if (!failed) v.pop_back(); failed = 0; TRY(v.push_back(*x);) if (failed) v.push_back(*x);', S + ['x'])
            pair('pushretry', 'TRY(v.push_back(*x);) if (failed) v.push_back(*x);', S + ['x'])
            pair('emplace', 'TRY(v.emplace_back(x->d, 3);) if (failed) v.emplace_back(x->d, 3);', S + ['&e'], pre='CX e(x->d, 3);')
            for k in sorted({n + 1, n + 2, 9}):
                pair(f'reserve{k}_', f'TRY(v.reserve({k});) ev_val(failed || v.capacity() >= {k});', S, 'ev_val(1);')
                pair(f'resize{k}_', f'TRY(v.resize({k});) if (!failed) v.resize({n});', S)
                pair(f'reserveretry{k}_', f'TRY(v.reserve({k});) v.reserve({k}); v.push_back(*x);', S + ['x'])
            pair('copy', 'TRY(const V& r = v; V w(r); w.push_back(*x); V y(w); y = r;)', S)
            pair('assign', 'V w(3); TRY(w = v;) if (failed) w = v; TRY(v.push_back(*x);) v = w;', S)
            u.pair(f'ctor{n}', P, f'flaky::armed = 0; int failed = 0; TRY(V v({n}); V w({n}, *x); w.push_back(*x);)', 'flaky::armed = 0;', opts='balance')
        us.append(u)
    return us


ALHEAD = '''#include <cstddef>
#include <new>
#include "vf.hpp"
char *vf_chunk; szt vf_req; void *vf_freed;
#include <libflatarray/aligned_allocator.hpp>
// the heap: hands out the chunk the pair prescribes and records what is requested and released
void *operator new(szt n) { vf_req = n; return vf_chunk; }
void operator delete(void *p) noexcept { vf_freed = p; }
void operator delete(void *p, szt) noexcept { vf_freed = p; }
struct S12 { int a, b, c; };
using namespace LibFlatArray;
template<class T, szt A> static inline void t(char *base, szt r, unsigned n, long *out) {
    char *chunk = base + r; vf_chunk = chunk; aligned_allocator<T, A> a; char *p = (char*)a.allocate(n);
    out[0] = (szt)p % A; out[1] = (p - chunk) >= 0; out[2] = (long)(vf_req - n * sizeof(T) - (p - chunk)) >= 0;
    a.deallocate((T*)p, n); out[3] = (char*)vf_freed - chunk; vf_chunk = 0; vf_req = 0; vf_freed = 0; }
'''


def unit_allocator(aligns=(1, 2, 4, 8, 16, 32, 64, 128, 4096), step=16, types=('char', 'int', 'double', 'S12')):
    """blocks are aligned, lie within the chunk obtained from the heap (including the bookkeeping), and release that chunk"""
    us = []
    for T in types:
        u = Unit(f'alloc_{T}', ALHEAD)
        for A in aligns:
            P = 'char *base, unsigned n, long *out'
            # chunk residues modulo the alignment; the bookkeeping may only touch the chunk
            res = list(range(0, max(A, 1), step))
            if len(res) > 64 and T != 'char':
                res = res[:16] + res[-48:]
            for r in res:
                u.pair(f'a{A}_{r}', P, f't<{T}, {A}>(base, {r}, n, out);', 'out[0] = 0; out[1] = 1; out[2] = 1; out[3] = 0; vf_chunk = 0; vf_req = 0; vf_freed = 0;', opts=f'aligned=0:4096 ign=0:{r + 2 * A + 16}/{r}')
            if A >= 16:
                u.pair(f'a{A}_two', 'char *base, char *base2, unsigned n, unsigned n2, long *out',
                       f'aligned_allocator<{T}, {A}> a; vf_chunk = base; {T} *p = a.allocate(n); vf_chunk = base2; {T} *q = a.allocate(n2); aligned_allocator<{T}, {A}> b; b.deallocate(p, n); out[0] = (char*)vf_freed - base; b.deallocate(q, n2); out[1] = (char*)vf_freed - base2; vf_chunk = 0; vf_req = 0; vf_freed = 0;',
                       'out[0] = 0; out[1] = 0; vf_chunk = 0; vf_req = 0; vf_freed = 0;', opts=f'aligned=0:4096,1:4096 ign=0:{2 * A + 16}/0,1:{2 * A + 16}/0')
        us.append(u)
    return us


def unit_allocproto():
    """the rest of the allocator protocol: objects are constructed and destroyed in place, addresses are addresses, all instances are interchangeable, and conversion between value types works"""
    u = Unit('allocproto', ALHEAD + """
#include <memory>
#include <limits>
#include <vector>
struct Tr { int v; explicit Tr(int v = 7) : v(v) { ev_ctor(this, v); } Tr(const Tr& o) : v(o.v) { ev_copyctor(this, &o); } ~Tr() { ev_dtor(this); } };
template<class A> static constexpr bool traits_ok() { return std::is_same<typename A::template rebind<typename A::value_type>::other, A>::value && std::is_same<typename std::allocator_traits<A>::pointer, typename A::value_type*>::value && std::is_same<typename std::allocator_traits<A>::template rebind_alloc<short>::template rebind<typename A::value_type>::other, A>::value && std::is_convertible<typename A::template rebind<short>::other, A>::value && sizeof(typename A::size_type) == sizeof(szt); }
""")
    for T in ('char', 'double', 'S12', 'Tr'):
        for A in (1, 16, 64, 4096):
            a = f'aligned_allocator<{T}, {A}>'
            u.pair(f'address_{T}_{A}', f'{T} *x, const {T} *y, const void **out', f'const {a} a; out[0] = a.address(*x); out[1] = a.address(*y);', 'out[0] = x; out[1] = y;')
            u.pair(f'eq_{T}_{A}', '', f'{a} a, b; const {a} c(a); return (a == b) && !(a != b) && (a == c) && !(c != a);', 'return true;', ret='bool')
            u.pair(f'traits_{T}_{A}', '', f'return traits_ok<{a} >();', 'return true;', ret='bool')
            u.pair(f'max_{T}_{A}', '', f'return {a}().max_size() <= ~(szt)0 / sizeof({T}) && {a}().max_size() >= ((szt)1 << 31);', 'return true;', ret='bool')
        P = f'{T} *p, const {T} *x'
        a = f'aligned_allocator<{T}, 64>'
        u.pair(f'construct_{T}', P, f'{a} a; a.construct(p, *x);', 'new ((void*)p) ' + T + '(*x);')
        u.pair(f'construct0_{T}', P, f'{a} a; a.construct(p);', {'char': '*p = 0;', 'double': '*p = 0;', 'S12': 'p->a = p->b = p->c = 0;', 'Tr': 'Tr t; new ((void*)p) Tr(t);'}[T])
        u.pair(f'destroy_{T}', P, f'{a} a; a.destroy(p);', 'ev_dtor(p);' if T == 'Tr' else '')
        u.pair(f'tconstruct_{T}', P, f'{a} a; std::allocator_traits<{a} >::construct(a, p, *x);', 'new ((void*)p) ' + T + '(*x);')
    # storage from a converted allocator belongs to the other value type
    for T, U in (('char', 'double'), ('double', 'int'), ('S12', 'char')):
        for A in (16, 64):
            u.pair(f'rebind_{T}_{U}_{A}', 'char *base, unsigned n, long *out',
                   f'char *chunk = base + 8; vf_chunk = chunk; aligned_allocator<{T}, {A}> s; aligned_allocator<{T}, {A}>::rebind<{U}>::other a(s); char *p = (char*)a.allocate(n); out[0] = (szt)p % {A}; out[1] = (p - chunk) >= 0; out[2] = (long)(vf_req - n * sizeof({U}) - (p - chunk)) >= 0; a.deallocate(({U}*)p, n); out[3] = (char*)vf_freed - chunk; vf_chunk = 0; vf_req = 0; vf_freed = 0;',
                   'out[0] = 0; out[1] = 1; out[2] = 1; out[3] = 0; vf_chunk = 0; vf_req = 0; vf_freed = 0;', opts=f'aligned=0:4096 ign=0:{8 + 2 * A + 16}/8')
    return [u]


if __name__ == '__main__':
    import sys
    for u in globals()[sys.argv[1]]():
        open(f'/tmp/u_{u.name}.cpp', 'w').write(u.text())
        print(u.name, len(u.names))
