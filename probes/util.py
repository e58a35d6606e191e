"""Probe/specification pairs for loop peeling, registration metadata and type selection."""
from soa import Unit, Cell, SIZES, HEAD

PEEL = '''
// the kernel contract: process [x, stop) in steps of the given width; every non-empty segment is reported
template<class V, class C, class S> static inline void seg(C& x, const S& stop) {
    if (x < stop) { ev_seq3((long)V::ARITY, (long)x, (long)stop); C w = (C)V::ARITY; C d = (C)stop - x; x += ((d + w - 1) / w) * w; } }
template<class V> static inline void kern_i(int& x, int stop, long tag) { ev_val(tag); seg<V>(x, stop); }
template<class V> static inline void kern_u(unsigned& x, unsigned stop, long tag) { seg<V>(x, stop); }
template<class V> static inline void kern_l(long& x, long stop, long tag) { seg<V>(x, stop); }
template<class V> static inline void kern_s(szt& x, szt stop, long tag) { seg<V>(x, stop); }
// specification: scalars up to the first multiple of the width, whole vectors, scalars for the rest
template<class C> static inline void spec(C& x, C end, C w) {
    if (!(x < end)) return;
    C a = (x + w - 1) & ~(w - 1); if (a > end || a < x) a = end;
    C b = end & ~(w - 1); if (b < a) b = a;
    if (x < a) ev_seq3(1, (long)x, (long)a);
    if (a < b) ev_seq3((long)w, (long)a, (long)b);
    if (b < end) ev_seq3(1, (long)b, (long)end);
    x = end;
}
template<class V> static inline void outer(int& x, int end) { LIBFLATARRAY_LOOP_PEELER_TEMPLATE(V, int, x, end, kern_i, 0); }
'''


def unit_peeler(arities=(1, 2, 4, 8)):
    """loop peeling: every index between start and end exactly once, whole vectors only at multiples of the width"""
    u = Unit('peel', HEAD + '#include <libflatarray/loop_peeler.hpp>\nextern "C" void ev_seq3(long, long, long) noexcept;\n' + PEEL)
    types = (('int', 'i', '0xfffff'), ('unsigned', 'u', '0xfffff'), ('long', 'l', '0xfffffffffffL'), ('szt', 's', '0xfffffffffffUL'))
    for N in arities:
        u.raw(f'typedef short_vec<double, {N}> vt{N}; typedef streaming_short_vec<float, {N}> st{N};')
        res = range(N) if N <= 8 else (0, 1, N // 2 - 1, N // 2, N - 1)
        forms = []
        for r in res:
            for s in res:
                # start at residue r of any block, end at residue s of the same or one of the following blocks
                for k in range(3):
                    forms.append((f'b{r}_{s}_{k}', f'{N} * (q & %s) + {r}', f'{N} * (q & %s) + {N * k + s}'))
                # fixed start, end at residue s of any later block
                forms.append((f'e{r}_{s}', f'{r}', f'{N} * (q & %s) + {2 * N + s}'))
            forms.append((f'ff{r}', f'{N} * (q & %s) + {r}', '0'))
        for C, k, mask in types:
            for nm, x0, end in forms:
                x0 = f'({C})({x0})' if '%' not in x0 else f'({C})({x0 % mask})'
                end = f'({C})({end})' if '%' not in end else f'({C})({end % mask})'
                tags = 'ev_val(5); ev_val(5); ev_val(5); ' if C == 'int' else ''
                P = f'{C} q, {C} *fin'
                sp = f'{C} x = x0; {tags}spec<{C}>(x, end, {N}); *fin = x;'
                pre = f'const {C} x0 = {x0}, end = {end}; '
                for which, V in (('mac', f'vt{N}'), ('str', f'st{N}')):
                    if which == 'str' and not nm.startswith('b'):
                        continue
                    u.pair(f'{which}{k}{N}{nm}', P, pre + f'{C} x = x0; LIBFLATARRAY_LOOP_PEELER({V}, {C}, x, end, kern_{k}, 5); *fin = x;', pre + sp)
                u.pair(f'fun{k}{N}{nm}', P, pre + f'{C} x = x0; loop_peeler<vt{N} >(&x, end, [](auto v, {C} *c, const {C}& stop) {{ seg<decltype(v)>(*c, stop); }}); *fin = x;', pre + sp.replace(tags or '@', ''))
                if C == 'int':
                    u.pair(f'mix{N}{nm}', P, pre + f'int x = x0; loop_peeler<vt{N} >(&x, (long)end, [](auto v, int *c, const long& stop) {{ seg<decltype(v)>(*c, stop); }}); *fin = x;', pre + sp.replace(tags, ''))
                    u.pair(f'tmpl{N}{nm}', P, pre + f'int x = x0; outer<vt{N} >(x, end); *fin = x;', pre + sp.replace('ev_val(5)', 'ev_val(0)'))
        # arguments are expressions: unparenthesised bounds, counters that are not plain names, and variables of the
        # caller that carry the names the shim uses internally
        for r in res:
            for d in sorted({0, 1, N - 1, N, N + 1, 2 * N + 1}):
                nm = f'{N}b{r}_{d}'
                pre = f'const int lo = {N} * (q & 0xfffff) + {r}; const int len = {d}; '
                ssp = f'ev_val(5); ev_val(5); ev_val(5); int y = lo; spec<int>(y, lo + {d}, {N}); *fin = y;'
                one = lambda how, x, decl, end: u.pair(f'{how}{nm}', 'int q, int *fin', pre + decl + f'LIBFLATARRAY_LOOP_PEELER(vt{N}, int, {x}, {end}, kern_i, 5); *fin = {x};', pre + ssp)
                one('xadd', 'x', 'int x = lo; ', 'lo + len')
                one('xcond', 'x', 'int x = lo; ', 'len > 0 ? lo + len : lo')
                one('xor', 'x', 'int x = lo; const int stop = lo + len, none = 0; ', 'none | stop')
                one('xptr', '*p', 'int x = lo; int *p = &x; ', 'lo + len')
                one('xmem', 's.x', 'struct { int x, end; } s = {lo, lo + len}; ', 's.end')
                one('xarr', 'a[1]', 'int a[2] = {lo + len, lo}; ', '*a')
                for v in ('remainder', 'next_stop', 'last_stop', 'end', 'counter', 'scalar', 'short_vec'):
                    if N == 4 or v == 'remainder':
                        one(f'xname_{v}_', v, f'int {v} = lo; ', 'lo + len')
                        one(f'xend_{v}_', 'x', f'int x = lo; const int {v} = lo + len; ', v)
                u.pair(f'xfun{nm}', 'int q, int *fin', pre + f'int s[2] = {{7, lo}}; loop_peeler<vt{N} >(s + 1, lo + len, [](auto v, int *c, const int& stop) {{ seg<decltype(v)>(*c, stop); }}); *fin = s[1];', pre + ssp.replace('ev_val(5); ', ''))
    # complete kernels over memory: every element exactly once
    u.raw('template<class V> static inline void scale(long& x, long stop, const float *a, float *o) { for (; x < stop; x += V::ARITY) { V v(a + x); v += V(a + x); v.store(o + x); } }')
    for N in (4, 8):
        for s in range(0, N + 2):
            for e in range(s, s + 2 * N + 3):
                u.pair(f'run{N}_{s}_{e}', 'const float *a, float *o, long *fin', f'typedef short_vec<float, {N}> V; long x = {s}; LIBFLATARRAY_LOOP_PEELER(V, long, x, {e}, scale, a, o); *fin = x;', f'for (long i = {s}; i < {e}; ++i) o[i] = a[i] + a[i]; *fin = {e};', opts='elt=4')
    return [u]


def meta_cells():
    T = ['double', 'char', 'int', 'short', 'float', 'long', 'bool']
    r = {'M1': [('double', 'a', None)], 'M2': [('char', 'a', None), ('char', 'b', None)],
         'M3': [('int', 'a', 3), ('int', 'b', 2), ('int', 'c', 3), ('int', 'd', None)],
         'M4': [('float', 'a', 16), ('float', 'b', 15), ('char', 'c', 1), ('double', 'd', None), ('float', 'e', 16)]}
    for n in (11, 20, 37, 50):
        r[f'M{n}'] = [(T[k % 7], f'm{k}', (k % 4 + 1) if k % 3 == 2 else None) for k in range(n)]
    return r


def unit_meta(thin=1):
    """registration metadata: number of members, their sizes and offsets in the layout, unregistered members are refused"""
    us = []
    for cn, members in meta_cells().items():
        c = Cell(cn, members)
        decl = c.decl().replace(f' {cn}() {{}}\n', f' {cn}() {{}} unsigned short hidden; double hid2; int hid3[7];\n')
        u = Unit(f'meta{cn}', HEAD + '#include <libflatarray/member_ptr_to_offset.hpp>\n' + decl)
        u.pair('count', '', f'ev_val2(number_of_members<{cn}>::VALUE, aggregated_member_size<{cn}>::VALUE);', f'ev_val2({len(members)}, {c.agg});')
        for t, n, k in members:
            u.pair(f'off_{n}', '', f'return member_ptr_to_offset()(&{cn}::{n});', f'return {c.off[n]};', ret='int')
        u.pair('unregs', '', f'return member_ptr_to_offset()(&{cn}::hidden);', 'throw std::invalid_argument("x");', ret='int')
        u.pair('unregi', '', f'return member_ptr_to_offset()(&{cn}::hid3);', 'throw std::invalid_argument("x");', ret='int')
        if 'double' not in [m[0] for m in members]:
            u.pair('unregd', '', f'return member_ptr_to_offset()(&{cn}::hid2);', 'throw std::invalid_argument("x");', ret='int')
        # every member of every registered class is reached by whole-cell copies
        D = 24
        st = ' '.join(f'*({t}*)(data + {(off) * D} + 7 * {sz}) = c.{ex};' if j is None else '' for t, ex, off, sz, n, j in c.elems())
        # array members: element j of member n lies DIM_PROD * sizeof * j behind the member's start
        for t, ex, off, sz, n, j in c.elems():
            if j is not None:
                st += f' *({t}*)(data + {c.off[n] * D + j * sz * D} + 7 * {sz}) = c.{ex};'
        u.pair('put', f'char *data, const {cn}& c', f'soa_accessor<{cn}, 4, 3, 2, 0> a(data, 7); a << c;', st)
        out = ''
        for t, ex, off, sz, n, j in c.elems():
            o = c.off[n] * D + ((j or 0) * sz * D) + 7 * sz
            out += f' c.{ex} = *({t}*)(data + {o});'
        u.pair('get', f'char *data, {cn}& c', f'const_soa_accessor<{cn}, 4, 3, 2, 0> a(data, 7); a >> c;', out)
        us.append(u)
    return us


def unit_preproc():
    """list macros: length, element access, iteration, removal of the head and length tests for every list length up to the limit of 50"""
    u = Unit('pp', HEAD + """#include <libflatarray/preprocessor.hpp>
extern "C" void ev_seq3(long, long, long) noexcept;
#define EACH(I, D, E) ev_seq3(I, D, E);
#define LST0
""" + '\n'.join(f'#define LST{n} ' + ''.join(f'({1000 + 7 * k})' for k in range(n)) for n in range(1, 51)) + '\n')
    for n in range(51):
        L = f'LST{n}'
        u.pair(f'size{n}', '', f'ev_val(LIBFLATARRAY_SIZE({L}));', f'ev_val({n});')
        if n:
            u.pair(f'elem{n}', 'long *o', ''.join(f'o[{k}] = LIBFLATARRAY_ELEM({k}, {L}); ' for k in range(n)), ''.join(f'o[{k}] = {1000 + 7 * k}; ' for k in range(n)))
            u.pair(f'deq{n}', '', f'ev_val(LIBFLATARRAY_SIZE(LIBFLATARRAY_DEQUEUE({L})));' + (f'ev_val(LIBFLATARRAY_ELEM(0, LIBFLATARRAY_DEQUEUE({L})));' if n > 1 else ''), f'ev_val({n - 1});' + ('ev_val(1007);' if n > 1 else ''))
            u.pair(f'each{n}', '', f'LIBFLATARRAY_FOR_EACH(EACH, 4711, {L})', ''.join(f'ev_seq3({k}, 4711, {1000 + 7 * k});' for k in range(n)))
        u.pair(f'shorter{n}', 'long *o', ''.join(f'o[{k}] = LIBFLATARRAY_IF_SHORTER({L}, {k}, 1, 2); ' for k in range(51)), ''.join(f'o[{k}] = {1 if n < k else 2}; ' for k in range(51)))
    return [u]


def unit_select(size=True):
    """vector width and type selection for every element type, unrolling factor and grid size"""
    u = Unit('sel', HEAD + '''#include <libflatarray/ilp_to_arity.hpp>
#include <libflatarray/estimate_optimum_short_vec_type.hpp>
#include <libflatarray/alignment.hpp>
#include <type_traits>
#if defined(__AVX512F__) || defined(__MIC__)
#define BITS(T) 512
#elif defined(__AVX__) || defined(__VECTOR4DOUBLE__)
#define BITS(T) 256
#elif defined(__SSE__) || defined(__ARM_NEON__)
#define BITS(T) 128
#else
#define BITS(T) (8 * sizeof(T))
#endif
template<class C, long X, long Y, long Z> struct acc { typedef C element_type; static const long DIM_PROD = X * Y * Z; };
template<int N> struct bytes { char c[N]; };
''')
    for T in ('float', 'double', 'int'):
        for I in (1, 2, 4, 8):
            u.pair(f'ilp{T}{I}', '', f'ev_val(ilp_to_arity<{T}, {I}>::ARITY);', f'ev_val({I} * BITS({T}) / (8 * sizeof({T})));')
            for k, (C, x, y, z, cache) in enumerate((('float', 64, 64, 64, 1 << 25), ('bytes<64>', 64, 64, 63, 1 << 25), ('bytes<128>', 64, 64, 64, 1 << 25), ('bytes<127>', 64, 64, 64, 1 << 25),
                                                    ('bytes<8>', 512, 512, 512, 1 << 25), ('bytes<16>', 4, 4, 4, 1024), ('bytes<15>', 4, 4, 4, 1024), ('bytes<1>', 1, 1, 1, 1), ('double', 192, 192, 192, 1 << 25), ('bytes<100>', 1024, 1, 1, 102400), ('bytes<100>', 1024, 1, 1, 102401))):
                sz = {'float': 4, 'double': 8}.get(C) or int(C[6:-1])
                strm = x * y * z * sz // cache != 0
                u.pair(f'est{T}{I}_{k}', '', f'typedef estimate_optimum_short_vec_type<{T}, acc<{C}, {x}, {y}, {z}>, {I}, {cache}> E; ev_val2(E::ARITY, std::is_same<E::VALUE, {"streaming_" if strm else ""}short_vec<{T}, E::ARITY> >::value);', f'ev_val2({I} * BITS({T}) / (8 * sizeof({T})), 1);')
        for N in (1, 2, 4, 8, 16, 32):
            for S in ('short_vec', 'streaming_short_vec'):
                V = f'{S}<{T}, {N}>'
                u.pair(f'al{S[:3]}{T}{N}', '', f'szt a = alignment<{V} >::VALUE; ev_val3({V}::ARITY, {f"{V}::size()" if size else N}, (a & (a - 1)) == 0 && a >= sizeof({T}) && a <= 64 && a <= sizeof({T}) * {N});', f'ev_val3({N}, {N}, 1);')
                for M in (1, 4, 16):
                    u.pair(f'sib{S[:3]}{T}{N}_{M}', '', f'ev_val(std::is_same<typename LibFlatArray::detail::flat_array::sibling_short_vec_switch<{V}, {M}>::VALUE, {S}<{T}, {M}> >::value);', 'ev_val(1);')
    return [u]


if __name__ == '__main__':
    import sys
    for u in globals()[sys.argv[1]]():
        open(f'/tmp/u_{u.name}.cpp', 'w').write(u.text())
        print(u.name, len(u.names))
