"""Probe/specification pairs for one short_vec instance."""
import re


def gen(T, N, groups, only=None, reduced=False, approx=None):
    '''returns (source text, pair names); groups: arith div mem stream gather cmp lane print; reduced: the interface the
    vector classes of the other processors have (no lane access, masks, size())'''
    E = 8 if T == 'double' else 4
    V = f'LibFlatArray::short_vec<{T}, {N}>'
    S = f'LibFlatArray::streaming_short_vec<{T}, {N}>'
    tag = f'{T}_{N}'
    out = []
    o = out.append
    o('''#include <libflatarray/short_vec.hpp>
#include <libflatarray/streaming_short_vec.hpp>
#include <libflatarray/alignment.hpp>
#include <iostream>
#include <cmath>
#include <cstring>
#include <cstddef>
''')
    names = []
    def pair(name, params, p, r, opts='', ret='void', alt=()):
        n = f'{name}_{tag}'
        if only and not re.search(only, n):
            return
        if reduced and name in ('size', 'strmanyval'):
            return
        names.append(n)
        o(f'extern "C" const char o_{n}[] = "{opts}";')
        o(f'extern "C" {ret} p_{n}({params}) {{ {p} }}')
        o(f'extern "C" {ret} r_{n}({params}) {{ {r} }}')
        for k, x in enumerate(alt):
            o(f'extern "C" {ret} r{k + 2}_{n}({params}) {{ {x} }}')
    AB = f'const {T} *a, const {T} *b, {T} *out'
    loop = lambda body: f'for (int i = 0; i < {N}; ++i) {{ {body} }}'
    EX = f'elt={E} maxalign={E}'
    # aligned and non-temporal accesses may demand the alignment of the whole vector, but no more
    # ... and no more than alignment<> promises to suffice
    AL = f'elt={E} maxalign={min(64, N * E)},@al_{T}_{N}'
    o(f'extern "C" const unsigned long al_{T}_{N} = LibFlatArray::alignment<{V} >::VALUE;')
    hasmask = T != 'int'

    if 'arith' in groups:
        for nm, op in (('add', '+'), ('sub', '-'), ('mul', '*')):
            # signed overflow is wrapped in the vector units; the specification uses unsigned arithmetic
            ref = f'out[i] = a[i] {op} b[i];' if T != 'int' else f'out[i] = (int)((unsigned)a[i] {op} (unsigned)b[i]);'
            pair(nm, AB, f'{V} x(a), y(b); {V} z = x {op} y; z.store(out);', loop(ref), EX)
            pair(nm + 'eq', AB, f'{V} x(a), y(b); x {op}= y; x.store(out);', loop(ref), EX)
            # operands stay untouched, aliasing the operand with itself is fine
            pair(nm + 'self', AB, f'{V} x(a); x {op}= x; x.store(out);', loop(ref.replace('b[i]', 'a[i]')), EX)
            pair(nm + 'keep', AB + f', {T} *out2', f'{V} x(a), y(b); {V} z = x {op} y; x.store(out); y.store(out2);', loop('out[i] = a[i]; out2[i] = b[i];'), EX)
        for nm, op in (('add', '+'), ('sub', '-'), ('mul', '*')):
            c = (lambda x, y: f'{x} {op} {y}') if T != 'int' else (lambda x, y: f'(int)((unsigned){x} {op} (unsigned){y})')
            pair('lhs' + nm, f'const {T} *a, {T} s, {T} *out', f'{V} x(a); (s {op} x).store(out);', loop(f'out[i] = {c("s", "a[i]")};'), EX)
            pair('rhs' + nm, f'const {T} *a, {T} s, {T} *out', f'{V} x(a); (x {op} s).store(out);', loop(f'out[i] = {c("a[i]", "s")};'), EX)
            pair('rhseq' + nm, f'const {T} *a, {T} s, {T} *out', f'{V} x(a); x {op}= s; x.store(out);', loop(f'out[i] = {c("a[i]", "s")};'), EX)
        # mixed scalar/vector expressions through the broadcasting constructor
        ref = 'out[i] = a[i] * s + b[i];' if T != 'int' else 'out[i] = (int)((unsigned)a[i] * (unsigned)s + (unsigned)b[i]);'
        pair('axpy', AB + f', {T} s', f'{V} x(a), y(b); ({V}(x * s) + y).store(out);', loop(ref), EX)
    if 'div' in groups:
        if T == 'int':
            pair('div', AB, f'{V} x(a), y(b); {V} z = x / y; z.store(out);', loop('out[i] = a[i] / b[i];'), EX)
            pair('diveq', AB, f'{V} x(a), y(b); x /= y; x.store(out);', loop('out[i] = a[i] / b[i];'), EX)
            sq = loop('out[i] = (int)std::sqrt((float)a[i]);'); rs = loop('out[i] = (int)((float)a[i] / std::sqrt((float)b[i]));')
            ap = EX + ' approx=0.0006'
            alt = (loop('out[i] = a[i] / (int)std::sqrt((float)b[i]);'), loop('out[i] = a[i] / (int)std::sqrt((double)b[i]);'))
        else:
            ap = EX + (f' approx={approx}' if approx else ' approx=0.0006' if T == 'float' or reduced else ' approx=1e-9')
            pair('div', AB, f'{V} x(a), y(b); {V} z = x / y; z.store(out);', loop('out[i] = a[i] / b[i];'), ap)
            pair('diveq', AB, f'{V} x(a), y(b); x /= y; x.store(out);', loop('out[i] = a[i] / b[i];'), ap)
            sq = loop('out[i] = std::sqrt(a[i]);'); rs = loop('out[i] = a[i] / std::sqrt(b[i]);')
            alt = ()
        apq = ap if T == 'int' or reduced else EX
        pair('sqrt', AB, f'{V} x(a); {V} z = x.sqrt(); z.store(out);', sq, apq)
        if reduced:
            # the root of zero is zero, whatever the other lanes hold
            for k in sorted({0, N // 2, N - 1}):
                pair(f'sqrtz{k}', f'const {T} *a, {T} *out', f'{T} t[{N}]; ' + loop('t[i] = a[i];') + f' t[{k}] = 0; {V} x(t); {V} z = x.sqrt(); z.store(out);', sq.replace('a[i]', f'i == {k} ? ({T})0 : a[i]'), apq)
        pair('fsqrt', AB, f'using LibFlatArray::sqrt; {V} x(a); {V} z = sqrt(x); z.store(out);', sq, apq)
        pair('divsqrt', AB, f'using LibFlatArray::sqrt; {V} x(a), y(b); {V} z = x / sqrt(y); z.store(out);', rs, ap, alt=alt)
        pair('divsqrteq', AB, f'using LibFlatArray::sqrt; {V} x(a), y(b); x /= sqrt(y); x.store(out);', rs, ap, alt=alt)
        pair('lhsdiv', f'const {T} *a, {T} s, {T} *out', f'{V} x(a); (s / x).store(out);', loop('out[i] = s / a[i];'), ap if T != 'int' else EX)
        pair('rhsdiv', f'const {T} *a, {T} s, {T} *out', f'{V} x(a); (x / s).store(out);', loop('out[i] = a[i] / s;'), ap if T != 'int' else EX)
        if T != 'int':
            pair('sqrtdiv', AB, f'using LibFlatArray::sqrt; {V} x(a), y(b); {V} z = sqrt(x) / y; z.store(out);', loop('out[i] = std::sqrt(a[i]) / b[i];'), ap)
            pair('sqrtdivs', f'const {T} *a, {T} s, {T} *out', f'using LibFlatArray::sqrt; {V} x(a); {V} z = sqrt(x) / s; z.store(out);', loop('out[i] = std::sqrt(a[i]) / s;'), ap)
    if 'mem' in groups:
        MA = f'const {T} *a, {T} *out'
        cp = loop('out[i] = a[i];')
        pair('load', MA, f'{V} x; x.load(a); x.store(out);', cp, EX)
        pair('ctorptr', MA, f'{V} x(a); x.store(out);', cp, EX)
        pair('shl', MA, f'{V} x(a); out << x;', cp, EX)
        pair('loada', MA, f'{V} x; x.load_aligned(a); x.store(out);', cp, AL)
        pair('storea', MA, f'{V} x; x.load(a); x.store_aligned(out);', cp, AL)
        pair('storent', MA, f'{V} x; x.load(a); x.store_nt(out);', cp, AL)
        pair('overlap', MA, f'{V} x(a); x.store(out); x.load(a + 1); x.store(out + {N});', loop(f'out[i] = a[i];') + loop(f'out[i + {N}] = a[i + 1];'), EX)
        pair('bcast', f'{T} s, {T} *out', f'{V} x(s); x.store(out);', loop('out[i] = s;'), EX)
        pair('deflt', f'{T} *out', f'{V} x; x.store(out);', loop('out[i] = 0;'), EX)
        args = ', '.join(f'{T} s{i}' for i in range(N)); vals = ', '.join(f's{i}' for i in range(N))
        if N > 1 or T != 'int':
            pair('ilist', f'{T} *out, {args}', f'{V} x = {{{vals}}}; x.store(out);' if N > 1 else f'std::initializer_list<{T}> l = {{s0}}; {V} x(l); x.store(out);', ' '.join(f'out[{i}] = s{i};' for i in range(N)), EX)
        pair('copy', MA, f'{V} x(a); {V} y(x); {V} z; z = y; z.store(out);', cp, EX)
        pair('size', '', f'return {V}::size();', f'return {N};', '', 'std::size_t')
    if 'stream' in groups:
        MA = f'const {T} *a, {T} *out'
        cp = loop('out[i] = a[i];')
        args = ', '.join(f'{T} s{i}' for i in range(N)); vals = ', '.join(f's{i}' for i in range(N))
        pair('strm', MA, f'{S} x(a); x.store(out);', cp, AL)
        pair('strma', MA, f'{S} x(a); x.store_aligned(out);', cp, AL)
        pair('strml', MA, f'{S} x; x.load(a); x.store(out);', cp, AL)
        pair('strmb', f'{T} s, {T} *out', f'{S} x(s); x.store(out);', loop('out[i] = s;'), AL)
        pair('strmmove', AB, f'{V} x(a), y(b); {S} z(x + y); z.store(out);', loop('out[i] = a[i] + b[i];' if T != 'int' else 'out[i] = (int)((unsigned)a[i] + (unsigned)b[i]);'), AL)
        pair('strmkeep', AB, f'{S} x(a), y(b); x.store(out); y.store_aligned(out + {N}); x.store(out + {2 * N});', loop(f'out[i] = a[i]; out[i + {N}] = b[i]; out[i + {2 * N}] = a[i];'), AL)
        pair('strmshl', MA, f'{S} x(a); out << x;', cp, AL)
        if N > 1:
            pair('strmil', f'{T} *out, {args}', f'{S} x = {{{vals}}}; x.store(out);', ' '.join(f'out[{i}] = s{i};' for i in range(N)), AL)
    if 'gather' in groups:
        # 512-bit float vectors assert (SHORTVEC_ASSERT_ALIGNED) that the offset list is aligned to 64 bytes; nothing else may demand more than element alignment
        o('#ifdef __AVX512F__\nextern "C" const unsigned long ga = %d;\n#elif defined(__MIC__)\nextern "C" const unsigned long ga = %d;\n#else\nextern "C" const unsigned long ga = %d;\n#endif' % (64 if T == 'float' and N >= 16 else E, 64 if T != 'int' and N >= 16 else E, E))
        pair('gather', f'const {T} *p, const int *offs, {T} *out', f'{V} x; x.gather(p, offs); x.store(out);', loop('out[i] = p[offs[i]];'), f'elt={E} maxalign=@ga')
        pair('scatter', f'const {T} *a, const int *offs, {T} *p', f'{V} x(a); x.scatter(p, offs);', loop('p[offs[i]] = a[i];'), f'elt={E} maxalign=@ga scatter=1')
    if 'vmask' in groups:
        for nm, op in (('lt', '<'), ('le', '<='), ('eq', '=='), ('gt', '>'), ('ge', '>=')):
            pair('mask' + nm, f'const {T} *a, const {T} *b, unsigned *res', f'{V} x(a), y(b); typename {V}::mask_type m = x {op} y; {loop("res[i] = m[i];")}', loop(f'res[i] = a[i] {op} b[i] ? 0xffffffffu : 0;'), EX)
        pair('sqrtzero', f'{T} *out', f'{V} x; {V} z = x.sqrt(); z.store(out);', loop('out[i] = 0;'), EX)
    if 'cmp' in groups and hasmask:
        for nm, op in (('lt', '<'), ('le', '<='), ('eq', '=='), ('gt', '>'), ('ge', '>=')):
            pair('blend' + nm, AB + f', const {T} *c, const {T} *d', f'{V} x(a), y(b), u(c), v(d); u.blend(x {op} y, v); u.store(out);', loop(f'out[i] = a[i] {op} b[i] ? d[i] : c[i];'), EX)
            pair('any' + nm, f'const {T} *a, const {T} *b', f'using LibFlatArray::any; {V} x(a), y(b); return any(x {op} y) ? 1 : 0;', f'int r = 0; {loop(f"if (a[i] {op} b[i]) r = 1;")} return r;', '', 'int')
        pair('fblend', AB + f', const {T} *c, const {T} *d', f'{V} x(a), y(b), u(c), v(d); {V} z = LibFlatArray::blend(u, v, x < y); z.store(out);', loop('out[i] = a[i] < b[i] ? d[i] : c[i];'), EX)
        pair('count', f'const {T} *a, const {T} *b', f'{V} x(a), y(b); return LibFlatArray::count_mask<{T}, {N}>(x < y);', f'std::size_t r = 0; {loop("r += a[i] < b[i] ? 1 : 0;")} return r;', '', 'std::size_t')
        # lane query on a mask: nonzero exactly in the lanes where the comparison held
        pair('getmask', f'const {T} *a, const {T} *b, int *res', f'using LibFlatArray::get; {V} x(a), y(b); auto m = x < y; for (int i = 0; i < {N}; ++i) {{ auto g = get(m, i); unsigned char buf[sizeof(g)]; std::memcpy(buf, &g, sizeof(g)); int nz = 0; for (unsigned k = 0; k < sizeof(g); ++k) if (buf[k]) nz = 1; res[i] = nz; }}', loop('res[i] = a[i] < b[i] ? 1 : 0;'), '')
        pair('blendkeep', AB + f', const {T} *c', f'{V} x(a), y(b), v(c); auto m = x < y; {V} u(a); u.blend(m, v); x.store(out); v.store(out + {N});', loop(f'out[i] = a[i]; out[i + {N}] = c[i];'), EX)
    if 'cmp' in groups and (hasmask or N == 1):
        # any() of a vector: is some lane different from zero?
        vals = f'{T} t[{N}]; {loop("t[i] = s[i] ? 1 : 0;")}'
        ref = f'int r = 0; {loop("if (s[i]) r = 1;")} return r;'
        pair('anyval', f'const bool *s', f'{vals} {V} x(t); return x.any() ? 1 : 0;', ref, '', 'int')
        pair('fanyval', f'const bool *s', f'{vals} {V} x(t); return LibFlatArray::any(x) ? 1 : 0;', ref, '', 'int')
        pair('strmanyval', f'const bool *s', f'{vals} {S} x(t); return LibFlatArray::any(x) ? 1 : 0;', ref, '', 'int')
        if N == 1 and T == 'int':
            pair('eqscalar', 'const int *a, int s', f'{V} x(a); return LibFlatArray::any(x == s) ? 1 : 0;', 'return a[0] == s;', '', 'int')
        if N == 1:
            for mt in ('unsigned', 'unsigned short', 'unsigned char'):
                w = mt.replace(' ', '')
                pair('anym' + w, f'{mt} m', 'return LibFlatArray::any(m) ? 1 : 0;', 'return m != 0;', '', 'int')
                pair('getm' + w, f'{mt} m, int *res', f'for (int i = 0; i < (int)(8 * sizeof({mt})); ++i) res[i] = LibFlatArray::get(m, i);', f'for (int i = 0; i < (int)(8 * sizeof({mt})); ++i) res[i] = (m >> i) & 1;', '')
    if 'cmp' in groups and T == 'int' and N == 1:
        for nm, op in (('lt', '<'), ('le', '<='), ('eq', '=='), ('gt', '>'), ('ge', '>=')):
            pair('any' + nm, f'const {T} *a, const {T} *b', f'{V} x(a), y(b); return LibFlatArray::any(x {op} y) ? 1 : 0;', f'return a[0] {op} b[0] ? 1 : 0;', '', 'int')
    if 'lane' in groups and (T != 'int' or N == 1):
        pair('lane', AB, f'{V} x(a); {loop("out[i] = x[i];")}', loop('out[i] = a[i];'), EX)
        pair('get', AB, f'{V} x(a); {loop("out[i] = LibFlatArray::get(x, i);")}', loop('out[i] = a[i];'), EX)
    if 'print' in groups:
        ref = 'os << "[" << a[0]' + ''.join(f' << ", " << a[{i}]' for i in range(1, N)) + ' << "]";'
        pair('print', f'std::ostream& os, const {T} *a', f'{V} x(a); os << x;', ref)
    return '\n'.join(out) + '\n', names


if __name__ == '__main__':
    import sys
    sys.stdout.write(gen(sys.argv[1], int(sys.argv[2]), sys.argv[3].split(","))[0])
