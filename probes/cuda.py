"""Arrays and grids in the memory of a CUDA device, on a model of the runtime (include/isa/cuda)."""
from soa import Unit, Cell

AHEAD = '''#include <libflatarray/flat_array.hpp>
#include <libflatarray/cuda_array.hpp>
#include "vf.hpp"
using namespace LibFlatArray;
struct Big { double a, b; int c; };
#define D2H(DST, SRC, N) cudaMemcpy(DST, SRC, (N) * sizeof(T), cudaMemcpyDeviceToHost)
'''


def unit_array(sizes=(0, 1, 3, 6), large=(513,), types=('int', 'double', 'Big')):
    """arrays and allocations on a device: contents, counts, capacity, transfers, life cycle of the storage"""
    us = []
    for T in types:
        u = Unit(f'cuarr{T}', AHEAD + f'typedef {T} T; typedef cuda_array<T> A;\n')
        pair = u.pair
        u.pair = lambda n, pa, p, r: pair(n, pa, ('const T w(*v); ' if ', w)' in p else '') + p, r, opts='balance')
        IO = 'const T *h, const T *g, const T *v, T *out, T *out2'

        def cp(dst, src, n, at=0):
            return f'for (int i = {at}; i < {n}; ++i) {dst}[i] = {src};'
        for n in tuple(sizes) + tuple(large):
            sv = lambda a, o: f'{a}.save({o}); ev_val3({a}.size(), {a}.capacity(), {a}.byte_size());'
            sr = lambda s, c: f'ev_val3({s}, {c}, {s} * sizeof(T));'
            u.pair(f'load{n}', IO, f'A a({n}); a.load(h); const A& c = a; {sv("c", "out")}', cp('out', 'h[i]', n) + sr(n, n))
            u.pair(f'host{n}', IO, f'A a(h, {n}); a.load(g); a.load(h); {sv("a", "out")}', cp('out', 'h[i]', n) + sr(n, n))
            u.pair(f'fill{n}', IO, f'A a({n}, w); {sv("a", "out")}', cp('out', '*v', n) + sr(n, n))
            u.pair(f'copy{n}', IO, f'A a(h, {n}); const A& k = a; A b(k); a.load(g); {sv("b", "out")} {sv("a", "out2")}', cp('out', 'h[i]', n) + cp('out2', 'g[i]', n) + sr(n, n) * 2)
            u.pair(f'self{n}', IO, f'A a(h, {n}); A& r = a; a = r; {sv("a", "out")}', cp('out', 'h[i]', n) + sr(n, n))
            u.pair(f'data{n}', IO, f'A a(h, {n}); const A& c = a; D2H(out, c.data(), {n}); cudaMemcpy(a.data(), g, {n} * sizeof(T), cudaMemcpyHostToDevice); {sv("a", "out2")}', cp('out', 'h[i]', n) + cp('out2', 'g[i]', n) + sr(n, n))
            u.pair(f'alloc{n}', IO, f'cuda_allocator<T> al; T *p = al.allocate({n}); T *q = cuda_allocator<T>().allocate({n}); ev_val((p == q) == ({n} == 0)); cudaMemcpy(p, h, {n} * sizeof(T), cudaMemcpyHostToDevice); cudaMemcpy(q, p, {n} * sizeof(T), cudaMemcpyDeviceToDevice); al.deallocate(p, {n}); D2H(out, q, {n}); al.deallocate(q, {n});', cp('out', 'h[i]', n) + 'ev_val(1);')
            z = max(n - 2, 0)
            u.pair(f'keep{n}', IO, f'A a(h, {n}); const T *p = a.data(); a.resize({z}); ev_val(a.data() == p); a.resize({n}); ev_val(a.data() == p); a.resize({z}); a.resize({n}, w); ev_val(a.data() == p); a.reserve({n}); a.reserve({z}); ev_val(a.data() == p); A b(g, {z}); a = b; ev_val(a.data() == p); A c(g, {n}); a = c; ev_val(a.data() == p); {sv("a", "out")}',
                   'ev_val(1); ev_val(1); ev_val(1); ev_val(1); ev_val(1); ev_val(1);' + cp('out', 'g[i]', n) + sr(n, n))
            if n:
                u.pair(f'vec{n}', IO, f'std::vector<T> w(h, h + {n}); A a(w); {sv("a", "out")}', f'std::vector<T> w(h, h + {n});' + cp('out', 'h[i]', n) + sr(n, n))
            for m in tuple(sizes) + (tuple(large) if n == sizes[-1] else ()):
                x = max(n, m)
                k = min(n, m)
                u.pair(f'assign{n}_{m}', IO, f'A a(h, {n}); A b(g, {m}); b = a; a.load(g); {sv("b", "out")} {sv("a", "out2")}', cp('out', 'h[i]', n) + cp('out2', 'g[i]', n) + sr(n, x) + sr(n, n))
                u.pair(f'resize{n}_{m}', IO, f'A a(h, {n}); a.resize({m}); ev_val2(a.size(), a.capacity()); a.resize({k}); {sv("a", "out")}', f'ev_val2({m}, {x});' + cp('out', 'h[i]', k) + sr(k, x))
                u.pair(f'resizev{n}_{m}', IO, f'A a(h, {n}); a.resize({m}, w); {sv("a", "out")}', cp('out', 'h[i]', k) + cp('out', '*v', m, k) + sr(m, x))
                u.pair(f'downup{n}_{m}', IO, f'A a(h, {n}); a.resize({k}); a.resize({x}, w); {sv("a", "out")}', cp('out', 'h[i]', k) + cp('out', '*v', x, k) + sr(x, x))
                u.pair(f'reserve{n}_{m}', IO, f'A a(h, {n}); a.reserve({m}); {sv("a", "out")} a.resize({x}, w); {sv("a", "out2")}', cp('out', 'h[i]', n) + sr(n, x) + cp('out2', 'h[i]', n) + cp('out2', '*v', x, n) + sr(x, x))
                z = max(k - 2, 0)
                u.pair(f'gap{n}_{m}', IO, f'A a(h, {n}); a.resize({z}); a.resize({m}, w); {sv("a", "out")}', cp('out', 'h[i]', z) + cp('out', '*v', m, z) + sr(m, x))
                u.pair(f'gapcopy{n}_{m}', IO, f'A a(h, {n}); a.resize({z}); A b(a), c(g, {m}); c.resize({z}); c = a; c.resize({m}, w); b.reserve({m}); b.resize({m}, w); {sv("b", "out")} {sv("c", "out2")}', cp('out', 'h[i]', z) + cp('out', '*v', m, z) + cp('out2', 'h[i]', z) + cp('out2', '*v', m, z) + sr(m, m) * 2)
                u.pair(f'hist{n}_{m}', IO, f'A a(h, {n}); A b(a); b.resize({m}, w); a = b; b.load(g); A c(a); {sv("c", "out")} {sv("b", "out2")}', cp('out', 'h[i]', k) + cp('out', '*v', m, k) + cp('out2', 'g[i]', m) + sr(m, m) + sr(m, x))
                u.pair(f'stage{n}_{m}', IO, f'detail::flat_array::staging_buffer<T, true> s; s.resize({n}); s.load(h); s.save(out); s.resize({m}); s.load(g); s.prep(out); const detail::flat_array::staging_buffer<T, true>& c = s; D2H(out2, c.data(), {m}); ev_val(c.data() == s.data());', cp('out', 'h[i]', n) + cp('out2', 'g[i]', m) + 'ev_val(1);')
        for n in sizes[:2]:
            u.pair(f'hoststage{n}', IO, f'detail::flat_array::staging_buffer<T> s; s.resize({n}); s.load(h); ev_val(s.data() == h); s.prep(out); s.save(out2); const detail::flat_array::staging_buffer<T>& c = s; ev_val(c.data() == out);', 'ev_val(1); ev_val(1);')
        us.append(u)
    return us


def unit_launch(limits=True):
    """launch configurations cover every coordinate of the grid at least once and nothing is refused by the device"""
    u = Unit('culaunch', AHEAD + 'typedef int T;\n')
    for y in (1, 2, 3, 4, 5, 8, 9, 1000):
        for x in (1, 127, 128, 129, 511, 512, 513, 1 << 20):
            for z in (1, 7):
                u.pair(f'cfg{x}_{y}_{z}', '', f'dim3 g, b; detail::flat_array::generate_cuda_launch_config()(&g, &b, {x}, {y}, {z}); ev_val3((long)g.x * b.x >= {x}, (long)g.y * b.y >= {y}, (long)g.z * b.z >= {z}); ev_val3(((long)g.x - 1) * b.x < {x}, ((long)g.y - 1) * b.y < {y}, ((long)g.z - 1) * b.z < {z}); ev_val2(b.x * b.y * b.z <= 1024, b.z <= 64);',
                       'ev_val3(1, 1, 1); ev_val3(1, 1, 1); ev_val2(1, 1);', opts='balance')
    return [u]


GCELLS = {
    # custom sizes; the third has storage for more than one block of threads
    'GA': Cell('GA', [('double', 'd', None), ('int', 'i', None), ('short', 'arr', 3), ('char', 'c', None)], 'class API : public api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES((4)(8), (2)(5), (1)(4)) };'),
    'GD': Cell('GD', [('float', 'f', None), ('double', 'd', None)], 'class API : public api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES_3D_UNIFORM((8)(16)) };'),
    'GL': Cell('GL', [('int', 'i', None), ('float', 'f', 2)], 'class API : public api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES((600)(1100), (1)(6), (1)(3)) };'),
    'GO': Cell('GO', [('char', 'c', None), ('Obs', 'o', None), ('Obs', 'p', 2)], 'class API : public api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES((4)(8), (2)(5), (1)(4)) };'),
}
GDIMS = {'GA': [(3, 2, 1), (4, 2, 1), (5, 5, 2), (1, 1, 1)], 'GD': [(5, 3, 2), (2, 9, 3)], 'GL': [(600, 1, 1), (520, 5, 2), (1026, 1, 1)], 'GO': [(2, 2, 1), (3, 5, 2), (5, 1, 1)]}
GHEAD = """#include <libflatarray/flat_array.hpp>
#include <libflatarray/cuda_array.hpp>
#include <vector>
#include "vf.hpp"
using namespace LibFlatArray;
struct Run { int origin[3]; int len; int length() const { return len; } };
#define BOBS(A) ev_val3(A.dim_x(), A.dim_y(), A.dim_z()); ev_val3(A.extent_x(), A.extent_y(), A.extent_z()); ev_val(A.byte_size());
"""
EXT = {'GA': ([4, 8], [2, 5], [1, 4]), 'GL': ([600, 1100], [1, 6], [1, 3]), 'GO': ([4, 8], [2, 5], [1, 4]), 'GD': ([8, 16],) * 3}


def extents(cn, d):
    if cn == 'GD':     # the same size in all three directions
        d = (max(d),) * 3
    return tuple(next(e for e in s if e >= x) for s, x in zip(EXT[cn], d))


def obs(cn, c, d):
    e = extents(cn, d)
    return f'ev_val3({d[0]}, {d[1]}, {d[2]}); ev_val3({e[0]}, {e[1]}, {e[2]}); ev_val({e[0] * e[1] * e[2] * c.agg});'


def unit_grid(cells=('GA', 'GD', 'GL'), deep=False):
    """grids on a device: construction, set, get, broadcast, load, save, copies, resizing"""
    us = []
    for cn in cells:
        c = GCELLS[cn]
        u = Unit(f'cugrid{cn}', GHEAD + c.decl() + f'typedef {cn} C; typedef soa_grid<C, cuda_allocator<char>, true> G; typedef soa_grid<C> H;\n')
        # member-wise copies of cells in the specification
        mem = list(c.elems())
        u.raw(f'static inline void cpy(C *d, const C *s) {{ ' + ' '.join(f'd->{e[1]} = s->{e[1]};' for e in mem) + ' }\n')
        u.raw(f'template<class G> static inline void rd(const G& g, long x, long y, long z, C *d, long n) {{ C t[{max(a[0] for a in GDIMS[cn])}]; g.get(x, y, z, t, n); for (long i = 0; i < n; ++i) cpy(d + i, t + i); }}\n')
        packed = lambda buf, n, k: lambda e: f'*({e[0]}*)({buf} + ({n}) * {e[2]}L + ({k}) * {e[3]}L)'
        pair = u.pair
        u.pair = lambda n, pa, p, r, **k: pair(n, pa, p, r, opts='balance', **k)
        IO = 'const C *s, const C *t, C *out, C *out2'
        RAW = 'const char *raw, const C *s, C *out, char *rout'
        many = cn != 'GL'
        for d in GDIMS[cn]:
            n = d[0] * d[1] * d[2]
            D = f'{d[0]}, {d[1]}, {d[2]}'
            dn = 'x'.join(map(str, d))
            rows = [(y, z) for z in range(d[2]) for y in range(d[1])]
            fill = lambda g, src: ' '.join(f'{g}.set(0, {y}, {z}, {src} + {(z * d[1] + y) * d[0]}, {d[0]});' for y, z in rows)
            read = lambda g, dst: ' '.join(f'rd({g}, 0, {y}, {z}, {dst} + {(z * d[1] + y) * d[0]}, {d[0]});' for y, z in rows)
            cpa = lambda dst, src, k=n, o=0: f'for (int i = 0; i < {k}; ++i) cpy({dst} + {o} + i, {src} + {o} + i);'
            u.pair(f'life{dn}', 'void', f'G a({D}); BOBS(a)', obs(cn, c, d))
            u.pair(f'rows{dn}', IO, f'G a({D}); {fill("a", "s")} const G& k = a; {read("k", "out")}', cpa('out', 's'))
            x, y, z = d[0] - 1, d[1] // 2, d[2] - 1
            i = (z * d[1] + y) * d[0] + x
            one = [(x, y, z)] + ([(0, d[1] - 1, 0)] if d[1] > 1 else [])
            for k, (x, y, z) in enumerate(one):
                i = (z * d[1] + y) * d[0] + x
                u.pair(f'one{k}_{dn}', IO, f'G a({D}); {fill("a", "s")} a.set({x}, {y}, {z}, t[0]); const G& k = a; C c = k.get({x}, {y}, {z}); cpy(out2, &c); {read("k", "out")}', cpa('out', 's') + f'cpy(out + {i}, t); cpy(out2, t);')
            # several sizes of the same staging buffer
            if d[0] > 2:
                m = d[0] - 1
                u.pair(f'part{dn}', IO, f'G a({D}); {fill("a", "s")} a.set(1, {d[1] - 1}, {d[2] - 1}, t, {m}); a.set(0, 0, 0, t[5]); {read("a", "out")} rd(a, 1, {d[1] - 1}, {d[2] - 1}, out2, {m - 1});',
                       cpa('out', 's') + f'for (int i = 0; i < {m}; ++i) cpy(out + {n - d[0] + 1} + i, t + i); cpy(out, t + 5);' + f'for (int i = 0; i < {m - 1}; ++i) cpy(out2 + i, out + {n - d[0] + 1} + i);')
            for b, k in sorted({(0, d[0]), (1, d[0] - 1), (0, 1)}):
                if k > 0:
                    u.pair(f'bcast{b}_{k}_{dn}', IO, f'G a({D}); {fill("a", "s")} a.broadcast({b}, {d[1] - 1}, {d[2] - 1}, t[0], {k}); {read("a", "out")}', cpa('out', 's') + f'for (int i = 0; i < {k}; ++i) cpy(out + {n - d[0] + b} + i, t);')
            # packed buffers
            for b, k in sorted({(0, d[0]), (1, d[0] - 1)}):
                if k > 0:
                    o = n - d[0] + b
                    pk = packed('raw', k, 'i')
                    u.pair(f'load{b}_{k}_{dn}', RAW, f'G a({D}); {fill("a", "s")} a.load({b}, {d[1] - 1}, {d[2] - 1}, raw, {k}); {read("a", "out")}', cpa('out', 's') + f'for (long i = 0; i < {k}; ++i) {{ ' + ' '.join(f'out[{o} + i].{e[1]} = {pk(e)};' for e in mem) + ' }')
                    pk = packed('rout', k, 'i')
                    u.pair(f'save{b}_{k}_{dn}', RAW, f'G a({D}); {fill("a", "s")} const G& g = a; g.save({b}, {d[1] - 1}, {d[2] - 1}, rout, {k});', f'for (long i = 0; i < {k}; ++i) {{ ' + ' '.join(f'{pk(e)} = s[{o} + i].{e[1]};' for e in mem) + ' }')
            if many and d[0] > 2 and d[1] > 1:
                runs = [(1, 0, 0, 2), (0, 1, d[2] - 1, 0), (0, 1, d[2] - 1, 1), (0, d[1] - 1, 0, 3)]
                tot = sum(r[3] for r in runs)
                rl = 'Run r[4] = {' + ', '.join(f'{{{{{a}, {b}, {cc}}}, {l}}}' for a, b, cc, l in runs) + '};'
                ld = sv = ''
                off = 0
                for a, b, cc, l in runs:
                    o = (cc * d[1] + b) * d[0] + a
                    ld += f'for (long i = 0; i < {l}; ++i) {{ ' + ' '.join(f'out[{o} + i].{e[1]} = {packed("raw", tot, f"{off} + i")(e)};' for e in mem) + ' }'
                    sv += f'for (long i = 0; i < {l}; ++i) {{ ' + ' '.join(f'{packed("rout", tot, f"{off} + i")(e)} = s[{o} + i].{e[1]};' for e in mem) + ' }'
                    off += l
                u.pair(f'loadruns{dn}', RAW, f'G a({D}); {fill("a", "s")} {rl} a.load((const Run*)r, (const Run*)r + 4, raw, {tot}); {read("a", "out")}', cpa('out', 's') + ld)
                u.pair(f'saveruns{dn}', RAW, f'G a({D}); {fill("a", "s")} {rl} const G& g = a; g.save((const Run*)r, (const Run*)r + 4, rout, {tot});', sv)
            # functors get the storage on the device
            u.pair(f'callback{dn}', 'void', f'G a({D}); Ext f = {{a.data()}}; a.callback(f);', 'ev_val3({}, {}, {}); ev_val(1);'.format(*extents(cn, d)))
            # copies
            u.pair(f'copy{dn}', IO, f'G a({D}); {fill("a", "s")} const G& k = a; G b(k); {fill("a", "t")} BOBS(b) {read("b", "out")} {read("a", "out2")}', obs(cn, c, d) + cpa('out', 's') + cpa('out2', 't'))
            u.pair(f'self{dn}', IO, f'G a({D}); {fill("a", "s")} G& r = a; a = r; BOBS(a) {read("a", "out")}', obs(cn, c, d) + cpa('out', 's'))
            for f in GDIMS[cn]:
                F = f'{f[0]}, {f[1]}, {f[2]}'
                fn = 'x'.join(map(str, f))
                if not many and f != GDIMS[cn][0]:
                    continue
                fr = [(y, z) for z in range(f[2]) for y in range(f[1])]
                nf = f[0] * f[1] * f[2]
                fillf = lambda g, src: ' '.join(f'{g}.set(0, {y}, {z}, {src} + {(z * f[1] + y) * f[0]}, {f[0]});' for y, z in fr)
                readf = lambda g, dst: ' '.join(f'rd({g}, 0, {y}, {z}, {dst} + {(z * f[1] + y) * f[0]}, {f[0]});' for y, z in fr)
                u.pair(f'assign{dn}_{fn}', IO, f'G a({D}), b({F}); {fill("a", "s")} {fillf("b", "t")} b = a; {fill("a", "t")} BOBS(b) {read("b", "out")} {read("a", "out2")}', obs(cn, c, d) + cpa('out', 's') + cpa('out2', 't'))
                u.pair(f'resize{dn}_{fn}', IO, f'G a({F}); {fillf("a", "t")} a.resize({D}); BOBS(a) {fill("a", "s")} {read("a", "out")}', obs(cn, c, d) + cpa('out', 's'))
                for w, sw in (('m', 'a.swap(b);'), ('f', 'swap(a, b);')):
                    u.pair(f'swap{w}{dn}_{fn}', IO, f'G a({D}), b({F}); {fill("a", "s")} {fillf("b", "t")} {sw} BOBS(a) BOBS(b) {readf("a", "out2")} {read("b", "out")} {fill("b", "t")}', obs(cn, c, f) + obs(cn, c, d) + cpa('out', 's') + f'for (int i = 0; i < {nf}; ++i) cpy(out2 + i, t + i);')
            u.pair(f'empty{dn}', IO, f'G a; G b(a); a.resize({D}); {fill("a", "s")} b = a; {read("b", "out")} a = G(); ev_val3(a.dim_x(), a.dim_y(), a.dim_z()); b.swap(a); {read("a", "out2")}', cpa('out', 's') + cpa('out2', 's') + 'ev_val3(0, 0, 0);')
        i = next(k for k, l in enumerate(u.t) if 'static inline void cpy' in l)
        u.t.insert(i, 'struct Ext { const char *d; template<long X, long Y, long Z, long I> void operator()(soa_accessor<C, X, Y, Z, I>& acc) const { ev_val3(X, Y, Z); ev_val(acc.data() == d); } };\n')
        us.append(u)
    return us


def unit_devlife(cells=('GO',)):
    """members of cells on a device are constructed and destroyed exactly once"""
    us = []
    for cn in cells:
        c = GCELLS[cn]
        u = Unit(f'culife{cn}', GHEAD + c.decl() + f'typedef {cn} C; typedef soa_grid<C, cuda_allocator<char>, true> G;\n')
        for d in GDIMS[cn]:
            D = ', '.join(map(str, d))
            dn = 'x'.join(map(str, d))
            u.pair(f'life{dn}', 'void', f'G a({D}); BOBS(a)', obs(cn, c, d), opts='balance')
            for f in GDIMS[cn]:
                u.pair(f'resize{dn}_{"x".join(map(str, f))}', 'void', f'G a({D}); a.resize({", ".join(map(str, f))}); BOBS(a) G b; b.swap(a); BOBS(b)', obs(cn, c, f) * 2, opts='balance')
            u.pair(f'arr{dn}', 'void', f'{{ G a({D}); a.resize(0, 0, 0); }} {{ G b; b.resize({D}); G e; e.swap(b); }}', '', opts='balance')
        us.append(u)
    return us


def unit_vec(sizes=(2, 4, 8), types=('VA', 'VL')):
    """vectors whose elements are on a device: construction, growth, set, get, copies"""
    us = []
    for cn in types:
        ext = {'VA': (2, 4, 8), 'VL': (3, 600)}[cn]
        c = Cell(cn, [('double', 'd', None), ('int', 'i', None), ('short', 'arr', 3), ('char', 'c', None)] if cn == 'VA' else [('int', 'i', None), ('float', 'f', 2)],
                 'class API : public api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES(' + ''.join(f'({e})' for e in ext) + ', (1), (1)) };')
        u = Unit(f'cuvec{cn}', GHEAD.replace('<vector>', '<libflatarray/soa_vector.hpp>') + c.decl() + f'typedef {cn} C; typedef soa_vector<C, cuda_allocator<char>, true> V;\n')
        u.raw('static inline void cpy(C *d, const C *s) { ' + ' '.join(f'd->{e[1]} = s->{e[1]};' for e in c.elems()) + ' }\n')
        u.raw('static inline void rd(const V& v, long n, C *d) { for (long i = 0; i < n; ++i) { C t = v.get(i); cpy(d + i, &t); } ev_val2(v.size(), v.empty()); }\n')
        pair = u.pair
        u.pair = lambda n, p, r: pair(n, 'const C *s, const C *t, C *out, C *out2', p, r, opts='balance')
        cp = lambda dst, src, n, at=0: f'for (int i = {at}; i < {n}; ++i) cpy({dst} + i, {src});'
        st = lambda n: f'ev_val2({n}, {int(not n)});'
        up = lambda n: next(e for e in ext if e >= n)
        top = ext[0] + 2
        for n in (0, 1, ext[0]):
            u.pair(f'fill{n}', f'V v({n}, *t); rd(v, {n}, out); ev_val(v.capacity());', cp('out', 't', n) + st(n) + f'ev_val({n});')
            u.pair(f'set{n}', f'V v({n}); for (int i = 0; i < {n}; ++i) v.set(i, s[i]); rd(v, {n}, out);', cp('out', 's + i', n) + st(n))
            for m in (1, ext[0] + 1) + ((5,) if cn == 'VA' else ()):
                if m > n:
                    u.pair(f'reserve{n}_{m}', f'V v({n}); for (int i = 0; i < {n}; ++i) v.set(i, s[i]); v.reserve({m}); ev_val(v.capacity()); rd(v, {n}, out);', f'ev_val({up(m)});' + cp('out', 's + i', n) + st(n))
                    u.pair(f'resize{n}_{m}', f'V v({n}); for (int i = 0; i < {n}; ++i) v.set(i, s[i]); v.resize({m}); for (int i = {n}; i < {m}; ++i) v.set(i, t[i]); rd(v, {m}, out);', cp('out', 's + i', n) + cp('out', 't + i', m, n) + st(m))
                    u.pair(f'push{n}_{m}', f'V v({n}); for (int i = 0; i < {n}; ++i) v.set(i, s[i]); for (int i = {n}; i < {m}; ++i) v.push_back(t[i]); rd(v, {m}, out);', cp('out', 's + i', n) + cp('out', 't + i', m, n) + st(m))
            u.pair(f'copy{n}', f'V v({n}); for (int i = 0; i < {n}; ++i) v.set(i, s[i]); const V& k = v; V w(k); v.push_back(*t); rd(w, {n}, out); rd(v, {n + 1}, out2);', cp('out', 's + i', n) + st(n) + cp('out2', 's + i', n) + f'cpy(out2 + {n}, t);' + st(n + 1))
            u.pair(f'assign{n}', f'V v({n}), w(2, *t); for (int i = 0; i < {n}; ++i) v.set(i, s[i]); w = v; w.push_back(*t); rd(w, {n + 1}, out); rd(v, {n}, out2);', cp('out', 's + i', n) + f'cpy(out + {n}, t);' + st(n + 1) + cp('out2', 's + i', n) + st(n))
        u.pair('stack', 'V v; for (int i = 0; i < 4; ++i) v.push_back(s[i]); v.pop_back(); v.pop_back(); v.push_back(*t); rd(v, 3, out); v.clear(); ev_val(v.empty()); v.push_back(s[5]); rd(v, 1, out2);', cp('out', 's + i', 2) + 'cpy(out + 2, t);' + st(3) + 'ev_val(1); cpy(out2, s + 5);' + st(1))
        us.append(u)
    return us


DEVHEAD = """#include <libflatarray/flat_array.hpp>
#include <libflatarray/cuda_array.hpp>
using namespace LibFlatArray;
struct M { __host__ __device__ M() : v(0) {} __host__ __device__ M(const M& o) : v(o.v) {} __host__ __device__ ~M() {} __host__ __device__ M& operator=(const M& o) { v = o.v; return *this; } __host__ __device__ bool operator==(const M& o) const { return v == o.v; } double v; };
struct CE { double d; };
LIBFLATARRAY_REGISTER_SOA(CE, ((double)(d)))
"""


def unit_device():
    """type checking by clang's CUDA front end, once for the device and once for the host: whatever a kernel calls is available on the device, whatever host code calls is available on the host"""
    us = []
    api = 'class API : public api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES((4)(8), (2)(4), (1)(2)) };'
    op = '__host__ __device__ bool operator==(const C& o) const { return d == o.d && i == o.i; } __host__ __device__ bool operator!=(const C& o) const { return !(*this == o); }'
    cells = {
        'plain': f'struct C {{ double d; int i; short a[3]; {op} {api} }};\nLIBFLATARRAY_REGISTER_SOA(C, ((double)(d))((int)(i))((short)(a)(3)))\n',
        'object': f'struct C {{ M d; int i; M a[2]; {op} {api} }};\nLIBFLATARRAY_REGISTER_SOA(C, ((M)(d))((int)(i))((M)(a)(2)))\n',
        'private': f'class C {{ public: __host__ __device__ C() : d(), i(0) {{}} {op} {api} LIBFLATARRAY_ACCESS private: float d; int i; char a[2]; }};\nLIBFLATARRAY_REGISTER_SOA(C, ((float)(d))((int)(i))((char)(a)(2)))\n',
    }
    kinds = (('full', 'soa_accessor', 'char *p', 'n', False), ('cfull', 'const_soa_accessor', 'const char *p', 'n', True), ('light', 'soa_accessor_light', 'char *p', 'n', False), ('clight', 'const_soa_accessor_light', 'const char *p', 'n', True))
    for cn, decl in cells.items():
        u = Unit(f'dev_{cn}', DEVHEAD + decl)

        def k(name, args, body):
            u.raw(f'__global__ void p_{name}({args}) {{ {body} }}\n')
            u.names.append(name)

        def h(name, body, args=''):
            u.raw(f'void p_{name}({args}) {{ {body} }}\n')
            u.names.append(name)
        for kn, acc, ptr, idx, const in kinds:
            pre = f'typedef {acc}<C, 8, 4, 2, 0> A; A a(p, n);'
            cst = pre + ' const A& b = a;'
            for an, p0, v in (('', pre, 'a'), ('_const', cst, 'b')):
                k(f'{kn}_conv{an}', f'{ptr}, long n, C *c', f'{p0} *c = C({v});')
                k(f'{kn}_out{an}', f'{ptr}, long n, C *c', f'{p0} {v} >> *c;')
                k(f'{kn}_save{an}', f'{ptr}, long n, char *q', f'{p0} {v}.save(q, 3); {v}.save(q, 3, 1, 9);')
                k(f'{kn}_index{an}', f'{ptr}, long n, long *r', f'{p0} *r = {v}.index();')
                k(f'{kn}_data{an}', f'{ptr}, long n, const char **r', f'{p0} *r = {v}.data();')
                k(f'{kn}_eq{an}', f'{ptr}, long n, bool *r', f'{p0} {acc}<C, 8, 4, 2, 0> e(p, n); r[0] = {v} == e; r[1] = {v} != e;')
                if cn != 'private':
                    k(f'{kn}_get{an}', f'{ptr}, long n, C *c', f'{p0} c->d = {v}.d(); c->i = {v}.i(); c->a[1] = {v}.a()[1];')
                    k(f'{kn}_step{an}', f'{ptr}, long n, C *c', f'{p0} c->d = {v}[coord<1, -1, 1>()].d(); c->a[1] = {v}[coord<0, 1, 0>()].a()[1];')
            k(f'{kn}_move', f'{ptr}, long n, long *r', f'{pre} a += 5; ++a; a.index() += 2; *r = a.index();')
            k(f'{kn}_gen', f'{ptr}, long n, long *r', f'{pre} *r = A::gen_index(n, n, n) + A::gen_index(size_t(n), size_t(n), size_t(n)) + A::DIM_PROD;')
            if not const:
                k(f'{kn}_in', f'{ptr}, long n, const C *c', f'{pre} a << *c; a = *c;')
                k(f'{kn}_load', f'{ptr}, long n, const char *q', f'{pre} a.load(q, 3); a.load(q, 3, 1, 9);')
                k(f'{kn}_life', f'{ptr}, long n', f'{pre} a.construct_members(); a.destroy_members();')
                k(f'{kn}_copy', f'{ptr}, long n, char *q', f'{pre} soa_accessor<C, 8, 4, 2, 0> b(q, n); a.copy_members(b, 2); soa_accessor_light<C, 8, 4, 2, 0> l(q, n); a.copy_members(l, 2);')
                k(f'{kn}_copyc', f'{ptr}, long n, const char *q', f'{pre} const_soa_accessor<C, 8, 4, 2, 0> b(q, n); a.copy_members(b, 2); const_soa_accessor_light<C, 8, 4, 2, 0> l(q, n); a.copy_members(l, 2);')
                if cn != 'private':
                    k(f'{kn}_set', f'{ptr}, long n, const C *c', f'{pre} a.d() = c->d; a.i() += c->i; a.a()[1] = c->a[1]; a[coord<1, 0, -1>()].d() = c->d;')
        for args, name, body in (
                ('S *s', 'arr_ctor', 'S a; S b(2); S c(3, C());'), ('S *s', 'arr_copy', 'S a(*s); a = *s; const S& k = *s; S b(k); b = k;'), ('S *s', 'arr_other', 'soa_array<C, 5> t; S a(t); a = t; const soa_array<C, 5>& k = t; S b(k); b = k;'),
                ('S *s', 'arr_push', 's->push_back(C()); *s << C(); s->pop_back();'), ('S *s, C *c', 'arr_get', '*c = C((*s)[1]); s->at(1) >> *c; s->at(size_t(1)) >> *c; s->back() >> *c; s->begin() >> *c;'),
                ('const S *s, C *c', 'arr_cget', '*c = C((*s)[1]); s->at(1) >> *c; s->at(size_t(1)) >> *c;'), ('S *s, long *r', 'arr_end', 'soa_accessor<C, 7, 1, 1, 0> a = s->begin(); *r = s->end().index() - a.index();'),
                ('const S *s, long *r', 'arr_size', '*r = s->size() + s->capacity() + S::SIZE;'), ('S *s', 'arr_clear', 's->clear();'), ('S *s, char *p, long n', 'arr_load', 'soa_accessor<C, 9, 1, 1, 0> a(p, n); s->load(a, 3); s->load(a, 3, 1);')):
            u.raw('typedef soa_array<C, 7> S;\n') if name == 'arr_ctor' else None
            k(name, args, body)
        # what the host calls, kernels launched on the way included
        u.raw('typedef soa_grid<C, cuda_allocator<char>, true> G;\ntypedef soa_vector<C, cuda_allocator<char>, true> V;\nstruct Run { int origin[3]; int len; int length() const { return len; } };\nstruct F { template<class A> void operator()(A& a) const { a.data(); } };\n')
        h('grid_make', 'G g; G h(3, 2, 1); h.resize(5, 5, 2); h.swap(g); swap(g, h);')
        h('grid_copy', 'G g(3, 2, 1); const G& k = g; G h(k); h = k;')
        h('grid_set', 'G g(3, 2, 1); g.set(0, 0, 0, *c); g.set(0, 0, 0, c, 3); g.broadcast(0, 0, 0, *c, 3);', 'const C *c')
        h('grid_get', 'const G g(3, 2, 1); *c = g.get(0, 0, 0); g.get(0, 0, 0, c, 3);', 'C *c')
        h('grid_load', 'G g(3, 2, 1); g.load(0, 0, 0, q, 3); g.load(r, r + 2, q, 6);', 'const char *q, const Run *r')
        h('grid_save', 'const G g(3, 2, 1); g.save(0, 0, 0, q, 3); g.save(r, r + 2, q, 6);', 'char *q, const Run *r')
        h('grid_callback', 'G g(3, 2, 1); g.callback(F());')
        h('vector', 'V v(3), w(2, *c); const V k(v); v.set(0, *c); *d = k.get(0); v.resize(9); v.reserve(20); v.push_back(*c); v.pop_back(); v.clear(); w = k; k.size(); k.capacity(); k.empty(); v.callback(F());', 'const C *c, C *d')
        h('cuda_array', 'cuda_array<C> a(3); cuda_array<C> b(a), e(3, *c), f(c, 3); b = a; b.resize(4); b.resize(5, *c); b.reserve(9); b.load(c); b.save(d); b.data(); b.size(); b.capacity();', 'const C *c, C *d')
        us.append(u)
    return us
