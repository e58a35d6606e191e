"""Probe/specification pairs for the struct-of-arrays layer (registration, accessors).

Every specification below is written against the documented layout only:
  cell index   i = x + DX*y + DX*DY*z               (DX,DY,DZ = storage extents)
  member m (k-th array element) of cell i lives at
               base + DX*DY*DZ*(off(m) + k*sizeof(m)) + i*sizeof(m)
  off(m)       sum of the byte sizes of the members registered before m
  raw buffers  the same layout with `stride` in place of DX*DY*DZ
"""
import re

ONLY = None       # regular expression: restrict to these pairs


class Unit:
    def __init__(self, name, head):
        self.name, self.t, self.names = name, [head], []

    def raw(self, s):
        self.t.append(s)

    def pair(self, name, params, p, r, ret='void', opts='', alt=()):
        n = f'{self.name}_{name}'
        if ONLY and not re.search(ONLY, n):
            return
        assert n not in self.names, n
        self.names.append(n)
        o = self.t.append
        o(f'extern "C" const char o_{n}[] = "{opts}";')
        o(f'extern "C" {ret} p_{n}({params}) {{ {p} }}')
        o(f'extern "C" {ret} r_{n}({params}) {{ {r} }}')
        for k, x in enumerate(alt):
            o(f'extern "C" {ret} r{k + 2}_{n}({params}) {{ {x} }}')

    def text(self):
        return '\n'.join(self.t) + '\n'


SIZES = {'double': 8, 'int': 4, 'char': 1, 'short': 2, 'float': 4, 'long': 8, 'Vec3': 12, 'Obs': 4, 'bool': 1,
         'unsigned': 4}


class Cell:
    """members: list of (type, name, arity or None)"""
    def __init__(self, name, members, api='', private=False):
        self.name, self.members, self.api, self.private = name, members, api, private
        self.off, o = {}, 0
        for t, n, k in members:
            self.off[n] = o
            o += SIZES[t] * (k or 1)
        self.agg = o

    def decl(self):
        s = f'class {self.name} {{ public: {self.api}\n'
        if self.private:
            s += ' LIBFLATARRAY_ACCESS\n'
        s += f' {self.name}() {{}}\n'
        # plain stores, so that a copied cell is just its members
        for t, n, k in self.members:
            s += f' {t} {n}' + (f'[{k}]' if k else '') + ';\n'
        s += '};\n'
        s += f'LIBFLATARRAY_REGISTER_SOA({self.name}, '
        for t, n, k in self.members:
            s += f'(({t})({n})' + (f'({k})' if k else '') + ')'
        return s + ')\n'

    def elems(self):
        """(type, expression in a cell, offset, size, name, k)"""
        for t, n, k in self.members:
            for j in range(k or 1):
                yield t, (f'{n}[{j}]' if k else n), self.off[n] + j * SIZES[t], SIZES[t], n, (j if k else None)


HEAD = '''#include <libflatarray/flat_array.hpp>
#include "vf.hpp"
using namespace LibFlatArray;
struct Vec3 { float x, y, z; };
#define AT(T, B, O) (*(T*)((char*)(B) + (O)))
'''
CELLS = {
    'CA': Cell('CA', [('double', 'd', None), ('int', 'i', None), ('char', 'c', None), ('short', 's', None), ('float', 'f', None)]),
    'CB': Cell('CB', [('float', 'a', None), ('double', 'arr', 3), ('short', 't', 2), ('char', 'c', None), ('int', 'z', None)]),
    'CC': Cell('CC', [('char', 'flag', None), ('Vec3', 'v', None), ('Vec3', 'w', 2), ('long', 'l', None), ('float', 'q', 1)]),
}
KINDS = {
    # kind: (writable, light)
    'soa_accessor': (True, False), 'const_soa_accessor': (False, False),
    'soa_accessor_light': (True, True), 'const_soa_accessor_light': (False, True),
}
DIMS = [(8, 4, 2), (5, 3, 7), (64, 1, 1), (32, 32, 1)]


def addr_spec(c, d, e, idx):
    prod = d[0] * d[1] * d[2]
    return f'data + (long){prod * e[2]} + ({idx}) * (long){e[3]}'


def mk(kind, cell, d, data='data', index='index', index0=0, name='a'):
    t = f'{kind}<{cell.name}, {d[0]}, {d[1]}, {d[2]}, {index0}>'
    if KINDS[kind][1]:
        return f'long {name}_i = {index}; {t} {name}({data}, {name}_i);'
    return f'{t} {name}({data}, {index});'


def get(e, a='a'):
    return f'{a}.{e[4]}()' if e[5] is None else f'{a}.{e[4]}()[{e[5]}]'


def copy_elems(c, dst, src):
    """copy of one cell's members, dst/src: functions elem -> lvalue text"""
    return ' '.join(f'{dst(e)} = {src(e)};' for e in c.elems())


def soaelem(base, stride, idx):
    return lambda e: f'AT({e[0]}, {base}, ({stride}) * (long){e[2]} + ({idx}) * (long){e[3]})'


def cellelem(expr):
    return lambda e: f'{expr}{e[1]}'


def unit_address(cells=('CA', 'CB', 'CC'), dims=DIMS):
    """member addresses through every accessor kind, stepping, coordinates, comparisons"""
    us = []
    for cn in cells:
        c = CELLS[cn]
        u = Unit(f'addr{cn}', HEAD + c.decl())
        for di, d in enumerate(dims):
            prod = d[0] * d[1] * d[2]
            for kind, (wr, light) in KINDS.items():
                kn = ''.join(w[0] for w in kind.split('_')) + f'{di}'
                cd = 'const char *data' if not wr else 'char *data'
                ret = 'const char*'
                # all elements of one cell, through plain member access
                els = list(c.elems())
                p = mk(kind, c, d) + ''.join(f' out[{j}] = (char*)&{get(e)};' for j, e in enumerate(els))
                r = ''.join(f' out[{j}] = (char*)({addr_spec(c, d, e, "index")});' for j, e in enumerate(els))
                u.pair(f'{kn}_members', f'{cd}, long index, char **out', p, r)
                # const access path
                p = mk(kind, c, d) + f' const auto& ca = a;' + ''.join(f' out[{j}] = (char*)&{get(e, "ca")};' for j, e in enumerate(els))
                u.pair(f'{kn}_cmembers', f'{cd}, long index, char **out', p, r)
                # explicit template index of array members
                arrs = [e for e in els if e[5] is not None]
                if arrs:
                    p = mk(kind, c, d) + ''.join(f' out[{j}] = (char*)&a.{e[4]}<{e[5]}>();' for j, e in enumerate(arrs))
                    r = ''.join(f' out[{j}] = (char*)({addr_spec(c, d, e, "index")});' for j, e in enumerate(arrs))
                    u.pair(f'{kn}_tmpl', f'{cd}, long index, char **out', p, r)
                    e0 = [e for e in arrs if e[5] == 0][0]
                    u.pair(f'{kn}_dynidx', f'{cd}, long index, szt k',
                           mk(kind, c, d) + f' return (char*)&a.{e0[4]}()[k];',
                           f'return (char*)data + (long){prod} * ((long){e0[2]} + (long)k * {e0[3]}) + index * (long){e0[3]};', ret=ret)
                # neighbours: relative coordinates, also chained
                co = [(0, 0, 0), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1), (2, -1, 1), (-3, 2, -1)]
                p = mk(kind, c, d)
                r = ''
                j = 0
                for (x, y, z) in co:
                    off = x + d[0] * y + d[0] * d[1] * z
                    for e in (els[0], els[-1], els[len(els) // 2]):
                        p += f' out[{j}] = (char*)&{get(e, f"a[coord<{x}, {y}, {z}>()]")};'
                        r += f' out[{j}] = (char*)({addr_spec(c, d, e, f"index + ({off})")});'
                        j += 1
                for (x, y, z), (x2, y2, z2) in (((1, 0, 0), (0, 1, 0)), ((0, -1, 1), (2, 1, 1)), ((-1, 1, -1), (-1, 1, -1))):
                    off = x + x2 + d[0] * (y + y2) + d[0] * d[1] * (z + z2)
                    for e in (els[0], els[-1]):
                        p += f' out[{j}] = (char*)&{get(e, f"a[coord<{x}, {y}, {z}>()][coord<{x2}, {y2}, {z2}>()]")};'
                        r += f' out[{j}] = (char*)({addr_spec(c, d, e, f"index + ({off})")});'
                        j += 1
                u.pair(f'{kn}_coord', f'{cd}, long index, char **out', p, r)
                # neighbours through a constant reference
                p = mk(kind, c, d) + ' const auto& ca = a;'
                r = ''
                for j, (e, ch, off) in enumerate((e, ch, off) for e in (els[0], els[-1]) for ch, off in ((((1, 0, 0),), 1), (((0, -1, 1),), d[0] * d[1] - d[0]), (((2, 1, 0), (-1, 0, -1)), 1 + d[0] - d[0] * d[1]))):
                    nb = 'ca' + ''.join(f'[coord<{x}, {y}, {z}>()]' for x, y, z in ch)
                    p += f' out[{j}] = (char*)&{get(e, nb)};'
                    r += f' out[{j}] = (char*)({addr_spec(c, d, e, f"index + ({off})")});'
                u.pair(f'{kn}_ccoord', f'{cd}, long index, char **out', p, r)
                # an accessor with a static index of its own
                p = mk(kind, c, d, index0=17) + ''.join(f' out[{j}] = (char*)&{get(e)};' for j, e in enumerate(els))
                r = ''.join(f' out[{j}] = (char*)({addr_spec(c, d, e, "index + 17")});' for j, e in enumerate(els))
                u.pair(f'{kn}_static', f'{cd}, long index, char **out', p, r)
                # index bookkeeping
                u.pair(f'{kn}_step', f'{cd}, long index, long by, long *out',
                       mk(kind, c, d) + ' out[0] = a.index(); a += by; out[1] = a.index(); ++a; out[2] = a.index(); a.index() = by; const auto& ca = a; out[3] = ca.index(); out[4] = (long)a.data(); out[5] = (long)ca.data();',
                       'out[0] = index; out[1] = index + by; out[2] = index + by + 1; out[3] = by; out[4] = (long)data; out[5] = (long)data;')
                u.pair(f'{kn}_stepaddr', f'{cd}, long index, long by, char **out',
                       mk(kind, c, d) + f' a += by; ++a; out[0] = (char*)&{get(els[-1])}; out[1] = (char*)&{get(els[-1], "a[coord<1,0,0>()]")};',
                       f'out[0] = (char*)({addr_spec(c, d, els[-1], "index + by + 1")}); out[1] = (char*)({addr_spec(c, d, els[-1], "index + by + 2")});')
                u.pair(f'{kn}_genindex', 'long x, long y, long z, long *out',
                       f'typedef {kind}<{cn}, {d[0]}, {d[1]}, {d[2]}, 0> A; out[0] = A::gen_index(x, y, z); out[1] = A::gen_index((szt)x, (szt)y, (szt)z); out[2] = A::DIM_X; out[3] = A::DIM_Y; out[4] = A::DIM_Z; out[5] = A::DIM_PROD;',
                       f'out[0] = out[1] = x + {d[0]} * y + {d[0] * d[1]} * z; out[2] = {d[0]}; out[3] = {d[1]}; out[4] = {d[2]}; out[5] = {prod};')
                if wr:
                    u.pair(f'{kn}_access', f'{cd}, long index, long sz, long off, char **out',
                           mk(kind, c, d) + ' out[0] = a.access_member(sz, off);' + ''.join(f' out[{m + 1}] = (char*)&a.template access_member<{t}, {m}>();' for m, (t, n, k) in enumerate(c.members)),
                           f'out[0] = data + {prod} * off + index * sz;' + ''.join(f' out[{m + 1}] = data + (long){prod * c.off[n]} + index * (long){SIZES[t]};' for m, (t, n, k) in enumerate(c.members)))
                if not light:
                    u.pair(f'{kn}_cmp', f'{cd}, long index, {cd}2, long index2, bool *out',
                           mk(kind, c, d) + mk(kind, c, d, 'data2', 'index2', name='b') + ' out[0] = a == b; out[1] = a != b;',
                           'out[0] = (data == data2) && (index == index2); out[1] = !((data == data2) && (index == index2));')
        us.append(u)
    return us


def unit_cellio(cells=('CA', 'CB', 'CC'), dims=DIMS):
    """whole-cell reads and writes through accessors"""
    us = []
    # members may be named like the parameters of the generated functions
    odd = {'CN': Cell('CN', [('double', 'cell', 2), ('int', 'i', None), ('float', 'my_dim', None), ('short', 'x_offset', None), ('char', 'source', 2)]),
           'CM': Cell('CM', [('double', 'cell', None), ('int', 'count', 2), ('float', 'offset', None), ('short', 'stride', None), ('char', 'target', None)])}
    for cn in tuple(cells) + tuple(odd):
        c = odd.get(cn) or CELLS[cn]
        u = Unit(f'cell{cn}', HEAD + c.decl())
        for di, d in enumerate(dims if cn not in odd else dims[:2]):
            prod = d[0] * d[1] * d[2]
            for kind, (wr, light) in KINDS.items():
                kn = ''.join(w[0] for w in kind.split('_')) + f'{di}'
                cd = 'char *data' if wr else 'const char *data'
                for sfx, acc, off in (('', 'a', 0), ('_nb', 'a[coord<-1, 2, 1>()]', -1 + 2 * d[0] + d[0] * d[1])):
                    out = copy_elems(c, cellelem('cell->'), soaelem('data', prod, f'index + ({off})'))
                    inn = copy_elems(c, soaelem('data', prod, f'index + ({off})'), cellelem('cell->'))
                    if wr:
                        u.pair(f'{kn}{sfx}_in', f'{cd}, long index, const {cn} *cell', mk(kind, c, d) + f' {acc} << *cell;', inn)
                        u.pair(f'{kn}{sfx}_assign', f'{cd}, long index, const {cn} *cell', mk(kind, c, d) + f' {acc} = *cell;', inn)
                    u.pair(f'{kn}{sfx}_out', f'{cd}, long index, {cn} *cell', mk(kind, c, d) + f' {acc} >> *cell;', out)
                    # conversion: compare the members, not the padding
                    u.pair(f'{kn}{sfx}_conv', f'{cd}, long index, {cn} *cell', mk(kind, c, d) + f' {cn} tmp = {acc}; ' + copy_elems(c, cellelem('cell->'), cellelem('tmp.')), out)
                    if kind == 'soa_accessor' and not sfx:
                        u.pair(f'{kn}{sfx}_shl', f'{cd}, long index, {cn} *cell', mk(kind, c, d) + f' *cell << {acc};', out)
                if wr:
                    # write then read back through a second accessor, independent of the layout
                    u.pair(f'{kn}_round', f'{cd}, long index, const {cn} *cell, {cn} *res',
                           mk(kind, c, d) + f' a << *cell; {cn} tmp; a >> tmp; ' + copy_elems(c, cellelem('res->'), cellelem('tmp.')),
                           inn if False else copy_elems(c, soaelem('data', prod, 'index'), cellelem('cell->')) + copy_elems(c, cellelem('res->'), cellelem('cell->')))
        us.append(u)
    return us


def unit_raw(cells=('CA', 'CB', 'CC'), dims=((8, 4, 8), (160, 1, 1)), bound=5, consts=(37, 131), counts=None):
    """bulk transfers between accessors and raw buffers, and between accessors"""
    us = []
    counts = counts or COUNTS
    for cn in cells:
        c = CELLS[cn]
        u = Unit(f'raw{cn}', HEAD + c.decl())
        d2 = (16, 4, 3)
        prod2 = d2[0] * d2[1] * d2[2]
        for di, d in enumerate(dims):
            prod = d[0] * d[1] * d[2]
            for kind, (wr, light) in KINDS.items():
                kn = ''.join(w[0] for w in kind.split('_')) + f'{di}'
                cd = 'char *data' if wr else 'const char *data'
                loop = lambda body, n='count': f'for (szt k = 0; k < {n}; ++k) {{ {body} }}'
                A = f'ASSUME(count <= {bound});'
                tbody = copy_elems(c, soaelem('buf', 'stride', 'off + k'), soaelem('data', prod, 'index + k'))
                sbody = copy_elems(c, soaelem('data', prod, 'index + k'), soaelem('buf', 'stride', 'off + k'))
                u.pair(f'{kn}_save', f'{cd}, long index, char *buf, szt count, szt off, szt stride', A + mk(kind, c, d) + ' a.save(buf, count, off, stride);', A + loop(tbody))
                u.pair(f'{kn}_save2', f'{cd}, long index, char *buf, szt count', A + mk(kind, c, d) + ' a.save(buf, count);', A + loop(tbody.replace('stride', 'count').replace('off + k', 'k')))
                for n in consts:
                    u.pair(f'{kn}_save_n{n}', f'{cd}, long index, char *buf, szt off, szt stride', mk(kind, c, d) + f' a.save(buf, {n}, off, stride);', loop(tbody, n))
                if wr:
                    u.pair(f'{kn}_load', f'{cd}, long index, const char *buf, szt count, szt off, szt stride', A + mk(kind, c, d) + ' a.load(buf, count, off, stride);', A + loop(sbody))
                    u.pair(f'{kn}_load2', f'{cd}, long index, const char *buf, szt count', A + mk(kind, c, d) + ' a.load(buf, count);', A + loop(sbody.replace('stride', 'count').replace('off + k', 'k')))
                    for n in consts:
                        u.pair(f'{kn}_load_n{n}', f'{cd}, long index, const char *buf, szt off, szt stride', mk(kind, c, d) + f' a.load(buf, {n}, off, stride);', loop(sbody, n))
                    for k2, (wr2, l2) in KINDS.items():
                        kn2 = ''.join(w[0] for w in k2.split('_'))
                        cbody = copy_elems(c, soaelem('data', prod, 'index + k'), soaelem('src', prod2, 'sindex + k'))
                        u.pair(f'{kn}_copy_{kn2}', f'char *data, long index, {"" if wr2 else "const "}char *src, long sindex, szt count', A + mk(kind, c, d) + mk(k2, c, d2, 'src', 'sindex', name='b') + ' a.copy_members(b, count);', A + loop(cbody))
                        if k2 == 'soa_accessor':
                            for n in consts:
                                u.pair(f'{kn}_copy_{kn2}_n{n}', 'char *data, long index, char *src, long sindex', mk(kind, c, d) + mk(k2, c, d2, 'src', 'sindex', name='b') + f' a.copy_members(b, {n});', loop(cbody, n))
        if cn != 'CA':
            # long runs within a larger storage, all kinds in turn
            d = (2048, 1, 1)
            for j, n in enumerate(counts):
                for q in range(2):
                    kind = list(KINDS)[(j + q) % 4] if q == 0 else 'soa_accessor'
                    wr = KINDS[kind][0]
                    nm = ''.join(w[0] for w in kind.split('_')) + f'{q}long{n}'
                    loop = lambda body: f'for (szt k = 0; k < {n}; ++k) {{ {body} }}'
                    cd = 'char *data' if wr else 'const char *data'
                    u.pair(f'{nm}_save', f'{cd}, long index, char *buf, szt off, szt stride', mk(kind, c, d) + f' a.save(buf, {n}, off, stride);', loop(copy_elems(c, soaelem('buf', 'stride', 'off + k'), soaelem('data', 2048, 'index + k'))))
                    if wr:
                        u.pair(f'{nm}_load', f'{cd}, long index, const char *buf, szt off, szt stride', mk(kind, c, d) + f' a.load(buf, {n}, off, stride);', loop(copy_elems(c, soaelem('data', 2048, 'index + k'), soaelem('buf', 'stride', 'off + k'))))
                    d3 = (1100, 1, 1)
                    u.pair(f'{nm}_copy', f'char *data, long index, {"" if wr else "const "}char *src, long sindex', mk('soa_accessor', c, d) + mk(kind, c, d3, 'src', 'sindex', name='b') + f' a.copy_members(b, {n});', loop(copy_elems(c, soaelem('data', 2048, 'index + k'), soaelem('src', 1100, 'sindex + k'))))
        us.append(u)
    return us



T1 = [32, 64, 128, 192, 256, 512, 544] + [2 ** k + 32 for k in range(10, 31)]
T2 = [32, 64, 128, 192, 256, 512, 544, 1056, 2080, 4128, 8224, 16416, 32800]
T3 = [32, 64, 128, 136, 192, 200, 256, 264, 512, 520, 1032]
CU = [[3, 40, 41, 1000], [2, 64], [5, 6, 7]]
CUU = [7, 8, 100, 5000]


def seq(l):
    return ''.join(f'({k})' for k in l)


def ladder(var, sizes, use):
    return ''.join(f' if ({var} <= {k}u) {{ {use(k)} return; }}' for k in sizes) + ' throw std::out_of_range("x");'


def dispatch_spec(kind):
    """text of  void spec(char *data, szt x, szt y, szt z)  that reports the extents"""
    ev = lambda a, b, c: f'ev_val3({a}, {b}, {c}); ev_ptr(data, 0);'
    err = 'throw std::out_of_range("x");'
    mx2 = 'szt m = x > y ? x : y;'
    mx3 = 'szt m = x > y ? x : y; m = m > z ? m : z;'
    d1 = f'if (y != 1 || z != 1) {err} ' + ladder('x', T1, lambda k: ev(k, 1, 1))
    d2u = lambda t: f'if (z != 1) {err} {mx2} ' + ladder('m', t, lambda k: ev(k, k, 1))
    d3u = lambda t: mx3 + ladder('m', t, lambda k: ev(k, k, k))
    nest = lambda v, t, use: ''.join(f' if ({v} <= {k}u) {{ {use(k)} }} else' for k in t) + f' {{ {err} }}'
    full = lambda a, b, c: nest('x', a, lambda i: nest('y', b, lambda j: nest('z', c, lambda k: ev(i, j, k))))
    return {
        'default': f'if (y > 1 && z > 1) {{ {d3u(T3)} }} if (y > 1) {{ {d2u(T2)} }} {d1}',
        '1d': d1, '2du': d2u(T2), '3du': d3u(T3), '2d': full(T2, T2, [1]), '3d': full(T3, T3, T3),
        'custom': full(*CU), 'customu3': d3u(CUU), 'customu2': d2u(CUU),
        'customu1': f'if (y != 1 || z != 1) {err} ' + ladder('x', CUU, lambda k: ev(k, 1, 1)),
    }[kind]


APIS = {
    'default': '',
    '1d': 'class API : public api_traits::has_default_1d_sizes {};',
    '2du': 'class API : public api_traits::has_default_2d_sizes_uniform {};',
    '3du': 'class API : public api_traits::has_default_3d_sizes_uniform {};',
    '2d': 'class API : public api_traits::has_default_2d_sizes {};',
    '3d': 'class API : public api_traits::has_default_3d_sizes {};',
    'custom': f'class API : public api_traits::has_custom_sizes {{ public: LIBFLATARRAY_CUSTOM_SIZES({seq(CU[0])}, {seq(CU[1])}, {seq(CU[2])}) }};',
    'customu3': f'class API : public api_traits::has_custom_sizes {{ public: LIBFLATARRAY_CUSTOM_SIZES_3D_UNIFORM({seq(CUU)}) }};',
    'customu2': f'class API : public api_traits::has_custom_sizes {{ public: LIBFLATARRAY_CUSTOM_SIZES_2D_UNIFORM({seq(CUU)}) }};',
    'customu1': f'class API : public api_traits::has_custom_sizes {{ public: LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM({seq(CUU)}) }};',
}
REPORT = '''
struct report {
    template<class ACC> void operator()(ACC& a) const { ev_val3(ACC::DIM_X, ACC::DIM_Y, ACC::DIM_Z); ev_ptr(a.data(), a.index()); }
};
struct creport {
    template<class ACC> void operator()(ACC a) const { ev_val3(ACC::DIM_X, ACC::DIM_Y, ACC::DIM_Z); ev_ptr(a.data(), a.index()); }
};
'''


def unit_dispatch():
    """which storage extents a functor sees, for arbitrary run time dimensions"""
    us = []
    for kind, api in APIS.items():
        c = Cell('CX', [('int', 'i', None), ('float', 'f', None)], api)
        u = Unit(f'disp{kind}', HEAD + c.decl() + REPORT)
        spec = dispatch_spec(kind)
        P = 'char *data, szt x, szt y, szt z'
        u.pair('select', P, 'report f; api_traits::select_sizes<CX>()(data, f, x, y, z);', spec)
        u.pair('selectconst', P.replace('char', 'const char'), 'report f; api_traits::select_sizes<CX>()(data, f, x, y, z);', spec)
        us.append(u)
    return us



def select_extents(kind, tables, body):
    """specification text: extents chosen for the run time dimensions gx,gy,gz; body(ex,ey,ez) or out_of_range"""
    err = 'throw std::out_of_range("x");'
    nest = lambda v, t, use: ''.join(f' if ({v} <= {k}u) {{ {use(k)} }} else' for k in t) + f' {{ {err} }}'
    if kind == 'full':
        return nest('gx', tables[0], lambda i: nest('gy', tables[1], lambda j: nest('gz', tables[2], lambda k: body(i, j, k))))
    if kind == 'u1':
        return f'if (gy != 1 || gz != 1) {err} ' + nest('gx', tables, lambda k: body(k, 1, 1))
    if kind == 'u2':
        return f'if (gz != 1) {err} szt m = gx > gy ? gx : gy; ' + nest('m', tables, lambda k: body(k, k, 1))
    if kind == 'u3':
        return 'szt m = gx > gy ? gx : gy; m = m > gz ? m : gz; ' + nest('m', tables, lambda k: body(k, k, k))
    if kind == 'default':
        return (f'if (gy > 1 && gz > 1) {{ {select_extents("u3", T3, body)} return; }} if (gy > 1) {{ {select_extents("u2", T2, body)} return; }} {select_extents("u1", T1, body)}')
    raise ValueError(kind)


GRIDAPI = {
    # name: (api text, selection kind, tables)
    'cus': ('class API : public api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES((3)(8), (2)(5), (1)(4)) };', 'full', [[3, 8], [2, 5], [1, 4]]),
    'u3': ('class API : public api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES_3D_UNIFORM((4)(7)(40)) };', 'u3', [4, 7, 40]),
    'u2': ('class API : public api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES_2D_UNIFORM((6)(33)) };', 'u2', [6, 33]),
    'u1': ('class API : public api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((5)(16)(100)) };', 'u1', [5, 16, 100]),
    'def': ('', 'default', None),
    'big': ('class API : public api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES((4)(300), (2)(300), (1)(300)) };', 'full', [[4, 300], [2, 300], [1, 300]]),
    'asy': ('class API : public api_traits::has_custom_sizes, public api_traits::has_asymmetric_dual_callback { public: LIBFLATARRAY_CUSTOM_SIZES((3)(8), (2)(5), (1)(4)) };', 'full', [[3, 8], [2, 5], [1, 4]]),
}
GRIDAPI['one'] = ('class API : public api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES((100000), (3), (2)) };', 'full', [[100000], [3], [2]])
# run lengths every implementation technique (blocking, unrolling, narrow counters) distinguishes
COUNTS = list(range(4, 36)) + [40, 47, 48, 63, 64, 65, 95, 96, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025]
MEMB = {
    'S': [('int', 'i', None)],
    'R': [('double', 'd', None), ('short', 't', 2)],
    'A': [('double', 'd', None), ('char', 'c', None), ('int', 'i', None)],
    'B': [('float', 'a', None), ('double', 'arr', 3), ('short', 't', 2)],
}


def gridcell(api, m):
    return Cell('CX', MEMB[m], GRIDAPI[api][0])


GDIMS = 'const szt gx = g->dim_x(), gy = g->dim_y(), gz = g->dim_z();'
GOPT = 'ign=0:4096'


def spec_all(api, body):
    a = GRIDAPI[api]
    return select_extents(a[1], a[2], body)


def unit_gridcell(apis=(('cus', 'A'), ('cus', 'B'), ('u3', 'B'), ('u2', 'A'), ('u1', 'B'), ('def', 'A')), bound=3, counts=COUNTS):
    """set/get/broadcast of cells, for any grid (symbolic object: any dimensions, any contents)"""
    us = []
    for api, m in apis:
        c = gridcell(api, m)
        u = Unit(f'gcell_{api}{m}', HEAD + c.decl() + 'typedef soa_grid<CX> G; typedef soa_grid<CX, rec_alloc<char> > GR;')
        G = 'G'
        loop = lambda body: f'for (szt k = 0; k < count; ++k) {{ {body} }}'
        def at(base):
            return lambda ex, ey, ez, k='0': soaelem(base, ex * ey * ez, f'(long)x + {ex} * (long)y + {ex * ey} * (long)z + (long)({k})')
        D = at('g->data()')
        pos = 'szt x, szt y, szt z'
        A = f'ASSUME(count <= {bound});' if api != 'def' else 'ASSUME(count <= 2);'
        S = lambda body: GDIMS + ' ' + spec_all(api, body)
        u.pair('set', f'G *g, {pos}, const CX *cell', 'g->set(x, y, z, *cell);', S(lambda *e: copy_elems(c, D(*e), cellelem('cell->'))), opts=GOPT)
        u.pair('get', f'const G *g, {pos}, CX *cell', 'CX t = g->get(x, y, z); ' + copy_elems(c, cellelem('cell->'), cellelem('t.')), S(lambda *e: copy_elems(c, cellelem('cell->'), D(*e))), opts=GOPT)
        u.pair('setn', f'G *g, {pos}, const CX *cells, szt count', A + 'g->set(x, y, z, cells, count);', A + S(lambda *e: loop(copy_elems(c, D(*e, 'k'), cellelem('cells[k].')))), opts=GOPT)
        u.pair('getn', f'const G *g, {pos}, CX *cells, szt count', A + 'g->get(x, y, z, cells, count);', A + S(lambda *e: loop(copy_elems(c, cellelem('cells[k].'), D(*e, 'k')))), opts=GOPT)
        u.pair('bcast', f'G *g, {pos}, const CX *cell, szt count', A + 'g->broadcast(x, y, z, *cell, count);', A + S(lambda *e: loop(copy_elems(c, D(*e, 'k'), cellelem('cell->')))), opts=GOPT)
        us.append(u)
    # long runs: constant counts, one storage extent
    for m in ('S', 'R'):
        c = gridcell('one', m)
        u = Unit(f'gcell_long{m}', HEAD + c.decl() + 'typedef soa_grid<CX> G;')
        D = lambda k: soaelem('g->data()', 600000, f'(long)x + 100000 * (long)y + 300000 * (long)z + (long)({k})')
        S = lambda body: GDIMS + ' ' + spec_all('one', lambda *e: body)
        pos = 'szt x, szt y, szt z'
        for n in counts:
            loop = lambda body: f'for (szt k = 0; k < {n}; ++k) {{ {body} }}'
            u.pair(f'setn_{n}', f'G *g, {pos}, const CX *cells', f'g->set(x, y, z, cells, {n});', S(loop(copy_elems(c, D('k'), cellelem('cells[k].')))), opts=GOPT)
            u.pair(f'getn_{n}', f'const G *g, {pos}, CX *cells', f'g->get(x, y, z, cells, {n});', S(loop(copy_elems(c, cellelem('cells[k].'), D('k')))), opts=GOPT)
            u.pair(f'bcast_{n}', f'G *g, {pos}, const CX *cell', f'g->broadcast(x, y, z, *cell, {n});', S(loop(copy_elems(c, D('k'), cellelem('cell->')))), opts=GOPT)
        us.append(u)
    return us


def unit_gridraw(apis=(('cus', 'A'), ('u3', 'B'), ('u2', 'A'), ('u1', 'B'), ('def', 'A')), bound=3, counts=COUNTS,
                 runlists=((5, 0, 7), (1, 1, 1, 1, 1), (0, 0, 3, 0, 2), (64, 1, 33), (1,) * 9, (2, 1) * 8, (3,) * 17, (130, 2, 130), (300, 5))):
    """load/save between grids and raw buffers, single runs and lists of runs"""
    us = []
    for api, m in apis:
        c = gridcell(api, m)
        u = Unit(f'graw_{api}{m}', HEAD + c.decl() + """typedef soa_grid<CX> G;
struct Run { szt origin[3]; szt len; szt length() const { return len; } };
struct IRun { int origin[3]; int len; int length() const { return len; } };
struct LIter { const Run *p; const Run* operator->() const { return p; } LIter& operator++() { ++p; return *this; } bool operator!=(const LIter& o) const { return p != o.p; } bool operator==(const LIter& o) const { return p == o.p; } };
""")
        b = bound if api != 'def' else 2
        A = f'ASSUME(count <= {b});'
        loop = lambda body, n='count': f'for (szt k = 0; k < {n}; ++k) {{ {body} }}'
        D = lambda e, x, y, z, k: soaelem('g->data()', e[0] * e[1] * e[2], f'(long)({x}) + {e[0]} * (long)({y}) + {e[0] * e[1]} * (long)({z}) + (long)({k})')
        B = lambda k: soaelem('buf', '(long)count', f'(long)({k})')
        S = lambda body: GDIMS + ' ' + spec_all(api, body)
        pos = 'szt x, szt y, szt z'
        u.pair('load', f'G *g, {pos}, const char *buf, szt count', A + 'g->load(x, y, z, buf, count);', A + S(lambda *e: loop(copy_elems(c, D(e, 'x', 'y', 'z', 'k'), B('k')))), opts=GOPT)
        u.pair('save', f'const G *g, {pos}, char *buf, szt count', A + 'g->save(x, y, z, buf, count);', A + S(lambda *e: loop(copy_elems(c, B('k'), D(e, 'x', 'y', 'z', 'k')))), opts=GOPT)
        if api == 'def':
            us.append(u); continue
        for nruns in (0, 1, 2, 3):
            for T, it in (('Run', 'const Run*'), ('IRun', 'const IRun*'), ('Run', 'LIter')):
                if it == 'LIter' and nruns == 1: continue
                mkit = (lambda q: f'LIter{{{q}}}') if it == 'LIter' else (lambda q: q)
                lens = ''.join(f'ASSUME(runs[{j}].len {">= 0 && runs[%d].len " % j if T == "IRun" else ""}<= {2 if nruns > 1 else b});' for j in range(nruns))
                def body(dst_is_grid):
                    def f(*e):
                        t, offs = '', '0'
                        for j in range(nruns):
                            o = f'runs[{j}].origin'
                            d, s = D(e, o + '[0]', o + '[1]', o + '[2]', 'k'), B(f'{offs} + k')
                            if not dst_is_grid: d, s = s, d
                            t += f' for (szt k = 0; k < (szt)runs[{j}].len; ++k) {{ {copy_elems(c, d, s)} }}'
                            offs += f' + (szt)runs[{j}].len'
                        return t
                    return f
                nm = f'{nruns}{T}{"L" if it == "LIter" else ""}'
                u.pair(f'loadruns{nm}', f'G *g, const {T} *runs, const char *buf, szt count', lens + f'g->load({mkit("runs")}, {mkit(f"runs + {nruns}")}, buf, count);', lens + S(body(True)), opts=GOPT)
                u.pair(f'saveruns{nm}', f'const G *g, const {T} *runs, char *buf, szt count', lens + f'g->save({mkit("runs")}, {mkit(f"runs + {nruns}")}, buf, count);', lens + S(body(False)), opts=GOPT)
        us.append(u)
    # long runs: constant lengths, one storage extent
    for m in ('S', 'R'):
        c = gridcell('one', m)
        u = Unit(f'graw_long{m}', HEAD + c.decl() + 'typedef soa_grid<CX> G; struct Run { szt origin[3]; szt len; szt length() const { return len; } };')
        D = lambda x, y, z, k: soaelem('g->data()', 600000, f'(long)({x}) + 100000 * (long)({y}) + 300000 * (long)({z}) + (long)({k})')
        S = lambda body: GDIMS + ' ' + spec_all('one', lambda *e: body)
        pos = 'szt x, szt y, szt z'
        for n in counts:
            loop = lambda body: f'for (szt k = 0; k < {n}; ++k) {{ {body} }}'
            B = soaelem('buf', n, 'k')
            u.pair(f'load_{n}', f'G *g, {pos}, const char *buf', f'g->load(x, y, z, buf, {n});', S(loop(copy_elems(c, D('x', 'y', 'z', 'k'), B))), opts=GOPT)
            u.pair(f'save_{n}', f'const G *g, {pos}, char *buf', f'g->save(x, y, z, buf, {n});', S(loop(copy_elems(c, B, D('x', 'y', 'z', 'k')))), opts=GOPT)
        for lens in runlists:
            nm = '_'.join(map(str, lens)) if len(lens) < 9 else f'{len(lens)}runs'
            init = 'Run r[] = {' + ', '.join(f'{{{{o[{3 * j}], o[{3 * j + 1}], o[{3 * j + 2}]}}, {l}}}' for j, l in enumerate(lens)) + '};'
            def body(dst_is_grid):
                t, at = '', 0
                for j, l in enumerate(lens):
                    d, q = D(f'o[{3 * j}]', f'o[{3 * j + 1}]', f'o[{3 * j + 2}]', 'k'), soaelem('buf', 'count', f'{at} + k')
                    if not dst_is_grid: d, q = q, d
                    t += f' for (szt k = 0; k < {l}; ++k) {{ {copy_elems(c, d, q)} }}'
                    at += l
                return t
            E = f'(const Run*)r, (const Run*)r + {len(lens)}'
            u.pair(f'loadruns_{nm}', 'G *g, const szt *o, const char *buf, szt count', init + f'g->load({E}, buf, count);', S(body(True)), opts=GOPT)
            u.pair(f'saveruns_{nm}', 'const G *g, const szt *o, char *buf, szt count', init + f'g->save({E}, buf, count);', S(body(False)), opts=GOPT)
        us.append(u)
    return us



# ---------------------------------------------------------------- life cycle of grids
# The default allocator is replaced by one that reports every request and release.
LHEAD = '''#include <libflatarray/aligned_allocator.hpp>
#include "vf.hpp"
namespace LibFlatArray {
template<> class aligned_allocator<char, 4096> { public:
    typedef char value_type;
    char *allocate(std::size_t n, const void* = 0) { return ev_alloc(n); }
    void deallocate(char *p, std::size_t n) { ev_free(p, n); } };
}
#include <libflatarray/flat_array.hpp>
using namespace LibFlatArray;
struct Vec3 { float x, y, z; };
// construction (by whatever constructor) and destruction are observable, assignment just copies
struct Trk { int v;
    Trk() { ev_ctor(this, 0); } Trk(const Trk& o) : v(o.v) { ev_ctor(this, 0); } ~Trk() { ev_dtor(this); } Trk& operator=(const Trk& o) { v = o.v; ev_use(this); ev_use(&o); return *this; } };
#define AT(T, B, O) (*(T*)((char*)(B) + (O)))
#define BOBS(g) ev_val3((g).dim_x(), (g).dim_y(), (g).dim_z()); ev_val3((g).extent_x(), (g).extent_y(), (g).extent_z()); ev_val((g).byte_size());
#define OBS(g) ev_val3((g).dim_x(), (g).dim_y(), (g).dim_z()); ev_val3((g).extent_x(), (g).extent_y(), (g).extent_z()); ev_val((g).byte_size()); ev_ptr((g).data(), 0);
#define SOBS(d, x, y, z, e, ex, ey, ez, n, p) ev_val3(x, y, z); ev_val3(ex, ey, ez); ev_val(n); ev_ptr(p, 0);
'''
SIZES['Trk'] = 4
LMEMB = {
    'T': [('double', 'd', None), ('Trk', 't', None), ('Trk', 'u', 2), ('short', 's', None)],
    'P': [('float', 'a', None), ('double', 'arr', 2), ('char', 'c', None)],
}


# grids with another allocator: the default allocator must not be involved at all
def anyhead(head):
    return head.replace('{ return ev_alloc(n); }', '{ ev_val(666); return ev_alloc(n); }').replace('{ ev_free(p, n); }', '{ ev_val(667); ev_free(p, n); }')


def gtype(other):
    return 'typedef soa_grid<CX%s> G;' % (', rec_alloc<char> ' if other else '')


def pick(api, d):
    """extents the documented size tables give for constant dimensions"""
    kind, tables = GRIDAPI[api][1:]
    up = lambda t, v: next((k for k in t if v <= k), None)
    if kind == 'full':
        e = tuple(up(t, v) for t, v in zip(tables, d))
    elif kind == 'default':
        if d[1] > 1 and d[2] > 1:
            k = up(T3, max(d)); e = (k, k, k)
        elif d[1] > 1:
            k = up(T2, max(d[:2])); e = (k, k, 1) if d[2] == 1 else (None,) * 3
        else:
            e = (up(T1, d[0]), 1, 1) if d[1] == 1 and d[2] == 1 else (None,) * 3
    else:
        raise ValueError(kind)
    return None if None in e else e


def cells_of(d):
    return [(x, y, z) for z in range(d[2]) for y in range(d[1]) for x in range(d[0])]


class G_:
    """specification-side model of one grid with constant dimensions, storage in pointer `p`"""
    def __init__(self, c, api, d, p):
        self.c, self.d, self.p = c, d, p
        self.e = (0, 0, 0) if d == (0, 0, 0) else pick(api, d)
        self.n = self.e[0] * self.e[1] * self.e[2] * c.agg
        self.prod = self.e[0] * self.e[1] * self.e[2]

    def elem(self, pos, e):
        i = pos[0] + self.e[0] * pos[1] + self.e[0] * self.e[1] * pos[2]
        return f'AT({e[0]}, {self.p}, {self.prod * e[2] + i * e[3]})'

    def alloc(self, decl=True):
        if not self.n:
            return f'{"char *" if decl else ""}{self.p} = 0;'
        return f'{"char *" if decl else ""}{self.p} = ev_alloc({self.n});'

    def construct(self):
        t = ''
        for pos in cells_of(self.d):
            for e in self.c.elems():
                t += f' ev_ctor(&{self.elem(pos, e)}, 0);' if e[0] == 'Trk' else f' {self.elem(pos, e)} = 0;'
        return t

    def destroy(self):
        if not self.n: return ''
        t = ''
        for pos in cells_of(self.d):
            for e in self.c.elems():
                if e[0] == 'Trk': t += f' ev_dtor(&{self.elem(pos, e)});'
        return t + f' ev_free({self.p}, {self.n});'

    def copy(self, o):
        return ''.join(f' {self.elem(pos, e)} = {o.elem(pos, e)}' + ('.v;' if 0 else ';') for pos in cells_of(self.d) for e in self.c.elems() if e[0] != 'Trk') + \
            ''.join(f' {self.elem(pos, e)}.v = {o.elem(pos, e)}.v;' for pos in cells_of(self.d) for e in self.c.elems() if e[0] == 'Trk')

    def obs(self):
        return f' ev_val3({self.d[0]}, {self.d[1]}, {self.d[2]}); ev_val3({self.e[0]}, {self.e[1]}, {self.e[2]}); ev_val({self.n}); ev_ptr({self.p}, 0);'

    def bobs(self):
        return f' ev_val3({self.d[0]}, {self.d[1]}, {self.d[2]}); ev_val3({self.e[0]}, {self.e[1]}, {self.e[2]}); ev_val({self.n});'

    def dims(self):
        return f'{self.d[0]}, {self.d[1]}, {self.d[2]}'


# arbitrary contents: every stored element is overwritten with caller-provided data first
def fill_spec(g, src):
    t, o = '', 0
    for pos in cells_of(g.d):
        for e in g.c.elems():
            v = '.v' if e[0] == 'Trk' else ''
            ty = 'int' if e[0] == 'Trk' else e[0]
            t += f' {g.elem(pos, e)}{v} = AT({ty}, {src}, {o});'; o += 8
    return t


def fill_probe(g, name, src):
    """through the public accessor interface"""
    t, o = f'{name}.callback(filler{{{src}, {g.d[0]}, {g.d[1]}, {g.d[2]}}});', 0
    return t


def filler(c, bal=False):
    t = f'static const bool bal = {str(bal).lower()};\n' + 'struct filler { const char *src; szt dx, dy, dz; template<class ACC> void operator()(ACC& a) const { szt o = 0; for (szt z = 0; z < dz; ++z) for (szt y = 0; y < dy; ++y) for (szt x = 0; x < dx; ++x) { a.index() = ACC::gen_index(x, y, z);'
    for e in c.elems():
        v = '.v' if e[0] == 'Trk' else ''
        ty = 'int' if e[0] == 'Trk' else e[0]
        if v: t += f' if (bal) ev_use(&{get(e)});'
        t += f' {get(e)}{v} = AT({ty}, src, o); o += 8;'
    t += ' } } };\n'
    t += 'struct reader { char *dst; szt dx, dy, dz; template<class ACC> void operator()(ACC& a) const { szt o = 0; for (szt z = 0; z < dz; ++z) for (szt y = 0; y < dy; ++y) for (szt x = 0; x < dx; ++x) { a.index() = ACC::gen_index(x, y, z);'
    for e in c.elems():
        v = '.v' if e[0] == 'Trk' else ''
        ty = 'int' if e[0] == 'Trk' else e[0]
        if v: t += f' if (bal) ev_use(&{get(e)});'
        t += f' AT({ty}, dst, o) = {get(e)}{v}; o += 8;'
    return t + ' } } };\n'


def read_probe(g, name, dst):
    return f' {name}.callback(reader{{{dst}, {g.d[0]}, {g.d[1]}, {g.d[2]}}});'


def read_spec(g, dst):
    t, o = '', 0
    for pos in cells_of(g.d):
        for e in g.c.elems():
            v = '.v' if e[0] == 'Trk' else ''
            ty = 'int' if e[0] == 'Trk' else e[0]
            t += f' AT({ty}, {dst}, {o}) = {g.elem(pos, e)}{v};'; o += 8
    return t


LDIMS = {'cus': [(1, 1, 1), (3, 2, 1), (4, 5, 3), (2, 1, 4), (8, 3, 1)], 'def': [(1, 1, 1), (5, 1, 1), (4, 3, 1), (3, 2, 4), (40, 1, 1), (2, 33, 1), (2, 2, 33)],
         'asy': [(1, 1, 1), (3, 2, 1), (4, 5, 3)], 'big': [(300, 2, 1), (3, 260, 1), (2, 1, 270), (17, 16, 2)]}
# pairs of dimensions: equal layouts with different dimensions, equal cell counts in different shapes, rows or planes that
# fill the layout completely or in part
LREL = {'cus': [(1, 1, 1), (3, 2, 1), (2, 1, 4), (2, 2, 2), (1, 2, 4), (3, 1, 2), (3, 2, 3), (4, 1, 1)], 'def': [(1, 1, 1), (5, 1, 1), (1, 5, 1), (2, 3, 2), (3, 2, 2), (32, 1, 1)],
        'asy': [(1, 1, 1), (3, 1, 2), (2, 2, 2)], 'big': []}
LBAD = {'cus': [(9, 1, 1), (1, 6, 1), (2, 2, 5)], 'def': [(5, 5, 2000), (3, 40000, 1), (2, 0, 1), (2, 1, 0)], 'asy': [], 'big': [(301, 1, 1), (1, 1, 301)]}


def dpairs(api, step=2):
    ds = LDIMS[api]
    l = [p for k in range(1, step + 1) for p in zip(ds, ds[k:] + ds[:k])] + [(a, b) for a in LREL[api] for b in LREL[api] if a != b]
    return list(dict.fromkeys(l))


def dtriples(api):
    l = LREL[api][:6]
    return [(a, b, a) for a in l for b in l if a != b] + [(l[i], l[(i + j) % len(l)], l[(i + k) % len(l)]) for i in range(len(l)) for j, k in ((1, 2), (2, 1), (3, 5)) if j % len(l) and k % len(l) and (j - k) % len(l)]


def unit_life(apis=(('cus', 'T'), ('cus', 'P'), ('def', 'T'), ('big', 'P')), other=False):
    """allocation, construction, destruction, deallocation; sizes; resize"""
    us = []
    for api, m in apis:
        c = Cell('CX', LMEMB[m], GRIDAPI[api][0])
        u = Unit(f'life{"any" if other else ""}_{api}{m}', (anyhead(LHEAD) if other else LHEAD) + c.decl() + filler(c) + gtype(other))
        ds = LDIMS[api]
        nm = lambda d: 'x'.join(map(str, d))
        for d in ds:
            g = G_(c, api, d, 's')
            u.pair(f'life{nm(d)}', 'void', f'G g({g.dims()}); OBS(g)', g.alloc() + g.construct() + g.obs() + g.destroy())
            u.pair(f'init{nm(d)}', 'char *out', f'G g({g.dims()});' + read_probe(g, 'g', 'out') if m == 'P' else f'G g({g.dims()});', g.alloc() + g.construct() + (read_spec(g, 'out') if m == 'P' else '') + g.destroy())
            u.pair(f'same{nm(d)}', 'const char *src, char *out', f'G g({g.dims()}); {fill_probe(g, "g", "src")} g.resize({g.dims()}); OBS(g) {read_probe(g, "g", "out")}',
                   g.alloc() + g.construct() + fill_spec(g, 'src') + g.obs() + read_spec(g, 'out') + g.destroy())
            h = G_(c, api, (0, 0, 0), 'n')
            u.pair(f'fromempty{nm(d)}', 'void', f'G g; g.resize({g.dims()}); OBS(g)', g.alloc() + g.construct() + g.obs() + g.destroy())
            u.pair(f'toempty{nm(d)}', 'void', f'G g({g.dims()}); g.resize(0, 0, 0); ev_val3(g.dim_x(), g.dim_y(), g.dim_z());', g.alloc() + g.construct() + g.destroy() + 'ev_val3(0, 0, 0);')
        for d in LBAD[api]:
            u.pair(f'bad{nm(d)}', 'void', f'G g({d[0]}, {d[1]}, {d[2]});', 'throw std::out_of_range("x");')
        u.pair('empty', 'void', 'G g; ev_val3(g.dim_x(), g.dim_y(), g.dim_z()); ev_val(g.byte_size());', 'ev_val3(0, 0, 0); ev_val(0);')
        if api == 'cus':
            # any dimensions up to 2x2x2
            A = 'ASSUME(x >= 1 && x <= 2 && y >= 1 && y <= 2 && z >= 1 && z <= 2);'
            body = lambda tr, oth: ''.join(f' for (szt k = 0; k < 2; ++k) for (szt j = 0; j < 2; ++j) for (szt i = 0; i < 2; ++i) if (i < x && j < y && k < z) {{ {tr(e) if e[0] == "Trk" else oth(e)} }}' for e in c.elems())
            def el(e):
                return f'AT({e[0]}, s, ez * {6 * e[2]} + (long)(i + 3 * j + 6 * k) * {e[3]})'
            for ez in (1, 4):
                Z = f'ASSUME(z {"== 1" if ez == 1 else "== 2"});'
                pre = A + Z + f' const long ez = {ez}; char *s = ev_alloc(ez * {6 * c.agg});' + body(lambda e: f'ev_ctor(&{el(e)}, 0);', lambda e: f'{el(e)} = 0;')
                post = body(lambda e: f'ev_dtor(&{el(e)});', lambda e: '') + f' ev_free(s, ez * {6 * c.agg});'
                u.pair(f'sym{ez}', 'szt x, szt y, szt z', A + Z + 'G g(x, y, z); OBS(g)', pre + f' ev_val3(x, y, z); ev_val3(3, 2, ez); ev_val(ez * {6 * c.agg}); ev_ptr(s, 0);' + post)
                u.pair(f'symrs{ez}', 'szt x, szt y, szt z', A + Z + 'G g; g.resize(x, y, z); OBS(g) g.resize(0, 0, 0);', pre + f' ev_val3(x, y, z); ev_val3(3, 2, ez); ev_val(ez * {6 * c.agg}); ev_ptr(s, 0);' + post)
        us.append(u)
    return us


def unit_resize(apis=(('cus', 'T'), ('cus', 'P'), ('def', 'T'), ('big', 'P')), other=False):
    """changing the dimensions: sizes, every cell alive afterwards, nothing leaked, refused sizes leave the grid alone"""
    us = []
    for api, m in apis:
        c = Cell('CX', LMEMB[m], GRIDAPI[api][0])
        u = Unit(f'resize{"any" if other else ""}_{api}{m}', (anyhead(LHEAD) if other else LHEAD) + c.decl() + filler(c, True) + gtype(other))
        ds = LDIMS[api]
        nm = lambda d: 'x'.join(map(str, d))
        B = 'balance'
        for a, b in dpairs(api):
            g, h = G_(c, api, a, 's'), G_(c, api, b, 't')
            # what the cells hold is up to the caller: they are written and read back
            u.pair(f'to{nm(a)}_{nm(b)}', 'const char *src, char *out', f'G g({g.dims()}); BOBS(g) g.resize({h.dims()}); BOBS(g) {fill_probe(h, "g", "src")} {read_probe(h, "g", "out")}',
                   g.bobs() + h.bobs() + h.alloc() + fill_spec(h, 'src') + read_spec(h, 'out'), opts=B)
            u.pair(f'via0_{nm(a)}_{nm(b)}', 'const char *src, char *out', f'G g({g.dims()}); g.resize(0, 0, 0); ev_val3(g.dim_x(), g.dim_y(), g.dim_z()); g.resize({h.dims()}); BOBS(g) {fill_probe(h, "g", "src")} {read_probe(h, "g", "out")}',
                   'ev_val3(0, 0, 0);' + h.bobs() + h.alloc() + fill_spec(h, 'src') + read_spec(h, 'out'), opts=B)
        for a, b, d in dtriples(api):
            g, h, k = G_(c, api, a, 's'), G_(c, api, b, 't'), G_(c, api, d, 'w')
            u.pair(f'twice{nm(a)}_{nm(b)}_{nm(d)}', 'const char *src, char *out', f'G g({g.dims()}); g.resize({h.dims()}); BOBS(g) {fill_probe(h, "g", "src")} g.resize({k.dims()}); BOBS(g) {fill_probe(k, "g", "src")} {read_probe(k, "g", "out")}',
                   h.bobs() + k.bobs() + k.alloc() + fill_spec(k, 'src') + read_spec(k, 'out'), opts=B)
        for d in LBAD[api]:
            for e in ds[:3]:
                g = G_(c, api, e, 's')
                u.pair(f'bad{nm(e)}_{nm(d)}', 'const char *src, char *out', f'G g({g.dims()}); {fill_probe(g, "g", "src")} try {{ g.resize({d[0]}, {d[1]}, {d[2]}); }} catch (const std::out_of_range&) {{ ev_val(77); }} BOBS(g) {read_probe(g, "g", "out")}',
                       'ev_val(77);' + g.alloc() + fill_spec(g, 'src') + g.bobs() + read_spec(g, 'out'), opts=B)
        us.append(u)
    return us


def unit_copy(apis=(('cus', 'T'), ('cus', 'P'), ('def', 'P'), ('asy', 'P'), ('big', 'P')), other=False):
    """copy construction, assignment, swap"""
    us = []
    for api, m in apis:
        c = Cell('CX', LMEMB[m], GRIDAPI[api][0])
        u = Unit(f'copy{"any" if other else ""}_{api}{m}', (anyhead(LHEAD) if other else LHEAD) + c.decl() + filler(c, True) + gtype(other))
        ds = LDIMS[api]
        pair = u.pair
        u.pair = lambda *a: pair(*a, opts='balance')
        nm = lambda d: 'x'.join(map(str, d))
        for d in list(dict.fromkeys(ds + LREL[api])):
            g, h = G_(c, api, d, 's'), G_(c, api, d, 't')
            u.pair(f'ctor{nm(d)}', 'const char *src, const char *src2, char *out, char *out2', f'G a({g.dims()}); {fill_probe(g, "a", "src")} const G& ca = a; G b(ca); BOBS(b) {read_probe(h, "b", "out")} {fill_probe(h, "b", "src2")} {read_probe(g, "a", "out2")}',
                   g.alloc() + g.construct() + fill_spec(g, 'src') + h.alloc() + h.construct() + h.copy(g) + h.bobs() + read_spec(h, 'out') + fill_spec(h, 'src2') + read_spec(g, 'out2') + h.destroy() + g.destroy())
            u.pair(f'self{nm(d)}', 'const char *src, char *out', f'G a({g.dims()}); {fill_probe(g, "a", "src")} G& r = a; a = r; BOBS(a) {read_probe(g, "a", "out")}',
                   g.alloc() + g.construct() + fill_spec(g, 'src') + g.bobs() + read_spec(g, 'out') + g.destroy())
            u.pair(f'assignempty{nm(d)}', 'void', f'G a({g.dims()}); G e; a = e; ev_val3(a.dim_x(), a.dim_y(), a.dim_z());', g.alloc() + g.construct() + g.destroy() + 'ev_val3(0, 0, 0);')
            u.pair(f'toempty{nm(d)}', 'const char *src, char *out', f'G a({g.dims()}); {fill_probe(g, "a", "src")} G b; b = a; BOBS(b) {read_probe(h, "b", "out")}',
                   g.alloc() + g.construct() + fill_spec(g, 'src') + h.alloc() + h.construct() + h.copy(g) + h.bobs() + read_spec(h, 'out') + h.destroy() + g.destroy())
        for a, b in dpairs(api, 1) + [(ds[1], ds[1])]:
            g, h, k = G_(c, api, a, 's'), G_(c, api, b, 't'), G_(c, api, a, 't2')
            same = a == b
            u.pair(f'assign{nm(a)}_{nm(b)}', 'const char *src, const char *src2, char *out, char *out2', f'G a({g.dims()}); G b({h.dims()}); {fill_probe(g, "a", "src")} {fill_probe(h, "b", "src2")} b = a; BOBS(b) BOBS(a) {read_probe(k, "b", "out")} {read_probe(g, "a", "out2")}',
                   g.alloc() + h.alloc() + g.construct() + h.construct() + fill_spec(g, 'src') + fill_spec(h, 'src2') +
                   ((f' char *t2 = t;') if same else (h.destroy() + k.alloc() + k.construct())) + k.copy(g) + k.bobs() + g.bobs() + read_spec(k, 'out') + read_spec(g, 'out2') + k.destroy() + g.destroy())
            for how, txt in (('m', 'a.swap(b);'), ('f', 'swap(a, b);')):
                u.pair(f'swap{how}{nm(a)}_{nm(b)}', 'const char *src, const char *src2, char *out, char *out2', f'G a({g.dims()}); G b({h.dims()}); {fill_probe(g, "a", "src")} {fill_probe(h, "b", "src2")} {txt} BOBS(a) BOBS(b) {read_probe(h, "a", "out")} {read_probe(g, "b", "out2")}',
                       g.alloc() + h.alloc() + g.construct() + h.construct() + fill_spec(g, 'src') + fill_spec(h, 'src2') + h.bobs() + g.bobs() + read_spec(h, 'out') + read_spec(g, 'out2') + g.destroy() + h.destroy())
            u.pair(f'swapempty{nm(a)}', 'const char *src, char *out', f'G a({g.dims()}); G b; {fill_probe(g, "a", "src")} a.swap(b); ev_val3(a.dim_x(), a.dim_y(), a.dim_z()); BOBS(b) {read_probe(g, "b", "out")}',
                   g.alloc() + g.construct() + fill_spec(g, 'src') + 'ev_val3(0, 0, 0);' + g.bobs() + read_spec(g, 'out') + g.destroy()) if not same and f'{u.name}_swapempty{nm(a)}' not in u.names else None
        for a, b, d in dtriples(api):
            g, h, k = G_(c, api, a, 's'), G_(c, api, b, 't'), G_(c, api, d, 'w')
            n3 = f'{nm(a)}_{nm(b)}_{nm(d)}'
            # a resized grid is copied and assigned from; later resizes do not reach the copies
            u.pair(f'assignhist{n3}', 'const char *src, char *out, char *out2, char *out3', f'G x({g.dims()}); x.resize({h.dims()}); {fill_probe(h, "x", "src")} G y(x); G z({k.dims()}); z = y; x.resize({k.dims()}); BOBS(x) BOBS(y) BOBS(z) {read_probe(h, "y", "out")} {read_probe(h, "z", "out2")} {fill_probe(k, "x", "src")} x = z; BOBS(x) {read_probe(h, "x", "out3")}',
                   k.bobs() + h.bobs() + h.bobs() + h.bobs() + h.alloc() + fill_spec(h, 'src') + read_spec(h, 'out') + read_spec(h, 'out2') + read_spec(h, 'out3'))
            u.pair(f'swaphist{n3}', 'const char *src, const char *src2, char *out, char *out2', f'G x({g.dims()}), y({h.dims()}); x.swap(y); x.resize({k.dims()}); {fill_probe(g, "y", "src")} {fill_probe(k, "x", "src2")} swap(y, x); BOBS(x) BOBS(y) {read_probe(g, "x", "out")} {read_probe(k, "y", "out2")}',
                   g.bobs() + k.bobs() + g.alloc() + k.alloc() + fill_spec(g, 'src') + fill_spec(k, 'src2') + read_spec(g, 'out') + read_spec(k, 'out2'))
        u.pair('emptycopy', 'void', 'G a; G b(a); a = b; b.swap(a); ev_val3(b.dim_x(), b.dim_y(), b.dim_z()); ev_val3(a.dim_x(), a.dim_y(), a.dim_z());', 'ev_val3(0, 0, 0); ev_val3(0, 0, 0);')
        us.append(u)
    return us



def unit_callback():
    """what functors get to see: single and paired callbacks, for arbitrary grids (symbolic objects)"""
    us = []
    for api in ('cus', 'u3', 'u2', 'u1', 'def', 'asy'):
        c = gridcell(api, 'A')
        u = Unit(f'cb_{api}', HEAD + c.decl() + REPORT + '''typedef soa_grid<CX> G;
struct report2 {
    template<class A, class B> void operator()(A& a, B& b) const { ev_val3(A::DIM_X, A::DIM_Y, A::DIM_Z); ev_ptr(a.data(), a.index()); ev_val3(1000 + B::DIM_X, 1000 + B::DIM_Y, 1000 + B::DIM_Z); ev_ptr(b.data(), 5 + b.index()); }
};
struct stateful { int id; template<class A> void operator()(A& a) const { ev_val(id); ev_ptr(&a.i(), a.index()); } };
''')
        one = lambda p, off=0, iof=0: (lambda *e: f'ev_val3({off + e[0]}, {off + e[1]}, {off + e[2]}); ev_ptr({p}, {iof});')
        S = lambda body: GDIMS + ' ' + spec_all(api, body)
        for f in ('report', 'creport'):
            u.pair(f'{f}', 'G *g', f'g->callback({f}());', S(one('g->data()')))
            u.pair(f'{f}_const', 'const G *g', f'g->callback({f}());', S(one('g->data()')))
        u.pair('stateful', 'G *g, int k', 'stateful s = {k}; g->callback(s);', S(lambda *e: f'ev_val(k); ev_ptr(g->data() + {e[0] * e[1] * e[2] * c.off["i"]}, 0);'))
        HD = 'const szt hx = h->dim_x(), hy = h->dim_y(), hz = h->dim_z();'
        if api == 'asy':
            inner = lambda body: select_extents('full', GRIDAPI['asy'][2], body).replace('gx', 'hx').replace('gy', 'hy').replace('gz', 'hz')
            spec = GDIMS + HD + select_extents('full', GRIDAPI['asy'][2], lambda *e: inner(lambda *k: one('g->data()')(*e) + one('h->data()', 1000, 5)(*k)))
        else:
            spec = HD + GDIMS + 'if (gx != hx || gy != hy || gz != hz) throw std::invalid_argument("x"); ' + spec_all(api, lambda *e: one('g->data()')(*e) + one('h->data()', 1000, 5)(*e))
        u.pair('dual', 'G *g, G *h', 'g->callback(h, report2());', spec)
        u.pair('dual_const', 'const G *g, G *h', 'g->callback(h, report2());', spec)
        u.pair('dual_self', 'G *g', 'g->callback(g, report2());', GDIMS + spec_all(api, lambda *e: one('g->data()')(*e) + one('g->data()', 1000, 5)(*e)))
        us.append(u)
    return us


def unit_anycb():
    """paired callbacks of grids with different allocators, for arbitrary grids (symbolic objects)"""
    us = []
    for api in ('cus', 'u3', 'def', 'asy'):
        c = gridcell(api, 'A')
        u = Unit(f'anycb_{api}', HEAD + c.decl() + REPORT + '''typedef soa_grid<CX> G; typedef soa_grid<CX, rec_alloc<char> > GR; typedef soa_grid<CX, aligned_allocator<char, 64> > GA;
struct report2 {
    template<class A, class B> void operator()(A& a, B& b) const { ev_val3(A::DIM_X, A::DIM_Y, A::DIM_Z); ev_ptr(a.data(), a.index()); ev_val3(1000 + B::DIM_X, 1000 + B::DIM_Y, 1000 + B::DIM_Z); ev_ptr(b.data(), 5 + b.index()); }
};
''')
        one = lambda p, off=0, iof=0: (lambda *e: f'ev_val3({off + e[0]}, {off + e[1]}, {off + e[2]}); ev_ptr({p}, {iof});')
        HD = 'const szt hx = h->dim_x(), hy = h->dim_y(), hz = h->dim_z();'
        if api == 'asy':
            inner = lambda body: select_extents('full', GRIDAPI['asy'][2], body).replace('gx', 'hx').replace('gy', 'hy').replace('gz', 'hz')
            spec = GDIMS + HD + select_extents('full', GRIDAPI['asy'][2], lambda *e: inner(lambda *k: one('g->data()')(*e) + one('h->data()', 1000, 5)(*k)))
        else:
            spec = HD + GDIMS + 'if (gx != hx || gy != hy || gz != hz) throw std::invalid_argument("x"); ' + spec_all(api, lambda *e: one('g->data()')(*e) + one('h->data()', 1000, 5)(*e))
        for a, b in (('GR', 'GR'), ('G', 'GR'), ('GR', 'G'), ('GA', 'GR'), ('GA', 'G')):
            u.pair(f'dual_{a}_{b}', f'{a} *g, {b} *h', 'g->callback(h, report2());', spec)
            u.pair(f'cdual_{a}_{b}', f'const {a} *g, {b} *h', 'g->callback(h, report2());', spec)
        for a in ('GR', 'GA'):
            u.pair(f'cb_{a}', f'{a} *g', 'g->callback(report());', GDIMS + spec_all(api, one('g->data()')))
            u.pair(f'ccb_{a}', f'const {a} *g', 'g->callback(report());', GDIMS + spec_all(api, one('g->data()')))
        us.append(u)
    return us


def unit_const(apis=(('cus', 'A'), ('u3', 'B'))):
    """operations on constant grids leave every byte of the grid object and its storage alone"""
    us = []
    for api, m in apis:
        c = gridcell(api, m)
        u = Unit(f'const_{api}{m}', HEAD + c.decl() + REPORT + """typedef soa_grid<CX> G;
struct Run { szt origin[3]; szt len; szt length() const { return len; } };
""")
        D = lambda e, x, y, z, k: soaelem('g->data()', e[0] * e[1] * e[2], f'(long)({x}) + {e[0]} * (long)({y}) + {e[0] * e[1]} * (long)({z}) + (long)({k})')
        B = lambda k: soaelem('buf', '(long)count', f'(long)({k})')
        S = lambda body: GDIMS + ' ' + spec_all(api, body)
        A = 'ASSUME(count <= 2);'
        loop = lambda body: f'for (szt k = 0; k < count; ++k) {{ {body} }}'
        pos = 'szt x, szt y, szt z'
        u.pair('get', f'const G *g, {pos}, CX *cell', 'CX t = g->get(x, y, z); ' + copy_elems(c, cellelem('cell->'), cellelem('t.')), S(lambda *e: copy_elems(c, cellelem('cell->'), D(e, 'x', 'y', 'z', '0'))))
        u.pair('getn', f'const G *g, {pos}, CX *cells, szt count', A + 'g->get(x, y, z, cells, count);', A + S(lambda *e: loop(copy_elems(c, cellelem('cells[k].'), D(e, 'x', 'y', 'z', 'k')))))
        u.pair('save', f'const G *g, {pos}, char *buf, szt count', A + 'g->save(x, y, z, buf, count);', A + S(lambda *e: loop(copy_elems(c, B('k'), D(e, 'x', 'y', 'z', 'k')))))
        u.pair('saverun', f'const G *g, const Run *runs, char *buf, szt count', 'ASSUME(runs[0].len <= 2); g->save(runs, runs + 1, buf, count);', 'ASSUME(runs[0].len <= 2);' + S(lambda *e: f'for (szt k = 0; k < runs[0].len; ++k) {{ {copy_elems(c, B("k"), D(e, "runs[0].origin[0]", "runs[0].origin[1]", "runs[0].origin[2]", "k"))} }}'))
        u.pair('cb', 'const G *g', 'g->callback(report());', S(lambda *e: f'ev_val3({e[0]}, {e[1]}, {e[2]}); ev_ptr(g->data(), 0);'))
        u.pair('query', 'const G *g, const G *h', 'ev_val3(g->dim_x(), g->dim_y(), g->dim_z()); ev_val3(g->extent_x(), g->extent_y(), g->extent_z()); ev_val(g->byte_size()); ev_ptr(g->data(), 0);', 'ev_val3(g->dim_x(), g->dim_y(), g->dim_z()); ev_val3(g->extent_x(), g->extent_y(), g->extent_z()); ev_val(g->byte_size()); ev_ptr(g->data(), 0);')
        us.append(u)
    return us


DETECT = '''
#include <type_traits>
template<class A> A& lv();
const CX& cell(); CX& wcell(); char *chars(); const char *cchars(); CX *cells();
#define DET(N, ...) template<class A> static auto f_##N(int) -> decltype((void)(__VA_ARGS__), std::true_type()); template<class A> static std::false_type f_##N(...); template<class A> constexpr bool N() { return decltype(f_##N<A>(0))::value; }
typedef soa_accessor<CX, 64, 1, 1, 0> Acc;
typedef soa_array<CX, 20> Arr20;
#define L lv<A>()
'''
# name: expression; a modification unless the name starts with r
ACC_EXPR = {
    'member': 'L.i() = 0', 'elem': 'L.arr()[1] = 0', 'telem': 'L.template arr<1>() = 0', 'elemaddr': '*&L.arr()[0] = 0',
    'nbmember': 'L[coord<1, 0, 0>()].i() = 0', 'nbelem': 'L[coord<0, -1, 1>()].arr()[2] = 0', 'nbnb': 'L[coord<0, -1, 1>()][coord<1, 0, 0>()].template arr<0>() = 0',
    'assign': 'L = cell()', 'shl': 'L << cell()', 'load': 'L.load(cchars(), szt(3))', 'loads': 'L.load(cchars(), szt(3), szt(1), szt(9))',
    'construct': 'L.construct_members()', 'destroy': 'L.destroy_members()', 'copymem': 'L.copy_members(lv<const Acc>(), szt(3))', 'data': '*L.data() = 0',
    'rmember': 'int(L.i())', 'relem': 'double(L.arr()[1])', 'rtelem': 'double(L.template arr<1>())', 'rshr': 'L >> wcell()', 'rsave': 'L.save(chars(), szt(3))', 'rsaves': 'L.save(chars(), szt(3), szt(1), szt(9))',
    'rnb': 'int(L[coord<1, 0, 0>()].i())', 'rnbelem': 'double(L[coord<1, 0, 0>()].arr()[2])', 'rdata': 'char(*L.data())', 'rcell': 'CX(L)', 'rindex': 'long(L.index())',
}
ARR_EXPR = {
    'idx': 'L[0].i() = 0', 'idxelem': 'L[0].arr()[1] = 0', 'at': 'L.at(0).i() = 0', 'atu': 'L.at(szt(0)).arr()[1] = 0', 'idxcell': 'L[0] = cell()', 'idxshl': 'L[0] << cell()', 'nb': 'L[1][coord<1, 0, 0>()].i() = 0',
    'shl': 'L << cell()', 'push': 'L.push_back(cell())', 'pop': 'L.pop_back()', 'clear': 'L.clear()', 'load': 'L.load(lv<const Acc>(), szt(2))', 'loado': 'L.load(lv<const Acc>(), szt(2), szt(1))',
    'back': 'L.back().i() = 0', 'begin': 'L.begin().i() = 0', 'end': 'L.end().i() = 0', 'data': '*L.data() = 0', 'assign': 'L = lv<const A>()', 'assignother': 'L = lv<const Arr20>()',
    'ridx': 'int(L[0].i())', 'rat': 'int(L.at(0).i())', 'rsize': 'szt(L.size())', 'rcap': 'szt(L.capacity())', 'rbytes': 'szt(L.byte_size())', 'rcell': 'CX(L[0])',
}
GRID_EXPR = {
    'set': 'L.set(szt(), szt(), szt(), cell())', 'setn': 'L.set(szt(), szt(), szt(), (const CX*)cells(), szt())', 'bcast': 'L.broadcast(szt(), szt(), szt(), cell(), szt())', 'load': 'L.load(szt(), szt(), szt(), cchars(), szt())',
    'loadr': 'L.load(lv<Run*>(), lv<Run*>(), cchars(), szt())', 'resize': 'L.resize(szt(), szt(), szt())', 'swap': 'L.swap(lv<typename std::remove_const<A>::type>())', 'assign': 'L = lv<const A>()', 'setdata': 'L.set_data(chars())', 'data': '*L.data() = 0',
    'rget': 'CX(L.get(szt(), szt(), szt()))', 'rgetn': 'L.get(szt(), szt(), szt(), cells(), szt())', 'rsave': 'L.save(szt(), szt(), szt(), chars(), szt())', 'rsaver': 'L.save(lv<Run*>(), lv<Run*>(), chars(), szt())',
    'rdims': 'L.dim_x() + L.dim_y() + L.dim_z() + L.extent_x() + L.extent_y() + L.extent_z() + L.byte_size()', 'rdata': 'char(*L.data())',
}
VEC_EXPR = {
    'set': 'L.set(szt(), cell())', 'push': 'L.push_back(cell())', 'pop': 'L.pop_back()', 'resize': 'L.resize(szt())', 'reserve': 'L.reserve(szt())', 'clear': 'L.clear()', 'emplace': 'L.emplace_back(cell())', 'assign': 'L = lv<const A>()',
    'rget': 'CX(L.get(szt()))', 'rsize': 'szt(L.size())', 'rempty': 'bool(L.empty())', 'rcap': 'szt(L.capacity())',
}


def unit_constness():
    """type level: modifications through constant objects are rejected by the compiler, reading and modification through others are accepted"""
    us = []
    c = Cell('CX', [('int', 'i', None), ('double', 'arr', 3), ('char', 'c', None)])
    kinds = {'acc': ('soa_accessor<CX, 8, 4, 2, 0>', ACC_EXPR), 'lacc': ('soa_accessor_light<CX, 8, 4, 2, 0>', ACC_EXPR), 'cacc': ('const_soa_accessor<CX, 8, 4, 2, 0>', ACC_EXPR), 'clacc': ('const_soa_accessor_light<CX, 8, 4, 2, 0>', ACC_EXPR),
             'arr': ('soa_array<CX, 5>', ARR_EXPR), 'grid': ('soa_grid<CX>', GRID_EXPR), 'vec': ('soa_vector<CX>', VEC_EXPR)}
    for k, (t, exprs) in kinds.items():
        u = Unit(f'const{k}', HEAD + c.decl() + '\nstruct Run { szt origin[3]; szt len; szt length() const { return len; } };\n' + DETECT + ''.join(f'DET({n}, {e})\n' for n, e in exprs.items()))
        for cv in ('', 'const '):
            for n, e in exprs.items():
                if cv and k == 'lacc' and n.startswith('nb'):
                    continue    # light accessors are references: neighbours of a constant one are not constant
                want = 1 if n.startswith('r') and n != 'resize' and n != 'reserve' or not cv and not k.startswith('c') else 0
                u.pair(f'{"c" if cv else "m"}_{n}', '', f'return {n}<{cv}{t} >();', f'return {want};', ret='bool')
        us.append(u)
    return us


if __name__ == '__main__':
    import sys
    for u in globals()[sys.argv[1]]():
        open(f'/tmp/u_{u.name}.cpp', 'w').write(u.text())
        print(u.name, len(u.names))
