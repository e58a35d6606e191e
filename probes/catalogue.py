"""Which pairs decide which property."""
import re
import containers
import cuda
import short_vec
import soa
import util

ALL_ISA = ['scalar', 'sse2', 'sse4', 'avx', 'avx2', 'avx512']
ARITIES = [1, 2, 4, 8, 16, 32]


class Task:
    def __init__(self, name, text, names, isas, shards=1, flags=(), doc='', cost=0):
        self.name, self.text, self.names, self.isas, self.shards, self.flags, self.doc = name, text, names, isas, shards, list(flags), doc
        self.cost = cost or len(names)


def sv(groups, only=None, types=('float', 'double', 'int'), arities=ARITIES, isas=ALL_ISA):
    def f(tier):
        r = []
        for T in types:
            for N in arities:
                text, names = short_vec.gen(T, N, groups, only)
                if names:
                    r.append(Task(f'sv_{T}_{N}', text, names, isas))
        return r
    return f


OTHER = {'neon': {'float': 4}, 'mic': {'float': 16, 'double': 8}, 'qpx': {'double': 4}}     # vectors of at least this size


def others(tier):
    """vector classes of processors other than x86, on models of their instructions"""
    r = []
    for isa, vec in OTHER.items():
        for T in ('float', 'double', 'int'):
            for N in ARITIES:
                own = N >= vec.get(T, 99)
                groups = ['arith', 'div', 'mem', 'stream', 'gather', 'print'] + ([] if own else ['cmp', 'lane'])
                if own and isa == 'neon' and N == 4:
                    groups.append('vmask')
                text, names = short_vec.gen(T, N, groups, reduced=own)
                r.append(Task(f'sv_{T}_{N}', text, names, [isa], doc='the vector classes for NEON, MIC and QPX compute lane by lane what scalar code does'))
                if own and isa == 'neon':
                    text, names = short_vec.gen(T, N, ['div'], reduced=True, approx='1e-6')
                    r.append(Task(f'svp_{T}_{N}', text, names, [isa], flags=['-DLIBFLATARRAY_WITH_INCREASED_PRECISION'], doc='division and roots with the second refinement step'))
    return r


def so(fn, only=None, shards=1, quick={}, thorough={}, isas=('sse4',), module=soa):
    """units of the struct-of-arrays layer; only: regular expression on pair names"""
    def f(tier):
        module_fn = getattr(module, fn)
        soa.ONLY = only
        us = module_fn(**(quick if tier == 'quick' else thorough))
        soa.ONLY = None
        doc = (module_fn.__doc__ or '').strip()
        return [Task(u.name, u.text(), u.names, list(isas), shards, doc=doc) for u in us if u.names]
    return f


ROWS = {'sizes': (0, 1, 2, 3, 5), 'starts': (2,), 'length': 2, 'bigs': {'P': (17 - 1,), 'T': (5,)}}
ANYG = {'other': True, 'apis': (('cus', 'T'), ('def', 'P'), ('asy', 'P'))}
ANYV = r'^vecany[PT]_(?!hist)|^vecany[PT]_hist2_P'
ANYVQ = {'other': True, 'sizes': (0, 3), 'starts': (2,), 'bigs': {'P': (33,), 'T': (5,)}}
ANYVT = {'other': True, 'sizes': (0, 2, 6), 'starts': (2,), 'bigs': {'P': (33, 300), 'T': (5, 33)}}

PROPS = {
    'P01': [so('unit_address')],
    'P02': [so('unit_cellio')],
    'P03': [so('unit_raw', shards=3)],
    'P04': [so('unit_dispatch')],
    'P05': [so('unit_gridcell', shards=3)],
    'P06': [so('unit_gridraw', shards=3)],
    'P07': [so('unit_life', shards=3)],
    'P08': [so('unit_resize', shards=4)],
    'P09': [so('unit_copy', only=r'_(ctor|self|assign|assignempty|toempty|emptycopy)', shards=4)],
    'P10': [so('unit_copy', only=r'_(swap|emptycopy)', shards=3)],
    'P11': [so('unit_callback')],
    'P12': [so('unit_const')],
    'P13': [so('unit_array', shards=2, module=containers)],
    'P14': [so('unit_array_copy', shards=2, module=containers)],
    'P15': [so('unit_array_life', module=containers)],
    'P16': [so('unit_vector', only=r'^vecP', shards=8, module=containers)]
           + [so('unit_vector', only=r'^vec[u3]+P', module=containers, quick=dict(ROWS, api=a), thorough=dict(ROWS, api=a)) for a in (containers.VAPI3, containers.VAPIU3)],
    'P17': [so('unit_vector', only=r'^vecT', shards=8, module=containers)]
           + [so('unit_vector', only=r'^vec[u3]+T', module=containers, quick=dict(ROWS, api=a), thorough=dict(ROWS, api=a)) for a in (containers.VAPI3, containers.VAPIU3)],
    'P18': [so('unit_allocator', shards=2, module=containers), so('unit_allocproto', module=containers)],
    'P19': [sv(['arith'])],
    'P20': [sv(['div'])],
    'P21': [sv(['mem'])],
    'P22': [sv(['gather'])],
    'P23': [sv(['cmp'])],
    'P24': [sv(['lane', 'print'])],
    'P25': [sv(['stream'])],
    'P26': [so('unit_peeler', shards=8, module=util, quick={'arities': (1, 2, 4, 8)}, thorough={'arities': (1, 2, 4, 8, 16, 32)})],
    'P27': [so('unit_meta', module=util)],
    'P28': [so('unit_select', module=util, isas=ALL_ISA), so('unit_select', module=util, isas=tuple(OTHER), quick={'size': False}, thorough={'size': False})],
    'P30': [so('unit_anycb'), so('unit_resize', quick={'other': True, 'apis': (('def', 'T'),)}, thorough=ANYG, shards=4), so('unit_copy', quick={'other': True, 'apis': (('cus', 'T'),)}, thorough=ANYG, shards=4), so('unit_vector', only=ANYV, module=containers, shards=6, quick=ANYVQ, thorough=ANYVT)],
    'P32': [so('unit_ident', module=containers, shards=4, quick={'vlength': 2})],
    'P31': [so('unit_fail', module=containers, shards=8, quick={'sizes': (0, 1, 3, 4)})],
    'P33': [so('unit_constness')],
    'P34': [others],
    'P35': [so('unit_array', module=cuda, isas=('cuda',)), so('unit_launch', module=cuda, isas=('cuda',))],
    'P37': [so('unit_device', module=cuda, isas=('cudadev', 'cudahost'))],
    'P36': [so('unit_grid', module=cuda, isas=('cuda',), shards=8), so('unit_devlife', module=cuda, isas=('cuda',)), so('unit_vec', module=cuda, isas=('cuda',))],
    'P29': [so('unit_preproc', module=util)],
}


def tasks(prop, tier):
    r = []
    for f in PROPS[prop]:
        r += f(tier)
    return r
