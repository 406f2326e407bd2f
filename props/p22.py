from vc import container as C, ordered as K
from . import dig
PROP = 'P22'
ASSUMPTIONS = ['capacities, element types and comparators are instances: each listed instance is proved for every element value, every size and every position of the key', 'the comparator is a strict weak order, the same for containers assigned to or swapped with each other', 'sorted input (kRequireSortedInput) has distinct keys', 'the element type keeps the contract of harness/container.h', 'MBO_CONFIG_REQUIRE reports through Abseil\'s fatal log, which is replaced by a stand-in that does not return']
def spec_selftest(): return 0
def cfg(kind, C, W, cmp, order='less', flags='', opt=None, ops=None): return dict(kind=kind, C=C, D=C - 1 if C > 1 else C, W=W, cmp=cmp, order=order, flags=flags.split(), opt=opt, ops=ops)
LOOK = ['index_of', 'find', 'cfind', 'contains', 'erase_key', 'emplace', 'f_index_of', 'f_find', 'f_cfind', 'f_contains']
CFG = {}
for _w, _n in ((1, 'Set'), (2, 'Map')):
    CFG.update({
        _n + '<Tr,3,std::less>': cfg('Tr', 3, _w, 'std::less<Tr>'),
        _n + '<i32,4,CompareLess>': cfg('i32', 4, _w, 'mbo::types::CompareLess<i32>'),
        _n + '<Tr,2,Open,helpers>': cfg('Tr', 2, _w, 'Open', flags='open helpers'),
        _n + '<i32,3,Open>': cfg('i32', 3, _w, 'Open', flags='open'),
        _n + '<i32,3,Dir{true}>': cfg('i32', 3, _w, 'Dir', 'greater', 'state'),
        _n + '<Tr,3,Half>': cfg('Tr', 3, _w, 'Half', 'half'),
        _n + '<Tr,3,sorted>': cfg('Tr', 3, _w, 'std::less<Tr>', flags='sorted', opt='LimitedOptions<3,F_::kRequireSortedInput>{}'),
        _n + '<Tr,3,no index_of>': cfg('Tr', 3, _w, 'std::less<Tr>', opt='LimitedOptions<3,F_::kNoOptimizeIndexOf>{}'),
        _n + '<i32,1>': cfg('i32', 1, _w, 'std::less<i32>'), _n + '<Tr,0>': cfg('Tr', 0, _w, 'std::less<Tr>'),
        _n + '<i32,17,binary search>': cfg('i32', 17, _w, 'std::less<i32>', ops=LOOK),
        _n + '<i32,17,custom>': cfg('i32', 17, _w, 'std::less<i32>', opt='LimitedOptions<17,F_::kCustomIndexOfBeyondUnroll>{}', ops=LOOK),
        _n + '<i32,17,custom CompareLess>': cfg('i32', 17, _w, 'mbo::types::CompareLess<i32>', opt='LimitedOptions<17,F_::kCustomIndexOfBeyondUnroll>{}', ops=LOOK),
        _n + '<i32,16,unrolled>': cfg('i32', 16, _w, 'Open', flags='open', ops=LOOK),
    })
def defs(cf):
    d = ['O_T=%s' % cf['kind'], 'O_C=%s' % (cf['opt'] or cf['C']), 'O_KIND=%d' % (cf['kind'] == 'Tr'), 'O_CMP=%s' % cf['cmp'], 'O_MAP=%d' % (cf['W'] == 2)]
    return d + [m for f, m in (('open', 'O_OPEN'), ('helpers', 'O_HELPERS=1'), ('state', 'O_STATE')) if f in cf['flags']]
def configs(ctx): return CFG
def plan(ctx):
    P = None
    for k, (name, cf) in enumerate(configs(ctx).items()):
        js = ctx.ir('ordered.cc', defs=defs(cf), name='ordered_%d' % k); P = P or dig.Planner(ctx, js)
        ops = list(K.table(cf)); parts = 1 if cf['C'] < 16 else 5
        for r in range(parts): P.add('Limited%s.%d' % (name, r), 'vc.ordered', 'job_ordered', js=js, cf=cf, ops=ops[r::parts])
    return P.jobs
def search(ctx, fails):
    from . import digsearch as DS
    def cases(cf, op, rounds, rnd):
        dom, model, _ = K.table(cf)[op]
        if cf['C'] >= 16 and rounds > 1: return
        for d in dom(cf):
            c = K.case(cf, op, d, rnd); yield c, model(c)
    cl = [('Limited' + name, defs(cf), list(K.table(cf)), lambda op, r, rnd, cf=cf: cases(cf, op, r, rnd)) for name, cf in configs(ctx).items()]
    half = len(cl) // 2
    return DS.guarded_all([lambda rep, dl: C.native_search(ctx, rep, 'ordered.cc', cl[:half], ctx.seed, dl), lambda rep, dl: C.native_search(ctx, rep, 'ordered.cc', cl[half:], ctx.seed, dl)])
