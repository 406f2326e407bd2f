from vc import container as K
from . import dig
PROP = 'P21'
ASSUMPTIONS = ['capacities and element types are instances: each (element type, capacity) listed in the evidence is proved for every element value, every size, every position and count', 'the element type keeps the contract of harness/container.h (its ghost state is what the obligations about lifetimes read)', 'MBO_CONFIG_REQUIRE reports through Abseil\'s fatal log, which is replaced by a stand-in that does not return']
def spec_selftest(): return 0
CFG = [('Tr', 0), ('Tr', 1), ('Tr', 2), ('Tr', 4), ('Tr', 6), ('i32', 0), ('i32', 1), ('i32', 2), ('i32', 3), ('i32', 5)]
def defs(k, C): return ['V_T=%s' % k, 'V_C=%d' % C, 'V_KIND=%d' % (k == 'Tr')]
OPT = [('i32', 3, 'LimitedOptions<3, LimitedOptionsFlag::kEmptyDestructor>{}')]
def plan(ctx):
    P = None
    cfg = CFG + ([('Tr', 8), ('i32', 8)] if ctx.tier == 'thorough' else [])
    for k, C in cfg:
        js = ctx.ir('vector.cc', defs=defs(k, C), name='vector_%s_%d' % (k, C)); P = P or dig.Planner(ctx, js)
        mod = K.module(js); ops = [o for o in K.VECTOR if 'vh_' + o in mod.fns]
        missing = [o for o in K.VECTOR if o not in ops and not (o.startswith('make_') and C != 2)]
        if missing: raise K.ST.Violation('contract', 'no entries for %s' % missing)
        parts = 1 if C < 4 else 4
        for r in range(parts): P.add('LimitedVector<%s,%d>.%d' % (k, C, r), 'vc.container', 'job_vector', js=js, kind=k, C=C, D=K.smaller(C), ops=ops[r::parts])
    return P.jobs
def search(ctx, fails):
    from . import digsearch as DS
    cf = [('LimitedVector<%s, %d>' % (k, C), defs(k, C), list(K.VECTOR), lambda op, r, rnd, k=k, C=C: K.vector_cases(k, C, op, r, rnd)) for k, C in CFG]
    return DS.guarded_all([lambda rep, dl: K.native_search(ctx, rep, 'vector.cc', cf, ctx.seed, dl)])
