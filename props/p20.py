from vc import wrappers as W
from vc import container as K
from . import dig
PROP = 'P20'
ASSUMPTIONS = ['the wrapped types are instances: int and a class type with the contract of harness/container.h (its ghost state is what the obligations about lifetimes read); values are unrestricted',
    'arguments of emplace do not refer into the value they replace, except where an operation takes its argument by value; an object is not made to refer to the value it owns itself',
    "Abseil's logging, HashOf and Format are stand-ins: a fatal log does not return, HashOf is any function of the value, Format reports its arguments; the text of a failure message is not looked at",
    'operator new returns a fresh object and does not fail']
def spec_selftest(): return 0
CFG = [(k, e, c) for k in (1, 2, 3, 4, 5, 6) for e in ('Tw', 'i32') for c in (False, True) if not (c and k > 2) and not (e == 'i32' and k == 6)]
def name(k, e, c): return '%s<%s%s>' % (W.NAMES[k], e, ', const' if c else '')
def defs(k, e, c): return ['W_T=%s' % e, 'W_R=%s%s' % ('const ' if c else '', e), 'W_KIND=%d' % k] + (['W_CONST'] if c else [])
def plan(ctx):
    P = None
    for k, e, c in CFG:
        js = ctx.ir('wrappers.cc', defs=defs(k, e, c), name='wrappers_%d_%s_%d' % (k, e, c)); P = P or dig.Planner(ctx, js)
        P.add(name(k, e, c), 'vc.wrappers', 'job', js=js, kind=k, elem=e, const=c, ops=W.ops_of(k, c))
    return P.jobs
def search(ctx, fails):
    from . import digsearch as DS
    return DS.guarded_all([lambda rep, dl: W.native_search(ctx, rep, [(name(*c), defs(*c)) + c for c in CFG], dl)])
