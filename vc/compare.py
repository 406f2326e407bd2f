"""Contracts of mbo/types/compare.h: the order of the mathematical values, for every pair of built-in arithmetic types."""
from . import term as T, exe as E, stream as ST, solver as S
from .digest import require, bad, finish_job

INTS = {'b8': (1, 0), 'c8': (1, 1), 's8': (1, 1), 'u8': (1, 0), 's16': (2, 1), 'u16': (2, 0), 's32': (4, 1), 'u32': (4, 0), 's64': (8, 1), 'u64': (8, 0),
        'sll': (8, 1), 'ull': (8, 0), 'c8t': (1, 0), 'c16t': (2, 0), 'c32t': (4, 0), 'wct': (4, 1), 'e8': (1, 0), 'e32': (4, 1)}
FLTS = {'f32': 4, 'f64': 8, 'f80': 10}
CODE = lambda lt, gt: T.ite(lt, T.const(-1, 32), T.ite(gt, T.const(1, 32), T.const(0, 32)))
def canonical80(x): return T.eq(T.ext(x, 63, 63), T.ne(T.ext(x, 78, 64), T.const(0, 15)))
def to80(ty, x):
    if ty == 'f80': return x
    if ty in FLTS: return T.fpop('fpext', 80, x)
    if ty == 'b8': x = T.ext(x, 0, 0)
    return T.fpop('sitofp' if INTS[ty][1] else 'uitofp', 80, x)
def nan(x):
    e, m = {32: (8, 23), 64: (11, 52), 80: (15, 64)}[x.w]
    frac = T.ext(x, m - 1, 0) if x.w != 80 else T.ext(x, 62, 0)
    return T.band(T.eq(T.ext(x, m + e - 1, m), T.const(T.mask(e), e)), T.ne(frac, T.const(0, frac.w)))
def fkey(x):
    """signed integer ordered like the value: -0 = +0, every NaN above +infinity"""
    w = x.w + 1; mag = T.zext(T.ext(x, x.w - 2, 0), w)
    v = T.ite(T.ext(x, x.w - 1, x.w - 1), T.sub(T.const(0, w), mag), mag)
    return T.ite(nan(x), T.const((1 << x.w) - 1, w), v)
def key(a, b, x, y, narrow=False):
    """two integers (signed, wide enough) in the order the property demands for values x of type a and y of type b"""
    if a in FLTS or b in FLTS:
        if {a, b} == {'f32', 'f64'} and narrow: x, y = (T.fpop('fpext', 64, v) if t == 'f32' else v for t, v in ((a, x), (b, y)))
        elif a != b: x, y = to80(a, x), to80(b, y)
        return fkey(x), fkey(y)
    if a != b and 'b8' in (a, b):
        t = lambda v: T.zext(T.ne(v, T.const(0, v.w)), 8)
        return t(x), t(y)
    wide = lambda ty, v: (T.sext if INTS[ty][1] else T.zext)(v, 72)
    return wide(a, x), wide(b, y)

def size(ty): return FLTS.get(ty) or INTS[ty][0]

def prove(ex, name, got, want, pc):
    n = ex.nob.setdefault(name, [0, 0, 0]); n[0] += 1
    if got is want: n[1] += 1; return
    r, m = S.check(list(pc) + [T.ne(got, want)], timeout=100000, want_model=False)
    if r != 'unsat': return require(ex, name, [(got, want)], pc)
    n[2] += 1

def job_pairs(res, js, prefixes):
    from . import drive
    mod = drive.load_module(js); ex = E.Exec(mod, loop_limit=4); ex.returns = 0
    T.FP_ABSTRACT[0] = True
    fns = []
    for prefix in prefixes:
        fs = sorted(f for f in mod.fns if f.startswith('vh_' + prefix + '_') or f == 'vh_' + prefix)
        if not fs: raise ST.Violation('contract', 'no entries for ' + prefix)
        fns += fs
    fns.sort(key=lambda f: f.split('_')[2:])
    for fn in fns:
        _, kind, a, b = fn.split('_')
        st = E.State(); args = []; vals = []
        for ty, n in ((a, 'x'), (b, 'y')):
            v = T.var('%s.%s' % (n, ty), 8 * size(ty)) if ty != 'b8' else T.zext(T.var('%s.%s' % (n, ty), 1), 8)
            o = E.Obj(n, 16 if ty == 'f80' else size(ty), 'arg'); E.Exec.objs_by_id[o.id] = o
            ex.store(st, E.Ptr(o, E.C0), v, size(ty)); args.append(E.Ptr(o, E.C0)); vals.append(v)
            if ty == 'f80': st.assume(canonical80(v))
        x, y = vals; kx, ky = key(a, b, x, y, kind[0] in 'CL'); lt, gt = T.slt(kx, ky), T.slt(ky, kx)
        if kind[0] in 'CL' and a in FLTS:
            x, y = (T.fpop('fpext', 64, v) if t == 'f32' and a != b else v for t, v in ((a, x), (b, y)))
            un = T.bor(nan(x), nan(y))
            want = T.ite(un, T.const(2, 32), CODE(lt, gt)) if kind[0] == 'C' else T.zext(T.band(T.bnot(un), lt), 32)
        else: want = CODE(lt, gt) if kind[0] != 'L' else T.zext(lt, 32)
        before = ex.returns
        for s2, r in ex.run([ex.call_state(mod.fns[fn], args, st)]):
            ex.returns += 1; bad(ex)
            prove(ex, {'S': 'CompareScalar', 'A': 'CompareArithmetic', 'I': 'CompareIntegral', 'F': 'CompareFloat', 'C': 'CompareLess::Compare', 'L': 'CompareLess'}[kind[0]] + ' of %s and %s is the order of the values' % (a, b), r, want, s2.pc)
        bad(ex)
        if ex.returns == before: raise ST.Violation('reachability', 'never returns')
    finish_job(res, ex)

def job_misc(res, js):
    from . import drive
    mod = drive.load_module(js); ex = E.Exec(mod, loop_limit=4); ex.returns = 0
    a, b = T.var('a', 32), T.var('b', 32)
    for st, r in ex.run([ex.call_state(mod.fns['vh_W'], [a, b])]):
        ex.returns += 1; bad(ex); require(ex, 'WeakToStrong keeps the order', [(r, CODE(T.slt(a, b), T.slt(b, a)))], st.pc)
    o = E.Obj('array', 1 << 20, 'arg'); E.Exec.objs_by_id[o.id] = o
    p, q = T.var('p', 64), T.var('q', 64); st = E.State()
    for v in (p, q): st.assume(T.ule(v, T.const(1 << 20, 64)))
    for st, r in ex.run([ex.call_state(mod.fns['vh_P'], [E.Ptr(o, p), E.Ptr(o, q)], st)]):
        ex.returns += 1; bad(ex); require(ex, 'CompareScalar of pointers into an array is the order of the positions', [(r, CODE(T.ult(p, q), T.ult(q, p)))], st.pc)
    if ex.returns < 2: raise ST.Violation('reachability', 'never returns')
    finish_job(res, ex)

def job_lemmas(res):
    """the conversions of the mixed comparisons lose nothing: integers and narrower floats keep their order in the extended format"""
    T.FP_ABSTRACT[0] = False
    ob = res['obligations']
    for ty, wide in (('f32', 64), ('f32', 80), ('f64', 80), ('s32', 80), ('u32', 80), ('s64', 80), ('u64', 80)):
        w = 8 * size(ty); x, y = T.var('x', w), T.var('y', w)
        kx, ky = (fkey(x), fkey(y)) if ty in FLTS else ((T.sext if INTS[ty][1] else T.zext)(v, w + 1) for v in (x, y))
        conv = lambda v: to80(ty, v) if wide == 80 else T.fpop('fpext', 64, v)
        r, m = S.check([T.ne(T.slt(kx, ky), T.slt(fkey(conv(x)), fkey(conv(y))))], timeout=300000)
        if r != 'unsat': raise ST.Violation('lemma', '%s does not keep its order in extended precision: %s' % (ty, r))
        ob['lemma: %s keeps its order in the %d-bit format' % (ty, wide)] = [1, 0, 1]
