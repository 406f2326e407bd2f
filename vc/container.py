"""Contracts of mbo/container: every operation of the limited containers against a mathematical list (LimitedVector) or a
mathematical ordered map (LimitedSet, LimitedMap), for every element value, from every size and with every position."""
from . import term as T, exe as E, stream as ST
from .digest import require, bad, finish_job
from .compare import prove
import itertools

FATAL = 'a failed requirement'
BIG = (1 << 64) - 1
c32 = lambda v: T.const(v & T.mask(32), 32)
c64 = lambda v: T.const(v & T.mask(64), 64)
sx = lambda v: T.sext(v, 64)

def smaller(C): return C - 1 if C > 1 else C
def module(js):
    from . import drive
    return drive.load_module(js)

def install(ex):
    """the harness's externs: what the element type and MBO_CONFIG_REQUIRE report becomes obligations"""
    ex.watched = set(); ex.fatal_ok = False; ex.fatals = 0
    def fatal(ex, st, fr, i, args):
        ex.fatals += 1
        ex.oblige(st, 'a requirement fails only when the operation cannot be done', T.boolc(True) if ex.fatal_ok else T.boolc(False), info=ex.case)
        return ('dead',)
    def wrong(ex, st, fr, i, args):
        ex.oblige(st, 'elements are constructed in raw slots, read, moved and destroyed while they live', T.boolc(False), info='%s code %r' % (ex.case, args[0])); return ('dead',)
    def watch(ex, st, fr, i, args): ex.watched.add(args[0].obj.id)
    def inslot(ex, st, fr, i, args): fr.env[i['id']] = T.boolc(args[0].obj.id in ex.watched)
    ex.extern.update(vh_fatal=fatal, vh_bad=wrong, vh_watch=watch, vh_inslot=inslot)

# ---- LimitedVector: op -> (domain of the arguments, model). A model gets the case and returns FATAL or (result, first, second) ----
class Case:
    """one combination of sizes, positions and counts; values are symbolic"""
    def __init__(s, kind, C, D, n, m, i, j, values=None):
        s.kind, s.C, s.D, s.n, s.m, s.i, s.j = kind, C, D, n, m, i, j
        names = ['x', 'y'] + ['in%d' % k for k in range(2 * C + 3)]
        s.x, s.y, *s.inp = [T.var(v, 32) for v in names] if values is None else [c32(v) for v in values[:len(names)]]
        s.a = s.inp[:n]; s.b = s.inp[n:n + m]; s.src = s.inp[n:]
    def __repr__(s): return 'n=%d m=%d i=%s j=%s' % tuple(v if v < 1 << 63 else v - (1 << 64) for v in (s.n, s.m, s.i, s.j))
    def facts(s): return []
    def fit(s, a, r=None):
        return FATAL if len(a) > s.C else (c64(0) if r is None else r, a, None)
def R(v): return sx(v)
def ins(c, new):
    if not 0 <= c.i <= c.n or c.n + len(new) > c.C: return FATAL
    return (c64(c.i), c.a[:c.i] + list(new) + c.a[c.i:], None)
def era(c, i, j):
    if not (0 <= i <= j <= c.n): return FATAL
    return (c64(i), c.a[:i] + c.a[j:], None)
def lex(a, b):
    lt = T.boolc(len(a) < len(b)); eq = T.boolc(len(a) == len(b))
    for p, q in reversed(list(zip(a, b))): lt, eq = T.bor(T.slt(p, q), T.band(T.eq(p, q), lt)), T.band(T.eq(p, q), eq)
    v = lambda b, k: T.ite(b, c64(k), c64(0))
    r = T.ite(lt, c64(1), T.ite(eq, c64(2), c64(3)))
    for t in (v(eq, 10), v(T.bnot(eq), 20), v(lt, 40)): r = T.add(r, t)
    return r
def counts(c): return c64(c.n + 100 * c.C + 10000 * c.C + 1000000 * (c.n == 0) + 10000000 * c.n)
def dom(C, D, n=None, m=None, i=None, j=None):
    """sizes n and m, then positions that may depend on them"""
    f = lambda r, *a: [0] if r is None else r(*a)
    for nn in ([0] if n == 0 else range(C + 1) if n is None else n):
        for mm in f(m, nn):
            for ii in f(i, nn):
                for jj in f(j, nn, ii): yield nn, mm, ii, jj
NONE = lambda C, D: dom(C, D)
POS = lambda C, D: dom(C, D, i=lambda n: list(range(C + 2)) + [BIG])
IDX = lambda C, D: dom(C, D, i=lambda n: list(range(C + 2)) + [BIG, 1 << 63])
VAL = lambda C, D: dom(C, D, n=range(1, C + 1))
PIX = lambda C, D: dom(C, D, n=range(1, C + 1), i=lambda n: range(n + 1), j=lambda n, i: range(n))
TWO = lambda C, D: dom(C, D, m=lambda n: range(C + 1))
TWOD = lambda C, D: dom(C, D, m=lambda n: range(D + 1))
def sgn(v): return v - (1 << 64) if v >> 63 else v
def vec_insert_range(c): return ins(c, c.src[:c.j])
VECTOR = {
    'push_move': (NONE, lambda c: c.fit(c.a + [c.x], R(c.x))), 'push_copy': (NONE, lambda c: c.fit(c.a + [c.x], R(c.x))),
    'emplace_back': (NONE, lambda c: c.fit(c.a + [c.x], R(c.x))),
    'push_self': (lambda C, D: dom(C, D, n=range(1, C + 1), i=lambda n: range(n)), lambda c: c.fit(c.a + [c.a[c.i]], R(c.a[c.i]))),
    'pop_back': (NONE, lambda c: FATAL if not c.n else (c64(0), c.a[:-1], None)),
    'clear': (NONE, lambda c: (c64(0), [], None)),
    'resize': (IDX, lambda c: FATAL if c.i > c.C else (c64(0), (c.a + [c32(0)] * c.C)[:c.i], None)),
    'reserve': (IDX, lambda c: FATAL if c.i > c.C else (c64(0), c.a, None)),
    'emplace': (POS, lambda c: ins(c, [c.x])), 'emplace_self': (PIX, lambda c: ins(c, [c.a[c.j]])),
    'erase': (POS, lambda c: era(c, c.i, c.i + 1)),
    'erase_range': (lambda C, D: dom(C, D, i=lambda n: range(n + 2), j=lambda n, i: range(n + 2)), lambda c: era(c, c.i, c.j)),
    'insert_move': (POS, lambda c: ins(c, [c.x])), 'insert_copy': (POS, lambda c: ins(c, [c.x])), 'insert_value': (POS, lambda c: ins(c, [c.x])),
    'insert_self': (PIX, lambda c: ins(c, [c.a[c.j]])),
    'insert_count': (lambda C, D: dom(C, D, i=lambda n: range(n + 2), j=lambda n, i: list(range(C + 2)) + [BIG, BIG - 1, BIG - max(C, 1) + 1]), lambda c: ins(c, [c.x] * c.j) if c.j <= c.C else FATAL),
    'insert_count_self': (lambda C, D: dom(C, D, n=range(1, C + 1), m=lambda n: range(C - n + 2), i=lambda n: range(n + 1), j=lambda n, i: range(n)), lambda c: ins(c, [c.a[c.j]] * c.m)),
    'insert_range': (lambda C, D: dom(C, D, i=lambda n: range(n + 2), j=lambda n, i: range(C + 2)), vec_insert_range),
    'insert_list': (POS, lambda c: ins(c, [c.x, c.y])),
    'insert_backward': (lambda C, D: dom(C, D, i=lambda n: range(n + 1)), lambda c: FATAL),
    'assign_count': (lambda C, D: dom(C, D, j=lambda n, i: range(C + 2)), lambda c: FATAL if c.j > c.C else (c64(0), [c.x] * c.j, None)),
    'assign_range': (lambda C, D: dom(C, D, j=lambda n, i: range(C + 2)), lambda c: FATAL if c.j > c.C else (c64(0), c.src[:c.j], None)),
    'assign_list2': (NONE, lambda c: FATAL if c.C < 2 else (c64(0), [c.x, c.y], None)),
    'at': (IDX, lambda c: FATAL if c.i >= c.n else (R(c.a[c.i]), c.a, None)),
    'at_const': (IDX, lambda c: FATAL if c.i >= c.n else (R(c.a[c.i]), c.a, None)),
    'index': (IDX, lambda c: FATAL if c.i >= c.n else (R(c.a[c.i]), c.a, None)),
    'index_const': (IDX, lambda c: FATAL if c.i >= c.n else (R(c.a[c.i]), c.a, None)),
    'front': (VAL, lambda c: (R(c.a[0]), c.a, None)), 'back': (VAL, lambda c: (R(c.a[-1]), c.a, None)),
    'reverse': (NONE, lambda c: (c64(2), c.a, None)),
    'counts': (NONE, lambda c: (counts(c), c.a, None)),
    'self_copy': (NONE, lambda c: (c64(0), c.a, None)), 'self_move': (NONE, lambda c: (c64(0), c.a, None)),
    'write': (lambda C, D: dom(C, D, n=range(1, C + 1), i=lambda n: range(n), j=lambda n, i: range(n)), lambda c: (c64(0), [c.y if k == c.j else c.x if k == c.i else v for k, v in enumerate(c.a)], None)),
    'copy_ctor': (TWO, lambda c: (c64(0), c.a, c.a)), 'move_ctor': (TWO, lambda c: (c64(0), [], c.a)),
    'copy_assign': (TWO, lambda c: (c64(1), c.a, c.a)), 'move_assign': (TWO, lambda c: (c64(1), [], c.a)),
    'swap': (TWO, lambda c: (c64(0), c.b, c.a)),
    'swap_smaller': (TWOD, lambda c: FATAL if c.n > c.D else (c64(0), c.b, c.a)),
    'conv_copy_assign': (TWOD, lambda c: (c64(0), c.b, c.b)), 'conv_move_assign': (TWOD, lambda c: (c64(0), c.b, [])),
    'conv_copy_ctor': (TWOD, lambda c: (c64(0), c.b, c.b)), 'conv_move_ctor': (TWOD, lambda c: (c64(0), c.b, [])),
    'compare': (TWO, lambda c: (lex(c.a, c.b), c.a, c.b)), 'compare_cap': (TWOD, lambda c: (lex(c.a, c.b), c.a, c.b)),
    'ctor_default': (lambda C, D: dom(C, D, n=0), lambda c: (c64(0), [], None)),
    'ctor_range': (lambda C, D: dom(C, D, n=0, j=lambda n, i: range(C + 2)), lambda c: c.fit(c.src[:c.j])),
    'ctor_list2': (lambda C, D: dom(C, D, n=0), lambda c: c.fit([c.x, c.y])), 'ctor_list_conv': (lambda C, D: dom(C, D, n=0), lambda c: c.fit([c.x, c.y])),
    'make_helper': (lambda C, D: dom(C, D, n=0), lambda c: (c64(0), [c.x, c.y], None)), 'make_array': (lambda C, D: dom(C, D, n=0), lambda c: (c64(0), [c.x, c.y], None)),
    'make_array_move': (lambda C, D: dom(C, D, n=0), lambda c: (c64(0), [c.x, c.y], None)), 'make_list': (lambda C, D: dom(C, D, n=0), lambda c: (c64(0), [c.x, c.y], None)),
    'make_value': (lambda C, D: dom(C, D, n=0), lambda c: (c64(0), [c.x, c.x], None)),
}
SMALL = {'swap_smaller', 'compare_cap', 'compare_other', 'conv_copy_assign', 'conv_move_assign', 'conv_copy_ctor', 'conv_move_ctor'}
def layout(op, c):
    """capacity of the first and of the second container the entry records"""
    w = getattr(c, 'W', 1)
    return c.C * w, (c.D if op in SMALL else c.C) * w

def run_case(ex, mod, op, c, want, two, live, tag):
    st = E.State(); ex.case = '%s %r' % (op, c)
    inp = E.Obj('in', 4 * len(c.inp), 'arg', ro=True); out = E.Obj('out', 8 * (2 * sum(layout(op, c)) + 16), 'arg')
    for o in (inp, out): E.Exec.objs_by_id[o.id] = o
    inp.ro = False
    for k, v in enumerate(c.inp): ex.store(st, E.Ptr(inp, c64(4 * k)), v, 4)
    inp.ro = True
    if 'tr_live' in mod.globals: ex.store(st, E.Ptr(ex.gobj('tr_live'), E.C0), c64(0), 8)
    args = [E.Ptr(inp, E.C0)] + [c64(v) for v in (c.n, c.m, c.i, c.j)] + [c.x, c.y, E.Ptr(out, E.C0)]
    for f in c.facts(): st.assume(f)
    ex.fatal_ok = want is FATAL; seen = ex.fatals
    for s2, r in ex.run([ex.call_state(mod.fns['vh_' + op], args, st)]):
        ex.returns += 1; bad(ex)
        if want is FATAL:
            ex.oblige(s2, '%s: fails when it cannot be done' % op, T.boolc(False), info=ex.case); bad(ex)
        ret, a, b = want[:3]; ca, cb = layout(op, c)
        off = 0
        def get():
            nonlocal off
            v = ex.load_int(s2, out, off, 8); off += 8; return v
        if ret is not None: prove(ex, '%s%s: result' % (tag, op), get(), ret, s2.pc)
        else: get()
        for lst, cap in ((a, ca), (b, cb)):
            if lst is None: continue
            prove(ex, '%s%s: number of elements' % (tag, op), get(), c64(len(lst) // getattr(c, 'W', 1)), s2.pc)
            for k, v in enumerate(lst): prove(ex, '%s%s: elements' % (tag, op), ex.load_int(s2, out, off + 8 * k, 8), sx(v), s2.pc)
            off += 8 * cap
        prove(ex, '%s%s: as many live elements as the container holds' % (tag, op), get(), c64(live), s2.pc)
        prove(ex, '%s%s: destruction leaves no element alive' % (tag, op), get(), c64(0), s2.pc)
    bad(ex)
    return ex.fatals - seen

def job_vector(res, js, kind, C, D, ops):
    from . import drive
    mod = drive.load_module(js); ex = E.Exec(mod, loop_limit=400); ex.returns = 0; install(ex)
    for op in ops:
        if 'vh_' + op not in mod.fns: raise ST.Violation('contract', 'no entry ' + op)
        domain, model = VECTOR[op]; before = ex.returns + ex.fatals
        for n, m, i, j in domain(C, D):
            c = Case(kind, C, D, n, m, i, j)
            want = model(c)
            live = live_of(c, want)
            r0, f0 = ex.returns, ex.fatals
            run_case(ex, mod, op, c, want, want is not FATAL and want[2] is not None, live, '')
            if ex.returns == r0 and ex.fatals == f0: raise ST.Violation('reachability', '%s %r never returns' % (op, c))
    ex.returns += ex.fatals
    finish_job(res, ex)

def vector_cases(kind, C, op, rounds, rnd):
    domain, model = VECTOR[op]; pool = [0, 1, 2, 3, -1, 7, 2**31 - 1, -2**31, 2**30, -2**30 - 5]; nv = 2 * C + 8
    for d in domain(C, smaller(C)):
        vals = [list(range(10, 10 + nv)), [rnd.choice(pool) for _ in range(nv)], [rnd.choice([1, 2, 3]) for _ in range(nv)]][min(rounds, 2)]
        c = Case(kind, C, smaller(C), *d, values=vals); yield c, model(c)
def native_search(ctx, rep, harness, configs, seed, deadline):
    """a case the natively compiled code gets wrong, as a replayable record, or None. configs: name, defines, operations, concrete cases of an operation"""
    import ctypes, random, time
    rnd = random.Random(seed)
    for k, (name, defs, ops, cases) in enumerate(configs):
        lib = ctypes.CDLL(ctx.native(harness, defs=list(defs) + ['CONT_NATIVE'], name='nat_%s_%d' % (harness.split('.')[0], k), flags=('-O1', '-fno-lifetime-dse', '-fno-strict-aliasing')))
        call = lib.vn_call; call.restype = ctypes.c_int
        call.argtypes = [ctypes.c_void_p, ctypes.c_void_p] + [ctypes.c_uint64] * 4 + [ctypes.c_int32] * 2 + [ctypes.c_void_p]
        sg32 = lambda v: v.val - (1 << 32) if v.val >> 31 else v.val
        for op in ops:
            f = getattr(lib, 'vh_' + op, None)
            if f is None: continue
            for rounds in range(6):
                for c, want in cases(op, rounds, rnd):
                    if time.time() > deadline: return None
                    inp = (ctypes.c_int32 * len(c.inp))(*[sg32(v) for v in c.inp]); no = 2 * sum(layout(op, c)) + 64; out = (ctypes.c_int64 * no)(*[-99] * no)
                    vals = [sg32(c.x), sg32(c.y)]
                    rec = {'entry': op, 'container': name, 'case': repr(c), 'values': {'in': list(inp), 'x': vals[0], 'y': vals[1]}}
                    rep(rec)
                    rc = call(ctypes.cast(f, ctypes.c_void_p), inp, c.n, c.m, c.i, c.j, vals[0], vals[1], out)
                    if rc == 1:
                        if want is FATAL: continue
                        rec['got'] = 'a requirement failed'; return rec
                    if rc >= 2: rec['got'] = 'an element was used outside its lifetime (code %d)' % (rc - 2); return rec
                    if want is FATAL: rec.update(expected='a failed requirement', got='returned'); return rec
                    ret, a, b = want[:3]; ca, cb = layout(op, c)
                    exp = {0: ret}; off = 1
                    for lst, cap in ((a, ca), (b, cb)):
                        if lst is None: continue
                        exp[off] = c64(len(lst) // getattr(c, 'W', 1)); off += 1
                        for q, v in enumerate(lst): exp[off + q] = sx(v)
                        off += cap
                    exp[off] = c64(live_of(c, want)); exp[off + 1] = c64(0)
                    sg = lambda v: v - (1 << 64) if v >> 63 else v
                    for o, v in exp.items():
                        if v is not None and out[o] != sg(v.val):
                            rec.update(expected={str(q): sg(w.val) for q, w in exp.items() if w is not None}, got={str(q): out[q] for q in exp}, wrong=o); return rec
    return None
def live_of(c, want): return 0 if want is FATAL or c.kind != 'Tr' else len(want[1]) + (len(want[2]) if want[2] is not None else 0)
