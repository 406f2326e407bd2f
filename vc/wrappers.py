"""Contracts of the value wrappers of mbo/types (OptionalDataOrRef, OptionalRef, RefWrap, Required, NoDestruct, OpaqueValue):
every operation from every state (empty, owning, referring) and for every value, against the mathematical state of the wrapper."""
from . import term as T, exe as E, stream as ST
from .digest import bad, finish_job
from .compare import prove
from .container import FATAL, c32, c64, sx, install, R

ODOR, OREF, REFW, REQ, NOD, OPQ = 1, 2, 3, 4, 5, 6
NAMES = {ODOR: 'OptionalDataOrRef', OREF: 'OptionalRef', REFW: 'RefWrap', REQ: 'Required', NOD: 'NoDestruct', OPQ: 'OpaqueValue'}
STATES = {ODOR: (0, 1, 2, 3), OREF: (0, 2, 3), REFW: (2, 3), REQ: (1,), NOD: (1,), OPQ: (1,)}

class Case:
    """states n and m of the two wrappers; the values are symbolic"""
    def __init__(s, kind, n, m, values=None):
        s.kind, s.n, s.m, s.i, s.j = kind, n, m, 0, 0
        s.x, s.y, *s.inp = [T.var(v, 32) for v in ('x', 'y', 'in0', 'in1')] if values is None else [c32(v) for v in values[:4]]
        s.e = list(s.inp); s.a = (n, s.x if n == 1 else None); s.b = (m, s.y if m == 1 else None)
    def get(s, w): return None if w[0] == 0 else w[1] if w[0] == 1 else s.e[w[0] - 2]
    def __repr__(s): return 'state=%s other=%s' % tuple(('empty', 'owns', 'refers to the first', 'refers to the second')[k] for k in (s.n, s.m))
b2 = lambda b, k: T.ite(b, c64(k), c64(0))
def lteq(p, q):
    if p is None or q is None: return T.boolc(p is None and q is not None), T.boolc(p is None and q is None)
    return T.slt(p, q), T.eq(p, q)
def order(p, q):
    lt, eq = lteq(p, q); return T.ite(lt, c64(1), T.ite(eq, c64(2), c64(3)))
def rel(p, q):
    lt, eq = lteq(p, q); gt = T.bnot(T.bor(lt, eq)); r = order(p, q)
    for t, k in ((eq, 10), (T.bnot(eq), 20), (lt, 40), (gt, 80), (T.bor(lt, eq), 160), (T.bor(gt, eq), 320)): r = T.add(r, b2(t, k))
    return T.add(r, T.mul(c64(10000), order(p, q)))
def hash64(v): return T.uf('vx_hash', 64, v) if v.op != 'c' else c64(nhash(v.val))
def nhash(v): return (v * 0x9e3779b97f4a7c15 + 12345) & T.mask(64)
def hashed(c): return T.add(T.mul(c64(2), hash64(c64(1 << 40) if c.get(c.a) is None else sx(c.get(c.a)))), c64(1))
def write(c, v):
    """the value is assigned through the wrapper"""
    if c.n == 1: c.a = (1, v)
    elif c.n: c.e[c.n - 2] = v
def need(f):
    """operations that read the value: a failed requirement without one"""
    def g(c): return FATAL if c.get(c.a) is None else f(c)
    return g
one = c64(1); zero = c64(0)
def st(r, a=None, b=None):
    """result and states afterwards (as functions of the case)"""
    def g(c): return (r(c) if callable(r) else r, a(c) if a else c.a, b(c) if b else None)
    return g
def assign(v):
    def g(c): write(c, v(c)); return (one, c.a, None)
    return g
def wr(c):
    if c.n == 0: return FATAL
    write(c, c.y); return (zero, c.a, None)
def asdata(c, d, w=None):
    v = c.get(c.a); v = d if v is None else v; a = (1, v if w is None else w); return (zero if w is not None else R(v), a, None)
moved = lambda c: (0, None) if c.b[0] == 1 else c.b
X = lambda c: (1, c.x); Y = lambda c: (1, c.y); NUL = lambda c: (0, None); REF = lambda c: (2, None); REF2 = lambda c: (3, None); D0 = lambda c: (1, c32(0))
A = lambda c: c.a; B = lambda c: c.b
# op -> (arity: 1 wrapper n, 0 constructed, 2 wrappers n and m, 3 constructed from m; model)
COPY = {'copy_ctor': (3, st(zero, B, B)), 'copy_assign': (2, st(one, B, B)), 'swap': (2, st(zero, B, A))}
VALUE = {'value': (1, need(st(lambda c: R(c.get(c.a))))), 'star': (1, need(st(one))), 'write': (1, wr),
         'hash': (1, st(hashed)), 'format': (1, st(lambda c: c64(2 if c.get(c.a) is None else 1))), 'format_value': (1, st(lambda c: zero if c.get(c.a) is None else R(c.get(c.a))))}
NULLABLE = {'ctor_default': (0, st(zero, NUL)), 'ctor_null': (0, st(zero, NUL)), 'ctor_ref': (0, st(zero, REF)), 'reset': (1, st(one, NUL)), 'set_ref': (1, st(one, REF2)),
            'value_const': VALUE['value'], 'star_null': VALUE['value'], 'arrow_null': VALUE['value'],
            'compare': (2, st(lambda c: rel(c.get(c.a), c.get(c.b)), A, B)), 'compare_const': (2, st(lambda c: rel(c.get(c.a), c.get(c.b)), A, B)),
            'compare_value': (1, st(lambda c: rel(c.get(c.a), c.y))), 'compare_null': (1, st(lambda c: rel(c.get(c.a), None)))}
OPS = {
    ODOR: {**NULLABLE, **COPY, **VALUE, 'move_ctor': (3, st(zero, B, moved)), 'move_assign': (2, st(one, B, moved)), 'ctor_value': (0, st(zero, X)),
           'self_copy': (1, st(one)), 'self_move': (1, st(one)), 'assign_null': (1, st(one, NUL)), 'assign_value': (1, st(one, Y)), 'emplace': (1, st(one, Y)), 'emplace_value': (1, st(one, Y)), 'emplace_default': (1, st(one, D0)),
           'as_data': (1, lambda c: asdata(c, c32(0))), 'as_data_arg': (1, lambda c: asdata(c, c.y)), 'as_data_write': (1, lambda c: asdata(c, c.y, c.y)),
           'get': (1, st(lambda c: T.add(R(c.y), c64(1 << 40)) if c.get(c.a) is None else R(c.get(c.a)))),
           'state': (1, st(lambda c: c64({0: 16, 1: 7, 2: 11, 3: 11}[c.n]))),
           'assign_lvalue': (1, lambda c: (one, (1, c.y), None) if c.n == 0 else assign(lambda c: c.y)(c))},
    OREF: {**NULLABLE, 'copy_ctor': COPY['copy_ctor'], **VALUE, 'move_ctor': (3, st(zero, B, B)), 'state': (1, st(lambda c: c64(3 if c.n else 0))),
           'assign_through': (1, need(assign(lambda c: c.y))), 'assign_lvalue': (1, need(assign(lambda c: c.y)))},
    REFW: {**COPY, **VALUE, 'ctor_ref': (0, st(zero, REF)), 'move_ctor': (3, st(zero, B, B)), 'move_assign': (2, st(one, B, B)), 'rebind': (1, st(one, REF2)),
           'order_value': (1, st(lambda c: order(c.get(c.a), c.y))), 'order_ext': (1, st(lambda c: order(c.get(c.a), c.e[0]))), 'order': (2, st(lambda c: order(c.get(c.a), c.get(c.b)), A, B))},
    REQ: {**COPY, **VALUE, 'move_ctor': (3, st(zero, B, B)), 'move_assign': (2, st(one, B, B)), 'ctor_default': (0, st(zero, D0)), 'ctor_value': (0, st(zero, X)), 'ctor_conv': (0, st(zero, X)), 'ctor_place': (0, st(zero, X)),
          'emplace': (1, st(one, Y)), 'emplace_conv': (1, st(one, Y)), 'emplace_default': (1, st(one, D0)), 'emplace_lvalue': (1, st(one, Y)), 'emplace_self': (1, st(one)), 'emplace_self_move': (1, st(one)),
          'order_value': (1, st(lambda c: order(c.get(c.a), c.y))), 'order': (2, st(lambda c: order(c.get(c.a), c.get(c.b)), A, B))},
    NOD: {**VALUE, 'ctor_default': (0, st(zero, D0)), 'ctor_value': (0, st(zero, X)), 'ctor_conv': (0, st(zero, X))},
    OPQ: {**COPY, 'value': VALUE['value'], 'star': VALUE['star'], 'write': VALUE['write'], 'hash': VALUE['hash'], 'copy_ctor_lvalue': COPY['copy_ctor'], 'ctor_default': (0, st(zero, D0)), 'ctor_value': (0, st(zero, X)), 'ctor_conv': (0, st(zero, X)),
          'move_ctor': (3, st(zero, B, NUL)), 'move_assign': (2, st(one, B, NUL)), 'self_copy': (1, st(one)), 'self_move': (1, st(one)),
          'order_value': (1, st(lambda c: order(c.get(c.a), c.y))), 'order': (2, st(lambda c: T.add(order(c.get(c.a), c.get(c.b)), T.ite(lteq(c.get(c.a), c.get(c.b))[0], c64(10), T.ite(lteq(c.get(c.a), c.get(c.b))[1], zero, c64(20)))), A, B))},
}
CONSTLESS = {'write', 'assign_lvalue', 'assign_through', 'compare_const'}
def ops_of(kind, const): return [o for o in OPS[kind] if not (const and o in CONSTLESS)]
def cases(kind, op, values=None):
    ar = OPS[kind][op][0]; S = STATES[kind]
    for n in S if ar in (1, 2) else S[:1]:
        for m in S if ar in (2, 3) else S[:1]:
            if op == 'compare_const' and kind == OREF and m == 1: continue
            yield Case(kind, n, m, values)
def expected(kind, elem, op, c):
    """FATAL, or what the entry records: name and value each"""
    ar, model = OPS[kind][op]; w = model(c)
    if w is FATAL: return FATAL
    res, a, b = w
    if ar in (2, 3) and b is None: b = c.b
    out = [('result', res)]
    for nm, s in (('the wrapper', a),) + ((('the second wrapper', b),) if b is not None else ()):
        v = c.get(s); out += [('state of ' + nm, c64(s[0])), ('value of ' + nm, zero if v is None else sx(v))]
    own = sum(1 for s in (a, b) if s is not None and s[0] == 1)
    out += [('the first external object', sx(c.e[0])), ('the second external object', sx(c.e[1])), ('objects alive', c64(2 + own if elem == 'Tw' else 0)),
            ('objects alive after destruction', c64(1 if elem == 'Tw' and kind == NOD else 0))]
    return out

def heap(ex):
    """operator new returns a fresh object, operator delete takes only such an object, once"""
    ex.heapn = 0
    def new(ex, st, fr, i, args):
        if args[0].op != 'c': raise ST.Violation('memory', 'operator new with a size that is not constant')
        ex.heapn += 1; o = E.Obj('heap%d' % ex.heapn, args[0].val, 'arg'); E.Exec.objs_by_id[o.id] = o
        fr.env[i['id']] = E.Ptr(o, E.C0)
    def delete(ex, st, fr, i, args):
        p = args[0]
        if isinstance(p, E.Ptr) and p.obj is not None and p.obj.name.startswith('heap') and T.eq(p.off, E.C0).op == 'c': return
        ex.oblige(st, 'only what was allocated is deallocated', T.boolc(False), info=ex.case)
    ex.extern.update(_Znwm=new, _ZdlPvm=delete, _ZdlPv=delete)
    def h(ex, st, fr, i, args): fr.env[i['id']] = T.uf('vx_hash', 64, args[0]) if args[0].op != 'c' else c64(nhash(args[0].val))
    ex.extern['vx_hash'] = h

def job(res, js, kind, elem, const, ops):
    from . import drive
    mod = drive.load_module(js); ex = E.Exec(mod, loop_limit=100); ex.returns = 0; install(ex); heap(ex); total = 0
    for op in ops:
        if 'vh_' + op not in mod.fns: raise ST.Violation('contract', 'no entry ' + op)
        for c in cases(kind, op):
            inp0 = list(c.inp); want = expected(kind, elem, op, c)
            s0 = E.State(); ex.case = '%s %r' % (op, c)
            inp = E.Obj('in', 8, 'arg'); out = E.Obj('out', 8 * 12, 'arg')
            for o in (inp, out): E.Exec.objs_by_id[o.id] = o
            for k, v in enumerate(inp0): ex.store(s0, E.Ptr(inp, c64(4 * k)), v, 4)
            inp.ro = True
            if 'tr_live' in mod.globals: ex.store(s0, E.Ptr(ex.gobj('tr_live'), E.C0), zero, 8)
            args = [E.Ptr(inp, E.C0)] + [c64(v) for v in (c.n, c.m, 0, 0)] + [c.x, c.y, E.Ptr(out, E.C0)]
            ex.fatal_ok = want is FATAL; f0 = ex.fatals; r0 = ex.returns
            for s2, r in ex.run([ex.call_state(mod.fns['vh_' + op], args, s0)]):
                ex.returns += 1; bad(ex)
                if want is FATAL: ex.oblige(s2, '%s: fails when there is no value' % op, T.boolc(False), info=ex.case); bad(ex)
                for k, (nm, v) in enumerate(want):
                    prove(ex, '%s: %s' % (op, nm), ex.load_int(s2, out, 8 * k, 8), v, s2.pc)
            bad(ex)
            if ex.returns == r0 and ex.fatals == f0: raise ST.Violation('reachability', '%s %r never returns' % (op, c))
    ex.returns += ex.fatals
    finish_job(res, ex)

def native_search(ctx, rep, configs, deadline):
    import ctypes, random, time
    rnd = random.Random(ctx.seed); sg = lambda v, b=64: v - (1 << b) if v >> (b - 1) else v
    for k, (name, defs, kind, elem, const) in enumerate(configs):
        lib = ctypes.CDLL(ctx.native('wrappers.cc', defs=list(defs) + ['CONT_NATIVE'], name='nat_wr_%d' % k, flags=('-O1', '-fno-lifetime-dse', '-fno-strict-aliasing')))
        call = lib.vn_call; call.restype = ctypes.c_int
        call.argtypes = [ctypes.c_void_p, ctypes.c_void_p] + [ctypes.c_uint64] * 4 + [ctypes.c_int32] * 2 + [ctypes.c_void_p]
        for op in ops_of(kind, const):
            f = getattr(lib, 'vh_' + op, None)
            if f is None: continue
            for rounds in range(8):
                vals = [[11, 22, 33, 44], [5, 5, 5, 5], [3, -3, 2**31 - 1, -2**31]][rounds] if rounds < 3 else [rnd.choice([0, 1, 2, -1, 7, 2**31 - 1, -2**31]) for _ in range(4)]
                for c in cases(kind, op, values=vals):
                    if time.time() > deadline: return None
                    want = expected(kind, elem, op, c); inp = (ctypes.c_int32 * 2)(*vals[2:]); out = (ctypes.c_int64 * 32)(*[-99] * 32)
                    rec = {'entry': op, 'wrapper': name, 'case': repr(c), 'values': dict(zip(('x', 'y', 'first external', 'second external'), vals))}
                    rep(rec)
                    rc = call(ctypes.cast(f, ctypes.c_void_p), inp, c.n, c.m, 0, 0, vals[0], vals[1], out)
                    if rc == 1:
                        if want is FATAL: continue
                        rec['got'] = 'a requirement failed'; return rec
                    if rc >= 2: rec['got'] = 'an object was used outside its lifetime (code %d)' % (rc - 2); return rec
                    if want is FATAL: rec.update(expected='a failed requirement', got='returned'); return rec
                    for q, (nm, v) in enumerate(want):
                            if out[q] != sg(v.val): rec.update(wrong=nm, expected={n2: sg(v2.val) for n2, v2 in want}, got={n2: out[r2] for r2, (n2, _) in enumerate(want)}); return rec
    return None
