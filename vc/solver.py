"""z3 back end: translation of terms, feasibility and validity queries."""
import time
import z3
from . import term as T

class Stats:
    def __init__(self):
        self.queries = 0; self.time = 0.0; self.unknown = 0; self.cache_hits = 0
STATS = Stats()

_z = {}
_tblf = {}
_fn = {}

def z3fn(name, doms, w):
    k = (name, doms, w)
    if k not in _fn:
        _fn[k] = z3.Function('%s_%s' % (name, '_'.join(map(str, doms))), *([z3.BitVecSort(d) for d in doms] + [z3.BitVecSort(w)]))
    return _fn[k]

def tz(t):
    """term -> z3 (width-1 terms are BitVec(1))"""
    r = _z.get(t)
    if r is not None: return r
    for x in T.topo_cut([t], _z):
        if x in _z: continue
        _z[x] = _tz(x, [_z[a] for a in x.args])
    return _z[t]

def _b(c): return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))

def _tz(t, a):
    op = t.op; w = t.w
    if op == 'c': return z3.BitVecVal(t.val, w)
    if op == 'v': return z3.BitVec(t.val, w)
    if op == 'lin':
        r = None
        for q, x in zip(t.val[1:], a):
            if q == 1: y = x
            elif q == T.mask(w): y = -x
            else: y = x * z3.BitVecVal(q, w)
            r = y if r is None else r + y
        if t.val[0]: r = r + z3.BitVecVal(t.val[0], w)
        return r
    if op == 'cat': return z3.Concat(*a)
    if op == 'ext': return z3.Extract(t.val + w - 1, t.val, a[0])
    if op in ('xor', 'and', 'or'):
        r = a[0]
        for x in a[1:]: r = (r ^ x) if op == 'xor' else (r & x) if op == 'and' else (r | x)
        return r
    if op == 'mul': return a[0] * a[1]
    if op == 'ite': return z3.If(a[0] == z3.BitVecVal(1, 1), a[1], a[2])
    if op == 'eq': return _b(a[0] == a[1])
    if op == 'ult': return _b(z3.ULT(a[0], a[1]))
    if op == 'slt': return _b(a[0] < a[1])
    if op == 'shl': return a[0] << a[1]
    if op == 'lshr': return z3.LShR(a[0], a[1])
    if op == 'ashr': return a[0] >> a[1]
    if op == 'sext': return z3.SignExt(w - t.args[0].w, a[0])
    if op == 'udiv': return z3.UDiv(a[0], a[1])
    if op == 'urem': return z3.URem(a[0], a[1])
    if op == 'sdiv': return a[0] / a[1]
    if op == 'srem': return z3.SRem(a[0], a[1])
    if op == 'uf': return z3fn(t.val, tuple(x.w for x in t.args), w)(*a) if a else z3.BitVec(t.val + '_nullary', w)
    if op == 'sel': return z3fn('mem_' + t.val, (t.args[0].w,), w)(a[0])
    if op == 'tbl':
        n, data = t.val; eb = len(data) // n
        r = z3.BitVecVal(0, w)
        for i in range(n - 1, -1, -1):
            r = z3.If(a[0] == z3.BitVecVal(i, t.args[0].w), z3.BitVecVal(int.from_bytes(data[i*eb:(i+1)*eb], 'little'), w), r)
        return r
    if op == 'fp':
        k = t.val; rm = z3.RNE()
        srt = {32: z3.Float32(), 64: z3.Float64(), 80: z3.FPSort(15, 64)}
        def bits(v):
            r = z3.fpToIEEEBV(v)
            if w != 80: return r
            i = z3.If(z3.Extract(77, 63, r) == z3.BitVecVal(0, 15), z3.BitVecVal(0, 1), z3.BitVecVal(1, 1))
            return z3.Concat(z3.Extract(78, 63, r), i, z3.Extract(62, 0, r))
        def val(x, n): return z3.fpBVToFP(x if n != 80 else z3.Concat(z3.Extract(79, 64, x), z3.Extract(62, 0, x)), srt[n])
        if k == 'sitofp': return bits(z3.fpSignedToFP(rm, a[0], srt[w]))
        if k == 'uitofp': return bits(z3.fpUnsignedToFP(rm, a[0], srt[w]))
        if k in ('fpext', 'fptrunc'): return bits(z3.fpFPToFP(rm, val(a[0], t.args[0].w), srt[w]))
        return z3fn('fp_' + k, tuple(x.w for x in t.args), w)(*a)
    raise NotImplementedError(op)

def bz(t):
    """width-1 term -> z3 Bool"""
    if t is T.TRUE: return z3.BoolVal(True)
    if t is T.FALSE: return z3.BoolVal(False)
    if t.op == 'xor' and t.args[-1] is not None:
        n = T.not_key(t)
        if n is not None: return z3.Not(bz(n))
    if t.op == 'eq': return tz(t.args[0]) == tz(t.args[1])
    if t.op == 'ult': return z3.ULT(tz(t.args[0]), tz(t.args[1]))
    if t.op == 'slt': return tz(t.args[0]) < tz(t.args[1])
    if t.op == 'and': return z3.And(*[bz(a) for a in t.args])
    if t.op == 'or': return z3.Or(*[bz(a) for a in t.args])
    return tz(t) == z3.BitVecVal(1, 1)

_vars_memo = {}
def leafset(t):
    r = _vars_memo.get(t)
    if r is None:
        for x in T.topo_cut([t], _vars_memo):
            if x in _vars_memo: continue
            if x.op == 'v': _vars_memo[x] = frozenset([x.val])
            elif x.op == 'sel': _vars_memo[x] = frozenset().union(*[_vars_memo[a] for a in x.args]) | {'mem:' + x.val}
            elif x.op == 'uf': _vars_memo[x] = frozenset().union(*[_vars_memo[a] for a in x.args]) | {'uf:' + x.val}
            elif not x.args: _vars_memo[x] = frozenset()
            elif len(x.args) == 1: _vars_memo[x] = _vars_memo[x.args[0]]
            else: _vars_memo[x] = frozenset().union(*[_vars_memo[a] for a in x.args])
        r = _vars_memo[t]
    return r

def slice_pc(pc, goal):
    want = set(leafset(goal)); todo = list(pc); used = []
    ch = True
    while ch:
        ch = False; rest = []
        for c in todo:
            s = leafset(c)
            if s & want or not s:
                used.append(c); want |= s; ch = True
            else: rest.append(c)
        todo = rest
    return used

_cache = {}
TIMEOUT = [20000]

def check(conds, timeout=None, want_model=False):
    """conds: list of width-1 terms (conjunction) -> ('sat', model|None) / ('unsat', None) / ('unknown', None)"""
    conds = [c for c in conds if c is not T.TRUE]
    if any(c is T.FALSE for c in conds): return 'unsat', None
    if not conds and not want_model: return 'sat', None
    key = frozenset(c.id for c in conds)
    if not want_model and key in _cache:
        STATS.cache_hits += 1
        return _cache[key], None
    t0 = time.time()
    s = z3.SolverFor('QF_UFBV') if False else z3.Solver()
    s.set('timeout', timeout or TIMEOUT[0])
    for c in conds: s.add(bz(c))
    r = s.check()
    STATS.queries += 1; STATS.time += time.time() - t0
    if r == z3.unknown: STATS.unknown += 1; return 'unknown', None
    res = 'sat' if r == z3.sat else 'unsat'
    _cache[key] = res
    return res, (s.model() if want_model and res == 'sat' else None)

def feasible(pc, cond):
    if cond is T.TRUE: return True
    if cond is T.FALSE: return False
    r, _ = check(slice_pc(pc, cond) + [cond])
    return r != 'unsat'

def prove(pc, goal, timeout=None):
    """-> True / False / None(unknown)"""
    if goal is T.TRUE: return True
    ng = T.bnot(goal)
    if goal in pc: return True
    r, _ = check(slice_pc(pc, ng) + [ng], timeout)
    if r == 'unsat': return True
    if r == 'sat': return False
    return None

def model_env(model, terms):
    """concrete values for the variables (and memory bytes) of `terms` from a z3 model"""
    env = {}
    for t in T.topo(terms):
        if t.op == 'v':
            v = model.eval(tz(t), model_completion=False)
            if z3.is_bv_value(v): env[t.val] = v.as_long()
    return env
