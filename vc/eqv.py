"""Equivalence of terms: syntactic identity after canonicalisation, then random
simulation (a difference is a concrete counterexample), then SAT-sweeping with
cut points discharged by z3, then a full z3 query."""
import os, random, sys, time
from . import term as T
from . import solver as S
import z3

DEBUG = os.environ.get("VC_DEBUG")

class Result:
    def __init__(self, ok, how, env=None): self.ok = ok; self.how = how; self.env = env
    def __repr__(self): return 'Result(%s,%s)' % (self.ok, self.how)

def rand_env(rnd, bias=None):
    base = rnd.getrandbits(64)
    style = rnd.randrange(4)
    def d(name, w):
        r = random.Random('%s|%d' % (name, base))
        if style == 0 and r.random() < 0.3: return r.choice([0, 1, T.mask(w), 1 << (w - 1)])
        if style == 1 and r.random() < 0.3: return r.getrandbits(min(w, 8))
        return r.getrandbits(w)
    def sel(name, off):
        return random.Random('%s|%d|%d' % (name, off, base)).getrandbits(8)
    return {'*': d}, sel

def sat_env(rnd, pc, tries=30):
    """environments satisfying pc (best effort)"""
    for _ in range(tries):
        env, sel = rand_env(rnd)
        if not pc or all(T.evaluate(list(pc), env, sel)): return env, sel
    # get a model for the pc variables, randomise the rest
    if pc:
        r, m = S.check(list(pc), want_model=True)
        if r == 'sat':
            e = S.model_env(m, list(pc))
            env, sel = rand_env(rnd)
            env.update(e)
            try:
                if all(T.evaluate(list(pc), env, sel)): return env, sel
            except Exception: pass
    return None

def cut_copy(ts, depth):
    """copies of ts where sub-terms deeper than depth become fresh variables (shared by identity)"""
    memo = {}
    def go(t, d):
        if t.op in ('c', 'v'): return t
        if d == 0: return T.var('cut!%d' % t.id, t.w)
        k = (t, d)
        if k in memo: return memo[k]
        r = T.rebuild(t, [go(a, d - 1) for a in t.args])
        memo[k] = r
        return r
    return [go(t, depth) for t in ts]

def shared_cut(a, b, limit=300):
    """copies of a and b where what they have in common becomes fresh variables; None when too much differs"""
    import heapq
    mark = {a: 1}; mark[b] = mark.get(b, 0) | 2
    heap = [(-t.id, t) for t in mark]; heapq.heapify(heap); inner = []
    while heap:
        t = heapq.heappop(heap)[1]
        if mark[t] == 3 or t.op in ('c', 'v'): continue
        inner.append(t)
        if len(inner) > limit: return None
        for x in t.args:
            if x not in mark: mark[x] = 0; heapq.heappush(heap, (-x.id, x))
            mark[x] |= mark[t]
    memo = {}
    for t in reversed(inner):
        memo[t] = T.rebuild(t, [memo[x] if x in memo else x if x.op in ('c', 'v') else T.var('cut!%d' % x.id, x.w) for x in t.args])
    return [memo.get(t, t) for t in (a, b)]

def anf(roots, limit=3000):
    """algebraic normal forms over GF(2), bit by bit, of and/or/xor combinations; any other subterm counts as a variable.
    A form maps a monomial (set of subterm ids) to the mask of the bits it occurs in; a long sum inside a product counts
    as one variable there.  None when a form grows too large."""
    memo = {}; st = [(r, False) for r in roots]; sums = {}; names = {}
    def factor(x):
        f = memo[x]
        if len(f) <= 6: return f
        body = {m: c for m, c in f.items() if m}
        i = names.setdefault(frozenset(body.items()), -1 - len(names))
        sums[i] = body
        return {frozenset((i,)): T.mask(x.w), **({one: f[one]} if one in f else {})}
    def expand(f):
        for m, c in list(f.items()):
            if len(m) == 1:
                (i,) = m
                if i in sums:
                    del f[m]
                    for k, v in sums[i].items():
                        v = f.get(k, 0) ^ (v & c)
                        if v: f[k] = v
                        else: f.pop(k, None)
        return f
    one = frozenset()
    def mul(x, y):
        if len(x) * len(y) > 4 * limit: return None
        r = {}
        for m, c in x.items():
            for n, d in y.items():
                e = c & d
                if e:
                    k = m | n; v = r.get(k, 0) ^ e
                    if v: r[k] = v
                    else: r.pop(k, None)
        return r
    def add(x, y):
        r = dict(x)
        for k, c in y.items():
            v = r.get(k, 0) ^ c
            if v: r[k] = v
            else: r.pop(k, None)
        return r
    while st:
        t, done = st.pop()
        if t in memo: continue
        if t.op not in ('and', 'or', 'xor'):
            memo[t] = ({one: t.val} if t.val else {}) if t.op == 'c' else {frozenset((t.id,)): T.mask(t.w)}
            continue
        if not done:
            st.append((t, True)); st.extend((x, False) for x in t.args)
            if len(memo) > 6000: return None
            continue
        form = memo.get if t.op == 'xor' else factor
        r = form(t.args[0])
        for x in t.args[1:]:
            y = form(x)
            if t.op == 'xor': r = add(r, y)
            else:
                q = mul(r, y)
                if q is None: return None
                r = q if t.op == 'and' else add(add(r, y), q)
            if len(r) > limit: return None
        memo[t] = r if t.op == 'xor' else expand(dict(r))
    return [memo[t] for t in roots]

def split_bits(t):
    """the bits of an and/or/xor taken operand by operand"""
    if t.op == 'ext' and t.args[0].op in ('and', 'or', 'xor'):
        return T._bit(t.args[0].op, [split_bits(T.ext(x, t.val + t.w - 1, t.val)) for x in t.args[0].args])
    return t

def bitwise_equal(a, b):
    """equal as bitwise functions of their non-bitwise subterms? (decided by algebraic normal form, which is canonical)"""
    a, b = split_bits(a), split_bits(b)
    if a is b: return True
    if a.op not in ('and', 'or', 'xor') and b.op not in ('and', 'or', 'xor'): return False
    f = anf([a, b])
    return f is not None and f[0] == f[1]

def prove_pair(a, b, pc=(), timeout=20000, quick=False):
    if a is b or bitwise_equal(a, b): return True
    c = shared_cut(a, b)
    if c is not None:
        if c[0] is c[1]: return True
        if bitwise_equal(*c): return True
        if S.check([T.ne(*c)], timeout=min(timeout, 2000))[0] == 'unsat': return True
    for depth in ((3, 6) if quick else (3, 5, 8, 14)):
        x, y = cut_copy([a, b], depth)
        if x is y: return True
        r, _ = S.check([T.ne(x, y)], timeout=min(timeout, 4000))
        if r == 'unsat': return True
    r = S.check(S.slice_pc(pc, T.ne(a, b)) + [T.ne(a, b)], timeout=timeout)[0]
    if r == 'unsat': return True
    if r == 'sat': return False
    return None

def sweep(order, sims, pc, cheap, t0, budget):
    rep = {}; classes = {}; nq = 0
    for t in order:
        if not t.args: rep[t] = t
        else:
            na = [rep[x] for x in t.args]
            rep[t] = t if all(x is y for x, y in zip(na, t.args)) else T.rebuild(t, na)
        r = rep[t]
        if not sims: continue
        c = classes.setdefault((t.w,) + tuple(m[t] for m in sims), [])
        if r in c: continue
        if r.op == 'c' or t.op == 'c':
            c.insert(0, r); continue
        merged = False
        if c and len(sims) >= 4:
            for o in c[:4]:
                if time.time() - t0 > budget: break
                nq += 1
                t1 = time.time()
                ok = bitwise_equal(o, r) if cheap else prove_pair(o, r, pc, timeout=3000, quick=True)
                if DEBUG and time.time() - t1 > 0.5: print('SWEEP', cheap, ok, '%.2f' % (time.time() - t1), T.show(o, 3)[:300], '|||', T.show(r, 3)[:300], file=sys.stderr, flush=True)
                if ok:
                    rep[t] = o; merged = True; break
        if not merged: c.append(r)
    return rep, nq

def equal(pairs, pc=(), seed=1, nsim=24, budget=120.0, timeout=20000):
    """all pairs equal under pc?"""
    pairs = [(a, b) for a, b in pairs if a is not b]
    if not pairs: return Result(True, 'syntactic')
    for a, b in pairs:
        if a.w != b.w: return Result(False, 'width')
    t0 = time.time()
    rnd = random.Random(seed)
    flat = [x for p in pairs for x in p]
    sims = []
    for _ in range(nsim):
        es = sat_env(rnd, pc)
        if es is None: break
        env, sel = es
        memo = {}
        vals = T.evaluate(flat, env, sel, memo)
        for i in range(0, len(vals), 2):
            if vals[i] != vals[i + 1]: return Result(False, 'simulation', (env, sel))
        sims.append(memo)
        if nsim > 6 and len(flat) > 4000 and len(sims) >= 6: break
    # sweeping: merge subterms of equal value, first by algebraic normal form alone, then with z3
    order = T.topo(flat)
    for cheap in (True, False):
        rep, nq = sweep(order, sims, pc, cheap, t0, budget)
        if all(rep[a] is rep[b] for a, b in pairs): return Result(True, 'sweeping(%d)' % nq)
    left = [(rep[a], rep[b]) for a, b in pairs if rep[a] is not rep[b]]
    for a, b in left:
        g = T.ne(a, b)
        r, m = S.check(S.slice_pc(pc, g) + [g], timeout=timeout, want_model=True)
        if r == 'sat':
            env, sel = model_to_env(m, [a, b] + list(pc))
            try:
                va, vb = T.evaluate([a, b], env, sel)
                if va != vb: return Result(False, 'z3 model', (env, sel))
            except Exception: pass
            return Result(False, 'z3 model (uninterpreted)', None)
        if r == 'unknown': return Result(None, 'z3 timeout')
    return Result(True, 'sweeping(%d)+z3' % nq)

def model_to_env(m, terms):
    e = S.model_env(m, terms)
    mem = {}
    for t in T.topo(terms):
        if t.op == 'sel':
            o = m.eval(S.tz(t.args[0]), model_completion=True); v = m.eval(S.tz(t), model_completion=False)
            if z3.is_bv_value(o) and z3.is_bv_value(v): mem[(t.val, o.as_long())] = v.as_long()
    rnd = random.Random(7)
    env, sel0 = rand_env(rnd)
    env.update(e)
    def sel(name, off):
        v = mem.get((name, off))
        return sel0(name, off) if v is None else v
    return env, sel
