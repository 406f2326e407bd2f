"""Cut-point verification of functions that walk over an input of unbounded length.

The ghost state is "the part of the message consumed so far".  It is represented
by an anchor: r (concrete residue of the message length modulo the block size),
H (specification state after all complete blocks), tail (the r pending bytes),
q (number of blocks before, symbolic), P (bytes of the current input consumed,
an affine term) and len (input length, symbolic).  Whenever a cut loop header is
reached with delta further bytes consumed, every live value and every memory cell
is expressed over the NEW anchor; a slot is either
   - equal to a component of the specification state (proved, then abstracted),
   - an affine expression over q, P, len and constants (kept), or
   - arbitrary (havoced).
Two consecutive visits define the invariant (the join); it is then assumed, the loop
body is executed from it, and every further visit must re-establish it (induction).
The invariant is inferred from the code that is there, so reformulating a loop does
not need a new annotation; that it implies the postcondition is what is checked.
"""
import time
from . import term as T
from . import solver as S
from . import exe as E
from . import eqv

LEN = T.var('len', 64)
PV = T.var('P', 64)
KV = T.var('K', 64)
Q = T.var('q', 64)
RV = T.var('R', 64)
DERIVED = [T.var('D%d' % i, 64) for i in range(4)]

class Violation(Exception):
    def __init__(self, oblig, msg, st=None, data=None): self.oblig = oblig; self.msg = msg; self.st = st; self.data = data; super().__init__(oblig + ': ' + msg)

class Anchor:
    __slots__ = ('r', 'P', 'H', 'tail', 'q', 'extra')
    def __init__(self, r, P, H, tail, extra=None, q=Q): self.r = r; self.P = P; self.H = H; self.tail = tail; self.extra = extra; self.q = q

import os
DBG = os.environ.get('VC_DEBUG')

class Generic:
    pass

class Problem:
    """override: B, data region name 'data', cases(), setup(ex, case)->State with ghost['anchor'],
       absorb(anchor, bytes)->Anchor (spec), at_return(ex, st, ret, anchor_at_end), basic(anchor)->list of assumptions"""
    region = 'data'
    max_len = 1 << 61
    def hvars(self, r):
        """fresh canonical names of the abstract state at residue r -> (H, tail, extra)"""
        raise NotImplementedError
    def derived(self, an):
        """terms over the anchor that code may keep (recognised as such): here the total message length"""
        return [T.add(T.linear(64, [(self.B, an.q)], an.r), T.sub(LEN, an.P))]
    def mkbyte(self, off): return T.sel(self.region, off)
    def basic(self, P):
        # entry states have q <= 2^55; at most 2^61 / 64 further blocks follow, so q <= 2^56 throughout
        c = [T.ule(LEN, T.const(self.max_len, 64)), T.ule(Q, T.const(1 << 56, 64))]
        if P.op != 'c': c += [T.ule(P, LEN), T.ule(T.sub(LEN, P), T.const(self.max_len, 64))]
        elif P.val: c.append(T.ule(P, LEN))
        return c

def run(mod, fn, problem, contracts=(), loop_limit=None, deadline=None, log=None, exec_opts=None):
    """verify one function against a Problem. returns Exec (with statistics); raises Violation"""
    cuts = set()
    while True:
        try:
            return _run(mod, fn, problem, contracts, cuts, loop_limit or (problem.B + 8), deadline, log, exec_opts or {})
        except E.NeedCut as nc:
            if (nc.fn.name, nc.hdr) in cuts: raise Violation('termination of case split', 'loop at %s block %d exceeds the unrolling limit' % (nc.fn.dem, nc.hdr))
            cuts.add((nc.fn.name, nc.hdr))
            if log: log('cut at header %d of %s' % (nc.hdr, E.short(nc.fn.dem)))

def _run(mod, fn, pb, contracts, cuts, loop_limit, deadline, log, opts):
    eng = Engine(mod, fn, pb, contracts, cuts, loop_limit, deadline, log, opts)
    for case in pb.cases():
        st = pb.setup(eng.ex, fn, case)
        eng.explore([st], 'entry case %s' % (case,))
        eng.drain()
    eng.ex.generics = len(eng.generics)
    eng.ex.header_visits = eng.visits
    eng.ex.returns = eng.returns
    if eng.returns == 0: raise Violation('reachability', 'no path of %s reaches its return' % fn.dem)
    return eng.ex

class Engine:
    def __init__(self, mod, fn, pb, contracts, cuts, loop_limit, deadline, log, opts):
        self.pb = pb; self.fn = fn
        self.ex = E.Exec(mod, contracts, self.on_header, loop_limit=loop_limit, deadline=deadline, **opts)
        self.ex.cuts = cuts
        self.log = log
        self.generics = []
        self.todo = []
        self.visits = 0
        self.returns = 0
        self.ctx = None

    def explore(self, states, ctx):
        self.ctx = ctx
        for st, ret in self.ex.run(states):
            self.at_return(st, ret)
            self.check_obligs()

    def check_obligs(self):
        if self.ex.obligs:
            o = self.ex.obligs[0]
            raise Violation(o.kind, '%s (%s; %s)' % (o.info, o.where, self.ctx), data=o)

    def drain(self):
        while self.todo:
            g = self.todo.pop()
            if g.dead: continue
            st = self.instantiate(g)
            self.explore([st], 'loop invariant at block %d, residue %d' % (g.hdr, g.r))
            self.check_obligs()

    # ------------------------------------------------------------ return
    def at_return(self, st, ret):
        self.returns += 1
        self.check_obligs()
        an = st.ghost['anchor']
        if hasattr(self.pb, 'raw_return'): return self.pb.raw_return(self, st, ret, an)
        R = T.sub(LEN, an.P)
        vals = self.ex.values(st, R, limit=4 * self.pb.B + 64)
        if not vals: return     # infeasible path
        for v in vals:
            m = {LEN: T.add(an.P, T.const(v, 64))}
            pc = T.subst(st.pc, m)
            if any(c is T.FALSE for c in pc): continue
            if len(vals) > 1 and not S.check([c for c in pc if c is not T.TRUE])[0] != 'unsat': continue
            end = self.pb.absorb(an, [self.pb.mkbyte(T.add(an.P, T.const(k, 64))) for k in range(v)])
            self.pb.at_return(self, st, ret, an, end, m, [c for c in pc if c is not T.TRUE])

    def require_equal(self, name, pairs, pc, m=None, st=None):
        """postcondition equalities; m substitution applied to code side"""
        n = self.ex.nob.setdefault(name, [0, 0, 0])
        n[0] += len(pairs)
        diff = [p for p in pairs if p[0] is not p[1]]
        code = [p[0] for p in diff]
        if m and code: code = T.subst(code, m)
        rest = [(c, p[1]) for c, p in zip(code, diff) if c is not p[1]]
        n[1] += len(pairs) - len(rest)
        if not rest: return
        r = eqv.equal(rest, pc)
        if r.ok: n[2] += len(rest); return
        raise Violation(name, 'not provable (%s) in %s: %d of %d component(s) differ, first %r vs %r' % (r.how, self.ctx, len(rest), len(pairs), rest[0][0], rest[0][1]), st, data=(r, rest, pc))

    # ------------------------------------------------------------ header
    def consumed(self, st, fr):
        """candidate deltas since the anchor, from pointer/remaining/index values"""
        an = st.ghost['anchor']
        c = []
        def off(t, base):
            d = T.sub(t, base)
            if d.op == 'c' and T._s(d.val, 64) >= 0 and d.val <= 8 * self.pb.B + 4096: return d.val
        live = fr.fn.live_in(fr.blk)
        phis = set(i['id'] for i in fr.fn.blocks[fr.blk]['ins'] if i['op'] == 'phi')
        for vid in sorted(live, key=lambda v: v not in phis):
            v = fr.env.get(vid)
            if isinstance(v, E.Ptr) and v.obj is not None and v.obj.region == self.pb.region:
                d = off(v.off, an.P)
                if d is not None and d not in c: c.append(d)
        for vid in sorted(live, key=lambda v: v not in phis):
            v = fr.env.get(vid)
            if isinstance(v, T.Term) and v.w == 64:
                d = off(T.sub(LEN, v), an.P)
                if d is not None and d not in c: c.append(d)
                d = off(v, an.P)
                if d is not None and d not in c: c.append(d)
                for k in getattr(self.pb, 'scales', ()):        # counts of blocks
                    d = off(T.linear(64, [(k, v)]), an.P)
                    if d is not None and d not in c: c.append(d)
        for o, cells in st.mem.objs.items():
            for off_, (v, k) in cells.items():
                if k == 0 and isinstance(v, E.Ptr) and v.obj is not None and v.obj.region == self.pb.region:
                    d = off(v.off, an.P)
                    if d is not None and d not in c: c.append(d)
        d = self.pb.consumed_hint(st, an) if hasattr(self.pb, 'consumed_hint') else None
        if d is not None and d not in c: c.insert(0, d)
        return c

    def on_header(self, ex, st, fr, hdr):
        self.visits += 1
        if self.visits > 200000: raise E.Budget('header visits')
        an = st.ghost['anchor']
        best = None
        for d in self.consumed(st, fr):
            if hasattr(self.pb, 'at_header') and not self.pb.at_header(ex, st, an, d): continue
            new = self.pb.absorb(an, [self.pb.mkbyte(T.add(an.P, T.const(k, 64))) for k in range(d)])
            sl = self.slots(st, fr, an, new, d)
            if sl is None: continue
            if best is None or sl.score > best.score or (sl.score == best.score and hasattr(self.pb, 'at_header') and d > best.d): best = sl; sl.d = d
            if sl.score >= sl.full and not hasattr(self.pb, 'at_header'): break
        if best is None: return None     # no abstraction: continue unrolling
        sl = best
        # against existing invariants
        for g in self.generics:
            if g.hdr == hdr and g.r == sl.an.r and not g.dead:
                if self.match(g, sl, st): return ('dead',)
        hist = st.ghost.get('hist', ())
        for h in hist:
            if h.hdr == hdr and h.an.r == sl.an.r:
                g = self.join(h, sl, st)
                if g is not None:
                    self.generics.append(g); self.todo.append(g)
                    if len(self.generics) > 6 * self.pb.B + 64: raise Violation('loop invariant', 'no finite set of invariants found at block %d' % hdr)
                    if self.match(g, sl, st): return ('dead',)
                    raise Violation('loop invariant', 'invariant at block %d does not cover the visit it was inferred from' % hdr)
        sl.hdr = hdr
        sl.pc = list(st.pc)
        if getattr(self.pb, 'eager', False) and st.ghost.get('gen') is not None and all(l[0] in DERIVED or sl.hits & set(l) for l in sl.exp.values()) \
                and not any(g.hdr == hdr and g.r == sl.an.r for g in self.generics):
            # reached from an invariant (symbolic position): this visit is already general
            g = self._join(sl, sl, st, None)
            if g is not None: g.eager = True
            if g is not None and self.match(g, sl, st):
                self.generics.append(g); self.todo.append(g)
                return ('dead',)
        st.ghost['hist'] = hist + (sl,)
        return None

    class Slots: pass

    def slots(self, st, fr, an, new, delta):
        """describe every live value over the new anchor"""
        pb = self.pb
        s = Engine.Slots()
        H, tail, extra = pb.hvars(new.r)
        exp = {}
        for t, nm in zip(new.H, H): exp.setdefault(t, []).append(nm)
        for t, nm in zip(new.tail, tail): exp.setdefault(t, []).append(nm)
        if extra:
            for t, nm in zip(new.extra, extra): exp.setdefault(t, []).append(nm)
        for k, t in enumerate(pb.derived(new)): exp.setdefault(t, []).append(DERIVED[k])
        m = {}
        nb = (an.r + delta) // pb.B if not hasattr(pb, 'nblocks') else pb.nblocks(an, delta)
        if nb: m[Q] = T.sub(Q, T.const(nb, 64))
        for vname in ('P', 'K'):
            pass
        if an.P.op != 'c' and delta:
            # new symbol value = old + delta
            g = st.ghost.get('gen')
            if g is not None and g.sym is KV:
                if delta % g.d: return None
                m[KV] = T.sub(KV, T.const(delta // g.d, 64))
            else: m[PV] = T.sub(PV, T.const(delta, 64))
        s.an = new; s.P = new.P; s.exp = exp; s.m = m
        fixed = getattr(pb, 'constants', ())
        old = set(x for x in list(an.H) + list(an.tail) + list(an.extra or ()) if x.op == 'v' and x not in fixed)
        s.oldnames = set(x.val for x in old)
        s.live = {}
        s.score = 0
        hits = set()
        memo = dict(m)
        def cand(v):
            """-> (set of abstract names, raw or None)"""
            names = exp.get(v, [])
            hits.update(names)
            leaf = S.leafset(v)
            raw = None
            if not (leaf & s.oldnames) and not any('!' in x for x in leaf):
                raw = T.subst([v], m, memo)[0] if m else v
            elif not names and v.w >= 8 and not any('!' in x for x in leaf):
                nm = self.semantic(v, new, H)
                if nm is not None: names = [nm]; hits.add(nm)
            return (tuple(names), raw)
        def conv(v):
            if isinstance(v, E.Ptr): return ('p', v.obj, cand(v.off)[1] if v.obj is not None else v.off)
            if isinstance(v, E.FnPtr): return ('f', v.name)
            if isinstance(v, list): return ('l', [conv(x) for x in v])
            return ('t', v.w) + cand(v)
        s.conv = conv
        for vid in fr.fn.live_in(fr.blk):
            if vid in fr.env: s.live[vid] = conv(fr.env[vid])
        s.mem = {}
        s.cells = dict(st.mem.objs); st.mem.own = set()     # snapshot (copy on write from here on)
        def reread(oid, off, n):
            cells = s.cells.get(oid, {})
            bs = []
            for k in range(n - 1, -1, -1):
                c = cells.get(off + k)
                if c is None or isinstance(c[0], (E.Ptr, E.FnPtr)): return None
                v, j = c
                bs.append(v if v.w == 8 else T.ext(v, 8 * j + 7, 8 * j))
            return (n, conv(T.cat(*bs)))
        s.reread = reread
        for oid, cells in st.mem.objs.items():
            o = self.objof(st, oid)
            cs = {}
            done = set()
            for off in sorted(cells):
                if off in done: continue
                v, k = cells[off]
                n = v.w // 8
                if k == 0 and n > 1 and all(cells.get(off + j) == (v, j) for j in range(1, n)):
                    cs[off] = (n, conv(v)); done.update(range(off, off + n))
                elif isinstance(v, (E.Ptr, E.FnPtr)): cs[off] = (1, ('h', 8)); done.add(off)
                else:
                    b = v if v.w == 8 else T.ext(v, 8 * k + 7, 8 * k)
                    cs[off] = (1, conv(b)); done.add(off)
            s.mem[oid] = cs
        s.score = len(hits)
        s.full = len(set(x for l in exp.values() for x in l[:1]))
        s.tailneed = set(t for t in tail)
        s.hits = hits
        s.memkeys = None
        return s

    def objof(self, st, oid): return None

    def semantic(self, v, new, H):
        """value equal to a component of the expected specification state, though not syntactically"""
        import random
        cands = [(t, nm) for t, nm in zip(new.H, H) if t.w == v.w and t.op != 'v']
        if not cands: return None
        ck = ('sem', v, tuple(t for t, _ in cands))
        if not hasattr(self, '_sem'): self._sem = {}
        if ck in self._sem: return self._sem[ck]
        rnd = random.Random(5)
        live = list(cands)
        for _ in range(3):
            env, sel = eqv.rand_env(rnd)
            vals = T.evaluate([v] + [t for t, _ in live], env, sel)
            live = [c for c, x in zip(live, vals[1:]) if x == vals[0]]
            if not live: break
        r = None
        for t, nm in live[:2]:
            if eqv.equal([(v, t)]).ok: r = nm; break
        self._sem[ck] = r
        return r

    # ---- join of two visits on one path
    def join(self, a, b, st):
        pa, pb_ = a.P, b.P
        if pa.op != 'c' or pb_.op != 'c':
            d = T.sub(pb_, pa)
            if d.op != 'c': return None
            # both symbolic in the same symbol: cannot happen on a path started from an invariant unless it failed to match
            if d.val == 0: return None
            return self.join_sym(a, b, st)
        d = pb_.val - pa.val
        if d <= 0: return None
        return self._join(a, b, st, d)

    def join_sym(self, a, b, st): 
        # started from an invariant g (symbolic P) but reached a different header/residue twice:
        # generalise over the same symbol
        return self._join(a, b, st, None)

    def _join(self, a, b, st, d):
        g = Generic(); g.hdr = a.hdr; g.r = a.an.r; g.dead = False
        g.d = d
        slopes = []
        def jt(x, y):
            """join of two raw terms -> (kind, ...)"""
            if x is y: return ('k', x)
            if d is None: return None
            df = T.sub(y, x)
            if df.op == 'c' and x.w == 64:
                s = T._s(df.val, 64); slopes.append(s); return ('s', x, s)
            if df.op == 'c' and x.w in (32, 16):
                s = T._s(df.val, x.w); slopes.append(s); return ('s', x, s)
            return None
        def j(x, y):
            if x[0] != y[0]: return ('h', 64)
            if x[0] == 'p':
                if x[1] is not y[1] or x[2] is None or y[2] is None: return ('bad',)
                if x[1] is None: return ('p', None, ('k', x[2]))
                r = jt(x[2], y[2])
                return ('p', x[1], r) if r else ('bad',)
            if x[0] == 'f': return x if x == y else ('bad',)
            if x[0] == 'l': return ('l', [j(p, q) for p, q in zip(x[1], y[1])])
            if x[0] == 'h' : return x
            w = x[1]
            both = [n for n in x[2] if n in y[2]]
            if both: return ('n', both[0])
            if x[3] is not None and y[3] is not None:
                r = jt(x[3], y[3])
                if r: return ('r', r)
            return ('h', w)
        g.live = {}
        for vid in b.live:
            if vid not in a.live: continue
            r = j(a.live[vid], b.live[vid])
            if r == ('bad',): return None
            g.live[vid] = r
        g.mem = {}
        for oid in b.mem:
            ca = dict(a.mem.get(oid, {})); cb = b.mem[oid]
            out = {}
            for off, (n, v) in cb.items():
                o = ca.get(off)
                if n > 1 and (o is None or o[0] != n) and all(off + k in a.cells.get(oid, {}) for k in range(n)):
                    o = a.reread(oid, off, n)
                    if o is not None:
                        for k in range(n): ca.pop(off + k, None)
                        ca[off] = o
                if o is not None and o[0] == n:
                    r = j(o[1], v)
                    if r == ('bad',): r = ('h', 8 * n)
                    # stale input bytes left in a buffer: not part of the represented state
                    if r[0] == 'h' or (r[0] == 'r' and r[1][0] == 'k' and 'mem:' + self.pb.region in S.leafset(r[1][1])): r = ('h', 8 * n)
                    out[off] = (n, r)
                else: out[off] = (n, ('h', 8 * n))
            # overlapping different splits: havoc everything touched
            touched = {}
            for off, (n, v) in list(ca.items()):
                if off not in out or out[off][0] != n:
                    for k in range(n): touched[off + k] = 1
            for off, (n, v) in list(out.items()):
                if any((off + k) in touched for k in range(n)):
                    del out[off]
                    for k in range(n): touched[off + k] = 1
            for t in touched: out[t] = (1, ('h', 8))
            g.mem[oid] = out
        if d is None:
            # both visits are described relative to the position, which is the same symbol again (see slots())
            prev = st.ghost.get('gen')
            if prev is None: return None
            g.sym = prev.sym; g.d = prev.d; g.p1 = prev.p1; g.P = prev.P
        elif all(s % d == 0 for s in slopes):
            g.sym = PV; g.P = PV; g.p1 = a.P.val
            g.scale = d
        else:
            g.sym = KV; g.p1 = a.P.val; g.P = T.linear(64, [(d, KV)], g.p1); g.scale = 1
        g.slope = lambda s: (s // d if g.sym is PV else s)
        # conjuncts of the path condition about the remaining length
        g.conds = []
        if d is not None:
            p2 = b.P
            seen = set()
            have = list(self.pb.basic(g.P))
            for c in st.pc:
                lv = S.leafset(c)
                if 'len' not in lv or not lv <= self.pb.cond_vars(): continue
                c1 = T.subst([c], {LEN: T.add(RV, p2)})[0]
                if 'q' in S.leafset(c1): continue
                # holds at the first visit?
                for form in (c1, ):
                    ga = T.subst([form], {RV: T.sub(LEN, a.P)})[0]
                    if form not in seen and S.prove(a.pc, ga) is True:
                        seen.add(form)
                        inst = T.subst([form], {RV: T.sub(LEN, g.P)})[0]
                        if S.prove(have, inst) is not True: g.conds.append(('R', form)); have.append(inst)
                if c in a.pc and c not in seen:
                    seen.add(c)
                    if S.prove(have, c) is not True: g.conds.append(('L', c)); have.append(c)
        if d is not None and g.sym is PV and a.P.op == 'c' and d & 1 == 0:
            k = (d & -d).bit_length() - 1      # position modulo the step (dropped again when entered with another remainder)
            g.conds.append(('P', T.eq(T.ext(PV, k - 1, 0), T.const(a.P.val & T.mask(k), k))))
        for c in (self.pb.candidates() if hasattr(self.pb, 'candidates') else ()):
            if S.prove(a.pc if hasattr(a, 'pc') else st.pc, c) is True and S.prove(st.pc, c) is True: g.conds.append(('L', c))
        for c in (self.pb.pos_candidates() if d is not None and g.sym is PV and hasattr(self.pb, 'pos_candidates') else ()):
            if all(S.prove(v.pc if hasattr(v, 'pc') else st.pc, T.subst([c], {PV: v.P})[0]) is True for v in (a, b)): g.conds.append(('P', c))
        g.base_an = b.an
        return g

    def value(self, g, r):
        """slot -> concrete symbolic value under the invariant"""
        k = r[0]
        if k == 'n': return self.pb.derived(g.anchor)[DERIVED.index(r[1])] if r[1] in DERIVED else r[1]
        if k == 'h': return E.fresh('hv', r[1])
        if k == 'p': return E.Ptr(r[1], self.value(g, ('r', r[2])))
        if k == 'f': return E.FnPtr(r[1])
        if k == 'l': return [self.value(g, x) for x in r[1]]
        if k == 'r':
            x = r[1]
            if x[0] == 'k': return x[1]
            s = g.slope(x[2])
            w = x[1].w
            if g.sym is PV: return T.linear(w, [(1, x[1]), (s, T.trunc(PV, w))], -s * g.p1)
            return T.linear(w, [(1, x[1]), (s, T.trunc(KV, w))])
        raise AssertionError(r)

    def instantiate(self, g):
        st = E.State()
        H, tail, extra = self.pb.hvars(g.r)
        an = g.anchor = Anchor(g.r, g.P, H, tail, extra)
        fr = E.Frame(self.fn)
        st.frames.append(fr)
        fr.blk = g.hdr
        ins = self.fn.blocks[g.hdr]['ins']
        fr.ip = sum(1 for i in ins if i['op'] == 'phi')
        fr.prev = -1
        for vid, r in g.live.items(): fr.env[vid] = self.value(g, r)
        for oid, cells in g.mem.items():
            c = {}
            for off, (n, r) in cells.items():
                v = self.value(g, r)
                for k in range(n): c[off + k] = (v, k)
            st.mem.objs[oid] = c; st.mem.own.add(oid)
        st.ghost['anchor'] = an
        st.ghost['gen'] = g
        for c in self.pb.basic(g.P): st.assume(c)
        if g.sym is KV: st.assume(T.ule(KV, T.const(self.pb.max_len // g.d, 64)))
        for kind, c in g.conds:
            st.assume(T.subst([c], {RV: T.sub(LEN, g.P)})[0] if kind == 'R' else c)
        self.pb.at_instantiate(self, st, g)
        return st

    def match(self, g, sl, st):
        """does the visit described by sl satisfy invariant g?  Creates no obligation when it does not match structurally."""
        # instance of the symbol
        P = sl.P
        if g.sym is PV:
            inst = {PV: P}
        else:
            dd = T.sub(P, T.const(g.p1, 64))
            if P.op == 'c':
                if dd.val % g.d or T._s(dd.val, 64) < 0: return False
                inst = {KV: T.const(dd.val // g.d, 64)}
            else:
                # P = d*K' + c
                kk = [q for q, t in zip(P.val[1:], P.args)] if P.op == 'lin' else None
                c0, ps = T._lin_parts(P)
                if len(ps) != 1 or ps[0][1] is not KV or ps[0][0] != g.d or (c0 - g.p1) % g.d: return False
                inst = {KV: T.add(KV, T.const((c0 - g.p1) // g.d, 64))}
        # slots were renamed to the new anchor where P (symbolic) is spelled P itself
        ren = P
        if P.op != 'c':
            if g.sym is PV: inst = {}
            else:
                inst = {}
                # after renaming sl's raw terms speak about K with P = d*K + p1'
                gen = st.ghost.get('gen')
                if gen is None or gen.sym is not KV or gen.d != g.d or gen.p1 != g.p1: return False
        def m(r, x):
            k = r[0]
            if k == 'h': return True
            if k == 'n': return x[0] == 't' and r[1] in x[2]
            if k == 'p':
                if x[0] != 'p' or x[1] is not r[1]: return False
                if r[1] is None: return True
                if x[2] is None: return False
                return same(self.value(g, ('r', r[2])), x[2])
            if k == 'f': return x == r
            if k == 'l': return x[0] == 'l' and all(m(p, q) for p, q in zip(r[1], x[1]))
            if k == 'r':
                if x[0] != 't' or x[3] is None: return False
                return same(self.value(g, r), x[3])
            return False
        def same(gv, xv):
            if inst: gv = T.subst([gv], inst)[0]
            return gv is xv
        for vid, r in g.live.items():
            if vid not in sl.live or not m(r, sl.live[vid]):
                if DBG: print('MISMATCH live', vid, r, sl.live.get(vid))
                return False
        widen = []
        for oid, cells in g.mem.items():
            have = sl.mem.get(oid, {})
            for off, (n, r) in cells.items():
                if r[0] == 'h': continue
                h = have.get(off)
                if h is None or h[0] != n: h = sl.reread(oid, off, n)
                if h is None or h[0] != n or not m(r, h[1]):
                    if getattr(g, 'eager', False) and r[0] == 'r' and E.Exec.objs_by_id[oid].kind == 'stack': widen.append((oid, off)); continue
                    if DBG: print('MISMATCH', oid, E.Exec.objs_by_id[oid], off, n, r, h)
                    return False
        # side conditions: P <= len etc., under the real path condition
        real = st.ghost['anchor'].P
        newP = sl.an.P
        for c in self.pb.basic(newP):
            if 'q' in S.leafset(c): continue     # see basic(): implied by the entry bound and the number of blocks in the input
            if S.prove(st.pc, c) is not True:
                if DBG: print('NOT IMPLIED', c, 'by', st.pc)
                return False
        bad = []
        for kind, c in g.conds:
            cc = T.subst([c], {RV: T.sub(LEN, newP)})[0] if kind == 'R' else T.subst([c], {PV: newP})[0] if kind == 'P' else c
            if S.prove(st.pc, cc) is not True: bad.append((kind, c))
        if widen:
            # scratch contents of local objects that the first visit happened to have: not part of the invariant
            g2 = Generic(); g2.__dict__.update(g.__dict__)
            g2.mem = {o: dict(c) for o, c in g.mem.items()}
            for o, off in widen: g2.mem[o][off] = (g2.mem[o][off][0], ('h', 8 * g2.mem[o][off][0]))
            g2.conds = [x for x in g.conds if x not in bad]
            g.dead = True
            self.generics.append(g2); self.todo.append(g2)
            n = self.ex.nob.setdefault('loop invariant re-established', [0, 0, 0])
            n[0] += 1; n[2] += 1
            return True
        if bad:
            # weaken: replace the invariant by one without the conjuncts that are not inductive
            g2 = Generic(); g2.__dict__.update(g.__dict__)
            g2.conds = [x for x in g.conds if x not in bad]
            g.dead = True
            self.generics.append(g2); self.todo.append(g2)
            n = self.ex.nob.setdefault('loop invariant re-established', [0, 0, 0])
            n[0] += 1; n[2] += 1
            return True
        n = self.ex.nob.setdefault('loop invariant re-established', [0, 0, 0])
        k = len(g.live) + sum(len(c) for c in g.mem.values()) + len(g.conds)
        n[0] += k; n[1] += k - len(g.conds); n[2] += len(g.conds)
        return True

Problem.cond_vars = lambda self: {'len', 'P', 'K'}
Problem.at_instantiate = lambda self, eng, st, g: None
