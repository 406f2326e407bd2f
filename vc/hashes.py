"""Contracts of the hash functions.

    hash(data, seed)  ensures result == Spec(data, seed), reads only data; for every data and every seed
    streaming:  sinit(seed) ensures represents(state, seed, "")
                supdate(state, data) requires represents(state, seed, m) ensures represents(state, seed, m || data)
                sfinal(state) requires represents(state, seed, m) ensures result == Spec(m, seed), state unchanged
Spec is specs/hashes.py. Lengths up to Spec.small are executed one by one (no loop is cut); all longer messages are
covered by the inferred loop invariants (see stream.py)."""
from . import term as T, exe as E, stream as ST, solver as S
from .digest import require, bad, finish_job, lay
from specs import hashes as HS
from .word import *

def spec(name): return HS.ALL[{'murmur3_64': 'murmur3', 'jumbo': 'mumbo', 'jumbo128': 'mumbo128'}.get(name, name)]
SEED = T.var('seed', 64); KEY = T.var('key', 128)
def seedvar(sp): return KEY if getattr(sp, 'keyed', False) else SEED
def nout(name): return 1 if name in ('murmur3_64',) else spec(name).bits // 64

def sinit(sp, seed, n): return sp.init(seed, n) if isinstance(sp, HS.Tembo) else sp.init(seed)

class Long(ST.Problem):
    """messages longer than Spec.small"""
    uses_len = True
    def __init__(self, name, case=None):
        """case: None, or 'zero' / 'nonzero': seed"""
        self.name = name; self.case = case; self.seed = T.const(0, 64) if case == 'zero' else seedvar(spec(name)); self.sp = spec(name); self.B = self.sp.B; self.no = nout(name); self.constants = (self.seed,); self.scales = (self.B,) if self.B > 1 else ()
        self.data = E.Obj('data', ST.LEN, 'arg', ro=True, region='data'); self.out = E.Obj('out', 8 * self.no, 'arg')
        self.key = E.Obj('key', 16, 'arg', ro=True); self.key.default = lambda o: (KEY, o)
        for o in (self.data, self.out, self.key): E.Exec.objs_by_id[o.id] = o
    def hvars(self, r):
        H = [T.var('H%d' % i, 64) for i in range(self.nh())]
        if self.sp.name.startswith('xxh3'): H[8] = self.seed      # carried along by the specification: a constant of the run
        return H, [T.var('t%d' % i, 8) for i in range(r)], None
    def nh(self): return len(sinit(self.sp, self.seed, ST.LEN))
    def derived(self, an): return []
    def nblocks(self, an, d): return (an.r + d) // self.B
    def cases(self): return [self.case]
    def absorb(self, an, bs):
        H = list(an.H); tail = list(an.tail)
        for b in bs:
            tail.append(b)
            if len(tail) == self.B: H = self.sp.step(H, tail); tail = []
        return ST.Anchor(len(tail), T.add(an.P, T.const(len(bs), 64)), H, tail, q=T.const(0, 64))
    def basic(self, P): return [T.ult(T.const(self.sp.small, 64), ST.LEN)] + [c for c in ST.Problem.basic(self, P) if 'q' not in S.leafset(c)]
    def args(self):
        k = E.Ptr(self.key, E.C0) if getattr(self.sp, 'keyed', False) else self.seed
        return [E.Ptr(self.data, E.C0), ST.LEN, k, E.Ptr(self.out, E.C0)]
    def setup(self, ex, fn, case):
        st = E.State(); st.ghost['anchor'] = ST.Anchor(0, T.const(0, 64), sinit(self.sp, self.seed, ST.LEN), [], q=T.const(0, 64))
        for c in self.basic(T.const(0, 64)): st.assume(c)
        if case == 'nonzero': st.assume(T.ne(self.seed, T.const(0, 64)))
        return ex.call_state(fn, self.args(), st)
    def raw_return(self, eng, st, ret, an):
        ex = eng.ex; sp = self.sp
        got = [ex.load_int(st, self.out, 8 * i, 8) for i in range(self.no)]
        # position of the first byte of the current block
        base = T.sub(an.P, T.const(an.r, 64))
        R = T.sub(ST.LEN, base)
        g = sp.group
        if S.check(st.pc)[0] == 'unsat': return
        if g == 1:
            for v in ex.values(st, R, limit=4 * self.B + 64): self.one(eng, st, got, an, base, v, {ST.LEN: T.add(base, T.const(v, 64))}, list(st.pc))
        else:
            k = T.lshr(T.sub(R, T.const(1, 64)), T.const(g.bit_length() - 1, 64))
            for s in ex.values(st, k, limit=4 * self.B // g + 8): self.one(eng, st, got, an, base, self.sp.small + 1 if s == self.sp.small // g else g * s + 1, {}, list(st.pc) + [T.eq(k, T.const(s, 64))])
    def one(self, eng, st, got, an, base, v, m, pc):
        sp = self.sp
        pc = [c for c in (T.subst(pc, m) if m else pc) if c is not T.TRUE]
        if any(c is T.FALSE for c in pc): return
        r = S.check(pc)[0]
        if r == 'unsat': return
        n = m.get(ST.LEN, ST.LEN)
        nd = an.r
        byte = lambda i: an.tail[i] if i < an.r else T.sel('data', T.add(base, T.const(i, 64)))
        end = lambda i: T.sel('data', T.sub(n, T.const(i, 64)))
        H = list(an.H); o = 0; started = None
        if m: H = T.subst(H, m)
        while sp.more(v - o):
            H = sp.step(H, [byte(o + i) for i in range(self.B)]); o += self.B; started = True
        if started is None:
            # was a block absorbed before?
            if base.op == 'c': started = base.val > 0
            else:
                z = T.eq(base, T.const(0, 64))
                if S.prove(pc, T.bnot(z)) is True: started = True
                elif S.prove(pc, z) is True: started = False
                else:
                    for val, c in ((False, z), (True, T.bnot(z))): self.finish(eng, got, H, val, v - o, lambda i: byte(o + i), end, n, m, pc + [c], an, base)
                    return
        self.finish(eng, got, H, started, v - o, lambda i: byte(o + i), end, n, m, pc, an, base)
    def finish(self, eng, got, H, started, v, byte, end, n, m, pc, an, base):
        want = self.sp.fin(self.seed, H, started, v, byte, end, n)[:self.no]
        if not started and S.prove(pc, T.eq(base, T.const(0, 64))) is True and base.op != 'c':
            sub = {ST.PV if ST.PV in T.topo([base]) else ST.KV: T.const(0, 64)}
            m = dict(m); m.update(sub)
        if self.sp.group > 1:
            # number of complete blocks, as the code computes it from the length
            sh = T.const(self.B.bit_length() - 1, 64); t = T.lshr(T.sub(n, T.const(1, 64)), sh)
            k = T.const(base.val // self.B, 64) if base.op == 'c' else ST.KV
            if t.op != 'c' and S.prove(pc, T.eq(t, k)) is True:
                m = dict(m); k = T.subst([k], m)[0]; m[t] = k; m[T.linear(64, [(self.B, t)])] = T.linear(64, [(self.B, k)])
            want = T.subst(want, m)
        eng.require_equal('hash of a long message', list(zip(got, want)), pc, m)

def job_long(res, js, name, entry, case=None):
    from . import drive
    mod = drive.load_module(js)
    ex = ST.run(mod, mod.fns[entry], Long(name, case), exec_opts=OPTS.get(name), loop_limit=26 if name.startswith('xxh3') else None)
    drive.absorb_exec(res, ex)
    res['detail'].append('every length above %d: %d loop invariant(s), %d header visits' % (spec(name).small, ex.generics, ex.header_visits))
OPTS = {'xxh3_64': {'extents': (1024, 64)}, 'xxh3_128': {'extents': (1024, 64)}}

def job_short(res, js, name, entry, seed=None):
    """lengths 0..small, each executed with symbolic bytes and seed"""
    from . import drive
    mod = drive.load_module(js); sp = spec(name); no = nout(name)
    ex = E.Exec(mod, loop_limit=4096); ex.returns = 0
    for n in range(sp.small + 1):
        data = E.Obj('data', T.const(n, 64), 'arg', ro=True, region='data'); out = E.Obj('out', 8 * no, 'arg'); key = E.Obj('key', 16, 'arg', ro=True); key.default = lambda o: (KEY, o)
        for o in (data, out, key): E.Exec.objs_by_id[o.id] = o
        k = E.Ptr(key, E.C0) if getattr(sp, 'keyed', False) else SEED
        bs = [T.sel('data', T.const(i, 64)) for i in range(n)]
        want = sp.value(seedvar(sp) if seed is None else T.const(seed, 64), bs)[:no]
        before = ex.returns
        for st, _ in ex.run([ex.call_state(mod.fns[entry], [E.Ptr(data, E.C0), T.const(n, 64), k, E.Ptr(out, E.C0)])]):
            ex.returns += 1; bad(ex)
            require(ex, 'hash of a short message', list(zip([ex.load_int(st, out, 8 * i, 8) for i in range(no)], want)), st.pc, ' of %d bytes' % n)
        bad(ex)
        if ex.returns == before: raise ST.Violation('reachability', 'never returns for length %d' % n)
    finish_job(res, ex)
    res['detail'].append('every length 0..%d' % sp.small)

# ---------------------------------------------------------------- streaming
def layname(name): return 'mumbo' if name in ('mumbo', 'jumbo') else name

class Stream:
    """represents(state): acc = specification state after the complete blocks, buffer = pending bytes, buffered = their number,
    total = bytes so far (xxh64, siphash). Before the first block xxh64 and siphash hold init(seed)."""
    def __init__(self, name, so):
        self.name = name; self.sp = spec(name); self.B = self.sp.B
        self.lay = lay(so, layname(name), ('size', 'acc', 'buffer', 'buffered', 'total'))
    def residues(self): return list(range(self.B))
    def hv(self, r): return [T.var('H%d' % i, 64) for i in range(self.sp.nh)]
    def hvars(self, r): return self.hv(r), [T.var('t%d' % i, 8) for i in range(r % self.B)], None
    def nblocks(self, an, d): return (an.r % self.B + d) // self.B
    def derived(self, an): return [T.add(self.total(an), T.sub(ST.LEN, an.P))]
    def total(self, an): return T.linear(64, [(self.B, an.q)], an.r % self.B)
    def anchor(self, r, q=ST.Q):
        H, tail, _ = self.hvars(r)
        return ST.Anchor(r, T.const(0, 64), H, tail, q=q)
    def entry(self, r): return self.anchor(r)
    def absorb(self, an, bs):
        H = list(an.H); tail = list(an.tail); r = an.r
        for b in bs:
            tail.append(b)
            if len(tail) == self.B: H = self.block(r, H, tail); tail = []; r = self.after(r)
        return ST.Anchor(r // self.B * self.B + len(tail), T.add(an.P, T.const(len(bs), 64)), H, tail, q=T.add(an.q, T.const((an.r % self.B + len(bs)) // self.B, 64)))
    def block(self, r, H, tail): return self.sp.step(H, tail)
    def after(self, r): return 0
    def put(self, c, off, v):
        for k in range(v.w // 8): c[off + k] = (v, k)
    def place(self, st, obj, an):
        c = st.mem.wcells(obj); L = self.lay
        for k in range(L['size']): c[k] = (T.var('junk%d' % k, 8), 0)
        for i, h in enumerate(an.H): self.put(c, L['acc'] + 8 * i, h)
        for i, t in enumerate(an.tail): c[L['buffer'] + i] = (t, 0)
        self.put(c, L['buffered'], T.const(len(an.tail), 64)); self.put(c, L['total'], self.total(an))
        return c
    def compare(self, ex, st, obj, end):
        L = self.lay
        return [('specification state', [(ex.load_int(st, obj, L['acc'] + 8 * i, 8), h) for i, h in enumerate(end.H)]),
                ('pending bytes', [(ex.load_int(st, obj, L['buffer'] + i, 1), t) for i, t in enumerate(end.tail)] + [(ex.load_int(st, obj, L['buffered'], 8), T.const(len(end.tail), 64))]),
                ('byte count', [(ex.load_int(st, obj, L['total'], 8), self.total(end))])]
    def more_compare(self, eng, st, obj, end, m, pc): pass
    def qrange(self, r): return T.ule(ST.Q, T.const(1 << 55, 64))
    def init(self): return ST.Anchor(0, T.const(0, 64), self.sp.init(SEED), [], q=T.const(0, 64))
    def finals(self, r):
        """-> (anchor, started, placed state fields) per case"""
        H, tail, _ = self.hvars(r)
        yield ST.Anchor(r, T.const(0, 64), self.sp.init(SEED), tail, q=T.const(0, 64)), False
        yield self.anchor(r), True
    def want(self, an, started):
        t = an.tail; end = lambda i: t[len(t) - i]
        return self.sp.fin(SEED, an.H, started, len(t), lambda i: t[i], end, self.total(an))

class MumboStream(Stream):
    """residue codes r (no block yet: the chains are not initialised) and 128 + r (started); seed field = mixed seed S0;
    last16 = the last 16 bytes of the message (as far as it has them)"""
    S0 = T.var('S0', 64)
    def __init__(self, name, so):
        self.name = name; self.sp = spec(name); self.B = 128
        self.lay = lay(so, 'mumbo', ('size', 'seed', 'acc', 'started', 'buffer', 'buffered', 'last16', 'total'))
        self.E = [T.var('e%d' % i, 8) for i in range(16)]
    def residues(self): return list(range(256))
    def hv(self, r): return [] if r < 128 else [T.var('H%d' % i, 64) for i in range(8)]
    def block(self, r, H, tail):
        if r < 128: H = self.start()
        return self.sp.step(H, tail)
    def start(self): return [T.xor(self.S0, T.const(HS.SQ[8 + i], 64)) for i in range(8)]
    def after(self, r): return 128
    def place(self, st, obj, an, last=None):
        c = Stream.place(self, st, obj, an); L = self.lay
        self.put(c, L['seed'], self.S0); c[L['started']] = (T.const(an.r // 128, 8), 0)
        for i, e in enumerate(last or self.E): c[L['last16'] + i] = (e, 0)
        return c
    def compare(self, ex, st, obj, end):
        L = self.lay
        return Stream.compare(self, ex, st, obj, end) + [('mixed seed and started flag', [(ex.load_int(st, obj, L['seed'], 8), self.S0), (ex.load_int(st, obj, L['started'], 1), T.const(end.r // 128, 8))])]
    def more_compare(self, eng, st, obj, end, m, pc):
        L = self.lay; got = [eng.ex.load_int(st, obj, L['last16'] + i, 1) for i in range(16)]
        n = m.get(ST.LEN, ST.LEN)
        def go(k, mm, pp):
            """k: concrete length below 16, or None: at least 16"""
            if k is None: want = [T.sel('data', T.add(n, T.const(i - 16 & HS.M64, 64))) for i in range(16)]
            else:
                w = self.E + [T.sel('data', T.const(i, 64)) for i in range(k)]; want = w[-16:]
            eng.require_equal('update: last 16 bytes', list(zip(got, want)), pp, mm)
        if n.op == 'c': return go(n.val if n.val < 16 else None, m, pc)
        if S.prove(pc, T.ule(T.const(16, 64), n)) is True: return go(None, m, pc)
        c = T.ule(T.const(16, 64), n)
        if S.check(pc + [c])[0] != 'unsat': go(None, m, pc + [c])
        for k in range(16):
            e = T.eq(n, T.const(k, 64))
            if S.check(pc + [e])[0] == 'unsat': continue
            syms = [x for x in (ST.PV, ST.KV) if x in set(T.topo([n]))]
            if len(syms) != 1: raise ST.Violation('update: last 16 bytes', 'unexpected position %r' % (n,))
            tmp = E.State()
            for c_ in pc + [e]: tmp.assume(c_)
            for v in eng.ex.values(tmp, syms[0], limit=64):
                mm = {syms[0]: T.const(v, 64), ST.LEN: T.const(k, 64)}
                p2 = [c for c in T.subst(list(pc), mm) if c is not T.TRUE]
                if not any(c is T.FALSE for c in p2): go(k, mm, p2)
    def qrange(self, r): return T.eq(ST.Q, T.const(0, 64)) if r < 128 else Stream.qrange(self, r)     # the count itself stays symbolic: it must not be confused with the chunk length
    def init(self): return ST.Anchor(0, T.const(0, 64), [], [], q=T.const(0, 64))
    def finals(self, r):
        H, tail, _ = self.hvars(r)
        yield ST.Anchor(r, T.const(0, 64), [], tail, q=T.const(0, 64)), False
        yield ST.Anchor(128 + r, T.const(0, 64), [T.var('H%d' % i, 64) for i in range(8)], tail, q=ST.Q), True
    def last(self, an): return (self.E + an.tail)[-16:]
    def want(self, an, started):
        t = an.tail; w = self.E + t
        return self.sp.fin0(self.S0, an.H, started, len(t), lambda i: t[i], lambda i: w[len(w) - i], self.total(an))

def mkstream(name, so): return (MumboStream if name in ('mumbo', 'jumbo') else Stream)(name, so)

class StreamUpdate(ST.Problem):
    def __init__(self, m, residues):
        self.m = m; self.B = m.B; self.residues = residues
        self.state = E.Obj('state', m.lay['size'], 'arg'); self.data = E.Obj('data', ST.LEN, 'arg', ro=True, region='data')
        for o in (self.state, self.data): E.Exec.objs_by_id[o.id] = o
    def hvars(self, r): return self.m.hvars(r)
    def derived(self, an): return self.m.derived(an)
    def nblocks(self, an, d): return self.m.nblocks(an, d)
    def cases(self): return self.residues
    def setup(self, ex, fn, r):
        st = E.State(); an = self.m.entry(r); self.m.place(st, self.state, an); st.ghost['anchor'] = an
        for c in self.basic(T.const(0, 64)): st.assume(c)
        st.assume(self.m.qrange(r))
        return ex.call_state(fn, [E.Ptr(self.state, E.C0), E.Ptr(self.data, E.C0), ST.LEN], st)
    def absorb(self, an, bs): return self.m.absorb(an, bs)
    def at_return(self, eng, st, ret, an, end, m, pc):
        for label, pairs in self.m.compare(eng.ex, st, self.state, end): eng.require_equal('update: ' + label, pairs, pc, m)
        self.m.more_compare(eng, st, self.state, end, m, pc)

def job_update(res, js, so, name, entry, residues):
    from . import drive
    mod = drive.load_module(js); m = mkstream(name, so)
    ex = ST.run(mod, mod.fns[entry], StreamUpdate(m, residues))
    drive.absorb_exec(res, ex)
    res['detail'].append('%d entry states: %d loop invariant(s), %d header visits' % (len(residues), ex.generics, ex.header_visits))

def job_initfinal(res, js, so, name, init, final):
    from . import drive
    mod = drive.load_module(js); m = mkstream(name, so)
    ex = E.Exec(mod); ex.returns = 0
    if init:
        so_ = E.Obj('state', m.lay['size'], 'arg'); E.Exec.objs_by_id[so_.id] = so_
        for st, _ in ex.run([ex.call_state(mod.fns[init], [E.Ptr(so_, E.C0), SEED])]):
            ex.returns += 1; bad(ex)
            for label, pairs in m.compare(ex, st, so_, m.init()):
                if isinstance(m, MumboStream): pairs = [(a, m.sp.seed0(SEED) if b is m.S0 else b) for a, b in pairs]
                require(ex, 'init: ' + label, pairs, st.pc)
        bad(ex)
        if not ex.returns: raise ST.Violation('reachability', 'init never returns')
    for r in (range(m.B) if final else ()):
        for an, started in m.finals(r):
            before = ex.returns; st = E.State()
            so_ = E.Obj('state', m.lay['size'], 'arg', ro=True); out = E.Obj('out', 8, 'arg')
            for o in (so_, out): E.Exec.objs_by_id[o.id] = o
            if isinstance(m, MumboStream): m.place(st, so_, an, m.last(an))
            else: m.place(st, so_, an)
            st.assume(T.ule(ST.Q, T.const(1 << 56, 64)))
            if started: st.assume(T.ule(T.const(1, 64), ST.Q))
            want = m.want(an, started)
            for s2, _ in ex.run([ex.call_state(mod.fns[final], [E.Ptr(so_, E.C0), E.Ptr(out, E.C0)], st)]):
                ex.returns += 1; bad(ex)
                require(ex, 'final: result equals the hash of the represented message', [(ex.load_int(s2, out, 0, 8), want[0])], s2.pc, ' with %d pending bytes, %s' % (r, 'after some block' if started else 'before the first block'))
            bad(ex)
            if ex.returns == before: raise ST.Violation('reachability', 'final never returns with %d pending bytes' % r)
    finish_job(res, ex)
    res['detail'].append('all %d pending lengths, before and after the first block' % m.B)
