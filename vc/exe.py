"""Symbolic execution of LLVM IR (JSON from irdump) generating proof obligations.

Paths are forked at branches that the path condition does not decide; loops whose
trip count is fixed by constants unroll completely; other loops are cut at their
header by a handler (see stream.py) that supplies and checks an inductive
invariant.  Calls to functions under contract use the contract.
"""
import json, re, time
from . import term as T
from . import solver as S

class Unsupported(Exception): pass
class NeedCut(Exception):
    def __init__(self, fn, hdr): self.fn = fn; self.hdr = hdr
class Budget(Exception): pass

class Obj:
    __slots__ = ('id', 'name', 'size', 'kind', 'ro', 'region', 'default')
    _n = [0]
    def __init__(self, name, size, kind, ro=False, region=None, default=None):
        Obj._n[0] += 1
        self.id = Obj._n[0]; self.name = name; self.size = size; self.kind = kind; self.ro = ro
        self.region = region        # name for sel(); None: concrete byte cells
        self.default = default      # f(off)->(val, idx) for untouched cells
    def __repr__(self): return 'Obj(%s)' % self.name

class Ptr:
    __slots__ = ('obj', 'off')
    w = 64
    def __init__(self, obj, off): self.obj = obj; self.off = off
    def __repr__(self): return '&%s+%r' % (self.obj.name if self.obj else 'null', self.off)

class FnPtr:
    __slots__ = ('name',)
    w = 64
    def __init__(self, name): self.name = name
    def __repr__(self): return '&fn %s' % self.name

C0 = T.const(0, 64)
NULL = Ptr(None, C0)

class Mem:
    __slots__ = ('objs', 'own')
    def __init__(self): self.objs = {}; self.own = set()
    def fork(self):
        m = Mem(); m.objs = dict(self.objs); self.own = set(); return m
    def cells(self, o):
        return self.objs.get(o.id)
    def wcells(self, o):
        c = self.objs.get(o.id)
        if c is None: c = {}; self.objs[o.id] = c; self.own.add(o.id)
        elif o.id not in self.own: c = dict(c); self.objs[o.id] = c; self.own.add(o.id)
        return c

class Frame:
    __slots__ = ('fn', 'blk', 'prev', 'ip', 'env', 'ret_to', 'loopcnt', 'uid')
    _u = [0]
    def __init__(self, fn):
        self.fn = fn; self.blk = 0; self.prev = -1; self.ip = 0; self.env = {}; self.ret_to = None; self.loopcnt = {}
        Frame._u[0] += 1; self.uid = Frame._u[0]
    def fork(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.blk = self.blk; f.prev = self.prev; f.ip = self.ip; f.env = dict(self.env); f.ret_to = self.ret_to; f.loopcnt = dict(self.loopcnt); f.uid = self.uid
        return f

class State:
    __slots__ = ('frames', 'mem', 'pc', 'known', 'ghost', 'trace', 'steps', 'ivl', 'valid', 'bnd')
    def __init__(self):
        self.frames = []; self.mem = Mem(); self.pc = []; self.known = {}; self.ghost = {}; self.trace = []; self.steps = 0
        self.ivl = {}       # base term -> (start, count): modular interval implied by the path condition
        self.bnd = {}       # base term -> path conjuncts that bound it (None: not tracked)
        self.valid = {}     # (object id, base) -> (lo, end): offsets base+lo .. base+end proved in bounds on this path
    def fork(self):
        s = State.__new__(State)
        s.frames = [f.fork() for f in self.frames]
        s.mem = self.mem.fork(); s.pc = list(self.pc); s.known = dict(self.known); s.ghost = dict(self.ghost); s.trace = list(self.trace); s.steps = self.steps
        s.ivl = dict(self.ivl); s.valid = dict(self.valid); s.bnd = dict(self.bnd)
        return s
    def assume(self, c):
        if c is T.TRUE: return
        if c.op == 'and':
            for a in c.args: self.assume(a)
            return
        self.pc.append(c)
        if c.op == 'eq':
            a, b = c.args
            if b.op == 'c': self.learn(a, b.val)
        elif c.op == 'ult': self.bound(c, True, c)
        else:
            k = T.not_key(c)
            if k is not None and k.op == 'ult': self.bound(k, False, c)
    def bound(self, c, pos, full):
        a, b = c.args
        M = 1 << a.w
        if b.op == 'c': t, lo, hi = a, 0, b.val              # a < b: [0, b)
        elif a.op == 'c': t, lo, hi = b, a.val + 1, M        # a < b: (a, M)
        else: return
        if not pos: lo, hi = (hi, M) if lo == 0 else (0, lo)
        c0, base = lin_base(t)
        exact = self.narrow(base, (lo - c0) % M, hi - lo)
        old = self.bnd.get(base, ())
        if exact and old is not None:
            # the interval of base is exactly described by at most two conjuncts; earlier ones are subsumed
            s, n = self.ivl[base]
            new = None
            if n == 0: new = None
            elif s + n <= M:
                new = []
                if s > 0: new.append(T.bnot(T.ult(base, T.const(s, base.w))))
                if s + n < M: new.append(T.ult(base, T.const(s + n, base.w)))
            if new is not None:
                if any(x is T.FALSE or x is T.TRUE or x.op == 'eq' for x in new): new = None
                elif any(T.not_key(x) is not None and T.not_key(x).op != 'ult' for x in new): new = None
            if new is not None:
                drop = set(old); drop.add(full); drop -= set(new)
                if drop: self.pc = [x for x in self.pc if x not in drop]
                have = set(self.pc)
                self.pc.extend(x for x in new if x not in have)
                self.bnd[base] = tuple(new)
            else: self.bnd[base] = tuple(old) + (full,)
        else: self.bnd[base] = None
    def narrow(self, base, s, n):
        """intersects the interval of base with [s, s+n); True if the result is exactly the intersection"""
        M = 1 << base.w
        o = self.ivl.get(base)
        exact = True
        if o is not None:
            s0, n0 = o
            # intersection when it is one interval
            d = (s - s0) % M; d2 = (s0 - s) % M
            in1 = d < n0; in2 = d2 < n
            if s0 == s: n = min(n, n0)
            elif in1 and not in2: n = min(n, n0 - d)
            elif in2 and not in1: s, n = s0, min(n0, n - d2)
            elif not in1 and not in2: exact = False; s, n = o
            else:
                exact = False
                if n0 <= n: s, n = o
        self.ivl[base] = (s, n)
        return exact
    def interval(self, t):
        """(start, count) of a non-constant term, or None"""
        c0, base = lin_base(t)
        o = self.ivl.get(base)
        if o is None: return None
        return ((o[0] + c0) % (1 << t.w), o[1])
    def decide_ult(self, a, b):
        """True/False/None for a < b, one side constant"""
        if b.op == 'c': t, lo, hi = a, 0, b.val
        elif a.op == 'c': t, lo, hi = b, a.val + 1, 1 << a.w
        else: return None
        o = self.interval(t)
        if o is None: return None
        s, n = o
        M = 1 << t.w
        if n <= 0: return None
        if s + n > M: return None
        if lo <= s and s + n <= hi: return True
        if s + n <= lo or s >= hi: return False
        return None
    def decide_eq(self, a, b):
        if b.op != 'c': return None
        o = self.interval(a)
        if o is None or o[1] <= 0: return None
        if (b.val - o[0]) % (1 << a.w) >= o[1]: return False
        return None
    def learn(self, t, v):
        if t.op == 'lin':
            c0 = t.val[0]
            base = T.linear(t.w, list(zip(t.val[1:], t.args)), 0)
            self.known[base] = (v - c0) & T.mask(t.w)
            self.known[T.neg(base)] = (c0 - v) & T.mask(t.w)
        else:
            self.known[t] = v
            self.known[T.neg(t)] = -v & T.mask(t.w)

def lin_base(t):
    if t.op != 'lin': return 0, t
    c0 = t.val[0]
    if not c0:
        return 0, t
    return c0, T.linear(t.w, list(zip(t.val[1:], t.args)), 0)

class Fn:
    def __init__(self, j, mod):
        self.name = j['name']; self.dem = j['dem']; self.params = j['params']; self.blocks = j['blocks']; self.ret = j['ret']; self.mod = mod
        for b in self.blocks:
            for i in b['ins']: i['tyw'] = tyw(i['ty'])
        self.loops = {i: set(b['loop']) for i, b in enumerate(self.blocks) if 'loop' in b}
        # innermost loop per block
        self.inner = {}
        for h, bl in sorted(self.loops.items(), key=lambda kv: -len(kv[1])):
            for x in bl: self.inner[x] = h
        self._live = None
    def guards(self, vid):
        """a value computed ahead of the selects that choose it (the IR passes hoist it out of a branch): the ways it is
        used, as lists of (condition operand, chosen when) - None when it is used unconditionally"""
        if not hasattr(self, '_users'):
            self._users = {}; self._at = {}
            def ops(x):
                if isinstance(x, (list, tuple)):
                    if len(x) >= 2 and x[0] == 'v' and isinstance(x[1], int): yield x[1]
                    else:
                        for y in x: yield from ops(y)
            for bi, b in enumerate(self.blocks):
                for k, i in enumerate(b['ins']):
                    if 'id' in i: self._at[i['id']] = (bi, k)
                    for n, v in i.items():
                        if isinstance(v, (list, tuple)):
                            for x in ops(v): self._users.setdefault(x, []).append((bi, k, i))
        g = self._guards.get(vid, 0) if hasattr(self, '_guards') else 0
        if g != 0: return g
        if not hasattr(self, '_guards'): self._guards = {}
        self._guards[vid] = r = self._find_guards(vid, *self._at.get(vid, (None, None)), 0)
        return r
    def _find_guards(self, vid, bi, k, depth):
        us = self._users.get(vid, [])
        if bi is None or not us or depth > 4: return None
        out = []
        for ub, uk, u in us:
            if ub != bi: return None
            if u['op'] == 'select':
                c, a, b = u['ops']
                if c[0] == 'v':
                    if c[1] == vid: return None
                    at = self._at.get(c[1])
                    if at is not None and at[0] == bi and at[1] >= k: return None
                if a == b: return None
                out.append((c, list(a)[:2] == ['v', vid]))
            elif u['op'] in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'zext', 'sext', 'trunc') and 'id' in u:
                r = self._find_guards(u['id'], bi, k, depth + 1)
                if r is None: return None
                out += r
            else: return None
        return out
    def live_in(self, hdr):
        """value ids live into block hdr (defined outside / before) including its phis"""
        if self._live is None:
            n = len(self.blocks); use = [set() for _ in range(n)]; defs = [set() for _ in range(n)]; phiuse = {}
            succ = [[] for _ in range(n)]
            for bi, b in enumerate(self.blocks):
                for i in b['ins']:
                    if i['op'] == 'phi':
                        for pb, v in i['ops']:
                            if v[0] == 'v': phiuse.setdefault(pb, set()).add((bi, v[1]))
                        defs[bi].add(i['id'])
                    else:
                        for v in _vals(i):
                            if v not in defs[bi]: use[bi].add(v)
                        defs[bi].add(i['id'])
                t = b['ins'][-1]
                if t['op'] == 'br': succ[bi] = t['succ']
                elif t['op'] == 'switch': succ[bi] = [t['def']] + [c[1] for c in t['cases']]
                elif t['op'] == 'invoke': succ[bi] = [t['normal'], t['unwind']]
            live = [set() for _ in range(n)]
            ch = True
            while ch:
                ch = False
                for bi in range(n - 1, -1, -1):
                    out = set()
                    for s in succ[bi]:
                        out |= live[s]
                        for (tb, v) in phiuse.get(bi, ()):
                            if tb == s: out.add(v)
                    # phis of successors are defined there
                    new = use[bi] | (out - defs[bi])
                    new |= set()  # phi defs handled by defs
                    if new != live[bi]: live[bi] = new; ch = True
            self._live = live
            self._defs = defs
        phis = [i['id'] for i in self.blocks[hdr]['ins'] if i['op'] == 'phi']
        # values used inside/after (not counting this block's own phis)
        return sorted(self._live[hdr] | set(phis))

def _vals(i):
    r = []
    def go(o):
        if isinstance(o, list):
            if len(o) == 2 and o[0] == 'v' and isinstance(o[1], int): r.append(o[1])
            else:
                for x in o: go(x)
    go(i.get('ops', [])); go(i.get('vars', [])); go(i.get('callee_v', []))
    return r

def tyw(ty):
    if ty[0] == 'i' and ty[1:].isdigit(): return int(ty[1:])
    return {'f32': 32, 'f64': 64, 'f80': 80, 'p': 64}.get(ty, 0)

_tycache = {}
def parse_ty(ty):
    """-> ('i',w) ('p',) ('f',w) ('v',) ('s', [(off,ty)..], size) ('a', n, ty, size)"""
    r = _tycache.get(ty)
    if r is None:
        r, rest = _pty(ty)
        assert rest == '', ty
        _tycache[ty] = r
    return r
def _pty(s):
    if s[0] == '{':
        s = s[1:]; els = []
        while s[0] != '}':
            if s[0] == ',': s = s[1:]
            m = re.match(r'(\d+):', s); off = int(m.group(1)); s = s[m.end():]
            t, s = _pty(s); els.append((off, t))
        m = re.match(r'\}#(\d+)', s)
        return ('s', els, int(m.group(1))), s[m.end():]
    if s[0] == '[':
        m = re.match(r'\[(\d+)x', s); n = int(m.group(1)); s = s[m.end():]
        t, s = _pty(s)
        m = re.match(r'\]#(\d+)', s)
        return ('a', n, t, int(m.group(1))), s[m.end():]
    m = re.match(r'i(\d+)|p|f32|f64|f80|v|\?[^,}\]]*|<[^>]*>', s)
    g = m.group(0)
    if g[0] == 'i': return ('i', int(g[1:])), s[m.end():]
    if g == 'p': return ('p',), s[m.end():]
    if g in ('f32', 'f64', 'f80'): return ('f', int(g[1:])), s[m.end():]
    return ('?', g), s[m.end():]
def ty_size(t):
    if t[0] == 'i': return (t[1] + 7) // 8 if t[1] <= 8 else {16: 2, 32: 4, 64: 8, 128: 16}.get(t[1], (t[1] + 7) // 8)
    if t[0] == 'p': return 8
    if t[0] == 'f': return t[1] // 8
    if t[0] == 's': return t[2]
    if t[0] == 'a': return t[3]
    raise Unsupported('type %r' % (t,))

class Module:
    def __init__(self, path):
        j = json.load(open(path))
        self.fns = {}
        self.dem = {}
        for f in j['functions']:
            fn = Fn(f, self); self.fns[f['name']] = fn; self.dem[f['dem']] = fn
        self.globals = j['globals']
        self.decl = dict(j['decls'])
        self.gobj = {}
    def find(self, regex):
        return [f for f in self.fns.values() if re.search(regex, f.dem)]
    def demangle(self, name):
        f = self.fns.get(name)
        return f.dem if f else self.decl.get(name, name)

class Oblig:
    __slots__ = ('kind', 'where', 'ok', 'how', 'pc', 'goal', 'info')
    def __init__(self, kind, where, ok, how, pc=None, goal=None, info=None):
        self.kind = kind; self.where = where; self.ok = ok; self.how = how; self.pc = pc; self.goal = goal; self.info = info
    def __repr__(self): return 'Oblig(%s @%s ok=%s %s)' % (self.kind, self.where, self.ok, self.how)

UNDEF = [0]
def fresh(prefix, w):
    UNDEF[0] += 1
    return T.var('%s!%d' % (prefix, UNDEF[0]), w)

class Exec:
    def __init__(self, mod, contracts=(), cut_handler=None, loop_limit=300, max_paths=100000, max_steps=20000000, log=None, fork_select=True, deadline=None, extents=()):
        self.mod = mod
        self.contracts = [(re.compile(r), f) for r, f in contracts]
        self.cuts = set()
        self.cut_handler = cut_handler
        self.slots = {}
        self.loop_limit = loop_limit; self.extents = extents
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.steps = 0
        self.obligs = []          # failed or noteworthy
        self.nob = {}             # kind -> [total, syntactic, solver]
        self.fork_select = fork_select
        self.cc = {}
        self.fns_used = set()
        self.contract_used = {}
        self.assumed = set()
        self.deadline = deadline
        self.allow_abort = False
        self.extern = {}
        self.loop_select_ite = False
        self.merge_bytes_reads = True

    # ---------------------------------------------------------- obligations
    def where(self, st):
        f = st.frames[-1]
        i = f.fn.blocks[f.blk]['ins'][f.ip] if f.ip < len(f.fn.blocks[f.blk]['ins']) else {}
        return '%s:%s' % (short(f.fn.dem), i.get('line', '?'))

    def oblige(self, st, kind, goal, info=None, where=None):
        n = self.nob.setdefault(kind, [0, 0, 0])
        n[0] += 1
        if goal is T.TRUE:
            n[1] += 1; return True
        goal = self.simp(st, goal)
        if goal is T.TRUE:
            n[1] += 1; return True
        r = S.prove(st.pc, goal) if goal is not T.FALSE else (False if S.check(st.pc)[0] != 'unsat' else True)
        if r is True:
            n[2] += 1; return True
        self.obligs.append(Oblig(kind, where or self.where(st), r, 'solver', list(st.pc), goal, info))
        return False

    def simp(self, st, t):
        return self.decide(st, t) if t.w == 1 else t

    def resolve(self, st, t):
        """constant value of term under the path's known equalities, or the term"""
        if t.op == 'c': return t
        k = st.known
        if not k: return t
        v = k.get(t)
        if v is not None: return T.const(v, t.w)
        if t.op == 'lin':
            c0 = t.val[0]
            base = T.linear(t.w, list(zip(t.val[1:], t.args)), 0) if c0 else t
            v = k.get(base)
            if v is not None: return T.const(v + c0, t.w)
            # component-wise
            if all(a in k for a in t.args):
                return T.const(c0 + sum(q * k[a] for q, a in zip(t.val[1:], t.args)), t.w)
            return t
        if t.op == 'cat':
            na = [self.resolve(st, a) for a in t.args]
            if any(x is not y for x, y in zip(na, t.args)): return T.cat(*na)
        if t.op == 'ext':
            a = self.resolve(st, t.args[0])
            if a is not t.args[0]: return T.ext(a, t.val + t.w - 1, t.val)
        return t

    def values(self, st, t, limit=300):
        """all values of term t feasible under pc (complete), or Unsupported"""
        t = self.resolve(st, t)
        if t.op == 'c': return [t.val]
        vals = []
        pc = S.slice_pc(st.pc, t)
        conds = list(pc)
        # quick: bit-range small
        if t.w <= 8 or (t.op == 'cat' and t.args[0].op == 'c' and t.args[0].val == 0 and t.w - t.args[0].w <= 8):
            lo = t if t.op != 'cat' else T.ext(t, t.w - t.args[0].w - 1, 0)
            for v in range(1 << lo.w):
                if S.check(pc + [T.eq(t, T.const(v, t.w))])[0] != 'unsat': vals.append(v)
            return vals
        iv = st.interval(t)
        if iv is not None and 0 < iv[1] <= limit:
            return sorted(v for v in ((iv[0] + k) % (1 << t.w) for k in range(iv[1])) if S.check(pc + [T.eq(t, T.const(v, t.w))])[0] != 'unsat')
        while True:
            r, m = S.check(conds + [], want_model=True)
            if r == 'unsat': return sorted(vals)
            if r == 'unknown' or len(vals) >= limit: raise Unsupported('unbounded symbolic value %r' % (t,))
            v = m.eval(S.tz(t), model_completion=True).as_long()
            vals.append(v)
            conds.append(T.ne(t, T.const(v, t.w)))

    # ---------------------------------------------------------- memory
    def gobj(self, name):
        o = self.mod.gobj.get(name)
        if o is None:
            g = self.mod.globals.get(name)
            if g is None: raise Unsupported('global %s' % name)
            o = Obj('@' + name, g['size'], 'global', ro=g['const'])
            if 'bytes' in g and g['const']:
                data = bytes.fromhex(g['bytes'])
                rel = {}
                for off, v in g.get('rel', []):
                    p = self.const_opnd(v)
                    for k in range(8): rel[off + k] = (p, k)
                def default(off, data=data, rel=rel):
                    if off in rel: return rel[off]
                    return (T.const(data[off], 8), 0)
                o.default = default
            elif 'bytes' in g:
                def default(off, nm=name): raise Unsupported('mutable global %s' % nm)
                o.default = default
            self.mod.gobj[name] = o
        return o

    def byte(self, cells, o, off):
        c = cells.get(off) if cells is not None else None
        if c is None:
            if o.region is not None: return (T.sel(o.region, T.const(off, 64)), 0)
            if o.default is not None: return o.default(off)
            v = (fresh('undef', 8), 0)
            return v
        return c

    def load_int(self, st, o, off, n):
        cells = st.mem.cells(o)
        first = self.byte(cells, o, off)
        v = first[0]
        if n == 1:
            if isinstance(v, (Ptr, FnPtr)): return self.p2i_byte(v, first[1])
            return v if v.w == 8 else T.ext(v, 8 * first[1] + 7, 8 * first[1])
        if first[1] == 0 and v.w == 8 * n and cells is not None:
            ok = True
            for k in range(1, n):
                c = cells.get(off + k)
                if c is None or c[0] is not v or c[1] != k: ok = False; break
            if ok: return v
        bs = []
        for k in range(n):
            c = self.byte(cells, o, off + k) if k else first
            if isinstance(c[0], (Ptr, FnPtr)): bs.append(self.p2i_byte(c[0], c[1]))
            else: bs.append(c[0] if c[0].w == 8 else T.ext(c[0], 8 * c[1] + 7, 8 * c[1]))
        bs.reverse()
        return T.cat(*bs)

    def p2i(self, p):
        if isinstance(p, FnPtr): return T.var('&fn_' + p.name, 64)
        if p.obj is None: return p.off
        b = T.var('&' + p.obj.name + '#%d' % p.obj.id, 64)
        self.assumed.add('addresses of distinct objects are opaque')
        return T.add(b, p.off)
    def p2i_byte(self, p, k):
        return T.ext(self.p2i(p), 8 * k + 7, 8 * k)

    def bounds(self, st, p, n, what):
        """obligation: [off, off+n) inside the object"""
        o = p.obj
        if o is None:
            if p.off.op != 'c': raise Unsupported('%s through an integer that is no address: %r' % (what, p.off))
            self.oblige(st, 'memory safety', T.FALSE, '%s of %d bytes through null' % (what, n)); return False
        off = p.off
        if isinstance(o.size, int):
            if off.op == 'c':
                return self.oblige(st, 'memory safety', T.boolc(off.val + n <= o.size), '%s of %d bytes at offset %d of %s (size %d)' % (what, n, T._s(off.val, 64), o.name, o.size))
            if o.size < n: return self.oblige(st, 'memory safety', T.FALSE, what)
            return self.oblige(st, 'memory safety', T.ule(off, T.const(o.size - n, 64)), '%s of %d bytes at symbolic offset of %s (size %d)' % (what, n, o.name, o.size))
        # symbolic size: off <= size and n <= size - off   (no wrap)
        d = self.resolve(st, T.sub(o.size, off))
        c0, base = lin_base(off) if off.op != 'c' else (off.val, C0)
        c0 = T._s(c0, 64)
        v = st.valid.get((o.id, base))
        if v is not None and v[0] <= c0 and c0 + n <= v[1]:
            self.nob.setdefault('memory safety', [0, 0, 0])[0] += 1
            self.nob['memory safety'][1] += 1
            return True
        ext = None
        if d.op == 'c' and n <= d.val <= 8192: ext = d.val
        elif self.decide(st, T.ule(T.const(n, 64), d)) is T.TRUE:
            iv = st.interval(d)
            ext = n if iv is None or iv[0] + iv[1] > 1 << 63 else max(n, min(iv[0], 8192))
        if ext is not None:
            # the whole extent [off, off+ext) at once: only off <= size is left to prove
            g = T.ule(off, o.size)
            if g is T.TRUE or (v is not None and v[0] <= c0 <= v[1]) or S.prove(st.pc, g) is True:
                ob = self.nob.setdefault('memory safety', [0, 0, 0]); ob[0] += 1; ob[2] += 1
                if v is not None and abs(v[0] - c0) < 1 << 20 and abs(v[1] - c0) < 1 << 20: st.valid[(o.id, base)] = (min(v[0], c0), max(v[1], c0 + ext))
                else: st.valid[(o.id, base)] = (c0, c0 + ext)
                return True
        for B in self.extents:
            # everything up to the end of the block at once
            e = B - c0 % B
            if e > n and S.prove(st.pc, T.band(T.ule(off, o.size), T.ule(T.const(e, 64), d))) is True:
                ob = self.nob.setdefault('memory safety', [0, 0, 0]); ob[0] += 1; ob[2] += 1
                st.valid[(o.id, base)] = (min(v[0], c0), max(v[1], c0 + e)) if v is not None and v[0] <= c0 <= v[1] else (c0, c0 + e)
                return True
        return self.oblige(st, 'memory safety', T.band(T.ule(off, o.size), T.ule(T.const(n, 64), d)), '%s of %d bytes at %r of %s (size %r)' % (what, n, off, o.name, o.size))

    def load(self, st, p, n, is_ptr=False):
        if not isinstance(p, Ptr): raise Unsupported('load through %r' % (p,))
        off = self.resolve(st, p.off)
        o = p.obj
        if off is not p.off: p = Ptr(o, off)
        if not self.bounds(st, p, n, 'read'):
            # keep going with an arbitrary value
            return fresh('oob', 8 * n) if not is_ptr else NULL
        if off.op == 'c':
            if is_ptr:
                cells = st.mem.cells(o)
                c = self.byte(cells, o, off.val)
                if isinstance(c[0], (Ptr, FnPtr)) and c[1] == 0:
                    return c[0]
                v = self.load_int(st, o, off.val, 8)
                return self.i2p(v)
            return self.load_int(st, o, off.val, n)
        if o.region is not None and st.mem.cells(o) is None:
            bs = [T.sel(o.region, T.add(off, T.const(k, 64))) for k in range(n - 1, -1, -1)]
            return T.cat(*bs)
        if isinstance(o.size, int):
            cells = st.mem.cells(o)
            if cells is None and o.default is not None and o.ro and not is_ptr:
                r = self.const_table(st, o, off, n)
                if r is not None: return r
            vals = self.values(st, off)
            if is_ptr:
                raise Unsupported('symbolic pointer load')
            r = None
            for v in vals:
                x = self.load_int(st, o, v, n)
                r = x if r is None else T.ite(T.eq(off, T.const(v, 64)), x, r)
            return r
        raise Unsupported('symbolic load from written region %s' % o.name)

    def i2p(self, v):
        if v.op == 'c' and v.val == 0: return NULL
        if v.op in ('v', 'lin'):
            parts = [(1, v)] if v.op == 'v' else list(zip(v.val[1:], v.args))
            bases = [(q, t) for q, t in parts if t.op == 'v' and t.val.startswith('&') and '#' in t.val]
            if len(bases) == 1 and bases[0][0] == 1:
                oid = int(bases[0][1].val.rsplit('#', 1)[1])
                o = self.objs_by_id.get(oid)
                if o is not None: return Ptr(o, T.sub(v, bases[0][1]))
        return Ptr(None, v)  # not the address of any object: fit for comparison only
    objs_by_id = {}

    def const_table(self, st, o, off, n):
        # off = stride*idx + c
        if off.op == 'lin' and len(off.args) == 1: stride, idx, c = off.val[1], off.args[0], off.val[0]
        elif off.op == 'cat':
            c, ps = T._lin_parts(off)
            if len(ps) == 1: stride, idx = ps[0]
            else: stride, idx, c = 1, off, 0
        else: stride, idx, c = 1, off, 0
        if stride > 4096 or c >= o.size: return None
        m = (o.size - c - n) // stride + 1
        if m > 65536: return None
        data = bytearray()
        for i in range(m):
            for k in range(n):
                b = self.byte(None, o, c + i * stride + k)
                if not isinstance(b[0], T.Term) or b[0].op != 'c': return None
                data.append(b[0].val if b[0].w == 8 else (b[0].val >> (8 * b[1])) & 255)
        return T.tbl((m, bytes(data)), idx)

    def store(self, st, p, v, n):
        """-> None or list of forked states (instruction will be re-executed)"""
        if not isinstance(p, Ptr): raise Unsupported('store through %r' % (p,))
        off = self.resolve(st, p.off)
        o = p.obj
        if off is not p.off: p = Ptr(o, off)
        if not self.bounds(st, p, n, 'write'): return None
        if o.ro:
            self.oblige(st, 'frame', T.FALSE, 'write to read-only object %s' % o.name); return None
        if off.op != 'c':
            if o.region is not None and not isinstance(o.size, int): raise Unsupported('symbolic store into region %s' % o.name)
            vals = self.values(st, off)
            out = []
            for x in vals:
                s2 = st.fork(); s2.assume(T.eq(off, T.const(x, 64))); s2.learn(off, x)
                out.append(s2)
            return out
        c = st.mem.wcells(o)
        b = off.val
        if isinstance(v, T.Term) and v.w != 8 * n: v = T.zext(v, 8 * n)
        for k in range(n): c[b + k] = (v, k)
        return None

    def store_val(self, st, p, v, ty):
        """store of a first-class aggregate or scalar"""
        t = parse_ty(ty) if isinstance(ty, str) else ty
        if t[0] in ('s', 'a'):
            els = t[1] if t[0] == 's' else [(i * ty_size(t[2]), t[2]) for i in range(t[1])]
            for (o, et), x in zip(els, v):
                r = self.store_val(st, Ptr(p.obj, T.add(p.off, T.const(o, 64))), x, et)
                if r is not None: raise Unsupported('symbolic aggregate store')
            return None
        return self.store(st, p, v, ty_size(t))

    def load_val(self, st, p, t):
        if t[0] == 's': return [self.load_val(st, Ptr(p.obj, T.add(p.off, T.const(o, 64))), et) for o, et in t[1]]
        if t[0] == 'a': return [self.load_val(st, Ptr(p.obj, T.add(p.off, T.const(i * ty_size(t[2]), 64))), t[2]) for i in range(t[1])]
        if t[0] == 'p': return self.load(st, p, 8, True)
        v = self.load(st, p, ty_size(t))
        if t[0] == 'i' and v.w != t[1]: v = T.trunc(v, t[1])
        return v

    def memcpy(self, st, d, s, n):
        """concrete n"""
        if n == 0: return None
        if not isinstance(d, Ptr) or not isinstance(s, Ptr): raise Unsupported('memcpy')
        doff = self.resolve(st, d.off); soff = self.resolve(st, s.off)
        d = Ptr(d.obj, doff); s = Ptr(s.obj, soff)
        if not self.bounds(st, d, n, 'write'): return None
        if not self.bounds(st, s, n, 'read'): return None
        if d.obj.ro:
            self.oblige(st, 'frame', T.FALSE, 'write to read-only object %s' % d.obj.name); return None
        if soff.op == 'c':
            cs = st.mem.cells(s.obj)
            vals = [self.byte(cs, s.obj, soff.val + k) for k in range(n)]
        else:
            if s.obj.region is not None and st.mem.cells(s.obj) is None:
                vals = [(T.sel(s.obj.region, T.add(soff, T.const(k, 64))), 0) for k in range(n)]
            else:
                vals = [(self.load(st, Ptr(s.obj, T.add(soff, T.const(k, 64))), 1), 0) for k in range(n)]
        if doff.op != 'c':
            out = []
            for x in self.values(st, doff):
                s2 = st.fork(); s2.assume(T.eq(doff, T.const(x, 64))); s2.learn(doff, x); out.append(s2)
            return out
        c = st.mem.wcells(d.obj)
        b = doff.val
        for k in range(n): c[b + k] = vals[k]
        return None

    # ---------------------------------------------------------- operands
    def const_opnd(self, o):
        k = o[0]
        if k == 'c':
            w = tyw(o[1])
            return T.const(int(o[2], 16), w)
        if k == 'null': return NULL
        if k == 'g':
            if o[1] in self.mod.fns or o[1] in self.mod.decl: return FnPtr(o[1])
            return Ptr(self.gobj(o[1]), T.const(o[2], 64))
        if k in ('undef', 'poison'): return self.mk_undef(parse_ty(o[1]))
        if k == 'zero': return self.mk_zero(parse_ty(o[1]))
        if k == 'agg': return [self.const_opnd(x) for x in o[2]]
        raise Unsupported('operand %r' % (o,))
    def mk_undef(self, t):
        if t[0] in ('i', 'f'): return fresh('undef', t[1])
        if t[0] == 'p': return NULL
        if t[0] == 's': return [self.mk_undef(x) for _, x in t[1]]
        if t[0] == 'a': return [self.mk_undef(t[2]) for _ in range(t[1])]
        raise Unsupported('undef %r' % (t,))
    def mk_zero(self, t):
        if t[0] in ('i', 'f'): return T.const(0, t[1])
        if t[0] == 'p': return NULL
        if t[0] == 's': return [self.mk_zero(x) for _, x in t[1]]
        if t[0] == 'a': return [self.mk_zero(t[2]) for _ in range(t[1])]
        raise Unsupported('zero %r' % (t,))
    def opnd(self, fr, o):
        if o[0] == 'v': return fr.env[o[1]]
        if o[0] == 'c':
            r = self.cc.get((o[1], o[2]))
            if r is None: r = self.cc[(o[1], o[2])] = T.const(int(o[2], 16), tyw(o[1]))
            return r
        return self.const_opnd(o)

    # ---------------------------------------------------------- running
    def call_state(self, fn, args, st=None):
        st = st or State()
        fr = Frame(fn)
        for p, a in zip(fn.params, args):
            if 'byval' in p and isinstance(a, Ptr):
                o = Obj('byval', p['byval'], 'stack'); self.objs_by_id[o.id] = o
                q = Ptr(o, C0)
                self.memcpy(st, q, a, p['byval'])
                a = q
            fr.env[p['id']] = a
        st.frames.append(fr)
        self.fns_used.add(fn.dem)
        return st

    def run(self, states):
        """states: initial states. Yields (state, retval) at return of the bottom frame of each."""
        stack = list(states)
        npaths = 0
        while stack:
            st = stack.pop()
            while True:
                r = self.step(st)
                if r is None: continue
                if r[0] == 'ret':
                    npaths += 1
                    if npaths > self.max_paths: raise Budget('paths')
                    yield st, r[1]
                    break
                if r[0] == 'fork':
                    stack.extend(reversed(r[1]))
                    break
                if r[0] == 'dead': break
        return

    def enter(self, st, fr, target):
        """branch to block"""
        fn = fr.fn
        prev = fr.blk
        b = fn.blocks[target]
        ins = b['ins']
        upd = []
        k = 0
        for i in ins:
            if i['op'] != 'phi': break
            k += 1
            for pb, v in i['ops']:
                if pb == prev:
                    upd.append((i['id'], self.opnd(fr, v))); break
            else: raise Unsupported('phi')
        for a, v in upd: fr.env[a] = v
        fr.prev = prev; fr.blk = target; fr.ip = k
        if target in fn.loops:
            if prev not in fn.loops[target]: fr.loopcnt[target] = 0; fr.loopcnt.pop(('select', target), None)
            if (fn.name, target) in self.cuts:
                return self.cut_handler(self, st, fr, target)
        return None

    def branch(self, st, fr, cond, t, f):
        """decide/ fork a conditional branch"""
        if cond.op != 'c': cond = self.decide(st, cond)
        if cond.op == 'c':
            return self.enter(st, fr, t if cond.val else f)
        sp = self.small_range(st, cond)
        if sp is not None:
            t_, vals = sp
            out = []
            for v in vals:
                s2 = st.fork(); s2.assume(T.eq(t_, T.const(v, t_.w))); s2.learn(t_, v); out.append(s2)
            return ('fork', out)
        ft = S.feasible(st.pc, cond)
        if not ft: return self.enter(st, fr, f)
        nc = T.bnot(cond)
        if not S.feasible(st.pc, nc): return self.enter(st, fr, t)
        # fork
        h = fr.fn.inner.get(fr.blk)
        while h is not None:
            if (t in fr.fn.loops[h]) != (f in fr.fn.loops[h]):
                fr.loopcnt[h] = fr.loopcnt.get(h, 0) + 1
                if fr.loopcnt[h] > self.loop_limit or (fr.loopcnt[h] > 3 and self.cut_handler is not None and (fr.fn.name, h) not in self.cuts and self.cut_syms & S.leafset(cond)): raise NeedCut(fr.fn, h)
                break
            # parent loop
            par = [x for x, bl in fr.fn.loops.items() if h in bl and x != h]
            h = min(par, key=lambda x: len(fr.fn.loops[x])) if par else None
        s2 = st.fork()
        fr2 = s2.frames[-1]
        st.assume(cond); s2.assume(nc)
        out = []
        r1 = self.enter(st, fr, t)
        if r1 is None: out.append(st)
        elif r1[0] == 'fork': out.extend(r1[1])
        r2 = self.enter(s2, fr2, f)
        if r2 is None: out.append(s2)
        elif r2[0] == 'fork': out.extend(r2[1])
        return ('fork', out)

    def decide(self, st, cond):
        if cond in st.pc: return T.TRUE
        n = T.bnot(cond)
        if n in st.pc: return T.FALSE
        if cond.op == 'ult' or cond.op == 'eq':
            r = (st.decide_ult if cond.op == 'ult' else st.decide_eq)(*cond.args)
            if r is not None: return T.boolc(r)
        elif n.op == 'ult' or n.op == 'eq':
            r = (st.decide_ult if n.op == 'ult' else st.decide_eq)(*n.args)
            if r is not None: return T.boolc(not r)
        elif cond.op in ('and', 'or'):
            na = [self.decide(st, x) for x in cond.args]
            if any(x is not y for x, y in zip(na, cond.args)): return (T.band if cond.op == 'and' else T.bor)(*na)
        if st.known:
            # rewrite with known equalities at the leaves of comparisons
            if cond.op in ('eq', 'ult', 'slt'):
                a = self.resolve(st, cond.args[0]); b = self.resolve(st, cond.args[1])
                if a is not cond.args[0] or b is not cond.args[1]:
                    return {'eq': T.eq, 'ult': T.ult, 'slt': T.slt}[cond.op](a, b)
            k = T.not_key(cond)
            if k is not None and k.op in ('eq', 'ult', 'slt'):
                r = self.decide(st, k)
                return T.bnot(r)
        return cond

    split_limit = 300
    cut_syms = frozenset(['len'])
    def small_range(self, st, cond):
        """a compared term whose values on this path form a small interval: split on all of them"""
        c = cond
        if c.op not in ('ult', 'eq'):
            c = T.not_key(c)
            if c is None or c.op not in ('ult', 'eq'): return None
        for t in c.args:
            if t.op == 'c': continue
            o = st.interval(t)
            if o is not None and 0 < o[1] <= self.split_limit:
                M = 1 << t.w
                c0, base = lin_base(t)
                ex = set()
                for p in st.pc:      # values excluded by disequalities on the path
                    k = T.not_key(p)
                    if k is not None and k.op == 'eq' and k.args[0].w == t.w:
                        c1, b1 = lin_base(T.sub(*k.args))
                        if b1 is base: ex.add((c0 - c1) % M)
                        elif T.neg(b1) is base: ex.add((c0 + c1) % M)
                return t, [v for v in ((o[0] + k) % M for k in range(o[1])) if v not in ex]
        return None

    def step(self, st):
        fr = st.frames[-1]
        i = fr.fn.blocks[fr.blk]['ins'][fr.ip]
        self.steps += 1
        if self.steps & 0xfff == 0:
            if self.steps > self.max_steps: raise Budget('steps')
            if self.deadline and time.time() > self.deadline: raise Budget('time')
        op = i['op']
        h = OPS.get(op)
        if h is None: raise Unsupported('opcode %s' % op)
        r = h(self, st, fr, i)
        if r is None:
            fr.ip += 1
            return None
        if r is NEXT: return None
        return r

def short(d):
    d = re.sub(r'\(.*', '', d)
    return d.split(' ')[-1].replace('mbo::', '')

NEXT = ('next',)
OPS = {}
def op(*names):
    def deco(f):
        for n in names: OPS[n] = f
        return f
    return deco

@op('add')
def o_add(ex, st, fr, i):
    a, b = [ex.opnd(fr, o) for o in i['ops']]
    r = T.add(a, b)
    if 'nsw' in i or 'nuw' in i: ovf(ex, st, i, a, b, r, 'add')
    fr.env[i['id']] = r
@op('sub')
def o_sub(ex, st, fr, i):
    a, b = [ex.opnd(fr, o) for o in i['ops']]
    r = T.sub(a, b)
    if 'nsw' in i or 'nuw' in i: ovf(ex, st, i, a, b, r, 'sub')
    fr.env[i['id']] = r
@op('mul')
def o_mul(ex, st, fr, i):
    a, b = [ex.opnd(fr, o) for o in i['ops']]
    r = T.mul(a, b)
    if 'nsw' in i or 'nuw' in i: ovf(ex, st, i, a, b, r, 'mul')
    fr.env[i['id']] = r

def oblige_used(ex, st, i, kind, goal, info):
    """the result is poison unless goal holds: required wherever the result is used"""
    if goal is not T.TRUE and S.prove(st.pc, goal) is not True:
        fr = st.frames[-1]; gs = fr.fn.guards(i['id'])
        if gs:
            used = T.FALSE
            for c, side in gs:
                v = fr.env.get(c[1]) if c[0] == 'v' else ex.opnd(fr, c)
                if not isinstance(v, T.Term): used = T.TRUE; break
                used = T.bor(used, v if side else T.bnot(v))
            goal = T.bor(T.bnot(used), goal)
    ex.oblige(st, kind, goal, info)

def ovf(ex, st, i, a, b, r, k):
    w = a.w
    if 'nsw' not in i: return
    if a.op == 'c' and b.op == 'c':
        x, y = T._s(a.val, w), T._s(b.val, w)
        z = x + y if k == 'add' else x - y if k == 'sub' else x * y
        g = T.boolc(-(1 << (w - 1)) <= z < (1 << (w - 1)))
    else:
        W = w + 1 if k != 'mul' else 2 * w
        A, B = T.sext(a, W), T.sext(b, W)
        z = T.add(A, B) if k == 'add' else T.sub(A, B) if k == 'sub' else T.mul(A, B)
        g = T.eq(z, T.sext(r, W))
    oblige_used(ex, st, i, 'no signed overflow', g, '%s i%d' % (k, w))

@op('and')
def o_and(ex, st, fr, i): fr.env[i['id']] = T.band(*[ex.opnd(fr, o) for o in i['ops']])
@op('or')
def o_or(ex, st, fr, i): fr.env[i['id']] = T.bor(*[ex.opnd(fr, o) for o in i['ops']])
@op('xor')
def o_xor(ex, st, fr, i): fr.env[i['id']] = T.xor(*[ex.opnd(fr, o) for o in i['ops']])

def _shift(f, name):
    def g(ex, st, fr, i):
        a, b = [ex.opnd(fr, o) for o in i['ops']]
        b = ex.resolve(st, b)
        if b.op == 'c':
            if b.val >= a.w: oblige_used(ex, st, i, 'shift in range', T.FALSE, '%s by %d of i%d' % (name, b.val, a.w))
        else:
            oblige_used(ex, st, i, 'shift in range', T.ult(b, T.const(a.w, b.w)), '%s of i%d' % (name, a.w))
        fr.env[i['id']] = f(a, b)
    return g
OPS['shl'] = _shift(T.shl, 'shl'); OPS['lshr'] = _shift(T.lshr, 'lshr'); OPS['ashr'] = _shift(T.ashr, 'ashr')

def _div(f):
    def g(ex, st, fr, i):
        a, b = [ex.opnd(fr, o) for o in i['ops']]
        b = ex.resolve(st, b)
        ex.oblige(st, 'division by non-zero', T.ne(b, T.const(0, b.w)))
        fr.env[i['id']] = f(a, b)
    return g
for _n, _f in (('udiv', T.udiv), ('urem', T.urem), ('sdiv', T.sdiv), ('srem', T.srem)): OPS[_n] = _div(_f)

@op('zext')
def o_zext(ex, st, fr, i): fr.env[i['id']] = T.zext(ex.opnd(fr, i['ops'][0]), i['tyw'])
@op('sext')
def o_sext(ex, st, fr, i): fr.env[i['id']] = T.sext(ex.opnd(fr, i['ops'][0]), i['tyw'])
@op('trunc')
def o_trunc(ex, st, fr, i): fr.env[i['id']] = T.trunc(ex.opnd(fr, i['ops'][0]), i['tyw'])
@op('bitcast', 'freeze')
def o_bitcast(ex, st, fr, i): fr.env[i['id']] = ex.opnd(fr, i['ops'][0])
@op('ptrtoint')
def o_p2i(ex, st, fr, i):
    p = ex.opnd(fr, i['ops'][0])
    if isinstance(p, Ptr) and p.obj: ex.objs_by_id[p.obj.id] = p.obj
    v = ex.p2i(p)
    fr.env[i['id']] = v if i['tyw'] == 64 else T.trunc(v, i['tyw'])
@op('inttoptr')
def o_i2p(ex, st, fr, i): fr.env[i['id']] = ex.i2p(ex.opnd(fr, i['ops'][0]))

@op('sitofp', 'uitofp', 'fpext', 'fptrunc')
def o_fpconv(ex, st, fr, i): fr.env[i['id']] = T.fpop(i['op'], i['tyw'], ex.opnd(fr, i['ops'][0]))
@op('fptosi', 'fptoui')
def o_fptoi(ex, st, fr, i): fr.env[i['id']] = T.fpop(i['op'], i['tyw'], ex.opnd(fr, i['ops'][0]))
@op('fadd', 'fsub', 'fmul', 'fdiv')
def o_farith(ex, st, fr, i): fr.env[i['id']] = T.fpop(i['op'], i['tyw'], *[ex.opnd(fr, o) for o in i['ops']])
@op('fneg')
def o_fneg(ex, st, fr, i):
    a = ex.opnd(fr, i['ops'][0]); fr.env[i['id']] = T.xor(a, T.const(1 << (a.w - 1), a.w))

def fnan(a):
    if a.w == 80: return T.band(T.eq(T.ext(a, 78, 64), T.const(0x7fff, 15)), T.ne(T.ext(a, 62, 0), T.const(0, 63)))
    eb, mb = (8, 23) if a.w == 32 else (11, 52)
    return T.band(T.eq(T.ext(a, mb + eb - 1, mb), T.const(T.mask(eb), eb)), T.ne(T.ext(a, mb - 1, 0), T.const(0, mb)))
def fzero(a): return T.eq(T.ext(a, a.w - 2, 0), T.const(0, a.w - 1))
def flt_nn(a, b):
    """a<b for non-NaN"""
    sa, sb = T.ext(a, a.w - 1, a.w - 1), T.ext(b, b.w - 1, b.w - 1)
    ma, mb = T.ext(a, a.w - 2, 0), T.ext(b, b.w - 2, 0)
    bz = T.band(fzero(a), fzero(b))
    return T.band(T.bnot(bz), T.ite(sa, T.ite(sb, T.ult(mb, ma), T.TRUE), T.ite(sb, T.FALSE, T.ult(ma, mb))))
def feq_nn(a, b): return T.bor(T.eq(a, b), T.band(fzero(a), fzero(b)))
def fcmp(pred, a, b):
    un = T.bor(fnan(a), fnan(b)); orr = T.bnot(un)
    if pred == 'ord': return orr
    if pred == 'uno': return un
    if pred == 'true': return T.TRUE
    if pred == 'false': return T.FALSE
    base = {'eq': lambda: feq_nn(a, b), 'ne': lambda: T.bnot(feq_nn(a, b)), 'lt': lambda: flt_nn(a, b), 'gt': lambda: flt_nn(b, a),
            'le': lambda: T.bnot(flt_nn(b, a)), 'ge': lambda: T.bnot(flt_nn(a, b))}[pred[1:]]()
    return T.band(orr, base) if pred[0] == 'o' else T.bor(un, base)
@op('fcmp')
def o_fcmp(ex, st, fr, i):
    a, b = [ex.opnd(fr, o) for o in i['ops']]
    fr.env[i['id']] = fcmp(i['pred'], a, b)

def icmp(pred, a, b):
    if pred == 'eq': return T.eq(a, b)
    if pred == 'ne': return T.ne(a, b)
    if pred == 'ult': return T.ult(a, b)
    if pred == 'ugt': return T.ult(b, a)
    if pred == 'ule': return T.ule(a, b)
    if pred == 'uge': return T.ule(b, a)
    if pred == 'slt': return T.slt(a, b)
    if pred == 'sgt': return T.slt(b, a)
    if pred == 'sle': return T.sle(a, b)
    return T.sle(b, a)
@op('icmp')
def o_icmp(ex, st, fr, i):
    a, b = [ex.opnd(fr, o) for o in i['ops']]
    if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
        fr.env[i['id']] = ptr_cmp(ex, st, i['pred'], a, b); return
    if isinstance(a, list):
        fr.env[i['id']] = [icmp(i['pred'], x, y) for x, y in zip(a, b)]; return
    fr.env[i['id']] = icmp(i['pred'], a, b)
def ptr_cmp(ex, st, pred, a, b):
    if isinstance(a, FnPtr) or isinstance(b, FnPtr):
        same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
        return T.boolc(same == (pred == 'eq'))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
        return icmp(pred, a.off, b.off)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and pred in ('eq', 'ne'):
        # distinct objects: valid pointers differ; one-past-the-end vs. start is unspecified but never compared here
        return T.boolc(pred == 'ne')
    # ordering of unrelated objects (std::less): opaque total order on addresses
    for q in (a, b):
        if isinstance(q, Ptr) and q.obj: ex.objs_by_id[q.obj.id] = q.obj
    return icmp(pred, ex.p2i(a) if not isinstance(a, T.Term) else a, ex.p2i(b) if not isinstance(b, T.Term) else b)

@op('select')
def o_select(ex, st, fr, i):
    c, a, b = [ex.opnd(fr, o) for o in i['ops']]
    if c.op != 'c': c = ex.decide(st, c)
    if c.op == 'c':
        fr.env[i['id']] = a if c.val else b; return
    if isinstance(a, T.Term) and isinstance(b, T.Term) and (a.w != 64 or not ex.fork_select):
        fr.env[i['id']] = T.ite(c, a, b); return
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and not ex.fork_select:
        fr.env[i['id']] = Ptr(a.obj, T.ite(c, a.off, b.off)); return
    if a is b:
        fr.env[i['id']] = a; return
    if not S.feasible(st.pc, c): fr.env[i['id']] = b; return
    nc = T.bnot(c)
    if not S.feasible(st.pc, nc): fr.env[i['id']] = a; return
    h = fr.fn.inner.get(fr.blk)
    if h is not None and ex.cut_handler is not None and (fr.fn.name, h) not in ex.cuts and ex.cut_syms & S.leafset(c):
        k = ('select', h); fr.loopcnt[k] = fr.loopcnt.get(k, 0) + 1
        if fr.loopcnt[k] > 8: raise NeedCut(fr.fn, h)
    s2 = st.fork(); f2 = s2.frames[-1]
    st.assume(c); s2.assume(nc)
    fr.env[i['id']] = a; f2.env[i['id']] = b
    fr.ip += 1; f2.ip += 1
    return ('fork', [st, s2])

@op('getelementptr')
def o_gep(ex, st, fr, i):
    p = ex.opnd(fr, i['ops'][0])
    off = i['off']
    vs = i['vars']
    if isinstance(p, T.Term): p = ex.i2p(p)
    if not vs:
        if off: p = Ptr(p.obj, T.linear(64, [(1, p.off)], off))
        fr.env[i['id']] = p; return
    parts = [(1, p.off)]
    for o, ty, sc in vs:
        x = ex.opnd(fr, o)
        if x.w < 64: x = T.sext(x, 64)
        elif x.w > 64: x = T.trunc(x, 64)
        parts.append((sc, x))
    fr.env[i['id']] = Ptr(p.obj, T.linear(64, parts, off))

@op('alloca')
def o_alloca(ex, st, fr, i):
    n = ex.opnd(fr, i['ops'][0])
    if n.op != 'c': raise Unsupported('dynamic alloca')
    # one object per stack slot: paths of the same function name their locals alike
    key = (len(st.frames), fr.fn.name, i['id'], n.val)
    o = ex.slots.get(key) if fr.blk not in fr.fn.inner else None
    if o is None:
        o = Obj('%s.%%%d' % (short(fr.fn.dem), i['id']), i['size'] * n.val, 'stack')
        ex.objs_by_id[o.id] = o
        if fr.blk not in fr.fn.inner: ex.slots[key] = o
    st.mem.objs[o.id] = {}; st.mem.own.add(o.id)
    fr.env[i['id']] = Ptr(o, C0)
@op('load')
def o_load(ex, st, fr, i):
    p = ex.opnd(fr, i['ops'][0])
    ty = i['ty']
    c = ty[0]
    if c == 'p': fr.env[i['id']] = ex.load(st, p, 8, True); return
    if c in '{[': fr.env[i['id']] = ex.load_val(st, p, parse_ty(ty)); return
    if c == '<': raise Unsupported('vector load')
    v = ex.load(st, p, i['sz'])
    w = i['tyw']
    if v.w != w: v = T.trunc(v, w)
    fr.env[i['id']] = v
@op('store')
def o_store(ex, st, fr, i):
    v = ex.opnd(fr, i['ops'][0]); p = ex.opnd(fr, i['ops'][1])
    if isinstance(v, list): r = ex.store_val(st, p, v, i['vty'])
    else: r = ex.store(st, p, v, i['sz'])
    if r is not None: return ('fork', r)
@op('extractvalue')
def o_ev(ex, st, fr, i):
    v = ex.opnd(fr, i['ops'][0])
    for k in i['idx']: v = v[k]
    fr.env[i['id']] = v
@op('insertvalue')
def o_iv(ex, st, fr, i):
    v = ex.opnd(fr, i['ops'][0]); x = ex.opnd(fr, i['ops'][1])
    def go(v, ix):
        if not ix: return x
        v = list(v); v[ix[0]] = go(v[ix[0]], ix[1:]); return v
    fr.env[i['id']] = go(v, i['idx'])
@op('br')
def o_br(ex, st, fr, i):
    s = i['succ']
    if len(s) == 1 or (s[0] == s[1]): r = ex.enter(st, fr, s[0])
    else: r = ex.branch(st, fr, ex.opnd(fr, i['ops'][0]), s[0], s[1])
    return NEXT if r is None else r
@op('switch')
def o_switch(ex, st, fr, i):
    v = ex.resolve(st, ex.opnd(fr, i['ops'][0]))
    if v.op == 'c':
        for c, b in i['cases']:
            if int(c, 16) == v.val: r = ex.enter(st, fr, b); return NEXT if r is None else r
        r = ex.enter(st, fr, i['def']); return NEXT if r is None else r
    out = []
    nots = []
    for c, b in i['cases']:
        e = T.eq(v, T.const(int(c, 16), v.w))
        nots.append(T.bnot(e))
        if S.feasible(st.pc, e):
            s2 = st.fork(); s2.assume(e); s2.learn(v, int(c, 16))
            r = ex.enter(s2, s2.frames[-1], b)
            if r is None: out.append(s2)
            elif r[0] == 'fork': out.extend(r[1])
    d = T.band(*nots)
    if S.feasible(st.pc, d):
        s2 = st.fork(); s2.assume(d)
        r = ex.enter(s2, s2.frames[-1], i['def'])
        if r is None: out.append(s2)
        elif r[0] == 'fork': out.extend(r[1])
    return ('fork', out)
@op('unreachable')
def o_unreach(ex, st, fr, i):
    ex.oblige(st, 'unreachable code not reached', T.FALSE)
    return ('dead',)
@op('ret')
def o_ret(ex, st, fr, i):
    v = ex.opnd(fr, i['ops'][0]) if i['ops'] else None
    st.frames.pop()
    if fr.ret_to is None: return ('ret', v)
    caller = st.frames[-1]
    kind, vid, nxt = fr.ret_to
    if v is not None: caller.env[vid] = v
    if nxt is None: caller.ip += 1
    else:
        r = ex.enter(st, caller, nxt)
        if r is not None: return r
    return NEXT

@op('call', 'invoke')
def o_call(ex, st, fr, i):
    name = i.get('callee')
    args = None
    if name is None:
        f = ex.opnd(fr, i['callee_v'])
        if not isinstance(f, FnPtr): raise Unsupported('indirect call %r' % (f,))
        name = f.name
    r = None
    if name.startswith('llvm.'):
        r = intrinsic(ex, st, fr, i, name)
    else:
        dem = ex.mod.demangle(name)
        args = [ex.opnd(fr, o) for o in i['ops']]
        for rx, c in ex.contracts:
            if rx.search(dem):
                ex.contract_used[rx.pattern] = ex.contract_used.get(rx.pattern, 0) + 1
                r = c(ex, st, fr, i, args)
                break
        else:
            fn = ex.mod.fns.get(name)
            if fn is not None:
                if len(st.frames) > 60: raise Unsupported('recursion depth')
                s = ex.call_state(fn, args, st)
                s.frames[-1].ret_to = ('ret', i['id'], i.get('normal'))
                return NEXT
            e = ex.extern.get(name) or EXTERN.get(name)
            if e is None: raise Unsupported('external call %s' % dem)
            r = e(ex, st, fr, i, args)
    if r is None:
        if i['op'] == 'invoke':
            r = ex.enter(st, fr, i['normal'])
            return NEXT if r is None else r
        return None
    return r

EXTERN = {}
def extern(*names):
    def deco(f):
        for n in names: EXTERN[n] = f
        return f
    return deco

@extern('_Znwm', '_Znam', 'malloc')
def e_new(ex, st, fr, i, args):
    n = ex.resolve(st, args[0])
    if n.op != 'c':
        vals = ex.values(st, n)
        out = []
        for v in vals:
            s2 = st.fork(); s2.assume(T.eq(n, T.const(v, 64))); s2.learn(n, v); out.append(s2)
        if len(out) == 1: n = T.const(vals[0], 64)
        else: return ('fork', out)
    o = Obj('heap%d' % i['id'], n.val, 'heap'); ex.objs_by_id[o.id] = o
    st.mem.wcells(o)
    fr.env[i['id']] = Ptr(o, C0)
    ex.assumed.add('operator new returns a fresh object (allocation never fails)')
@extern('_ZdlPvm', '_ZdlPv', '_ZdaPv', 'free')
def e_del(ex, st, fr, i, args): return None
@extern('strlen')
def e_strlen(ex, st, fr, i, args):
    p = args[0]; k = 0
    while True:
        b = ex.load(st, Ptr(p.obj, T.add(p.off, T.const(k, 64))), 1)
        if b.op != 'c': raise Unsupported('symbolic strlen')
        if b.val == 0: break
        k += 1
    fr.env[i['id']] = T.const(k, 64)
@extern('memcmp', 'bcmp')
def e_memcmp(ex, st, fr, i, args):
    n = ex.resolve(st, args[2])
    if n.op != 'c':
        out = []
        vals = ex.values(st, n)
        for v in vals:
            s2 = st.fork(); s2.assume(T.eq(n, T.const(v, 64))); s2.learn(n, v); out.append(s2)
        if len(out) != 1: return ('fork', out)
        n = T.const(vals[0], 64)
    r = T.const(0, 32)
    for k in range(n.val - 1, -1, -1):
        a = ex.load(st, Ptr(args[0].obj, T.add(args[0].off, T.const(k, 64))), 1)
        b = ex.load(st, Ptr(args[1].obj, T.add(args[1].off, T.const(k, 64))), 1)
        r = T.ite(T.eq(a, b), r, T.ite(T.ult(a, b), T.const(-1, 32), T.const(1, 32)))
    fr.env[i['id']] = r
@extern('memchr')
def e_memchr(ex, st, fr, i, args):
    n = ex.resolve(st, args[2])
    if n.op != 'c':
        out = []
        vals = ex.values(st, n)
        for v in vals:
            s2 = st.fork(); s2.assume(T.eq(n, T.const(v, 64))); s2.learn(n, v); out.append(s2)
        if len(out) != 1: return ('fork', out)
        n = T.const(vals[0], 64)
    c = T.trunc(args[1], 8)
    out = []; cur = st
    for k in range(n.val):
        b = ex.load(cur, Ptr(args[0].obj, T.add(args[0].off, T.const(k, 64))), 1)
        e = ex.decide(cur, T.eq(b, c))
        if e is T.FALSE or not S.feasible(cur.pc, e): continue
        if e is T.TRUE or not S.feasible(cur.pc, T.bnot(e)):
            cur.frames[-1].env[i['id']] = Ptr(args[0].obj, T.add(args[0].off, T.const(k, 64)))
            cur.frames[-1].ip += 1
            out.append(cur); cur = None; break
        s2 = cur.fork(); s2.assume(e)
        s2.frames[-1].env[i['id']] = Ptr(args[0].obj, T.add(args[0].off, T.const(k, 64)))
        s2.frames[-1].ip += 1
        out.append(s2)
        cur.assume(T.bnot(e))
    if cur is not None:
        cur.frames[-1].env[i['id']] = NULL; cur.frames[-1].ip += 1; out.append(cur)
    return ('fork', out)
@extern('memcpy', 'memmove')
def e_memcpy(ex, st, fr, i, args):
    fr.env[i['id']] = args[0]
    return _memcpy(ex, st, fr, i, args)
@extern('abort', '_ZSt9terminatev', '__assert_fail', '_ZSt20__throw_length_errorPKc', '_ZSt20__throw_out_of_rangePKc', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt19__throw_logic_errorPKc', '_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv', '__glibcxx_assert_fail', '_ZSt21__glibcxx_assert_failPKciS0_S0_', '_ZSt26__throw_bad_variant_accessPKc', '_ZSt27__throw_bad_optional_accessv')
def e_abort(ex, st, fr, i, args):
    if ex.allow_abort: ex.allow_abort(ex, st)
    else: ex.oblige(st, 'never aborts', T.FALSE, ex.mod.demangle(i.get('callee', '?')))
    return ('dead',)

def _memcpy(ex, st, fr, i, args):
    n = ex.resolve(st, args[2])
    if n.op != 'c':
        vals = ex.values(st, n)
        if len(vals) > 1:
            out = []
            for v in vals:
                s2 = st.fork(); s2.assume(T.eq(n, T.const(v, 64))); s2.learn(n, v); out.append(s2)
            return ('fork', out)
        n = T.const(vals[0], 64)
    r = ex.memcpy(st, args[0], args[1], n.val)
    if r is not None: return ('fork', r)

def intrinsic(ex, st, fr, i, name):
    if name.startswith('llvm.lifetime.start'):
        p = ex.opnd(fr, i['ops'][1])
        if isinstance(p, Ptr) and p.obj is not None and p.off is C0:
            st.mem.objs[p.obj.id] = {}; st.mem.own.add(p.obj.id)
        return None
    if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.donothing', 'llvm.invariant', 'llvm.assume')):
        if name.startswith('llvm.assume'):
            c = ex.opnd(fr, i['ops'][0])
            ex.oblige(st, 'llvm.assume holds', c)
        return None
    args = [ex.opnd(fr, o) for o in i['ops']]
    if name.startswith(('llvm.memcpy', 'llvm.memmove')): return _memcpy(ex, st, fr, i, args)
    if name.startswith('llvm.memset'):
        n = ex.resolve(st, args[2])
        if n.op != 'c':
            out = []
            vals = ex.values(st, n)
            for v in vals:
                s2 = st.fork(); s2.assume(T.eq(n, T.const(v, 64))); s2.learn(n, v); out.append(s2)
            if len(out) != 1: return ('fork', out)
            n = T.const(vals[0], 64)
        if n.val == 0: return None
        p = args[0]; off = ex.resolve(st, p.off)
        if not ex.bounds(st, Ptr(p.obj, off), n.val, 'write'): return None
        if off.op != 'c':
            out = []
            for v in ex.values(st, off):
                s2 = st.fork(); s2.assume(T.eq(off, T.const(v, 64))); s2.learn(off, v); out.append(s2)
            return ('fork', out)
        if p.obj.ro: ex.oblige(st, 'frame', T.FALSE, 'write to read-only object'); return None
        c = st.mem.wcells(p.obj)
        v = (args[1], 0)
        for k in range(n.val): c[off.val + k] = v
        return None
    base = name.split('.')[1]
    if base == 'bswap': fr.env[i['id']] = T.bswap(args[0]); return None
    if base in ('fshl', 'fshr'):
        a, b, s = args
        s = ex.resolve(st, s)
        if s.op != 'c': raise Unsupported('symbolic funnel shift')
        w = a.w; k = s.val % w
        if base == 'fshl': r = a if k == 0 else T.cat(T.ext(a, w - k - 1, 0), T.ext(b, w - 1, w - k))
        else: r = b if k == 0 else T.cat(T.ext(a, k - 1, 0), T.ext(b, w - 1, k))
        fr.env[i['id']] = r; return None
    if base in ('umin', 'umax', 'smin', 'smax'):
        a, b = args
        c = (T.ult if base[0] == 'u' else T.slt)(a, b)
        fr.env[i['id']] = T.ite(c, a, b) if base.endswith('min') else T.ite(c, b, a); return None
    if base == 'abs':
        a = args[0]; fr.env[i['id']] = T.ite(T.slt(a, T.const(0, a.w)), T.neg(a), a); return None
    if base == 'fabs':
        a = args[0]; fr.env[i['id']] = T.cat(T.const(0, 1), T.ext(a, a.w - 2, 0)); return None
    if base in ('ctpop', 'ctlz', 'cttz'):
        a = args[0]; w = a.w
        if base == 'ctpop':
            r = T.add(*[T.zext(T.ext(a, k, k), w) for k in range(w)]) if a.op != 'c' else T.const(bin(a.val).count('1'), w)
        elif base == 'ctlz':
            r = T.const(w, w)
            for k in range(w): r = T.ite(T.ext(a, k, k), T.const(w - 1 - k, w), r)
        else:
            r = T.const(w, w)
            for k in range(w - 1, -1, -1): r = T.ite(T.ext(a, k, k), T.const(k, w), r)
        if base != 'ctpop' and args[1].op == 'c' and args[1].val: ex.oblige(st, 'count zeros of non-zero', T.ne(a, T.const(0, w)))
        fr.env[i['id']] = r; return None
    if base in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and 'with.overflow' in name:
        a, b = args; w = a.w; W = 2 * w if base[1:] == 'mul' else w + 1
        e = T.zext if base[0] == 'u' else T.sext
        A, B = e(a, W), e(b, W)
        z = {'add': T.add, 'sub': T.sub, 'mul': T.mul}[base[1:]](A, B)
        r = T.trunc(z, w)
        fr.env[i['id']] = [r, T.ne(e(r, W), z)]; return None
    if name == 'llvm.trap': return EXTERN['abort'](ex, st, fr, i, args)
    if name.startswith('llvm.is.constant'):
        fr.env[i['id']] = T.FALSE; return None
    if name.startswith('llvm.expect'):
        fr.env[i['id']] = args[0]; return None
    if name.startswith('llvm.objectsize'):
        fr.env[i['id']] = T.const(-1, 64); return None
    if name.startswith('llvm.is.fpclass') and not isinstance(args[0], list):
        a = args[0]; m = args[1].val; neg = T.ext(a, a.w - 1, a.w - 1); nan_ = fnan(a); z = fzero(a)
        if m not in (3, 0x204, 4, 0x200): raise Unsupported('is.fpclass %d' % m)
        inf = T.eq(T.ext(a, a.w - 2, 0), T.const({32: 0x7f800000, 64: 0x7ff << 52, 80: 0x7fff << 64 | 1 << 63}[a.w], a.w - 1))
        fr.env[i['id']] = {3: nan_, 0x204: inf, 4: T.band(inf, neg), 0x200: T.band(inf, T.bnot(neg))}[m]; return None
    raise Unsupported('intrinsic ' + name)
