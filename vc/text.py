"""Contracts of the digest text functions.

ParseChecksumLine(line, h), for every line and every h:
    parsed  <=>  |line| >= h + 3, line[0..h) are hex digits, line[h] == ' ', line[h+1] in {' ', '*'}
    parsed  ==>  hex == line[0..h), file name == line[h+2..)
  The loop over the digits is cut; the ghost is "the digits before position P are hex digits", proved at
  every visit of the loop header and assumed when the loop is entered from an arbitrary iteration.
ToHexString(d): 2N characters, the lower-case hexadecimal rendering, for every d."""
from . import term as T, exe as E, stream as ST, solver as S
from .digest import require, bad, finish_job

def isx(b):
    r = lambda a, z: T.ult(T.sub(b, T.const(ord(a), b.w)), T.const(ord(z) - ord(a) + 1, b.w))
    return T.bor(r('0', '9'), r('a', 'f'), r('A', 'F'))

def x_isxdigit(ex, st, fr, i, args):
    c = args[0]
    ex.oblige(st, 'precondition of isxdigit: an unsigned char value', T.ult(c, T.const(256, 32)))
    fr.env[i['id']] = T.zext(isx(T.trunc(c, 8)), 32)
    ex.assumed.add('isxdigit is that of the "C" locale (and returns 1; only its truth value may be used)')

N = T.var('n', 64)
class Line(ST.Problem):
    B = 4
    def __init__(self, fn):
        self.data = E.Obj('line', N, 'arg', ro=True, region='data'); self.out = E.Obj('out', 32, 'arg')
        for o in (self.data, self.out): E.Exec.objs_by_id[o.id] = o
    def hvars(self, r): return ([], [], None)
    def derived(self, an): return []
    def nblocks(self, an, d): return 0
    def cases(self): return [0]
    def absorb(self, an, bs): return ST.Anchor(0, T.add(an.P, T.const(len(bs), 64)), [], [])
    cond_vars = lambda self: {'len', 'P', 'K', 'n'}
    def setup(self, ex, fn, case):
        ex.extern = {'isxdigit': x_isxdigit}
        st = E.State(); st.ghost['anchor'] = ST.Anchor(0, T.const(0, 64), [], [])
        for c in self.pre(): st.assume(c)
        return ex.call_state(fn, [E.Ptr(self.data, E.C0), N, ST.LEN, E.Ptr(self.out, E.C0)], st)
    def pre(self): return [T.ule(N, T.const(1 << 61, 64))]
    def basic(self, P):
        return [] if P.op == 'c' and P.val == 0 else [T.ule(P, ST.LEN), T.ule(ST.LEN, T.const(1 << 61, 64))]
    def at_instantiate(self, eng, st, g):
        for c in self.pre(): st.assume(c)
    def candidates(self): return self.fmt() + [T.bnot(c) for c in self.fmt()] + [T.bnot(T.band(*self.fmt()))] + [T.ule(T.const(k, 64), T.sub(N, ST.LEN)) for k in (2, 1)]
    def byte(self, off): return T.sel('data', off)
    def fmt(self):
        """the part of the format that does not concern the digits"""
        b = self.byte; L = ST.LEN; sp = T.const(32, 8)
        return [T.ule(L, N), T.ule(T.const(3, 64), T.sub(N, L)), T.eq(b(L), sp), T.bor(T.eq(b(T.add(L, T.const(1, 64))), sp), T.eq(b(T.add(L, T.const(1, 64))), T.const(42, 8)))]
    def at_header(self, ex, st, an, d):
        ok = all(S.prove(st.pc, isx(self.byte(T.add(an.P, T.const(k, 64))))) is True for k in range(d))
        n = ex.nob.setdefault('digits consumed so far are hex digits', [0, 0, 0])
        if ok: n[0] += 1; n[2] += 1
        return ok
    def raw_return(self, eng, st, ret, an):
        ex = eng.ex; L = ST.LEN
        if ret.op != 'c': raise ST.Violation('checksum line: result', 'result not decided on a path')
        def need(name, goal):
            n = ex.nob.setdefault(name, [0, 0, 0]); n[0] += 1
            if S.prove(st.pc, goal) is not True: raise ST.Violation(name, 'not provable (%s)' % eng.ctx, st, data=E.Oblig(name, '', False, '', list(st.pc), goal))
            n[2] += 1
        if ret.val:
            for c in self.fmt(): need('checksum line: accepted only if well-formed', c)
            k = ex.values(st, T.sub(L, an.P), limit=64)
            for v in k:
                s2 = st.fork(); s2.assume(T.eq(T.sub(L, an.P), T.const(v, 64)))
                for j in range(v):
                    if S.prove(s2.pc, isx(self.byte(T.add(an.P, T.const(j, 64))))) is not True: raise ST.Violation('checksum line: accepted only if all digits are hex digits', 'not provable (%s)' % eng.ctx, st)
            got = [ex.load_int(st, self.out, 8 * j, 8) for j in range(4)]
            want = [T.const(0, 64), L, T.add(L, T.const(2, 64)), T.sub(T.sub(N, L), T.const(2, 64))]
            for g, w in zip(got, want): need('checksum line: digits and file name', T.eq(g, w))
        else:
            # rejected: some part of the format is violated; the first digits not known to be hex are the witnesses
            f = T.band(*self.fmt())
            w = T.TRUE
            for j in range(4):
                o = T.add(an.P, T.const(j, 64))
                w = T.band(w, T.bor(T.bnot(T.ult(o, L)), isx(self.byte(o))))
            need('checksum line: rejected only if not well-formed', T.bnot(T.band(f, w)))

def job_line(res, js):
    from . import drive
    mod = drive.load_module(js); fn = mod.fns['vh_checksum']
    ex = ST.run(mod, fn, Line(fn))
    drive.absorb_exec(res, ex)

def job_hex(res, js, n):
    from . import drive
    mod = drive.load_module(js)
    ex = E.Exec(mod); ex.returns = 0
    d = E.Obj('digest', n, 'arg', ro=True); out = E.Obj('out', 2 * n, 'arg'); ln = E.Obj('len', 8, 'arg')
    D = [T.var('d%d' % i, 8) for i in range(n)]; d.default = lambda o: (D[o], 0)
    for o in (d, out, ln): E.Exec.objs_by_id[o.id] = o
    h = lambda x: T.add(T.zext(x, 8), T.ite(T.ult(x, T.const(10, 4)), T.const(48, 8), T.const(87, 8)))
    for st, _ in ex.run([ex.call_state(mod.fns['vh_hex%d' % n], [E.Ptr(x, E.C0) for x in (d, out, ln)])]):
        ex.returns += 1; bad(ex)
        require(ex, 'hex: 2N characters', [(ex.load_int(st, ln, 0, 8), T.const(2 * n, 64))], st.pc)
        for i in range(n):
            require(ex, 'hex: characters', [(ex.load_int(st, out, 2 * i, 1), h(T.ext(D[i], 7, 4))), (ex.load_int(st, out, 2 * i + 1, 1), h(T.ext(D[i], 3, 0)))], st.pc)
    if not ex.returns: raise ST.Violation('reachability', 'never returns')
    finish_job(res, ex)
