"""Contracts of mbo/strings/numbers.h and split.h.

BigNumberLen(v) == |BigNumber(v)|, for every v of every integral type:
    sign + digits + separators, where 10^(k-1) <= |v| < 10^k fixes the number of digits k (one digit for 0).
BigNumber(v): the decimal digits of |v| in groups of three from the right, separated by ', after the sign.
    std::to_string is used by contract: sign and the k decimal digits of |v| (uninterpreted digit functions).
AtLast(sep).Find(text, pos), pos <= |text|: the last occurrence of sep at or after pos (one character long), or the
    empty view at the end of text.  The search loop is cut; ghost: the last P characters are not sep."""
from . import term as T, exe as E, stream as ST, solver as S
from .digest import require, bad, finish_job

c64 = lambda v: T.const(v & (2**64 - 1), 64)
TYPES = {'i8': (8, 1), 'u8': (8, 0), 'i16': (16, 1), 'u16': (16, 0), 'i32': (32, 1), 'u32': (32, 0), 'i64': (64, 1), 'u64': (64, 0), 'ill': (64, 1), 'ull': (64, 0)}

def cases(v, signed):
    """(condition, negative?, number of digits) over every value of v"""
    x = T.sext(v, 72) if signed else T.zext(v, 72)
    z = T.const(0, 72); neg = T.slt(x, z)
    top = 1 << (v.w - 1 if signed else v.w)
    for n in ((False, True) if signed else (False,)):
        a = T.neg(x) if n else x
        for k in range(1, 21):
            lo = 10**(k - 1) if k > 1 else (1 if n else 0)
            if lo > (top if n else top - 1): break
            yield (T.band(neg if n else T.bnot(neg), T.ule(T.const(lo, 72), a), T.ult(a, T.const(10**k, 72))), n, k)

def digit(v, signed, j, k):
    x = T.sext(v, 64) if signed else T.zext(v, 64)
    return T.uf('decimal-digit', 8, x, c64(int(signed)), c64(j))       # the j-th digit from the right, as a character

def x_to_string(ex, st, fr, i, args):
    """std::to_string, by contract"""
    dst, v = args[0], args[1]
    dem = ex.mod.demangle(i['callee'])
    signed = 'unsigned' not in dem
    out = []
    for cond, n, k in cases(v, signed):
        if not S.feasible(st.pc, cond): continue
        s2 = st.fork(); s2.assume(cond)
        f2 = s2.frames[-1]
        size = k + n
        if size > 15:
            o = E.Obj('heap-to_string', size + 1, 'heap'); ex.objs_by_id[o.id] = o; s2.mem.wcells(o); p = E.Ptr(o, E.C0)
            ex.store(s2, E.Ptr(dst.obj, T.add(dst.off, c64(16))), c64(size), 8)
        else: p = E.Ptr(dst.obj, T.add(dst.off, c64(16)))
        ex.store(s2, dst, p, 8); ex.store(s2, E.Ptr(dst.obj, T.add(dst.off, c64(8))), c64(size), 8)
        text = ([T.const(45, 8)] if n else []) + [digit(v, signed, j, k) for j in range(k - 1, -1, -1)] + [T.const(0, 8)]
        for j, b in enumerate(text): ex.store(s2, E.Ptr(p.obj, T.add(p.off, c64(j))), b, 1)
        for b in text:
            if b.op != 'c': s2.assume(T.ult(T.sub(b, T.const(48, 8)), T.const(10, 8)))
        f2.ip += 1
        out.append(s2)
    ex.assumed.add('std::to_string gives the decimal digits of its argument after a minus sign for negative ones')
    return ('fork', out)

def job_number(res, js, ty):
    from . import drive
    mod = drive.load_module(js); w, signed = TYPES[ty]
    v = T.var('v', w)
    ex = E.Exec(mod, [(r'^std::__cxx11::to_string', x_to_string)], loop_limit=100); ex.returns = 0
    # length
    for cond, n, k in cases(v, signed):
        st = E.State(); st.assume(cond); seen = 0
        for s2, r in ex.run([ex.call_state(mod.fns['vh_len_' + ty], [v], st)]):
            ex.returns += 1; seen += 1; bad(ex)
            require(ex, 'BigNumberLen: sign, digits and separators', [(r, T.const(n + k + (k - 1) // 3, 32))], s2.pc, ' %s%d digits' % ('negative, ' if n else '', k))
        bad(ex)
        if not seen: raise ST.Violation('reachability', 'BigNumberLen never returns')
    # text: to_string decides sign and number of digits on each path
    out = E.Obj('out', 32, 'arg'); E.Exec.objs_by_id[out.id] = out
    st = E.State(); left = [(cond, n, k) for cond, n, k in cases(v, signed)]; hit = set()
    for s2, _ in ex.run([ex.call_state(mod.fns['vh_big_' + ty], [v, E.Ptr(out, E.C0)], st)]):
        ex.returns += 1; bad(ex)
        live = [x for x in left if S.feasible(s2.pc, x[0])]
        for cond, n, k in live:
            s3 = s2 if len(live) == 1 else s2.fork()
            if len(live) > 1: s3.assume(cond)
            hit.add((n, k))
            text = [T.const(45, 8)] if n else []
            for j in range(k - 1, -1, -1):
                text.append(digit_of(v, signed, j, k, w))
                if j and j % 3 == 0: text.append(T.const(39, 8))
            p = ex.load(s3, E.Ptr(out, E.C0), 8, True)
            require(ex, 'BigNumber: size', [(ex.load_int(s3, out, 8, 8), c64(len(text)))], s3.pc, ' %d digits' % k)
            for j, b in enumerate(text + [T.const(0, 8)]):
                require(ex, 'BigNumber: characters', [(ex.load(s3, E.Ptr(p.obj, T.add(p.off, c64(j))), 1), b)], s3.pc, ' %d digits' % k)
    bad(ex)
    if len(hit) != len(left): raise ST.Violation('reachability', 'BigNumber does not return for every sign and number of digits')
    finish_job(res, ex)

def digit_of(v, signed, j, k, w):
    # narrower types are promoted to int before std::to_string
    if w < 32: v = T.sext(v, 32) if signed else T.zext(v, 32); signed = True
    return digit(v, signed, j, k)

N0 = T.var('pos', 64)      # pos
class Last(ST.Problem):
    B = 4
    def __init__(self, fn):
        self.data = E.Obj('text', T.add(N0, ST.LEN), 'arg', ro=True, region='data'); self.out = E.Obj('out', 8, 'arg')
        for o in (self.data, self.out): E.Exec.objs_by_id[o.id] = o
        self.sep = T.var('sep', 8)
    def hvars(self, r): return ([], [], None)
    def derived(self, an): return []
    def nblocks(self, an, d): return 0
    def cases(self): return [0]
    def absorb(self, an, bs): return ST.Anchor(0, T.add(an.P, c64(len(bs))), [], [])
    cond_vars = lambda self: {'len', 'P', 'pos'}
    def setup(self, ex, fn, case):
        st = E.State(); st.ghost['anchor'] = ST.Anchor(0, c64(0), [], [])
        for c in self.pre(): st.assume(c)
        return ex.call_state(fn, [E.Ptr(self.data, E.C0), T.add(N0, ST.LEN), self.sep, N0, E.Ptr(self.out, E.C0)], st)
    def pre(self): return [T.ule(N0, c64(1 << 60)), T.ule(ST.LEN, c64(1 << 60))]
    def basic(self, P): return [] if P.op == 'c' and P.val == 0 else [T.ule(P, T.add(N0, ST.LEN))]
    def at_instantiate(self, eng, st, g):
        for c in self.pre(): st.assume(c)
    def candidates(self): return [T.ult(c64(0), ST.LEN)]
    def pos_candidates(self): return [T.ule(ST.PV, ST.LEN)]
    def consumed_hint(self, st, an):
        """an index counted from the start of the text"""
        best = None
        fr = st.frames[-1]
        for i in fr.fn.live_in(fr.blk):
            v = fr.env.get(i)
            if isinstance(v, T.Term) and v.w == 64:
                d = T.sub(T.sub(T.add(N0, ST.LEN), v), an.P)
                if d.op == 'c' and d.val <= 8 and (best is None or d.val > best) and self.passed(st, an, d.val): best = d.val
        return best
    def passed(self, st, an, d):
        return all(S.prove(st.pc, T.bnot(self.hit(T.add(an.P, c64(k))))) is True for k in range(d)) and (d == 0 or S.prove(st.pc, T.ule(T.add(an.P, c64(d)), T.add(N0, ST.LEN))) is True)
    def byte(self, k): return T.sel('data', T.add(N0, T.sub(T.sub(ST.LEN, k), c64(1))))
    def hit(self, k): return T.eq(self.byte(k), self.sep)
    def at_header(self, ex, st, an, d):
        ok = self.passed(st, an, d)
        n = ex.nob.setdefault('characters passed so far are not the separator', [0, 0, 0])
        if ok: n[0] += 1; n[2] += 1
        return ok
    def raw_return(self, eng, st, ret, an):
        ex = eng.ex
        def need(name, goal):
            n = ex.nob.setdefault(name, [0, 0, 0]); n[0] += 1
            if S.prove(st.pc, goal) is not True: raise ST.Violation(name, 'not provable (%s)' % eng.ctx, st, data=E.Oblig(name, '', False, '', list(st.pc), goal))
            n[2] += 1
        if not isinstance(ret, E.Ptr) or ret.obj is not self.data: raise ST.Violation('AtLast: the result is part of the text', 'returns another pointer (%s)' % eng.ctx, st)
        ln = ex.load_int(st, self.out, 0, 8)
        end = T.add(N0, ST.LEN)
        found = T.FALSE; before = T.TRUE
        for j in range(8):
            k = T.add(an.P, c64(j)); inside = T.ult(k, ST.LEN)
            here = T.band(inside, self.hit(k))
            found = T.bor(found, T.band(before, here, T.eq(ret.off, T.sub(T.sub(end, k), c64(1))), T.eq(ln, c64(1))))
            before = T.band(before, T.bnot(here))
        none = T.band(before, T.ule(ST.LEN, T.add(an.P, c64(8))), T.eq(ret.off, end), T.eq(ln, c64(0)))
        need('AtLast: the last separator at or after the position, else the empty end', T.bor(found, none))

def job_last(res, js):
    from . import drive
    mod = drive.load_module(js); fn = mod.fns['vh_atlast']
    ex = ST.run(mod, fn, Last(fn))
    drive.absorb_exec(res, ex)
