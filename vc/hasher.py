"""Contracts of the generic hash layer (hash.h, hash_mangle.h, hash_types.h) over abstract algorithms: GetHash64/128/32 of
the algorithm are uninterpreted functions of (start, length, seed); the layer selects or synthesizes the widths."""
from . import term as T, exe as E, stream as ST
from .digest import require, bad, finish_job
from .word import *

ALGOS = {'A6': (64,), 'A1': (128,), 'A61': (64, 128), 'A36': (32, 64), 'A31': (32, 128), 'A361': (32, 64, 128)}
VARIANTS = ['64', '64f', '64d', '64fd', '64cd', '32', '32f', '32d', '32fd', '128', '128f', '128d', '128fd', 'm', 'md', 'mcd', 'mfd', 'mf0', 'mfx']
DEFAULT_SEED = 5381
c = lambda v: T.const(v & (2**64 - 1), 64)
def shr(x, n): return T.lshr(x, c(n))
def shl(x, n): return T.shl(x, c(n))
def fmix(x):
    x = T.xor(x, shr(x, 33)); x = T.mul(x, c(0xff51afd7ed558ccd)); x = T.xor(x, shr(x, 33)); x = T.mul(x, c(0xc4ceb9fe1a85ec53))
    return T.xor(x, shr(x, 33))
def fold128(a, b): return fmix(T.xor(a, T.add(b, c(0x9e3779b97f4a7c15))))
def fold64(x): return T.ext(T.xor(x, shr(x, 32)), 31, 0)
def combine(a, b): return fmix(T.xor(a, T.add(T.add(b, c(0x9E3779B97F4A7C15)), T.add(shl(a, 6), shr(a, 2)))))

class Abs:
    def a(self, w, off, n, s): return T.uf('A%d' % w, w, off, n, s)
    def externs(self):
        def arg(ex, st, p, n):
            if isinstance(p, E.Ptr) and p.obj is not None and p.obj.region == 'data':
                ex.oblige(st, 'memory safety', T.band(T.ule(p.off, p.obj.size), T.ule(n, T.sub(p.obj.size, p.off))), 'data handed to the algorithm lies in the input')
                return p.off
            raise E.Unsupported('algorithm called with data that is not the input')
        def f64(ex, st, fr, i, a): fr.env[i['id']] = self.a(64, arg(ex, st, a[0], a[1]), a[1], a[2])
        def f32(ex, st, fr, i, a): fr.env[i['id']] = self.a(32, arg(ex, st, a[0], a[1]), a[1], a[2])
        def f128(ex, st, fr, i, a):
            v = self.a(128, arg(ex, st, a[0], a[1]), a[1], a[2])
            ex.store(st, a[3], T.ext(v, 63, 0), 8); ex.store(st, E.Ptr(a[3].obj, T.add(a[3].off, c(8))), T.ext(v, 127, 64), 8)
        return {'abs64': f64, 'abs32': f32, 'abs128': f128}
    # the contract of the layer
    def h64(self, ws, n, s):
        if 64 in ws: return self.a(64, E.C0, n, s)
        v = self.a(128, E.C0, n, s); return fold128(T.ext(v, 63, 0), T.ext(v, 127, 64))
    def h32(self, ws, n, s): return self.a(32, E.C0, n, s) if 32 in ws else fold64(self.h64(ws, n, s))
    def h128(self, ws, n, s):
        if 128 in ws: v = self.a(128, E.C0, n, s); return [T.ext(v, 63, 0), T.ext(v, 127, 64)]
        k = min(n.val, 8) if n.op == 'c' else 8
        head = T.cat(*([T.const(0, 64 - 8 * k)] if k < 8 else []), *[T.sel('data', c(i)) for i in reversed(range(k))]) if k else c(0)
        return [self.a(64, E.C0, n, s), self.a(64, c(k), T.sub(n, c(k)), T.xor(T.xor(s, c(0x9E3779B97F4A7C15)), head))]

def job_layer(res, js, algo):
    from . import drive
    mod = drive.load_module(js); A = Abs(); ws = ALGOS[algo]
    ex = E.Exec(mod, loop_limit=100); ex.extern = A.externs(); ex.returns = 0
    K = mangle_constant(mod)
    for v in VARIANTS:
        for n in [c(i) for i in range(9)] + [T.var('len', 64)]:
            st = E.State()
            data = E.Obj('data', n, 'arg', ro=True, region='data'); out = E.Obj('out', 16, 'arg')
            for o in (data, out): E.Exec.objs_by_id[o.id] = o
            if n.op != 'c': st.assume(T.ult(c(8), n)); st.assume(T.ule(n, c(1 << 61)))
            seed = T.var('seed', 64); s = c(DEFAULT_SEED) if v.endswith('d') else c(0) if v == 'mf0' else c(0xfedcba9876543210) if v == 'mfx' else seed
            want = A.h128(ws, n, s) if v.startswith('128') else [T.zext(A.h32(ws, n, s), 64)] if v.startswith('32') else [A.h64(ws, n, s)] if v.startswith('64') else [T.xor(A.h64(ws, n, s), K)]
            before = ex.returns
            for s2, _ in ex.run([ex.call_state(mod.fns['vh_%s_%s' % (algo, v)], [E.Ptr(data, E.C0), n, seed, E.Ptr(out, E.C0)], st)]):
                ex.returns += 1; bad(ex)
                require(ex, 'result of the generic layer (%s)' % v, list(zip([ex.load_int(s2, out, 8 * i, 8) for i in range(len(want))], want)), s2.pc, ' over %s, %s bytes' % (algo, n.val if n.op == 'c' else 'more than 8'))
            bad(ex)
            if ex.returns == before: raise ST.Violation('reachability', 'never returns')
    finish_job(res, ex)

def mangle_constant(mod):
    """kMangleConstant of the build: HashMangle(0)"""
    ex = E.Exec(mod, loop_limit=4)
    for st, r in ex.run([ex.call_state(mod.fns['vh_mangle'], [c(0)])]):
        if r.op != 'c': raise ST.Violation('mangle constant', 'HashMangle(0) is not a constant')
        return r

def job_flat(res, js):
    from . import drive
    mod = drive.load_module(js)
    ex = E.Exec(mod, loop_limit=100); ex.returns = 0
    a, b, x, y = (T.var(n, 64) for n in 'abxy')
    K = mangle_constant(mod)
    if K.val == 0: raise ST.Violation('mangle constant', 'the mangle constant is zero')
    def one(fn, args, want, what):
        before = ex.returns
        for st, r in ex.run([ex.call_state(mod.fns[fn], args)]):
            ex.returns += 1; bad(ex)
            require(ex, what, [(r, want)], st.pc)
        bad(ex)
        if ex.returns == before: raise ST.Violation('reachability', 'never returns')
    one('vh_mangle', [a], T.xor(a, K), 'mangling is xor with the build constant')
    one('vh_64to32', [a], fold64(a), '64 to 32 bit fold')
    one('vh_128to64', [a, b], fold128(a, b), '128 to 64 bit fold')
    one('vh_combine', [a, b], combine(a, b), 'combination of two hashes')
    one('vh_default_seed', [], c(DEFAULT_SEED), 'default seed')
    one('vh_default_algos', [], T.const(15, 32), 'default algorithms')
    lt = lambda p, q, r, s: T.bor(T.ult(p, r), T.band(T.eq(p, r), T.ult(q, s)))
    L, G = lt(a, b, x, y), lt(x, y, a, b); Q = T.band(T.eq(a, x), T.eq(b, y))
    one('vh_cmp', [a, b, x, y], T.ite(L, T.const(-1, 32), T.ite(Q, T.const(0, 32), T.const(1, 32))), 'order of 128-bit hashes')
    bits = [Q, T.bnot(Q), L, T.bor(L, Q), G, T.bor(G, Q)]
    one('vh_rel', [a, b, x, y], T.zext(T.cat(*reversed(bits)), 32), 'relations of 128-bit hashes')
    out = E.Obj('out', 40, 'arg'); E.Exec.objs_by_id[out.id] = out
    h = lambda d: T.add(T.zext(d, 8), T.ite(T.ult(d, T.const(10, 4)), T.const(48, 8), T.const(87, 8)))
    before = ex.returns
    for st, r in ex.run([ex.call_state(mod.fns['vh_hex'], [a, b, E.Ptr(out, E.C0)])]):
        ex.returns += 1; bad(ex)
        want = [T.const(48, 8), T.const(120, 8)] + [h(T.ext(v, 4 * i + 3, 4 * i)) for v in (a, b) for i in reversed(range(16))]
        require(ex, 'text of a 128-bit hash', [(r, c(34))] + list(zip([ex.load_int(st, out, i, 1) for i in range(34)], want)), st.pc)
    bad(ex)
    if ex.returns == before: raise ST.Violation('reachability', 'never returns')
    finish_job(res, ex)
