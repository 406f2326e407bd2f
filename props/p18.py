from vc import hasher as H
from . import dig
PROP = 'P18'
ASSUMPTIONS = ['inputs shorter than 2^61 bytes', 'the algorithm is a function of bytes and seed (uninterpreted): one representative for every subset of {32, 64, 128}-bit forms the concept admits', 'the build constant is the one of the generated header']
def spec_selftest(): return 0
def plan(ctx):
    js = ctx.ir('hasher.cc')
    P = dig.Planner(ctx, js)
    for a in H.ALGOS: P.add('layer.' + a, 'vc.hasher', 'job_layer', js=js, algo=a)
    P.add('folds-order-text', 'vc.hasher', 'job_flat', js=js)
    return P.jobs
def search(ctx, fails):
    import ctypes, random, itertools
    from . import digsearch as DS
    from vc import drive
    lib = ctypes.CDLL(ctx.native('hasher.cc', defs=['HASHER_NATIVE'], name='hashernat', flags=('-O2',)))
    u64, u32, vp, sz = ctypes.c_uint64, ctypes.c_uint32, ctypes.c_void_p, ctypes.c_size_t
    M = 2**64 - 1
    def mix(k, d, s):
        h = k ^ (s * 0x9ddfea08eb382d69 & M) ^ len(d)
        for x in d: h = (h ^ x) * 0x100000001b3 & M; h ^= h >> 29
        return h
    def fmix(x):
        x ^= x >> 33; x = x * 0xff51afd7ed558ccd & M; x ^= x >> 33; x = x * 0xc4ceb9fe1a85ec53 & M; return x ^ x >> 33
    fold = lambda a, b: fmix(a ^ (b + 0x9e3779b97f4a7c15 & M))
    f = lib.vh_mangle; f.restype = u64; f.argtypes = [u64]; K = f(0)
    def h64(ws, d, s): return mix(64, d, s) if 64 in ws else fold(mix(1281, d, s), mix(1282, d, s))
    def h32(ws, d, s):
        if 32 in ws: return mix(32, d, s) >> 7 & 0xffffffff
        x = h64(ws, d, s); return (x ^ x >> 32) & 0xffffffff
    def h128(ws, d, s):
        if 128 in ws: return (mix(1281, d, s), mix(1282, d, s))
        return (mix(64, d, s), mix(64, d[8:], s ^ 0x9E3779B97F4A7C15 ^ int.from_bytes(d[:8], 'little')))
    def layer(rep, dl):
        g = drive.Guard(256); out = (u64 * 2)(); rnd = random.Random(ctx.seed)
        for a, ws in H.ALGOS.items():
            for v in H.VARIANTS:
                fn = getattr(lib, 'vh_%s_%s' % (a, v)); fn.restype = None; fn.argtypes = [vp, sz, u64, vp]
                for n in range(0, 40):
                    for seed in (0, 1, M, rnd.getrandbits(64)):
                        d = DS.pattern(n, rnd.choice((0, 1, 2, 3)), ctx.seed)
                        s = H.DEFAULT_SEED if v.endswith('d') else 0 if v == 'mf0' else 0xfedcba9876543210 if v == 'mfx' else seed
                        want = h128(ws, d, s) if v.startswith('128') else (h32(ws, d, s),) if v.startswith('32') else (h64(ws, d, s),) if v.startswith('64') else (h64(ws, d, s) ^ K,)
                        rec = {'entry': 'vh_%s_%s' % (a, v), 'algorithm has': list(ws), 'data_hex': d.hex(), 'seed': hex(s)}; rep(rec)
                        fn(g.put(d), n, seed, out); got = tuple(out[:len(want)])
                        if got != want: rec.update(expected=[hex(x) for x in want], got=[hex(x) for x in got]); return rec
    def flat(rep, dl):
        rnd = random.Random(ctx.seed)
        vals = [0, 1, 2, M, M - 1, 1 << 63, (1 << 63) - 1, 1 << 32, 0xffffffff] + [rnd.getrandbits(64) for _ in range(40)]
        def go(n, t, args, want):
            fn = getattr(lib, n); fn.restype = t; fn.argtypes = [u64] * len(args)
            rec = {'function': n[3:], 'arguments': [hex(x) for x in args]}; rep(rec); got = fn(*args)
            if got != want: rec.update(expected=want, got=got); return rec
        if K == 0: return {'function': 'HashMangle', 'arguments': [0], 'got': 0}
        for r in (go('vh_default_seed', u64, (), H.DEFAULT_SEED), go('vh_default_algos', ctypes.c_int, (), 15)):
            if r: return r
        for a in vals:
            for r in (go('vh_mangle', u64, (a,), a ^ K), go('vh_64to32', u32, (a,), (a ^ a >> 32) & 0xffffffff)):
                if r: return r
            for b in vals:
                for r in (go('vh_128to64', u64, (a, b), fold(a, b)), go('vh_combine', u64, (a, b), fmix(a ^ (b + 0x9E3779B97F4A7C15 + (a << 6 & M) + (a >> 2) & M)))):
                    if r: return r
                buf = ctypes.create_string_buffer(64); fn = lib.vh_hex; fn.restype = sz; fn.argtypes = [u64, u64, vp]; n = fn(a, b, buf)
                if buf.raw[:n] != b'0x%016x%016x' % (a, b): return {'function': 'AbslStringify(Hash128)', 'arguments': [hex(a), hex(b)], 'got': repr(buf.raw[:n])}
                for x, y in ((a, b), (b, a), (a, a), (b, b), (rnd.choice(vals), b), (a, rnd.choice(vals))):
                    p, q = (a, b), (x, y)
                    for r in (go('vh_cmp', ctypes.c_int, p + q, (p > q) - (p < q)), go('vh_rel', ctypes.c_int, p + q, (p == q) | (p != q) << 1 | (p < q) << 2 | (p <= q) << 3 | (p > q) << 4 | (p >= q) << 5)):
                        if r: return r
    return DS.guarded_all([layer, flat])
