from vc import compare as C
from . import dig
PROP = 'P19'
ASSUMPTIONS = ['the platform\'s types: LP64, signed char, 80-bit long double (canonical encodings only)', 'IEEE 754 comparison and conversion instructions behave as in the solver\'s floating-point theory', 'pointers compared point into one array']
def spec_selftest(): return 0
KINDS = ['S', 'A', 'I', 'F', 'C', 'L', 'C1', 'C2', 'L1', 'L2']
def plan(ctx):
    js = ctx.ir('compare.cc')
    P = dig.Planner(ctx, js)
    for k in KINDS[2:]: P.add('pairs.' + k, 'vc.compare', 'job_pairs', js=js, prefixes=[k])
    for t in list(C.INTS)[:16] + list(C.FLTS): P.add('pairs.SA_' + t, 'vc.compare', 'job_pairs', js=js, prefixes=['S_' + t, 'A_' + t])
    P.add('pairs.S_enum', 'vc.compare', 'job_pairs', js=js, prefixes=['S_e8', 'S_e32'])
    P.add('misc', 'vc.compare', 'job_misc', js=js)
    P.add('lemmas', 'vc.compare', 'job_lemmas')
    return P.jobs
def search(ctx, fails):
    import ctypes, random
    from fractions import Fraction
    from . import digsearch as DS
    from vc import drive, term as T
    lib = ctypes.CDLL(ctx.native('compare.cc', name='cmpnat', flags=('-O2',)))
    mod = drive.load_module(ctx.ir('compare.cc'))
    names = sorted(f for f in mod.fns if f.count('_') == 3)
    def go(rep, dl):
        rnd = random.Random(ctx.seed)
        def values(ty):
            n = C.size(ty)
            if ty == 'b8': return [0, 1]
            if ty in C.FLTS:
                r = []
                for v in (0, 1, 2, 127, 128, 255, 256, 32767, 65535, 65536, 2**24 + 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53, 2**53 + 2, 2**63, 2**64, 2**63 - 1, 2**64 - 1, Fraction(1, 2), Fraction(3, 2), Fraction(1, 2**149), Fraction(1, 2**1074), 2**127, 2**1000):
                    for s in (0, 1): r.append(T.fp_encode(s, Fraction(v), 8 * n))
                eb, mb = T._FP[8 * n]
                for s in (0, 1):
                    for m in (0, 1, 1 << mb - 1):
                        x = s << eb + mb | T.mask(eb) << mb | m
                        r.append(x if n < 10 else x >> 63 << 64 | 1 << 63 | x & T.mask(63))
                return sorted(set(r)) + ([rnd.getrandbits(8 * n) for _ in range(6)] if n < 10 else [])
            b = 8 * n; r = set(range(-3, 4)) | {2**k + d for k in (7, 8, 15, 16, 31, 32, 63) for d in (-1, 0, 1)} | {-2**k + d for k in (7, 15, 31, 63) for d in (-1, 0, 1)} | {rnd.getrandbits(b) for _ in range(6)}
            return sorted({v & T.mask(b) for v in r})
        vals = {t: values(t) for t in list(C.INTS) + list(C.FLTS)}
        def num(ty, x):
            if ty in C.FLTS: return T.fp_decode(x, 8 * C.size(ty))
            n = 8 * C.size(ty)
            return ('num', 0, Fraction(x - (1 << n) if C.INTS[ty][1] and x >> n - 1 else x))
        def rank(d): return (2, 0) if d[0] == 'nan' else ((1, 0) if not d[1] else (-1, 0)) if d[0] == 'inf' else (0, -d[2] if d[1] else d[2])
        bx, by = ctypes.create_string_buffer(16), ctypes.create_string_buffer(16)
        for fn in names:
            _, kind, a, b = fn.split('_'); f = getattr(lib, fn); f.restype = ctypes.c_int; f.argtypes = [ctypes.c_void_p] * 2
            pick = lambda v: v if len(v) < 60 or a == b else v[::1]
            for x in pick(vals[a]):
                bx[0:16] = x.to_bytes(16, 'little')
                for y in pick(vals[b]):
                    by[0:16] = y.to_bytes(16, 'little')
                    if 'b8' in (a, b) and a != b and a not in C.FLTS and b not in C.FLTS: p, q = bool(x), bool(y)
                    else: p, q = rank(num(a, x)), rank(num(b, y))
                    want = (p > q) - (p < q)
                    if kind[0] in 'CL' and a in C.FLTS and (2, 0) in (p, q): want = 2
                    if kind[0] == 'L': want = int(want == -1)
                    got = f(bx, by)
                    if got != want:
                        rec = {'entry': fn, 'types': [a, b], 'bits': [hex(x), hex(y)], 'expected': want, 'got': got}; rep(rec); return rec
        f = lib.vh_W
        for a in range(-2, 3):
            for b in range(-2, 3):
                if f(a, b) != (a > b) - (a < b): return {'entry': 'WeakToStrong', 'ordering of': [a, b], 'got': f(a, b)}
    return DS.guarded_all([go])
