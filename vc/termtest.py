"""Differential self-test of the canonicalising constructors: every constructor is
compared with the plain integer semantics on random operands (the operands are
random DAGs built with the constructors themselves)."""
import itertools, random
from . import term as T

def run(seed=1, n=4000):
    rnd = random.Random(seed)
    checks = 0
    for it in range(n // 40):
        pool = []   # (term, value)
        env = {}
        def leaf(w):
            k = rnd.random()
            if k < 0.35:
                v = rnd.choice([0, 1, T.mask(w), 1 << (w - 1), rnd.getrandbits(w), (T.mask(w) >> rnd.randrange(w)) & T.mask(w)])
                return T.const(v, w), v & T.mask(w)
            nm = 'x%d_%d' % (w, rnd.randrange(3))
            if nm not in env: env[nm] = rnd.choice([0, 1, T.mask(w), rnd.getrandbits(w), rnd.getrandbits(w)]) & T.mask(w)
            return T.var(nm, w), env[nm]
        def pick(w):
            c = [p for p in pool if p[0].w == w]
            if c and rnd.random() < 0.8: return rnd.choice(c[-12:])
            return leaf(w)
        for _ in range(40):
            w = rnd.choice([1, 8, 8, 16, 32, 32, 64, 64])
            m = T.mask(w)
            o = rnd.randrange(24)
            (a, x), (b, y) = pick(w), pick(w)
            if o == 0: r = (T.add(a, b), x + y)
            elif o == 1: r = (T.sub(a, b), x - y)
            elif o == 2: r = (T.mul(a, b), x * y)
            elif o == 3: r = (T.band(a, b), x & y)
            elif o == 4: r = (T.bor(a, b), x | y)
            elif o == 5: r = (T.xor(a, b), x ^ y)
            elif o == 6: k = rnd.randrange(w + 1); r = (T.shl(a, T.const(k, w) if w > 7 or k < 2 else T.const(0, w)), x << k if w > 7 or k < 2 and w > 1 else None)
            elif o == 7 and w > 7: k = rnd.randrange(w); r = (T.lshr(a, T.const(k, w)), x >> k)
            elif o == 8 and w > 7: k = rnd.randrange(w); r = (T.ashr(a, T.const(k, w)), T._s(x, w) >> k)
            elif o == 9 and w > 7: k = rnd.randrange(w); r = (T.rotl(a, k), ((x << k) | (x >> (w - k))))
            elif o == 10: r = (T.bnot(a), ~x)
            elif o == 11 and w > 7: h = rnd.randrange(w); l = rnd.randrange(h + 1); r = (T.ext(a, h, l), x >> l)
            elif o == 12 and w <= 32: (c2, z) = pick(rnd.choice([1, 8, 16, 32])); r = (T.cat(a, c2), (x << c2.w) | z)
            elif o == 13 and w < 64: w2 = rnd.choice([q for q in (8, 16, 32, 64) if q > w]); r = (T.zext(a, w2), x)
            elif o == 14 and w < 64: w2 = rnd.choice([q for q in (8, 16, 32, 64) if q > w]); r = (T.sext(a, w2), T._s(x, w))
            elif o == 15: r = (T.eq(a, b), int(x == y))
            elif o == 16: r = (T.ult(a, b), int(x < y))
            elif o == 17: r = (T.slt(a, b), int(T._s(x, w) < T._s(y, w)))
            elif o == 18: (c2, z) = pick(1); r = (T.ite(c2, a, b), x if z else y)
            elif o == 19 and y: r = (T.udiv(a, b), x // y)
            elif o == 20 and y: r = (T.urem(a, b), x % y)
            elif o == 21 and w > 7: q1 = rnd.choice([1, 3, 8, 64, -1, -8]); q2 = rnd.choice([1, 2, 4, 64, -1]); r = (T.linear(w, [(q1, a), (q2, b)], 5), q1 * x + q2 * y + 5)
            elif o == 22 and w in (16, 32, 64): r = (T.bswap(a), int.from_bytes(x.to_bytes(w // 8, 'little'), 'big'))
            else: continue
            t, v = r
            got = T.evaluate([t], env)[0]
            if v is not None:
                checks += 1
                if got != v & T.mask(t.w): raise AssertionError('term layer: op %d w %d: %r got %x want %x (a=%r b=%r)' % (o, w, t, got, v & T.mask(t.w), a, b))
            if t.w in (1, 8, 16, 32, 64): pool.append((t, got))
    return checks
def run_anf(seed, n=60):
    """eqv.bitwise_equal against exhaustive evaluation"""
    from . import eqv
    rnd = random.Random(seed); w = 4; vs = [T.var('q%d' % i, w) for i in range(4)]; cmp = 0
    envs = [{('q%d' % i): v for i, v in enumerate(x)} for x in itertools.product((0, 3, 5, 15, 10), repeat=4)]
    envs += [{('q%d' % i): sum(((b >> i) & 1) << j for j, b in enumerate(bs)) for i in range(4)} for bs in ([0, 1, 2, 3], [4, 5, 6, 7], [8, 9, 10, 11], [12, 13, 14, 15])]
    envs += [{('q%d' % i): w_ * 15 for i, w_ in enumerate(x)} for x in itertools.product((0, 1), repeat=4)]
    for _ in range(n):
        pool = list(vs) + [T.const(rnd.randrange(16), w)]
        for _ in range(12): pool.append(rnd.choice([T.band, T.bor, T.xor])(*rnd.choices(pool, k=rnd.choice([2, 2, 3]))))
        xs = pool[-5:] + [T.xor(T.bor(pool[7], pool[9]), T.band(pool[7], pool[9]), pool[7], pool[9], pool[-1])]
        val = [T.evaluate(xs, e) for e in envs]
        for i in range(len(xs)):
            for j in range(i):
                f = eqv.anf([xs[i], xs[j]]); cmp += 1
                same = all(v[i] == v[j] for v in val)
                if f is not None and f[0] == f[1] and not same: raise AssertionError('normal form: %r / %r: %r %r' % (xs[i], xs[j], f, same))
    return cmp
if __name__ == '__main__':
    for s in range(1, 6): print(run_anf(s))
    for s in range(1, 30): print(run(s))
