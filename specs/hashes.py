"""The hash algorithms, over words (see vc/word.py). Sources: the xxHash specification (XXH64) and the XXH3
reference, SipHash (Aumasson, Bernstein), MurmurHash3_x64_128, FNV-1a, rapidhash V3; the house hashes follow the
structure documented in their headers.

A hash is   state := init(seed); while another block is due: state := step(state, block); fin(...)
  more(v)      is another block due when v bytes remain
  fin(seed, H, started, v, byte, end, n)  v bytes remain (concrete; byte(i) is the i-th of them, end(i) the i-th
               byte before the end of the message), n the total length (a word), started: some block was absorbed."""
from vc.word import *

M64 = (1 << 64) - 1
def C(x, v): return (x if isinstance(x, Num) else mode(x))(v & M64, 64)
def mulw(a, b): return zext(a, 128) * zext(b, 128)
def fold(a, b):
    p = mulw(a, b)
    return ext(p, 63, 0) ^ ext(p, 127, 64)
def mult(a, b):
    p = mulw(a, b)
    return ext(p, 63, 0), ext(p, 127, 64)
def b64(x): return zext(x, 64)
def fmix(v):
    v = v ^ shr(v, 33); v = v * C(v, 0xff51afd7ed558ccd); v = v ^ shr(v, 33); v = v * C(v, 0xc4ceb9fe1a85ec53)
    return v ^ shr(v, 33)

class Hash:
    bits = 64; group = 1; small = 0; nh = 0
    def more(self, v): return v >= self.B
    def init(self, seed): return []
    def step(self, H, blk): return H
    def value(self, seed, bs):
        """bs: list of byte words, concrete length"""
        num = mode(seed); n = len(bs); pos = 0; H = self.init(seed); st = False
        if n > self.small:
            while self.more(n - pos): H = self.step(H, bs[pos:pos + self.B]); pos += self.B; st = True
        return self.fin(seed, H, st, n - pos, lambda i: bs[pos + i], lambda i: bs[n - i], num(n, 64))
    def __call__(self, data, seed=0):
        r = self.value(INT(seed, 128 if getattr(self, 'keyed', False) else 64), [INT(b, 8) for b in data])
        return tuple(x.v for x in r)
def ld(byte, i, k): return zext(le([byte(i + j) for j in range(k)]), 64)
def lde(end, i, k): return zext(le([end(i - j) for j in range(k)]), 64)

# ---------------------------------------------------------------- XXH64
P1, P2, P3, P4, P5 = 0x9E3779B185EBCA87, 0xC2B2AE3D27D4EB4F, 0x165667B19E3779F9, 0x85EBCA77C2B2AE63, 0x27D4EB2F165667C5
class XXH64(Hash):
    name = 'xxh64'; B = 32; nh = 4
    def rnd(self, a, x): return rotl(a + x * C(a, P2), 31) * C(a, P1)
    def init(self, s): return [s + C(s, P1) + C(s, P2), s + C(s, P2), s, s - C(s, P1)]
    def step(self, H, blk): return [self.rnd(h, le(blk[8 * i:8 * i + 8])) for i, h in enumerate(H)]
    def fin(self, seed, H, started, v, byte, end, n):
        z = C(seed, 0)
        if started:
            h = rotl(H[0], 1) + rotl(H[1], 7) + rotl(H[2], 12) + rotl(H[3], 18)
            for a in H: h = (h ^ self.rnd(z, a)) * C(h, P1) + C(h, P4)
        else: h = seed + C(seed, P5)
        h = h + n
        i = 0
        while v - i >= 8: h = rotl(h ^ self.rnd(z, ld(byte, i, 8)), 27) * C(h, P1) + C(h, P4); i += 8
        if v - i >= 4: h = rotl(h ^ (ld(byte, i, 4) * C(h, P1)), 23) * C(h, P2) + C(h, P3); i += 4
        while i < v: h = rotl(h ^ (b64(byte(i)) * C(h, P5)), 11) * C(h, P1); i += 1
        return [xxaval(h)]
def xxaval(h):
    h = h ^ shr(h, 33); h = h * C(h, P2); h = h ^ shr(h, 29); h = h * C(h, P3)
    return h ^ shr(h, 32)

# ---------------------------------------------------------------- SipHash
class SipHash(Hash):
    B = 8; nh = 4
    def __init__(self, c, d, keyed): self.c = c; self.d = d; self.keyed = keyed; self.name = 'siphash%d%d%s' % (c, d, 'k' if keyed else '')
    def rounds(self, H, k):
        v0, v1, v2, v3 = H
        for _ in range(k):
            v0 = v0 + v1; v1 = rotl(v1, 13) ^ v0; v0 = rotl(v0, 32)
            v2 = v2 + v3; v3 = rotl(v3, 16) ^ v2
            v0 = v0 + v3; v3 = rotl(v3, 21) ^ v0
            v2 = v2 + v1; v1 = rotl(v1, 17) ^ v2; v2 = rotl(v2, 32)
        return [v0, v1, v2, v3]
    def init(self, s):
        k0, k1 = (ext(s, 63, 0), ext(s, 127, 64)) if self.keyed else (s, fmix(s))
        c = lambda v: C(k0, v)
        return [c(0x736f6d6570736575) ^ k0, c(0x646f72616e646f6d) ^ k1, c(0x6c7967656e657261) ^ k0, c(0x7465646279746573) ^ k1]
    def absorb(self, H, w):
        H = self.rounds([H[0], H[1], H[2], H[3] ^ w], self.c)
        return [H[0] ^ w] + H[1:]
    def step(self, H, blk): return self.absorb(H, le(blk))
    def fin(self, seed, H, started, v, byte, end, n):
        z = C(n, 0)
        w = (ld(byte, 0, v) if v else z) | shl(n, 56)
        H = self.absorb(H, w)
        H = self.rounds([H[0], H[1], H[2] ^ C(n, 0xff), H[3]], self.d)
        return [H[0] ^ H[1] ^ H[2] ^ H[3]]

# ---------------------------------------------------------------- FNV-1a, MurmurHash3
class FNV1a(Hash):
    name = 'fnv1a'; B = 1; nh = 1
    def init(self, s): return [s]
    def step(self, H, blk): return [(H[0] ^ b64(blk[0])) * C(H[0], 0x100000001B3)]
    def fin(self, seed, H, started, v, byte, end, n): return H
class Murmur3(Hash):
    name = 'murmur3'; B = 16; nh = 2; bits = 128
    C1, C2 = 0x87C37B91114253D5, 0x4CF5AD432745937F
    def init(self, s): return [s, s]
    def k1(self, k): return rotl(k * C(k, self.C1), 31) * C(k, self.C2)
    def k2(self, k): return rotl(k * C(k, self.C2), 33) * C(k, self.C1)
    def step(self, H, blk):
        h1, h2 = H; c = lambda v: C(h1, v)
        h1 = rotl(h1 ^ self.k1(le(blk[:8])), 27) + h2; h1 = h1 * c(5) + c(0x52DCE729)
        h2 = rotl(h2 ^ self.k2(le(blk[8:])), 31) + h1; h2 = h2 * c(5) + c(0x38495AB5)
        return [h1, h2]
    def fin(self, seed, H, started, v, byte, end, n):
        h1, h2 = H
        if v > 8: h2 = h2 ^ self.k2(ld(byte, 8, v - 8))
        if v: h1 = h1 ^ self.k1(ld(byte, 0, min(v, 8)))
        h1 = h1 ^ n; h2 = h2 ^ n; h1 = h1 + h2; h2 = h2 + h1
        h1 = fmix(h1); h2 = fmix(h2); h1 = h1 + h2; h2 = h2 + h1
        return [h1, h2]

# ---------------------------------------------------------------- rapidhash V3
class Rapid(Hash):
    name = 'rapidhash'; B = 224; nh = 7; small = 112
    S = [0x2d358dccaa6c78a5, 0x8bb84b93962eacc9, 0x4b33a62ed433d4a3, 0x4d5a2da51de1aa47, 0xa0761d6478bd642f, 0xe7037ed1a0b428db, 0x90ed1765281c388c, 0xaaaaaaaaaaaaaaaa]
    def more(self, v): return v > 224
    def s(self, x, i): return C(x, self.S[i])
    def seed0(self, seed): return seed ^ fold(seed ^ self.s(seed, 2), self.s(seed, 1))
    def init(self, s): return [self.seed0(s)] * 7
    def half(self, H, byte, o): return [fold(ld(byte, o + 16 * i, 8) ^ self.s(h, i), ld(byte, o + 16 * i + 8, 8) ^ h) for i, h in enumerate(H)]
    def step(self, H, blk):
        b = lambda i: blk[i]
        return self.half(self.half(H, b, 0), b, 112)
    def fin(self, seed, H, started, v, byte, end, n):
        s = self.s; x = self.seed0(seed); r = v; o = 0; cn = lambda k: C(seed, k)
        a = b = cn(0); rem = n
        if not started and v <= 16:
            if v >= 8: x = x ^ n; a = ld(byte, 0, 8); b = ld(byte, v - 8, 8)
            elif v >= 4: x = x ^ n; a = ld(byte, 0, 4); b = ld(byte, v - 4, 4)
            elif v: a = shl(b64(byte(0)), 45) | b64(byte(v - 1)); b = b64(byte(v // 2))
        else:
            if started or v > 112:
                if r > 112: H = self.half(H, byte, 0); o = 112; r -= 112
                x = H[0] ^ H[1] ^ H[2] ^ H[3] ^ H[4] ^ H[5] ^ H[6]
            for k, i in enumerate((2, 2, 1, 1, 2, 1)):
                if r > 16 * (k + 1): x = fold(ld(byte, o + 16 * k, 8) ^ s(x, i), ld(byte, o + 16 * k + 8, 8) ^ x)
            a = lde(end, 16, 8) ^ cn(r); b = lde(end, 8, 8); rem = cn(r)
        lo, hi = mult(a ^ s(x, 1), b ^ x)
        return [fold(lo ^ s(lo, 7), hi ^ s(lo, 1) ^ rem)]

# ---------------------------------------------------------------- XXH3
SECRET = bytes.fromhex('b8fe6c3923a44bbe7c01812cf721ad1cded46de9839097db7240a4a4b7b3671fcb79e64eccc0e578825ad07dccff7221b8084674f743248ee03590e6813a264c'
                       '3c2852bb91c300cb88d0658b1b532ea371644897a20df94e3819ef46a9deacd8a8fa763fe39c343ff9dcbbc7c70b4f1d8a51e04bcdb45931c89f7ec9d9787364'
                       'eac5ac8334d3ebc3c581a0fffa1363eb170ddd51b7f0da49d316552629d4689e2b16be587d47a1fc8ff8b8d17ad031ce45cb3a8f95160428afd7fbcabb4b407e')
X1, X2, X3 = 0x9E3779B1, 0x85EBCA77, 0xC2B2AE3D
MX1, MX2 = 0x165667919E3779F9, 0x9FB21C651E98DF25
class XXH3(Hash):
    B = 1024; nh = 8; small = 240; group = 64
    def __init__(self, bits): self.bits = bits; self.name = 'xxh3_%d' % bits
    def more(self, v): return v > 1024
    def sec(self, x, i, k=8): return C(x, int.from_bytes(SECRET[i:i + k], 'little'))
    def csec(self, seed, i):
        """8 bytes at i of the seeded secret"""
        w = [self.sec(seed, 8 * j) + seed if j % 2 == 0 else self.sec(seed, 8 * j) - seed for j in range(24)]
        bs = le_bytes(w[i // 8]) + (le_bytes(w[i // 8 + 1]) if i % 8 else [])
        return le(bs[i % 8:i % 8 + 8])
    def init(self, s):
        return [C(s, v) for v in (X3, P1, P2, P3, P4, X2, P5, X1)] + [s]
    def acc(self, A, byte, o, so):
        seed = A[8]; A = list(A); D = [ld(byte, o + 8 * i, 8) for i in range(8)]
        K = [D[i] ^ self.csec(seed, so + 8 * i) for i in range(8)]
        R = list(A)
        for i in range(8): R[i] = A[i] + D[i ^ 1] + zext(ext(K[i], 31, 0), 64) * shr(K[i], 32)
        return R
    def scramble(self, A):
        return [(a ^ shr(a, 47) ^ self.csec(A[8], 128 + 8 * i)) * C(a, X1) for i, a in enumerate(A[:8])] + [A[8]]
    def step(self, A, blk):
        b = lambda i: blk[i]
        for k in range(16): A = self.acc(A, b, 64 * k, 8 * k)
        return self.scramble(A)
    def aval(self, h):
        h = h ^ shr(h, 37); h = h * C(h, MX1)
        return h ^ shr(h, 32)
    def swap32(self, x): return bswap(x)
    def mix16(self, byte, o, so, seed):
        return fold(ld(byte, o, 8) ^ (self.sec(seed, so) + seed), ld(byte, o + 8, 8) ^ (self.sec(seed, so + 8) - seed))
    def merge(self, A, so, start):
        r = start
        for i in range(4): r = r + fold(A[2 * i] ^ self.csec(A[8], so + 16 * i), A[2 * i + 1] ^ self.csec(A[8], so + 16 * i + 8))
        return self.aval(r)
    def fin(self, seed, H, started, v, byte, end, n):
        if started or v > 240:
            A = H
            for k in range((v - 1) // 64): A = self.acc(A, byte, 64 * k, 8 * k)
            A = self.acc(A, lambda i: end(64 - i), 0, 192 - 64 - 7)
            lo = self.merge(A, 11, n * C(n, P1))
            return [lo] if self.bits == 64 else [lo, self.merge(A, 192 - 64 - 11, ~(n * C(n, P2)))]
        return (self.short64 if self.bits == 64 else self.short128)(seed, v, byte, n)
    def short64(self, seed, v, byte, n):
        c = lambda x: C(seed, x); sec = lambda i, k=8: self.sec(seed, i, k)
        if v == 0: return [xxaval(seed ^ sec(56) ^ sec(64))]
        if v <= 3:
            comb = (shl(b64(byte(0)), 16) | shl(b64(byte(v >> 1)), 24) | b64(byte(v - 1)) | c(v << 8))
            return [xxaval(comb ^ ((sec(0, 4) ^ sec(4, 4)) + seed))]
        if v <= 8:
            s = seed ^ shl(zext(bswap(ext(seed, 31, 0)), 64), 32)
            flip = (sec(8) ^ sec(16)) - s
            h = (ld(byte, v - 4, 4) + shl(ld(byte, 0, 4), 32)) ^ flip
            h = h ^ rotl(h, 49) ^ rotl(h, 24); h = h * c(MX2); h = h ^ (shr(h, 35) + n); h = h * c(MX2)
            return [h ^ shr(h, 28)]
        if v <= 16:
            lo = ld(byte, 0, 8) ^ ((sec(24) ^ sec(32)) + seed); hi = ld(byte, v - 8, 8) ^ ((sec(40) ^ sec(48)) - seed)
            return [self.aval(n + bswap(lo) + hi + fold(lo, hi))]
        if v <= 128:
            a = n * c(P1)
            for i in range((v - 1) // 32, -1, -1):
                a = a + self.mix16(byte, 16 * i, 32 * i, seed) + self.mix16(byte, v - 16 * (i + 1), 32 * i + 16, seed)
            return [self.aval(a)]
        a = n * c(P1)
        for i in range(8): a = a + self.mix16(byte, 16 * i, 16 * i, seed)
        a = self.aval(a)
        for i in range(8, v // 16): a = a + self.mix16(byte, 16 * i, 16 * (i - 8) + 3, seed)
        return [self.aval(a + self.mix16(byte, v - 16, 136 - 17, seed))]
    def mix32(self, a, byte, o1, o2, so, seed):
        return ((a[0] + self.mix16(byte, o1, so, seed)) ^ (ld(byte, o2, 8) + ld(byte, o2 + 8, 8)),
                (a[1] + self.mix16(byte, o2, so + 16, seed)) ^ (ld(byte, o1, 8) + ld(byte, o1 + 8, 8)))
    def short128(self, seed, v, byte, n):
        c = lambda x: C(seed, x); sec = lambda i, k=8: self.sec(seed, i, k)
        if v == 0: return [xxaval(seed ^ sec(64) ^ sec(72)), xxaval(seed ^ sec(80) ^ sec(88))]
        if v <= 3:
            lo = shl(zext(byte(0), 32), 16) | shl(zext(byte(v >> 1), 32), 24) | zext(byte(v - 1), 32) | mode(seed)(v << 8, 32)
            hi = rotl(bswap(lo), 13)
            return [xxaval(b64(lo) ^ ((sec(0, 4) ^ sec(4, 4)) + seed)), xxaval(b64(hi) ^ ((sec(8, 4) ^ sec(12, 4)) - seed))]
        if v <= 8:
            s = seed ^ shl(zext(bswap(ext(seed, 31, 0)), 64), 32)
            x = ld(byte, 0, 4) + shl(ld(byte, v - 4, 4), 32)
            lo, hi = mult(x ^ ((sec(16) ^ sec(24)) + s), c(P1) + c(v << 2))
            hi = hi + shl(lo, 1); lo = lo ^ shr(hi, 3); lo = lo ^ shr(lo, 35); lo = lo * c(MX2); lo = lo ^ shr(lo, 28)
            return [lo, self.aval(hi)]
        if v <= 16:
            fl = (sec(32) ^ sec(40)) - seed; fh = (sec(48) ^ sec(56)) + seed
            il = ld(byte, 0, 8); ih = ld(byte, v - 8, 8)
            lo, hi = mult(il ^ ih ^ fl, c(P1))
            lo = lo + c((v - 1) << 54); ih = ih ^ fh
            hi = hi + ih + zext(ext(ih, 31, 0), 64) * c(X2 - 1)
            lo = lo ^ bswap(hi)
            l2, h2 = mult(lo, c(P2))
            h2 = h2 + hi * c(P2)
            return [self.aval(l2), self.aval(h2)]
        a = (n * c(P1), c(0))
        if v <= 128:
            for i in range((v - 1) // 32, -1, -1): a = self.mix32(a, byte, 16 * i, v - 16 * (i + 1), 32 * i, seed)
        else:
            for i in range(32, 160, 32): a = self.mix32(a, byte, i - 32, i - 16, i - 32, seed)
            a = (self.aval(a[0]), self.aval(a[1]))
            for i in range(160, v + 1, 32): a = self.mix32(a, byte, i - 32, i - 16, 3 + i - 160, seed)
            a = self.mix32(a, byte, v - 16, v - 32, 136 - 17 - 16, c(0) - seed)
        return [self.aval(a[0] + a[1]), c(0) - self.aval(a[0] * c(P1) + a[1] * c(P4) + (n - seed) * c(P2))]

# ---------------------------------------------------------------- house hashes
def small(v, byte, num):
    """0..16 bytes into two words"""
    z = num(0, 64)
    if v >= 9: return ld(byte, 0, 8), ld(byte, v - 8, 8)
    if v == 8: return (ld(byte, 0, 8),) * 2
    if v >= 4: return ld(byte, 0, 4), ld(byte, v - 4, 4)
    if v == 0: return z, z
    if v == 1: x = shl(b64(byte(0)), 45) | b64(byte(0))
    else: x = shl(b64(byte(0)), 45) | shl(b64(byte(1)), 8) | b64(byte(2 if v == 3 else 0))
    return x, x
SQ = [0x6A09E667F3BCC908, 0xBB67AE8584CAA73B, 0x3C6EF372FE94F82B, 0xA54FF53A5F1D36F1, 0x510E527FADE682D1, 0x9B05688C2B3E6C1F, 0x1F83D9ABFB41BD6B, 0x5BE0CD19137E2179,
      0xCBBB9D5DC1059ED8, 0x629A292A367CD507, 0x9159015A3070DD17, 0x152FECD8F70E5939, 0x67332667FFC00B31, 0x8EB44A8768581511, 0xDB0C2E0D64F98FA7, 0x47B5481DBEFA4FA4]
class Mumbo(Hash):
    name = 'mumbo'; B = 128; nh = 8; small = 16
    def s(self, x, i): return C(x, SQ[i])
    def seed0(self, s): return fold(s ^ self.s(s, 0), self.s(s, 1))
    def init(self, s): x = self.seed0(s); return [x ^ self.s(x, 8 + i) for i in range(8)]
    def step(self, H, blk):
        return [fold(le(blk[16 * i:16 * i + 8]) ^ self.s(h, 4 + i), le(blk[16 * i + 8:16 * i + 16]) ^ h) for i, h in enumerate(H)]
    def finish(self, a, b, x, n):
        s = self.s; lo, hi = mult(a ^ s(a, 2) ^ n, b ^ x)
        return fold(lo ^ s(a, 3) ^ n, hi ^ s(a, 1))
    def fin(self, seed, H, started, v, byte, end, n): return self.fin0(self.seed0(seed), H, started, v, byte, end, n)
    def fin0(self, x, H, started, v, byte, end, n):
        if not started and v <= 16:
            a, b = small(v, byte, mode(n)); return [self.finish(a, b, x, n)]
        if started: x = H[0] ^ H[1] ^ H[2] ^ H[3] ^ H[4] ^ H[5] ^ H[6] ^ H[7]
        o = 0
        while v - o > 16: x = fold(ld(byte, o, 8) ^ self.s(x, 1), ld(byte, o + 8, 8) ^ x); o += 16
        return [self.finish(lde(end, 16, 8), lde(end, 8, 8), x, n)]
class Mumbo128(Mumbo):
    name = 'mumbo128'; B = 64; nh = 4; bits = 128
    def seeds(self, s): return fold(s ^ self.s(s, 2), self.s(s, 3)), fold(s ^ self.s(s, 8), self.s(s, 9))
    def init(self, s): a, b = self.seeds(s); return [a ^ self.s(s, 8), a ^ self.s(s, 9), b ^ self.s(s, 10), b ^ self.s(s, 11)]
    def finish2(self, a, b, x, n):
        s = self.s; lo, hi = mult(b ^ s(a, 10) ^ n, a ^ x)
        return fold(lo ^ s(a, 11) ^ n, hi ^ s(a, 9))
    def fin(self, seed, H, started, v, byte, end, n):
        x, y = self.seeds(seed); s = self.s
        if not started and v <= 16: a, b = small(v, byte, mode(seed))
        else:
            if started:
                x = H[0] ^ H[1] ^ H[2] ^ H[3]
                y = fold(H[0] ^ s(x, 12), H[2] ^ s(x, 13)) ^ fold(H[1] ^ s(x, 14), H[3] ^ s(x, 15))
            o = 0
            while v - o > 16:
                p, q = ld(byte, o, 8), ld(byte, o + 8, 8)
                x = fold(p ^ s(x, 1), q ^ x); y = fold(q ^ s(x, 9), p ^ y); o += 16
            a, b = lde(end, 16, 8), lde(end, 8, 8)
        return [self.finish(a, b, x, n), self.finish2(a, b, y, n)]
class Dumbo(Hash):
    name = 'dumbo'; B = 8; nh = 1
    I, W, S = 0x9E3779B97F4A7C15, 0xBB67AE8584CAA73B, 0x3C6EF372FE94F82B
    def more(self, v): return v > 8
    def init(self, s): return [s ^ C(s, self.I)]
    def mum(self, h, w): return fold(w ^ C(h, self.W), h ^ C(h, self.S))
    def step(self, H, blk): return [self.mum(H[0], le(blk))]
    def fin(self, seed, H, started, v, byte, end, n):
        w, s = C(n, self.W), C(n, self.S)
        h = self.mum(H[0], ld(byte, 0, v) if v else C(n, 0))
        lo, hi = mult(h ^ w ^ n, seed ^ s)
        return [fold(lo ^ s ^ n, hi ^ w ^ seed)]
TS = [0x6A09E667F3BCC909, 0xBB67AE8584CAA73B, 0x3C6EF372FE94F82B, 0xA54FF53A5F1D36F1, 0x510E527FADE682D1, 0x9B05688C2B3E6C1F, 0x1F83D9ABFB41BD6B, 0x5BE0CD19137E2179,
      0xCBBB9D5DC1059ED9, 0x629A292A367CD50D, 0x9159015A3070DD17, 0x152FECD8F70E5939, 0x67332667FFC00B31, 0x8EB44A8768581511, 0xDB0C2E0D64F98FA7, 0x14A21A297A13B45B,
      0x27B70A8546A14091, 0x521A1A86A8D2A111, 0x913A17B805C42171, 0x9B1A28A61C2053E9, 0xB8429B4D5D4E8193, 0xF3B971485906D9E7, 0x0283E1A639B0C399, 0x22ADCE0A2126AD69,
      0x2C1014382DF863B7, 0x4E74711D7B1B6195, 0x618E4E73A6C8BA15, 0x789230190539E111, 0x90993952D1FE8B05, 0xAF17E6B1D0E31C01, 0xC7289568B309A239, 0xD3033F531B5467E3,
      0xF1E2D75102AD2B89, 0x0A97E981D92C979D, 0x18FCD50B737A47B1, 0x303E8AC7337B753D, 0x4DC3EF41539D2C3D, 0x643B2338A9C1B203, 0x43063A1D4EBB6BA5, 0x717316A3DF5D26E3]
class Tembo(Hash):
    """L lanes, constants taken cyclically from the first K secrets; fambo is the 4-lane member with its own schedule"""
    small = 16; lenlane = True
    def __init__(self, L, K, sinit=False): self.L = L; self.K = K; self.sinit = sinit; self.B = 16 * L; self.nh = L; self.name = 'tembo_%d_%d_%d' % (L, K, sinit)
    def s(self, x, i): return C(x, TS[i])
    def k(self, x, i): return C(x, TS[i % self.K])
    def loopk(self, x, i): return self.k(x, i)
    def ladderk(self, x, i): return self.k(x, self.L + ((2, 1, 0)[i] if i < 3 else i))
    def k3(self, x): return self.k(x, 3)
    def seed0(self, s): return s ^ fold(s ^ self.s(s, 0), self.s(s, 1))
    def init(self, s, n=None):
        x = self.seed0(s)
        if not self.sinit: return [x ^ n] + [x] * (self.L - 1)
        return [x ^ n ^ self.k(x, 2 * self.L)] + [x ^ self.k(x, 2 * self.L + i) for i in range(1, self.L)]
    def step(self, H, blk):
        return [fold(le(blk[16 * i:16 * i + 8]) ^ self.loopk(h, i), le(blk[16 * i + 8:16 * i + 16]) ^ h) for i, h in enumerate(H)]
    def merge(self, H):
        L = self.L; x = lambda *i: [H[j] for j in i]; X = lambda l: l[0] if len(l) == 1 else l[0] ^ X(l[1:])
        if L == 2: return fold(*H)
        if L == 3: return fold(H[0] ^ H[2], H[1])
        if L == 4: return fold(H[0] ^ H[2], H[1] ^ H[3])
        V = list(H) + {8: [self.s(H[0], 3)], 12: [self.s(H[0], 2)], 16: [self.s(H[0], 1)]}.get(L, [])
        n = len(V)
        # even-indexed values feed the left operand, odd-indexed ones the right; pairs are multiplied first
        def side(idx):
            o = []
            while len(idx) >= 2: o.append(fold(V[idx[0]], V[idx[1]])); idx = idx[2:]
            return o + [V[i] for i in idx]
        ev, od = list(range(0, n, 2)), list(range(1, n, 2))
        if n == 5: return fold(fold(V[0], V[2]) ^ V[4], V[1] ^ V[3])
        if n == 6: return fold(fold(V[0], V[2]) ^ V[4], fold(V[1], V[3]) ^ V[5])
        if n == 9: return fold(fold(V[0], V[2]) ^ fold(V[4], V[6]), fold(V[1], V[3]) ^ fold(V[5], V[7]) ^ V[8])
        return fold(X(side(ev)), X(side(od)))
    def value(self, seed, bs):
        num = mode(seed); n = len(bs); pos = 0; H = self.init(seed, num(n, 64)); st = False
        if n > self.small:
            while self.more(n - pos): H = self.step(H, bs[pos:pos + self.B]); pos += self.B; st = True
        return self.fin(seed, H, st, n - pos, lambda i: bs[pos + i], lambda i: bs[n - i], num(n, 64))
    def fin(self, seed, H, started, v, byte, end, n):
        x = self.seed0(seed); s = self.s
        if not started and v <= 16:
            a, b = small(v, byte, mode(seed)); lo, hi = mult(a ^ s(x, 2), b ^ x)
            return [fold(lo ^ self.k3(x), hi ^ n)]
        if started: x = self.merge(H)
        for i in range(self.L - 1):
            if v > 16 * (i + 1): x = fold(ld(byte, 16 * i, 8) ^ self.ladderk(x, i), ld(byte, 16 * i + 8, 8) ^ x)
        lo, hi = mult(lde(end, 16, 8) ^ s(x, 0), lde(end, 8, 8) ^ x)
        return [fold(lo ^ s(x, 1), hi ^ s(x, 2) ^ C(x, v))]
class Fambo(Tembo):
    def __init__(self): Tembo.__init__(self, 4, 4); self.name = 'fambo'
    def loopk(self, x, i): return self.s(x, i)
    def ladderk(self, x, i): return self.s(x, (2, 1, 2)[i])
    def k3(self, x): return self.s(x, 1)
    def merge(self, H): return fold(H[0] ^ H[1], H[2] ^ H[3])
TEMBO = [(2, 3, False), (3, 8, False), (4, 10, False), (4, 40, True), (5, 10, False), (6, 13, True), (7, 16, False), (8, 40, False), (9, 20, True), (10, 40, False),
         (11, 40, True), (12, 24, False), (13, 40, False), (14, 30, True), (15, 40, False), (16, 40, True)]
ALL = {h.name: h for h in [XXH64(), SipHash(2, 4, False), SipHash(2, 4, True), SipHash(1, 3, True), FNV1a(), Murmur3(), Rapid(), XXH3(64), XXH3(128), Mumbo(), Mumbo128(), Dumbo(), Fambo()]
       + [Tembo(*t) for t in TEMBO]}
