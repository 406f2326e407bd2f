"""RFC 7693 BLAKE2b over words."""
import hashlib, random
from vc.word import *
from . import sha2
IV = sha2.INIT['sha512']
SIGMA = [[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
 [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4], [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
 [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13], [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
 [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11], [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
 [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5], [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0]]

def compress(h, block, t, last):
    """t: 64-bit byte counter (high word zero), last: bool"""
    N = mode(h[0])
    m = [le(block[8 * i:8 * i + 8]) for i in range(16)]
    v = list(h) + [N(x, 64) for x in IV]
    v[12] = v[12] ^ t
    if is_t(last): v[14] = v[14] ^ sext(last, 64)
    elif last: v[14] = ~v[14]
    def G(a, b, c, d, x, y):
        v[a] = v[a] + v[b] + x; v[d] = rotr(v[d] ^ v[a], 32)
        v[c] = v[c] + v[d]; v[b] = rotr(v[b] ^ v[c], 24)
        v[a] = v[a] + v[b] + y; v[d] = rotr(v[d] ^ v[a], 16)
        v[c] = v[c] + v[d]; v[b] = rotr(v[b] ^ v[c], 63)
    for i in range(12):
        s = SIGMA[i % 10]
        G(0, 4, 8, 12, m[s[0]], m[s[1]]); G(1, 5, 9, 13, m[s[2]], m[s[3]])
        G(2, 6, 10, 14, m[s[4]], m[s[5]]); G(3, 7, 11, 15, m[s[6]], m[s[7]])
        G(0, 5, 10, 15, m[s[8]], m[s[9]]); G(1, 6, 11, 12, m[s[10]], m[s[11]])
        G(2, 7, 8, 13, m[s[12]], m[s[13]]); G(3, 4, 9, 14, m[s[14]], m[s[15]])
    return [x ^ a ^ b for x, a, b in zip(h, v[:8], v[8:])]

class Blake2b:
    B = 128; nh = 8; w = 64
    def __init__(self, dig): self.dig = dig; self.name = 'blake2b_%d' % (8 * dig)
    def init(self, num=INT, keylen=0):
        h = [num(x, 64) for x in IV]
        h[0] = h[0] ^ num(0x01010000 ^ (keylen << 8) ^ self.dig, 64)
        return h
    def finish(self, h, tail, t, f=compress):
        """tail: 0..128 pending bytes, t: bytes compressed before them"""
        N = mode(h[0])
        h = f(h, list(tail) + [N(0, 8)] * (128 - len(tail)), t + N(len(tail), 64), True)
        return [b for x in h for b in le_bytes(x)][:self.dig]
    def digest(self, data, key=b''):
        h = self.init(INT, len(key))
        bs = wbytes((key + bytes(128 - len(key)) if key else b'') + data); t = 0
        while len(bs) > 128:
            t += 128; h = compress(h, bs[:128], INT(t, 64), False); bs = bs[128:]
        return to_bytes(self.finish(h, bs, INT(t, 64)))

def selftest():
    rnd = random.Random(4); n = 0
    for d in (1, 20, 32, 48, 64):
        for l in (0, 1, 127, 128, 129, 256, 257, 600):
            for kl in (0, 1, 32, 64):
                x = rnd.randbytes(l); k = rnd.randbytes(kl); n += 1
                assert Blake2b(d).digest(x, k) == hashlib.blake2b(x, digest_size=d, key=k).digest()
    return n
