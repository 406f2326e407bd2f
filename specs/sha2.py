"""FIPS 180-4 (SHA-1, SHA-2) and RFC 1321 (MD5), written over words (vc/word.py)."""
import math
from vc.word import *

def _primes(n):
    p = []; k = 2
    while len(p) < n:
        if all(k % q for q in p): p.append(k)
        k += 1
    return p
def _iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 2)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n: lo = m
        else: hi = m - 1
    return lo
def _frac(p, root, bits): return _iroot(p << (root * bits), root) & ((1 << bits) - 1)

K256 = [_frac(p, 3, 32) for p in _primes(64)]
K512 = [_frac(p, 3, 64) for p in _primes(80)]
INIT = {
    'sha256': [_frac(p, 2, 32) for p in _primes(8)],
    'sha224': [_frac(p, 2, 64) & 0xffffffff for p in _primes(16)[8:]],
    'sha512': [_frac(p, 2, 64) for p in _primes(8)],
    'sha384': [_frac(p, 2, 64) for p in _primes(16)[8:]],
    'sha1': [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0],
    'md5': [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476],
}

def ch(x, y, z): return (x & y) ^ (~x & z)
def maj(x, y, z): return (x & y) ^ (x & z) ^ (y & z)

def sha2_compress(H, block, w):
    """H: 8 words, block: 16*w/8 bytes"""
    N = mode(H[0])
    K, R, n = (K256, ((2, 13, 22), (6, 11, 25), (7, 18, 3), (17, 19, 10)), 64) if w == 32 else (K512, ((28, 34, 39), (14, 18, 41), (1, 8, 7), (19, 61, 6)), 80)
    S0 = lambda x: rotr(x, R[0][0]) ^ rotr(x, R[0][1]) ^ rotr(x, R[0][2])
    S1 = lambda x: rotr(x, R[1][0]) ^ rotr(x, R[1][1]) ^ rotr(x, R[1][2])
    s0 = lambda x: rotr(x, R[2][0]) ^ rotr(x, R[2][1]) ^ shr(x, R[2][2])
    s1 = lambda x: rotr(x, R[3][0]) ^ rotr(x, R[3][1]) ^ shr(x, R[3][2])
    B = w // 8
    W = [be(block[B * i:B * i + B]) for i in range(16)]
    for t in range(16, n): W.append(s1(W[t - 2]) + W[t - 7] + s0(W[t - 15]) + W[t - 16])
    a, b, c, d, e, f, g, h = H
    for t in range(n):
        t1 = h + S1(e) + ch(e, f, g) + N(K[t], w) + W[t]
        t2 = S0(a) + maj(a, b, c)
        h, g, f, e, d, c, b, a = g, f, e, d + t1, c, b, a, t1 + t2
    return [x + y for x, y in zip(H, (a, b, c, d, e, f, g, h))]

def sha1_compress(H, block, w=32):
    N = mode(H[0])
    W = [be(block[4 * i:4 * i + 4]) for i in range(16)]
    for t in range(16, 80): W.append(rotl(W[t - 3] ^ W[t - 8] ^ W[t - 14] ^ W[t - 16], 1))
    a, b, c, d, e = H
    for t in range(80):
        if t < 20: f, k = ch(b, c, d), 0x5a827999
        elif t < 40: f, k = b ^ c ^ d, 0x6ed9eba1
        elif t < 60: f, k = maj(b, c, d), 0x8f1bbcdc
        else: f, k = b ^ c ^ d, 0xca62c1d6
        a, b, c, d, e = rotl(a, 5) + f + e + N(k, 32) + W[t], a, rotl(b, 30), c, d
    return [x + y for x, y in zip(H, (a, b, c, d, e))]

MD5_T = [int(abs(math.sin(i + 1)) * 2 ** 32) for i in range(64)]
MD5_S = [7, 12, 17, 22] * 4 + [5, 9, 14, 20] * 4 + [4, 11, 16, 23] * 4 + [6, 10, 15, 21] * 4
def md5_compress(H, block, w=32):
    N = mode(H[0])
    X = [le(block[4 * i:4 * i + 4]) for i in range(16)]
    a, b, c, d = H
    for i in range(64):
        if i < 16: f, g = (b & c) | (~b & d), i
        elif i < 32: f, g = (d & b) | (~d & c), (5 * i + 1) % 16
        elif i < 48: f, g = b ^ c ^ d, (3 * i + 5) % 16
        else: f, g = c ^ (b | ~d), (7 * i) % 16
        a, b, c, d = d, b + rotl(a + f + N(MD5_T[i], 32) + X[g], MD5_S[i]), b, c
    return [x + y for x, y in zip(H, (a, b, c, d))]

class MD:
    """Merkle-Damgard digest: name, word width, block bytes, digest bytes, length field bytes, endianness"""
    def __init__(self, name, fn, w, nh, dig, big=True):
        self.name = name; self.fn = fn; self.w = w; self.nh = nh; self.B = 16 * w // 8; self.dig = dig; self.big = big
        self.lenb = 2 * w // 8
    def compress(self, H, block): return self.fn(H, block, self.w)
    def pad(self, tail, total):
        """tail: pending bytes (words), total: 64-bit word, the message length in bytes (the length
        field holds 8*total modulo 2^64 resp. 2^128). -> list of blocks"""
        N = mode(total)
        z = N(0, 8)
        m = list(tail) + [N(0x80, 8)]
        while len(m) % self.B != self.B - self.lenb: m.append(z)
        L = trunc(shl(zext(total, 128), 3), 8 * self.lenb)
        m += be_bytes(L) if self.big else le_bytes(L)
        return [m[i:i + self.B] for i in range(0, len(m), self.B)]
    def finish(self, H):
        out = []
        for x in H: out += be_bytes(x) if self.big else le_bytes(x)
        return out[:self.dig]
    def init(self, N): return [N(v, self.w) for v in INIT[self.name]]
    def digest(self, data):
        H = self.init(INT); n = len(data)
        k = n - n % self.B
        for i in range(0, k, self.B): H = self.compress(H, wbytes(data[i:i + self.B]))
        for b in self.pad(wbytes(data[k:]), INT(n, 64)): H = self.compress(H, b)
        return to_bytes(self.finish(H))

ALGOS = {
    'sha256': MD('sha256', sha2_compress, 32, 8, 32), 'sha224': MD('sha224', sha2_compress, 32, 8, 28),
    'sha512': MD('sha512', sha2_compress, 64, 8, 64), 'sha384': MD('sha384', sha2_compress, 64, 8, 48),
    'sha1': MD('sha1', sha1_compress, 32, 5, 20), 'md5': MD('md5', md5_compress, 32, 4, 16, False),
}

def _sha512t(t):
    m = MD('sha512', sha2_compress, 64, 8, 64)
    H = [INT(v ^ 0xa5a5a5a5a5a5a5a5, 64) for v in INIT['sha512']]
    for b in m.pad(wbytes(b'SHA-512/%d' % t), INT(len('SHA-512/%d' % t), 64)): H = m.compress(H, b)
    return [h.v for h in H]
for _t in (224, 256):
    INIT['sha512_%d' % _t] = _sha512t(_t)
    ALGOS['sha512_%d' % _t] = MD('sha512_%d' % _t, sha2_compress, 64, 8, _t // 8)

def selftest():
    import hashlib
    n = 0
    for a, m in ALGOS.items():
        for l in (0, 1, 3, 55, 56, 63, 64, 65, 111, 112, 119, 127, 128, 129, 200):
            d = bytes((i * 7 + l) & 255 for i in range(l))
            assert m.digest(d) == hashlib.new(a, d).digest(), (a, l); n += 1
    return n
if __name__ == '__main__': print(selftest())
