"""FIPS 202: Keccak-f[1600], SHA-3 and SHAKE, over words."""
import hashlib, random
from vc.word import *

def _rc():
    out = []; R = 1
    lf = []
    for t in range(255):
        lf.append(R & 1)
        R <<= 1
        if R & 0x100: R ^= 0x171
    for i in range(24):
        v = 0
        for j in range(7): v |= lf[(j + 7 * i) % 255] << ((1 << j) - 1)
        out.append(v)
    return out
RC = _rc()
def _rho():
    r = {(0, 0): 0}; x, y = 1, 0
    for t in range(24):
        r[(x, y)] = (t + 1) * (t + 2) // 2 % 64
        x, y = y, (2 * x + 3 * y) % 5
    return r
RHO = _rho()

def keccak_f(A):
    """A: 25 lanes, lane (x, y) at x + 5*y"""
    N = mode(A[0]); A = list(A)
    for rnd in range(24):
        C = [A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20] for x in range(5)]
        D = [C[(x - 1) % 5] ^ rotl(C[(x + 1) % 5], 1) for x in range(5)]
        A = [A[i] ^ D[i % 5] for i in range(25)]
        B = [None] * 25
        for x in range(5):
            for y in range(5): B[y + 5 * ((2 * x + 3 * y) % 5)] = rotl(A[x + 5 * y], RHO[(x, y)])
        A = [B[i] ^ (~B[(i + 1) % 5 + 5 * (i // 5)] & B[(i + 2) % 5 + 5 * (i // 5)]) for i in range(25)]
        A[0] = A[0] ^ N(RC[rnd], 64)
    return A

class Sponge:
    def __init__(self, name, rate, dig, domain):
        self.name = name; self.B = rate; self.dig = dig; self.domain = domain
    def init(self, num=INT): return [num(0, 64)] * 25
    def xor_at(self, A, pos, bs):
        """bytes bs xored into the state at byte position pos"""
        A = list(A); N = mode(A[0])
        lanes = {}
        for k, b in enumerate(bs): lanes.setdefault((pos + k) // 8, {})[(pos + k) % 8] = b
        for l, d in lanes.items(): A[l] = A[l] ^ le([d.get(k, N(0, 8)) for k in range(8)])
        return A
    def absorb(self, A, pos, bs, f=keccak_f):
        """-> (state, position) after the bytes"""
        bs = list(bs)
        while bs:
            n = min(self.B - pos, len(bs))
            A = self.xor_at(A, pos, bs[:n]); bs = bs[n:]; pos += n
            if pos == self.B: A = f(A); pos = 0
        return A, pos
    def finish(self, A, pos, dig=None, f=keccak_f):
        N = mode(A[0])
        A = self.xor_at(A, pos, [N(self.domain, 8)])
        A = f(self.xor_at(A, self.B - 1, [N(0x80, 8)]))
        out = []
        dig = dig or self.dig
        while True:
            out += [b for l in A[:self.B // 8] for b in le_bytes(l)]
            if len(out) >= dig: return out[:dig]
            A = f(A)
    def digest(self, data, dig=None):
        return to_bytes(self.finish(*self.absorb(self.init(), 0, wbytes(data)), dig))

ALGOS = {'sha3_%d' % (8 * d): Sponge('sha3_%d' % (8 * d), 200 - 2 * d, d, 6) for d in (28, 32, 48, 64)}
RATES = {'shake128': 168, 'shake256': 136}
def shake(name, n): return Sponge(name, RATES[name], n, 0x1f)

def selftest():
    rnd = random.Random(3); n = 0
    for name, a in ALGOS.items():
        for l in (0, 1, a.B - 1, a.B, a.B + 1, 3 * a.B - 1, 500):
            d = rnd.randbytes(l); n += 1
            assert a.digest(d) == hashlib.new(name, d).digest(), (name, l)
    for name in RATES:
        for l in (0, 3, 135, 136, 167, 168, 400):
            for o in (1, 32, 136, 137, 168, 169, 400):
                d = rnd.randbytes(l); n += 1
                assert shake(name, o).digest(d) == hashlib.new(name, d).digest(o), (name, l, o)
    return n
