"""Words that specifications are written over: either concrete (Word) or symbolic (term.Term).
The same specification text is executed on concrete words (validated against hashlib and
published vectors, and used as the oracle when a failing input is searched for) and on
terms (to state the contracts)."""
from . import term as T

class Word:
    __slots__ = ('v', 'w')
    def __init__(self, v, w): self.w = w; self.v = v & ((1 << w) - 1)
    def __add__(self, o): return Word(self.v + o.v, self.w)
    def __sub__(self, o): return Word(self.v - o.v, self.w)
    def __mul__(self, o): return Word(self.v * o.v, self.w)
    def __xor__(self, o): return Word(self.v ^ o.v, self.w)
    def __and__(self, o): return Word(self.v & o.v, self.w)
    def __or__(self, o): return Word(self.v | o.v, self.w)
    def __invert__(self): return Word(~self.v, self.w)
    def __repr__(self): return '%#x:%d' % (self.v, self.w)

def _op(f):
    def g(self, o): return f(self, o)
    return g
T.Term.__add__ = _op(T.add); T.Term.__sub__ = _op(T.sub); T.Term.__mul__ = _op(T.mul)
T.Term.__xor__ = _op(T.xor); T.Term.__and__ = _op(T.band); T.Term.__or__ = _op(T.bor)
T.Term.__invert__ = lambda s: T.bnot(s)

def is_t(x): return isinstance(x, T.Term)

class Num:
    """factory of constants of the mode"""
    def __init__(self, sym): self.sym = sym
    def __call__(self, v, w): return T.const(v, w) if self.sym else Word(v, w)
SYM = Num(True)
INT = Num(False)
def mode(x): return SYM if is_t(x) else INT

def rotl(x, k):
    k %= x.w
    if is_t(x): return T.rotl(x, k)
    return Word((x.v << k) | (x.v >> (x.w - k)), x.w)
def rotr(x, k): return rotl(x, x.w - k % x.w)
def shr(x, k):
    if is_t(x): return T.lshr(x, T.const(k, x.w))
    return Word(x.v >> k, x.w)
def shl(x, k):
    if is_t(x): return T.shl(x, T.const(k, x.w))
    return Word(x.v << k, x.w)
def cat(*xs):
    """most significant first"""
    if any(is_t(x) for x in xs): return T.cat(*[x if is_t(x) else T.const(x.v, x.w) for x in xs])
    v = 0; w = 0
    for x in xs: v = (v << x.w) | x.v; w += x.w
    return Word(v, w)
def le(bs): return cat(*reversed(list(bs)))
def be(bs): return cat(*list(bs))
def ext(x, hi, lo):
    if is_t(x): return T.ext(x, hi, lo)
    return Word(x.v >> lo, hi - lo + 1)
def zext(x, w):
    if is_t(x): return T.zext(x, w)
    return Word(x.v, w)
def sext(x, w):
    if is_t(x): return T.sext(x, w)
    return Word(x.v - ((x.v >> (x.w - 1)) << x.w), w)
def trunc(x, w): return ext(x, w - 1, 0)
def le_bytes(x): return [ext(x, 8 * k + 7, 8 * k) for k in range(x.w // 8)]
def be_bytes(x): return le_bytes(x)[::-1]
def bswap(x): return be(le_bytes(x))
def split(x, n, w):
    """n words of w bits, least significant first"""
    return [ext(x, w * k + w - 1, w * k) for k in range(n)]
def wbytes(b, num=INT): return [num(x, 8) for x in b]
def to_bytes(ws): return bytes(x.v for x in ws)
