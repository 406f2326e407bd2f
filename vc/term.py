"""Hash-consed bit-vector terms with a canonicalising constructor layer.

Every constructor is an equivalence-preserving rewrite; vc/termtest.py (run by
setup and by every check at start-up) compares the constructors with a direct
integer semantics on random inputs.
"""
import sys, random
sys.setrecursionlimit(200000)

class Term:
    __slots__ = ('op', 'w', 'args', 'val', 'id', 'size')
    def __repr__(self):
        return show(self)
    # no __eq__: identity

_tab = {}
_next = [0]

def _mk(op, w, args=(), val=None):
    key = (op, w, tuple([a.id for a in args]), val)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op = op; t.w = w; t.args = args; t.val = val
        t.id = _next[0]; _next[0] += 1
        _tab[key] = t
    return t

def mask(w): return (1 << w) - 1

def const(v, w): return _mk('c', w, (), v & ((1 << w) - 1))
def var(name, w): return _mk('v', w, (), name)
TRUE = const(1, 1)
FALSE = const(0, 1)
def boolc(b): return TRUE if b else FALSE

def show(t, depth=6):
    if t.op == 'c': return '%d:%d' % (t.val, t.w) if t.val < 10 else '0x%x:%d' % (t.val, t.w)
    if t.op == 'v': return str(t.val)
    if depth == 0: return '..'
    if t.op == 'lin':
        return '(' + ' + '.join(('%s' % show(a, depth-1)) if c == 1 else '%s*%s' % (c if c < (1 << (t.w-1)) else c - (1 << t.w), show(a, depth-1)) for c, a in zip(t.val[1:], t.args)) + (' + %d' % (t.val[0] if t.val[0] < (1 << (t.w-1)) else t.val[0] - (1 << t.w)) if t.val[0] else '') + ')'
    return '%s%s(%s)' % (t.op, '' if t.val is None else '[%s]' % (t.val,) if t.op != 'tbl' else '', ', '.join(show(a, depth-1) for a in t.args))

# ---------------------------------------------------------------- linear forms
# op 'lin': args = terms (sorted by id), val = (const, coef...)   value = const + sum coef*arg  mod 2^w

def _lin_parts(t):
    """-> (const, [(coef, term)])"""
    if t.op == 'c': return t.val, ()
    if t.op == 'lin': return t.val[0], tuple(zip(t.val[1:], t.args))
    if t.op == 'cat':
        # concat(A, 0_k)  ==  2^k * zext(A) (mod 2^w)
        lo = t.args[-1]
        if lo.op == 'c' and lo.val == 0:
            k = lo.w
            rest = t.args[:-1]
            if len(rest) == 1 and rest[0].op == 'ext' and rest[0].val == 0 and rest[0].args[0].w == t.w:
                return 0, ((1 << k, rest[0].args[0]),)
            if len(rest) == 1 and rest[0].op == 'c':
                return rest[0].val << k, ()
            A = cat(*rest)
            base = cat(const(0, k), A)
            if base.op != 'lin':
                c, ps = _lin_parts(base) if base.op == 'cat' and base.args[-1].op == 'c' and base.args[-1].val == 0 else (0, ((1, base),))
                return (c << k), tuple(((q << k), p) for q, p in ps)
    if t.op == 'ext' and t.val == 0 and t.args[0].op == 'lin':
        l = t.args[0]; c = l.val[0]; acc = []
        for q, a in zip(l.val[1:], l.args):
            k, ps = _lin_parts(ext(a, t.w - 1, 0))
            c += q * k
            for q2, p in ps: acc.append((q * q2, p))
        return c, tuple(acc)
    return 0, ((1, t),)

def linear(w, parts, c=0):
    """parts: iterable of (coef, term) with term.w == w"""
    m = (1 << w) - 1
    acc = {}
    cst = c
    for coef, t in parts:
        k, ps = _lin_parts(t)
        cst += coef * k
        for q, p in ps:
            acc[p] = acc.get(p, 0) + coef * q
    items = [(p, q & m) for p, q in acc.items() if q & m]
    cst &= m
    if not items: return const(cst, w)
    if len(items) == 1 and cst == 0:
        p, q = items[0]
        if q == 1: return p
        if q & (q - 1) == 0:
            k = q.bit_length() - 1
            return cat(ext(p, w - k - 1, 0), const(0, k))
    if len(items) == 1 and w == 1:
        return xor(items[0][0], const(cst, 1))
    W = items[0][0].args[0].w if items[0][0].op == 'ext' else 0
    if W and all(p.op == 'ext' and p.val == 0 and p.args[0].w == W for p, _ in items):
        # truncation of a wide sum: kept as such
        return _mk('ext', w, (linear(W, [(q, p.args[0]) for p, q in items], cst),), 0)
    items.sort(key=lambda pq: pq[0].id)
    return _mk('lin', w, tuple(p for p, _ in items), (cst,) + tuple(q for _, q in items))

def add(*ts):
    return linear(ts[0].w, [(1, t) for t in ts])
def sub(a, b):
    return linear(a.w, [(1, a), (-1, b)])
def neg(a): return linear(a.w, [(-1, a)])

def mul(a, b):
    w = a.w
    if a.op == 'c' and b.op == 'c': return const(a.val * b.val, w)
    if a.op == 'c': return linear(w, [(a.val, b)])
    if b.op == 'c': return linear(w, [(b.val, a)])
    if a.id > b.id: a, b = b, a
    return _mk('mul', w, (a, b))

# ---------------------------------------------------------------- structure
DISTRIBUTE = [True]     # off: slices of bitwise operations stay unexpanded (Keccak's rounds would blow up otherwise)
def ext(t, hi, lo):
    w = hi - lo + 1
    if w == t.w: return t
    op = t.op
    if op == 'c': return const(t.val >> lo, w)
    if op == 'ext': return ext(t.args[0], hi + t.val, lo + t.val)
    if op == 'cat':
        out = []
        pos = t.w
        for a in t.args:
            pos -= a.w          # a occupies [pos, pos+a.w)
            h = min(hi, pos + a.w - 1); l = max(lo, pos)
            if h >= l: out.append(ext(a, h - pos, l - pos))
        return cat(*out)
    if op == 'lin':
        if lo == 0: return linear(w, [(q, ext(p, hi, 0)) for q, p in zip(t.val[1:], t.args)], t.val[0])
        else:
            # split off: all coefficients divisible by 2^k, constant low part does not carry
            mh = (1 << (hi + 1)) - 1
            if hi < t.w - 1 and any(p.op == 'cat' and p.args[0].op == 'c' for p in t.args):
                # like terms that only differ above bit hi
                t2 = linear(hi + 1, [(q, ext(p, hi, 0)) for q, p in zip(t.val[1:], t.args)], t.val[0])
                if t2.op == 'ext' and t2.val == 0 and t2.args[0] is not t and len(t2.args[0].args) < len(t.args): return ext(t2.args[0], hi, lo)
                if t2.op == 'lin' and len(t2.args) < len(t.args) or t2.op == 'c': return ext(t2, hi, lo)
            if any(q > mh for q in t.val):
                return ext(linear(t.w, [(q & mh, p) for q, p in zip(t.val[1:], t.args)], t.val[0] & mh), hi, lo)
            k = 0
            while k < lo and all(q % (1 << (k + 1)) == 0 for q in t.val[1:]): k += 1
            if k > 0:
                c0 = t.val[0]
                t2 = linear(t.w - k, [(q >> k, ext(p, t.w - k - 1, 0)) for q, p in zip(t.val[1:], t.args)], c0 >> k)
                return ext(t2, hi - k, lo - k)
    elif op in ('and', 'or', 'xor'):
        # push down only when some operand simplifies (constant/concat with constants)
        if not DISTRIBUTE[0]: pass
        elif any(a.op == 'c' for a in t.args) or (op != 'xor' and any(a.op == 'cat' for a in t.args)) or any(a.op == 'cat' and any(x.op == 'c' for x in a.args) for a in t.args):
            return _bit(op, [ext(a, hi, lo) for a in t.args])
    elif op == 'ite':
        c, a, b = t.args
        if a.op == 'c' or b.op == 'c' or a.op == 'cat' or b.op == 'cat':
            return ite(c, ext(a, hi, lo), ext(b, hi, lo))
    elif op == 'tbl':
        return tbl(bytes_slice(t.val, t.w, hi, lo), t.args[0]) if (lo % 8 == 0 and w % 8 == 0) else _mk('ext', w, (t,), lo)
    return _mk('ext', w, (t,), lo)

def bytes_slice(val, w, hi, lo):
    n, data = val
    eb = w // 8
    o = bytearray()
    for i in range(0, len(data), eb):
        o += data[i + lo // 8: i + (hi + 1) // 8]
    return (n, bytes(o))

def _catpair(p, t):
    """p ++ t as one term, or None"""
    if p.op == 'c' and t.op == 'c': return const((p.val << t.w) | t.val, p.w + t.w)
    if p.op == 'ext':
        b = p.args[0]
        if t.op == 'ext' and b is t.args[0] and p.val == t.val + t.w: return ext(b, p.val + p.w - 1, t.val)
        if b.op == 'lin':
            if p.val == t.w and ext(b, t.w - 1, 0) is t: return ext(b, p.val + p.w - 1, 0)
            if t.op == 'ext' and t.args[0].op == 'lin' and p.val == t.val + t.w and ext(b, p.val - 1, t.val) is t: return ext(b, p.val + p.w - 1, t.val)
    return None

def cat(*ts):
    """most significant first"""
    out = []
    for t in ts:
        if t.op == 'cat': out.extend(t.args)
        else: out.append(t)
    if len(out) == 1: return out[0]
    res = [out[0]]
    for t in out[1:]:
        while res:
            m = _catpair(res[-1], t)
            if m is None: break
            res.pop(); t = m
        res.append(t)
    if len(res) == 1: return res[0]
    # trailing re-merge when ext collapsed into a full term that is itself a concat
    if any(r.op == 'cat' for r in res): return cat(*res)
    w = 0
    for r in res: w += r.w
    return _mk('cat', w, tuple(res))

def zext(t, w):
    if w == t.w: return t
    return cat(const(0, w - t.w), t)
def sext(t, w):
    if w == t.w: return t
    if t.op == 'c':
        v = t.val
        if v >> (t.w - 1): v -= 1 << t.w
        return const(v, w)
    if t.op == 'cat' and t.args[0].op == 'c' and t.args[0].val >> (t.args[0].w - 1) == 0:
        return zext(t, w)
    if t.w == 1: return ite(t, const(-1, w), const(0, w))
    return _mk('sext', w, (t,))
def trunc(t, w): return ext(t, w - 1, 0)

# ---------------------------------------------------------------- bitwise
def _segs(t):
    """[(hi,lo,term)] msb first"""
    if t.op == 'cat':
        pos = t.w; r = []
        for a in t.args:
            pos -= a.w
            r.append((pos + a.w - 1, pos, a))
        return r
    return [(t.w - 1, 0, t)]

def _const_runs(v, w):
    """runs of equal bits msb first: [(hi, lo, bit)]"""
    r = []; i = w - 1
    while i >= 0:
        b = (v >> i) & 1; j = i
        while j > 0 and ((v >> (j - 1)) & 1) == b: j -= 1
        r.append((i, j, b)); i = j - 1
    return r

def _zero_mask(t):
    """bits known zero"""
    if t.op == 'c': return ~t.val & mask(t.w)
    if t.op == 'cat':
        m = 0
        for a in t.args: m = (m << a.w) | ((~a.val & mask(a.w)) if a.op == 'c' else 0)
        return m
    return 0

def _bit(op, ts):
    w = ts[0].w
    full = (1 << w) - 1
    flat = []
    for t in ts:
        if t.op == op: flat.extend(t.args)
        else: flat.append(t)
    c = full if op == 'and' else 0
    cnt = {}
    for t in flat:
        if t.op == 'c':
            if op == 'and': c &= t.val
            elif op == 'or': c |= t.val
            else: c ^= t.val
        elif op == 'xor':
            if t in cnt: del cnt[t]
            else: cnt[t] = 1
        else: cnt[t] = 1
    if op == 'and' and c == 0: return const(0, w)
    if op == 'or' and c == full: return const(full, w)
    items = list(cnt)
    if not items: return const(c, w)
    if op == 'xor':
        # xor(not x, ...) : pull complement out of nested? nested xors were flattened already
        pass
    # constant masks split into segments
    if op in ('and', 'or') and c != (full if op == 'and' else 0):
        runs = _const_runs(c, w)
        if len(runs) <= 9:
            out = []
            for hi, lo, b in runs:
                sw = hi - lo + 1
                if op == 'and' and b == 0: out.append(const(0, sw))
                elif op == 'or' and b == 1: out.append(const(mask(sw), sw))
                else: out.append(_bit(op, [ext(t, hi, lo) for t in items]))
            return cat(*out)
    if op in ('or', 'xor') and len(items) > 1:
        # merge concats with disjoint non-zero parts
        zs = [(t, _zero_mask(t)) for t in items]
        if sum(1 for _, z in zs if z) >= 2 or (c and any(z for _, z in zs)):
            changed = True
            merged = False
            lst = [(t, z) for t, z in zs if z]
            rest = [t for t, z in zs if not z]
            while changed:
                changed = False
                for i in range(len(lst)):
                    for j in range(i + 1, len(lst)):
                        a, za = lst[i]; b, zb = lst[j]
                        if (za | zb) == full:
                            n = _overlay(a, b, w)
                            del lst[j]; del lst[i]
                            zn = _zero_mask(n)
                            lst.append((n, zn)) if zn else rest.append(n)
                            changed = merged = True
                            break
                    if changed: break
            if merged:
                return _bit(op, rest + [t for t, _ in lst] + ([const(c, w)] if c else []))
    if op == 'xor' and c and len(items) >= 1:
        for i, t in enumerate(items):
            z = _zero_mask(t)
            if z and (c & ~z & full) == 0:
                n = _overlay(t, const(c, w), w)
                return _bit(op, items[:i] + items[i+1:] + [n]) if len(items) > 1 else n
    if op == 'and' and len(items) >= 2:
        # and with a zext/concat-with-zeros operand: split
        z = 0
        for t in items: z |= _zero_mask(t)
        if z:
            runs = _const_runs(z, w)
            if len(runs) <= 9:
                out = []
                for hi, lo, b in runs:
                    out.append(const(0, hi - lo + 1) if b else _bit('and', [ext(t, hi, lo) for t in items]))
                return cat(*out)
    if op != 'xor':
        for t in items:
            n = not_key(t)
            if n is not None and n in cnt:
                return const(0 if op == 'and' else full, w)
    if c != (full if op == 'and' else 0): items.append(const(c, w))
    if len(items) == 1: return items[0]
    items.sort(key=lambda t: t.id)
    return _mk(op, w, tuple(items))

def not_key(t):
    """the existing complement of t when t is xor(..., ones)"""
    if t.op == 'xor' and t.args:
        for i, a in enumerate(t.args):
            if a.op == 'c' and a.val == mask(t.w):
                r = t.args[:i] + t.args[i+1:]
                return r[0] if len(r) == 1 else _bit('xor', list(r))
    return None

def _overlay(a, b, w):
    # disjoint: combine segment-wise
    cuts = set([0, w])
    for t in (a, b):
        for hi, lo, x in _segs(t): cuts.add(lo); cuts.add(hi + 1)
        if t.op == 'c':
            for hi, lo, bit in _const_runs(t.val, w): cuts.add(lo); cuts.add(hi + 1)
        elif t.op == 'cat':
            for hi, lo, x in _segs(t):
                if x.op == 'c':
                    for h2, l2, bit in _const_runs(x.val, x.w): cuts.add(lo + l2); cuts.add(lo + h2 + 1)
    cs = sorted(cuts, reverse=True)
    out = []
    for h, l in zip(cs, cs[1:]):
        xa = ext(a, h - 1, l); xb = ext(b, h - 1, l)
        if xa.op == 'c' and xa.val == 0: out.append(xb)
        elif xb.op == 'c' and xb.val == 0: out.append(xa)
        else: out.append(_mk_or_raw(xa, xb))
    return cat(*out)

def _mk_or_raw(a, b):
    if a.op == 'c' and b.op == 'c': return const(a.val | b.val, a.w)
    raise AssertionError('overlay')

def band(*ts): return _bit('and', ts)
def bor(*ts): return _bit('or', ts)
def xor(*ts): return _bit('xor', ts)
def bnot(t): return xor(t, const(mask(t.w), t.w))

# ---------------------------------------------------------------- shifts
def shl(a, b):
    w = a.w
    if b.op == 'c':
        k = b.val
        if k >= w: return const(0, w)
        if k == 0: return a
        return cat(ext(a, w - k - 1, 0), const(0, k))
    return _mk('shl', w, (a, b))
def lshr(a, b):
    w = a.w
    if b.op == 'c':
        k = b.val
        if k >= w: return const(0, w)
        if k == 0: return a
        return cat(const(0, k), ext(a, w - 1, k))
    return _mk('lshr', w, (a, b))
def ashr(a, b):
    w = a.w
    if b.op == 'c':
        k = min(b.val, w - 1)
        if k == 0: return a
        return sext(ext(a, w - 1, k), w)
    return _mk('ashr', w, (a, b))
def rotl(a, k):
    k %= a.w
    if k == 0: return a
    return cat(ext(a, a.w - k - 1, 0), ext(a, a.w - 1, a.w - k))
def rotr(a, k): return rotl(a, a.w - (k % a.w))

def bswap(t):
    n = t.w // 8
    return cat(*[ext(t, 8 * i + 7, 8 * i) for i in range(n)])

# ---------------------------------------------------------------- division
def udiv(a, b):
    if b.op == 'c' and b.val:
        if a.op == 'c': return const(a.val // b.val, a.w)
        if b.val & (b.val - 1) == 0: return lshr(a, const(b.val.bit_length() - 1, a.w))
    return _mk('udiv', a.w, (a, b))
def urem(a, b):
    if b.op == 'c' and b.val:
        if a.op == 'c': return const(a.val % b.val, a.w)
        if b.val & (b.val - 1) == 0: return band(a, const(b.val - 1, a.w))
    return _mk('urem', a.w, (a, b))
def _s(v, w): return v - (1 << w) if v >> (w - 1) else v
def sdiv(a, b):
    if a.op == 'c' and b.op == 'c' and b.val:
        x, y = _s(a.val, a.w), _s(b.val, a.w)
        q = abs(x) // abs(y)
        return const(-q if (x < 0) != (y < 0) else q, a.w)
    return _mk('sdiv', a.w, (a, b))
def srem(a, b):
    if a.op == 'c' and b.op == 'c' and b.val:
        x, y = _s(a.val, a.w), _s(b.val, a.w)
        r = abs(x) % abs(y)
        return const(-r if x < 0 else r, a.w)
    return _mk('srem', a.w, (a, b))

# ---------------------------------------------------------------- predicates
def eq(a, b):
    if a is b: return TRUE
    if a.op == 'c' and b.op == 'c': return boolc(a.val == b.val)
    if a.w == 1:
        return bnot(xor(a, b))
    if a.op == 'sext' and b.op == 'sext' and a.args[0].w == b.args[0].w: return eq(a.args[0], b.args[0])
    # linear difference
    if a.op == 'lin' or b.op == 'lin':
        d = linear(a.w, [(1, a), (-1, b)])
        if d.op == 'c': return boolc(d.val == 0)
        if d.op == 'lin':
            # canonical sign: smallest coefficient representation
            if d.val[1] > mask(d.w) // 2: d = neg(d)
            if d.op != 'lin': return _eq2(d, const(0, d.w))
            c0 = d.val[0]
            if len(d.args) == 1 and d.val[1] == 1:
                return _eq2(d.args[0], const(-c0, d.w))
            if len(d.args) == 2 and c0 == 0 and d.val[1] == 1 and d.val[2] == mask(d.w):
                return _eq2(d.args[0], d.args[1])
            # low bits contradiction
            k = 0
            while k < d.w and all(q % (1 << (k + 1)) == 0 for q in d.val[1:]): k += 1
            if k and c0 % (1 << k): return FALSE
            return _mk('eq', 1, (d, const(0, d.w)))
    return _eq2(a, b)

def _eq2(a, b):
    if a is b: return TRUE
    if a.op == 'c' and b.op == 'c': return boolc(a.val == b.val)
    if a.op == 'c': a, b = b, a
    if b.op == 'c':
        if a.op == 'cat':
            pos = a.w; cs = []
            for x in a.args:
                pos -= x.w
                e = _eq2(x, const(b.val >> pos, x.w))
                if e is FALSE: return FALSE
                if e is not TRUE: cs.append(e)
            return band(*cs) if cs else TRUE
        if a.op == 'ite':
            c, x, y = a.args
            if x.op == 'c' and y.op == 'c':
                if x.val == b.val and y.val == b.val: return TRUE
                if x.val == b.val: return c
                if y.val == b.val: return bnot(c)
                return FALSE
            if x.op == 'c' and x.val != b.val: return band(bnot(c), _eq2(y, b))
            if y.op == 'c' and y.val != b.val: return band(c, _eq2(x, b))
        if a.op == 'xor':
            cc = [x for x in a.args if x.op == 'c']
            if cc: return _eq2(_bit('xor', [x for x in a.args if x.op != 'c']), const(b.val ^ cc[0].val, a.w))
        if a.w == 1: return a if b.val else bnot(a)
    elif a.op == 'cat' and b.op == 'cat' and len(a.args) == len(b.args) and all(x.w == y.w for x, y in zip(a.args, b.args)):
        cs = []
        for x, y in zip(a.args, b.args):
            e = eq(x, y)
            if e is FALSE: return FALSE
            if e is not TRUE: cs.append(e)
        return band(*cs) if cs else TRUE
    if a.id > b.id and b.op != 'c': a, b = b, a
    return _mk('eq', 1, (a, b))
def ne(a, b): return bnot(eq(a, b))

def ult(a, b):
    if a is b: return FALSE
    if a.op == 'c' and b.op == 'c': return boolc(a.val < b.val)
    if b.op == 'c':
        if b.val == 0: return FALSE
        if b.val == 1: return eq(a, const(0, a.w))
        if b.val == mask(a.w): return ne(a, b)
    if a.op == 'c':
        if a.val == mask(a.w): return FALSE
        if a.val == 0: return ne(b, a)
    # strip common leading zero extension
    if a.op == 'cat' and a.args[0].op == 'c' and a.args[0].val == 0:
        k = a.args[0].w
        if b.op == 'cat' and b.args[0].op == 'c' and b.args[0].val == 0:
            k = min(k, b.args[0].w)
            return ult(ext(a, a.w - k - 1, 0), ext(b, a.w - k - 1, 0))
        if b.op == 'c':
            if b.val >> (a.w - k): return TRUE
            return ult(ext(a, a.w - k - 1, 0), const(b.val, a.w - k))
    if b.op == 'cat' and b.args[0].op == 'c' and b.args[0].val == 0 and a.op == 'c':
        k = b.args[0].w
        if a.val >> (a.w - k): return FALSE
        return ult(const(a.val, a.w - k), ext(b, a.w - k - 1, 0))
    # common low constant segment: 2^k*x + c < 2^k*y + c
    return _mk('ult', 1, (a, b))
def ule(a, b): return bnot(ult(b, a))
def slt(a, b):
    if a is b: return FALSE
    if a.op == 'c' and b.op == 'c': return boolc(_s(a.val, a.w) < _s(b.val, b.w))
    za = a.op == 'cat' and a.args[0].op == 'c' and a.args[0].val >> (a.args[0].w - 1) == 0
    zb = b.op == 'cat' and b.args[0].op == 'c' and b.args[0].val >> (b.args[0].w - 1) == 0
    if (za or (a.op == 'c' and _s(a.val, a.w) >= 0)) and (zb or (b.op == 'c' and _s(b.val, b.w) >= 0)): return ult(a, b)
    if a.op == 'sext' and b.op == 'sext' and a.args[0].w == b.args[0].w: return slt(a.args[0], b.args[0])
    return _mk('slt', 1, (a, b))
def sle(a, b): return bnot(slt(b, a))

def ite(c, a, b):
    if c.op == 'c': return a if c.val else b
    if a is b: return a
    n = not_key(c)
    if n is not None: return ite(n, b, a)
    if a.w == 1:
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return bnot(c)
        if a is TRUE: return bor(c, b)
        if a is FALSE: return band(bnot(c), b)
        if b is FALSE: return band(c, a)
        if b is TRUE: return bor(bnot(c), a)
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    # pull common leading zeros
    if a.w > 1:
        ka = _lead0(a); kb = _lead0(b); k = min(ka, kb)
        if k:
            return cat(const(0, k), ite(c, ext(a, a.w - k - 1, 0), ext(b, a.w - k - 1, 0)))
    return _mk('ite', a.w, (c, a, b))
def _lead0(t):
    if t.op == 'c': return t.w - t.val.bit_length() if t.val else t.w - 1
    if t.op == 'cat' and t.args[0].op == 'c':
        x = t.args[0]
        return x.w - x.val.bit_length()
    return 0

def tbl(val, idx):
    """val=(n, bytes of n entries little-endian of equal size); idx any width; out of range = 0"""
    n, data = val
    eb = len(data) // n
    w = eb * 8
    if idx.op == 'c':
        i = idx.val
        return const(int.from_bytes(data[i * eb:(i + 1) * eb], 'little') if i < n else 0, w)
    return _mk('tbl', w, (idx,), val)

def uf(name, w, *args): return _mk('uf', w, tuple(args), name)
def sel(name, off, w=8):
    """byte of an input memory region at (64-bit) offset"""
    return _mk('sel', w, (off,), name)

# ---------------------------------------------------------------- traversal
def topo(roots):
    seen = set(); out = []
    for r in roots:
        if r in seen: continue
        st = [(r, 0)]
        seen.add(r)
        while st:
            t, i = st[-1]
            if i < len(t.args):
                st[-1] = (t, i + 1)
                a = t.args[i]
                if a not in seen:
                    seen.add(a); st.append((a, 0))
            else:
                out.append(t); st.pop()
    return out

def uf_eval(name, w, args):
    import hashlib
    h = hashlib.blake2b(repr((name, w, args)).encode(), digest_size=64).digest()
    return int.from_bytes(h, 'little') & ((1 << w) - 1)

def eval_node(t, v):
    """v: list of int arg values"""
    op = t.op; w = t.w
    if op == 'c': return t.val
    if op == 'lin':
        r = t.val[0]
        for q, x in zip(t.val[1:], v): r += q * x
        return r & ((1 << w) - 1)
    if op == 'cat':
        r = 0
        for a, x in zip(t.args, v): r = (r << a.w) | x
        return r
    if op == 'ext': return (v[0] >> t.val) & ((1 << w) - 1)
    if op == 'xor':
        r = 0
        for x in v: r ^= x
        return r
    if op == 'and':
        r = v[0]
        for x in v: r &= x
        return r
    if op == 'or':
        r = 0
        for x in v: r |= x
        return r
    if op == 'mul': return (v[0] * v[1]) & ((1 << w) - 1)
    if op == 'ite': return v[1] if v[0] else v[2]
    if op == 'eq': return 1 if v[0] == v[1] else 0
    if op == 'ult': return 1 if v[0] < v[1] else 0
    if op == 'slt': return 1 if _s(v[0], t.args[0].w) < _s(v[1], t.args[0].w) else 0
    if op == 'shl': return (v[0] << v[1]) & ((1 << w) - 1) if v[1] < w else 0
    if op == 'lshr': return v[0] >> v[1] if v[1] < w else 0
    if op == 'ashr': return (_s(v[0], w) >> min(v[1], w - 1)) & ((1 << w) - 1)
    if op == 'sext': return _s(v[0], t.args[0].w) & ((1 << w) - 1)
    if op == 'udiv': return v[0] // v[1] if v[1] else mask(w)
    if op == 'urem': return v[0] % v[1] if v[1] else v[0]
    if op in ('sdiv', 'srem'):
        if v[1] == 0: return 0
        x, y = _s(v[0], w), _s(v[1], w)
        q = abs(x) // abs(y); q = -q if (x < 0) != (y < 0) else q
        return (q if op == 'sdiv' else x - q * y) & ((1 << w) - 1)
    if op == 'tbl':
        n, data = t.val; eb = len(data) // n
        return int.from_bytes(data[v[0]*eb:(v[0]+1)*eb], 'little') if v[0] < n else 0
    if op == 'uf': return uf_eval(t.val, w, tuple(v))
    if op == 'fp': return fp_eval(t, v)
    raise NotImplementedError(op)

_FP = {32: (8, 23), 64: (11, 52), 80: (15, 63)}
def fp_decode(x, w):
    """-> ('nan', payload) | ('inf', sign) | ('num', sign, Fraction)"""
    from fractions import Fraction
    eb, mb = _FP[w]
    if w == 80: x = x >> 64 << 63 | x & mask(63)
    s = x >> (eb + mb); e = x >> mb & mask(eb); m = x & mask(mb)
    if e == mask(eb): return ('nan', m) if m else ('inf', s)
    v = Fraction(m, 1 << mb) if e == 0 else 1 + Fraction(m, 1 << mb)
    k = max(e, 1) - mask(eb - 1)
    return ('num', s, v * 2 ** k if k >= 0 else v / 2 ** -k)
def fp_encode(s, v, w):
    """magnitude v (Fraction) rounded to nearest, ties to even"""
    eb, mb = _FP[w]; bias = mask(eb - 1)
    if v == 0: r = s << (eb + mb)
    else:
        k = v.numerator.bit_length() - v.denominator.bit_length()
        if (v < 2 ** k if k >= 0 else v * 2 ** -k < 1): k -= 1
        k = max(k, 1 - bias)
        q = v * 2 ** (mb - k) if mb >= k else v / 2 ** (k - mb)
        n = q.numerator // q.denominator; f = q - n
        if f * 2 > 1 or (f * 2 == 1 and n & 1): n += 1
        if n >> (mb + 1): n >>= 1; k += 1
        e = k + bias if n >> mb else 0
        if e >= mask(eb): e = mask(eb); n = 0
        r = s << (eb + mb) | e << mb | n & mask(mb)
    if w == 80: r = r >> 63 << 64 | (1 << 63 if r >> 63 & 0x7fff else 0) | r & mask(63)
    return r
def fp_eval(t, v):
    from fractions import Fraction
    k = t.val; w = t.w
    if k in ('sitofp', 'uitofp'):
        x = _s(v[0], t.args[0].w) if k[0] == 's' else v[0]
        return fp_encode(int(x < 0), Fraction(abs(x)), w)
    if k in ('fpext', 'fptrunc'):
        d = fp_decode(v[0], t.args[0].w); eb, mb = _FP[w]
        if d[0] == 'num': return fp_encode(d[1], d[2], w)
        m = 0 if d[0] == 'inf' else 1 << (mb - 1); s = d[1] if d[0] == 'inf' else 0
        r = s << (eb + mb) | mask(eb) << mb | m
        return r if w != 80 else r >> 63 << 64 | 1 << 63 | r & mask(63)
    raise NotImplementedError(k)

FP_ABSTRACT = [False]   # conversions become fresh variables (one per operand): proofs then hold for any conversion
def fpop(kind, w, *args):
    if FP_ABSTRACT[0] and all(a.op != 'c' for a in args): return var('%s%d.%s' % (kind, w, '.'.join(str(a.id) for a in args)), w)
    if all(a.op == 'c' for a in args):
        t = _mk('fp', w, tuple(args), kind)
        return const(eval_node(t, [a.val for a in args]), w)
    return _mk('fp', w, tuple(args), kind)

def evaluate(roots, env, selfn=None, memo=None):
    """env: dict name->int for vars (missing: env.default(name,w) if callable in env['*']); selfn(name, off)->byte"""
    memo = {} if memo is None else memo
    dflt = env.get('*')
    for t in topo([r for r in roots if r not in memo]):
        if t in memo: continue
        if t.op == 'c': memo[t] = t.val
        elif t.op == 'v':
            x = env.get(t.val)
            if x is None:
                if dflt is None: raise KeyError(t.val)
                x = dflt(t.val, t.w)
            memo[t] = x & ((1 << t.w) - 1)
        elif t.op == 'sel':
            memo[t] = selfn(t.val, memo[t.args[0]]) & ((1 << t.w) - 1)
        else: memo[t] = eval_node(t, [memo[a] for a in t.args])
    return [memo[r] for r in roots]

REBUILD = {}
def rebuild(t, args):
    op = t.op
    if op == 'lin': return linear(t.w, list(zip(t.val[1:], args)), t.val[0])
    if op == 'cat': return cat(*args)
    if op == 'ext': return ext(args[0], t.val + t.w - 1, t.val)
    if op in ('xor', 'and', 'or'): return _bit(op, list(args))
    if op == 'mul': return mul(*args)
    if op == 'ite': return ite(*args)
    if op == 'eq': return eq(*args)
    if op == 'ult': return ult(*args)
    if op == 'slt': return slt(*args)
    if op == 'shl': return shl(*args)
    if op == 'lshr': return lshr(*args)
    if op == 'ashr': return ashr(*args)
    if op == 'sext': return sext(args[0], t.w)
    if op == 'udiv': return udiv(*args)
    if op == 'urem': return urem(*args)
    if op == 'sdiv': return sdiv(*args)
    if op == 'srem': return srem(*args)
    if op == 'tbl': return tbl(t.val, args[0])
    if op == 'uf': return uf(t.val, t.w, *args)
    if op == 'sel': return sel(t.val, args[0], t.w)
    if op == 'fp': return fpop(t.val, t.w, *args)
    return t

def subst(roots, m, memo=None):
    """m: dict Term->Term. Returns list."""
    memo = dict(m) if memo is None else memo
    for t in topo_cut([r for r in roots if r not in memo], memo):
        if t in memo: continue
        if not t.args: memo[t] = t; continue
        na = [memo[a] for a in t.args]
        if all(x is y for x, y in zip(na, t.args)): memo[t] = t
        else: memo[t] = rebuild(t, na)
    return [memo[r] for r in roots]

def topo_cut(roots, stop):
    seen = set(); out = []
    for r in roots:
        if r in seen: continue
        st = [(r, 0)]; seen.add(r)
        while st:
            t, i = st[-1]
            if i < len(t.args) and t not in stop:
                st[-1] = (t, i + 1)
                a = t.args[i]
                if a not in seen:
                    seen.add(a); st.append((a, 0))
            else:
                out.append(t); st.pop()
    return out

def vars_of(roots):
    return [t for t in topo(roots) if t.op in ('v', 'sel')]
