"""Contracts of the streaming message digests, as models over the specifications in specs/.

For every algorithm the streaming state is given a representation predicate
    represents(state, m):  the state holds exactly what the standard's processing of the
                           byte string m has produced so far (see each Model.place)
and the functions are under these contracts, for all m and all data:
    init()                 ensures  represents(state, "")
    update(state, data)    requires represents(state, m)
                           ensures  represents(state, m || data); data is not written, only data[0..n) is read
    final(state)           requires represents(state, m); ensures result == Digest(m), state unchanged
    digest(data)           ensures  result == Digest(data)
    <block function>       ensures  output == the standard's block function (proved once, used as contract)
The length of m is symbolic (any number of blocks), data has symbolic length."""
import json
from . import term as T, exe as E, stream as ST, eqv
from .word import *

def lay(so, name, keys):
    import ctypes
    lib = ctypes.CDLL(so); buf = (ctypes.c_size_t * 32)()
    getattr(lib, 'lay_' + name)(buf)
    return dict(zip(keys, list(buf)))

class Model:
    uflen = None
    def assume(self, st): st.assume(T.ule(ST.Q, T.const(1 << 55, 64)))
    def nblocks(self, an, delta): return (an.r + delta) // self.B
    def anchor(self, r, q=ST.Q):
        H, tail, extra = self.hvars(r)
        return ST.Anchor(r, T.const(0, 64), H, tail, extra, q=q)
    def fill(self, st, obj):
        c = st.mem.wcells(obj)
        for k in range(self.lay['size']): c[k] = (T.var('junk%d' % k, 8), 0)
        return c
    def put(self, c, off, v):
        for k in range(v.w // 8): c[off + k] = (v, k)
    def words(self, ex, st, obj, off, n, wb): return [ex.load_int(st, obj, off + i * wb, wb) for i in range(n)]

# ------------------------------------------------------------------ MD5 / SHA-1 / SHA-2
class MD(Model):
    def __init__(self, a, so=None, layname=None):
        self.a = a; self.B = a.B; self.name = a.name; self.dig = a.dig; self.uf = 'C_' + a.name; self.nh = a.nh; self.w = a.w
        if so:
            self.lay = lay(so, layname or a.name, ('size', 'hash', 'hash_n', 'hash_w', 'buffer', 'buffer_n', 'total', 'total_w'))
            if (self.lay['hash_n'], self.lay['hash_w'], self.lay['buffer_n'], self.lay['total_w']) != (a.nh, a.w // 8, a.B, 8): raise E.Unsupported('streaming state layout %r' % (self.lay,))
    rx = property(lambda s: r'digest::[\w:]+\(std::array<unsigned %s, %dul>&, (unsigned )?char const\*\)' % ('int' if s.w == 32 else 'long', s.nh))
    def residues(self): return range(self.B)
    def hvars(self, r): return ([T.var('H%d' % i, self.w) for i in range(self.nh)], [T.var('t%d' % i, 8) for i in range(r)], None)
    def f(self, H, blk): return split(T.uf(self.uf, self.nh * self.w, *H, *blk), self.nh, self.w)
    def absorb(self, an, bs):
        H = list(an.H); tail = list(an.tail)
        for b in bs:
            tail.append(b)
            if len(tail) == self.B: H = self.f(H, tail); tail = []
        return ST.Anchor(len(tail), T.add(an.P, T.const(len(bs), 64)), H, tail, q=T.add(an.q, T.const((an.r + len(bs)) // self.B, 64)))
    def derived(self, an): return [T.add(T.linear(64, [(self.B, an.q)], an.r), T.sub(ST.LEN, an.P))]
    def total(self, an): return T.linear(64, [(self.B, an.q)], an.r)
    def place(self, st, obj, an):
        c = self.fill(st, obj); L = self.lay
        for i, h in enumerate(an.H): self.put(c, L['hash'] + i * L['hash_w'], h)
        for i, t in enumerate(an.tail): self.put(c, L['buffer'] + i, t)
        self.put(c, L['total'], self.total(an))
    def compare(self, ex, st, obj, end):
        L = self.lay
        return [('hash state', list(zip(self.words(ex, st, obj, L['hash'], self.nh, L['hash_w']), end.H))),
                ('pending bytes', list(zip(self.words(ex, st, obj, L['buffer'], end.r, 1), end.tail))),
                ('total length', [(ex.load_int(st, obj, L['total'], 8), self.total(end))])]
    def init(self): return ST.Anchor(0, T.const(0, 64), self.a.init(SYM), [], q=T.const(0, 64))
    def finish(self, an):
        H = an.H
        for b in self.a.pad(an.tail, self.total(an)): H = self.f(H, b)
        return self.a.finish(H)
    def contracts(self):
        wb = self.w // 8
        def c(ex, st, fr, i, args):
            h, b = args[0], args[1]
            H = [ex.load(st, E.Ptr(h.obj, T.add(h.off, T.const(k * wb, 64))), wb) for k in range(self.nh)]
            blk = le_bytes(ex.load(st, b, self.B))
            for k, v in enumerate(self.f(H, blk)):
                r = ex.store(st, E.Ptr(h.obj, T.add(h.off, T.const(k * wb, 64))), v, wb)
                assert r is None
        return [(self.rx, c)]

# ------------------------------------------------------------------ SHA-3 / SHAKE
class Sponge(Model):
    """lanes == sponge state after the complete blocks, xor the pending bytes; pos == number of pending bytes"""
    uf = 'KeccakF'
    def __init__(self, a, so=None, layname=None, outs=None):
        self.a = a; self.B = a.B; self.name = a.name; self.dig = a.dig
        if so:
            self.lay = lay(so, layname or a.name, ('size', 'hash', 'hash_n', 'hash_w', 'buffer', 'buffer_n', 'total', 'total_w'))
            if (self.lay['hash_n'], self.lay['hash_w'], self.lay['total_w']) != (25, 8, 8): raise E.Unsupported('sponge state layout %r' % (self.lay,))
    rx = r'digest::[\w:]+\(std::array<unsigned long, 25ul>&\)'
    def residues(self): return range(self.B)
    def hvars(self, r): return ([T.var('A%d' % i, 64) for i in range(25)], [], None)
    def f(self, A): return split(T.uf(self.uf, 1600, *A), 25, 64)
    def absorb(self, an, bs):
        A, pos = self.a.absorb(an.H, an.r, bs, self.f)
        return ST.Anchor(pos, T.add(an.P, T.const(len(bs), 64)), A, [], q=T.add(an.q, T.const((an.r + len(bs)) // self.B, 64)))
    def derived(self, an): return []
    def place(self, st, obj, an):
        c = self.fill(st, obj); L = self.lay
        for i, h in enumerate(an.H): self.put(c, L['hash'] + i * 8, h)
        self.put(c, L['total'], T.const(an.r, 64))
    def compare(self, ex, st, obj, end):
        L = self.lay
        return [('sponge lanes', list(zip(self.words(ex, st, obj, L['hash'], 25, 8), end.H))),
                ('absorb position', [(ex.load_int(st, obj, L['total'], 8), T.const(end.r, 64))])]
    def init(self): return ST.Anchor(0, T.const(0, 64), self.a.init(SYM), [], q=T.const(0, 64))
    def finish(self, an): return self.a.finish(an.H, an.r, self.dig, self.f)
    def contracts(self):
        def c(ex, st, fr, i, args):
            p = args[0]
            A = [ex.load(st, E.Ptr(p.obj, T.add(p.off, T.const(8 * k, 64))), 8) for k in range(25)]
            for k, v in enumerate(self.f(A)):
                r = ex.store(st, E.Ptr(p.obj, T.add(p.off, T.const(8 * k, 64))), v, 8)
                assert r is None
        return [(self.rx, c)]

# ------------------------------------------------------------------ BLAKE2b
class Blake2b(Model):
    """hash == chaining value after q compressed blocks, compressed == 128*q, 0..128 pending bytes (a full
    buffer is only compressed when more input arrives)"""
    uf = 'Blake2bF'
    B = 128
    def __init__(self, a, so=None, layname=None):
        self.a = a; self.name = a.name; self.dig = a.dig
        if so: self.lay = lay(so, layname or a.name, ('size', 'hash', 'buffer', 'buffered', 'compressed'))
    rx = r'digest::[\w:]+\(std::array<unsigned long, 8ul>&, (unsigned )?char const\*, unsigned long, bool\)'
    def residues(self): return range(129)
    def hvars(self, r): return ([T.var('H%d' % i, 64) for i in range(8)], [T.var('t%d' % i, 8) for i in range(r)], None)
    def f(self, H, blk, t, last):
        if last is True or last is False: last = T.boolc(last)
        return split(T.uf(self.uf, 512, *H, *blk, t, T.zext(last, 8) if last.w == 1 else last), 8, 64)
    def nblocks(self, an, delta):
        g = lambda n: max(0, (n - 1) // 128)
        return g(an.r + delta) - g(an.r)
    def absorb(self, an, bs):
        H = list(an.H); tail = list(an.tail); q = an.q
        for b in bs:
            if len(tail) == 128:
                q = T.add(q, T.const(1, 64)); H = self.f(H, tail, T.linear(64, [(128, q)]), False); tail = []
            tail.append(b)
        return ST.Anchor(len(tail), T.add(an.P, T.const(len(bs), 64)), H, tail, q=q)
    def derived(self, an): return [T.linear(64, [(128, an.q)]), T.linear(64, [(128, an.q), (1, ST.LEN), (-1, an.P)], an.r)]
    def place(self, st, obj, an):
        c = self.fill(st, obj); L = self.lay
        for i, h in enumerate(an.H): self.put(c, L['hash'] + i * 8, h)
        for i, t in enumerate(an.tail): self.put(c, L['buffer'] + i, t)
        self.put(c, L['buffered'], T.const(an.r, 64)); self.put(c, L['compressed'], T.linear(64, [(128, an.q)]))
    def compare(self, ex, st, obj, end):
        L = self.lay
        return [('chaining value', list(zip(self.words(ex, st, obj, L['hash'], 8, 8), end.H))),
                ('pending bytes', list(zip(self.words(ex, st, obj, L['buffer'], end.r, 1), end.tail))),
                ('number of pending bytes', [(ex.load_int(st, obj, L['buffered'], 8), T.const(end.r, 64))]),
                ('byte counter', [(ex.load_int(st, obj, L['compressed'], 8), T.linear(64, [(128, end.q)]))])]
    def init(self): return ST.Anchor(0, T.const(0, 64), self.a.init(SYM), [], q=T.const(0, 64))
    def finish(self, an): return self.a.finish(an.H, an.tail, T.linear(64, [(128, an.q)]), self.f)
    def contracts(self):
        def c(ex, st, fr, i, args):
            h, b, t, last = args
            H = [ex.load(st, E.Ptr(h.obj, T.add(h.off, T.const(8 * k, 64))), 8) for k in range(8)]
            blk = le_bytes(ex.load(st, b, 128))
            for k, v in enumerate(self.f(H, blk, t, last)):
                r = ex.store(st, E.Ptr(h.obj, T.add(h.off, T.const(8 * k, 64))), v, 8)
                assert r is None
        return [(self.rx, c)]

# ------------------------------------------------------------------ BLAKE3
def popcount(q):
    """number of one bits of a chunk count (uninterpreted on symbols; push_lemma states what is used of it)"""
    return T.const(bin(q.val).count('1'), 64) if q.op == 'c' else T.uf('popcount', 64, q)

class Blake3(Model):
    """current chunk: chaining value, 0..1024 bytes (blocks of 64, lazily compressed, zero padded);
    q = number of complete chunks = chunk counter; the stack holds popcount(q) subtree chaining values.
    Contracts: Compress (job_block), PushChunkChaining (job_b3push), Update (job_update),
    Finalize (job_b3final); everything else is checked against those."""
    uf = 'Blake3F'
    B = 1024
    name = 'blake3'
    dig = 32
    F = T.var('F', 32)
    KEY = [T.var('K%d' % i, 32) for i in range(8)]
    KEYS = ('size', 'key', 'flags', 'chaining', 'counter', 'block', 'block_len', 'blocks', 'chunk_len', 'stack', 'stack_n', 'stack_len')
    SS = T.var('SS', 54 * 256)
    def __init__(self, so=None, key=None, flags=None):
        if so:
            self.lay = lay(so, 'blake3', self.KEYS)
            if self.lay['stack_n'] != 54: raise E.Unsupported('subtree stack of %d entries' % self.lay['stack_n'])
        self.key = key or self.KEY; self.flags = flags if flags is not None else self.F
    rx = r'digest::[\w:]+\(std::array<unsigned int, 8ul> const&, std::array<unsigned int, 16ul> const&, unsigned long, unsigned int, unsigned int\)'
    rx_push = r'digest::[\w:]+\([\w:]*blake3_internal::State&, std::array<unsigned int, 8ul>( const&)?, unsigned long\)'
    rx_update = r'digest::blake3_internal::[\w:]+\([\w:]*blake3_internal::State&, std::basic_string_view<char, std::char_traits<char> ?>\)'
    rx_final = r'^std::array<unsigned char, %sul> mbo::digest::blake3_internal::[\w:]+<%sul>\([\w:]*blake3_internal::State( const&)?\)'
    @staticmethod
    def split(r):
        """-> (blocks compressed, bytes in the block)"""
        return (0, 0) if r == 0 else ((r - 1) // 64, r - 64 * ((r - 1) // 64))
    def assume(self, st): st.assume(T.ule(ST.Q, T.const(1 << 52, 64)))
    def residues(self): return range(1025)
    SW = 54 * 256
    def hvars(self, r):
        return ([T.var('C%d' % i, 32) for i in range(8)] + [self.SS], [T.var('t%d' % i, 8) for i in range(self.split(r)[1])], None)
    def f(self, cv, words, ctr, blen, flags):
        return split(T.uf(self.uf, 512, *cv, *words, ctr, blen, flags), 16, 32)
    def push(self, SS, cv, total): return T.uf('PushChunk', self.SW, SS, *cv, total, *self.key, self.flags)
    def nblocks(self, an, delta):
        g = lambda n: max(0, (n - 1) // 1024)
        return g(an.r + delta) - g(an.r)
    def absorb(self, an, bs):
        from specs import blake3 as S3
        cv = list(an.H[:8]); SS = an.H[8]; tail = list(an.tail); q = an.q; r = an.r
        N32 = lambda v: T.const(v, 32)
        for b in bs:
            bc, bl = self.split(r)
            start = S3.CHUNK_START if bc == 0 else 0
            if r == 1024:
                out = self.f(cv, S3.block_words(tail), q, N32(64), T.bor(self.flags, N32(start | S3.CHUNK_END)))[:8]
                q = T.add(q, T.const(1, 64))
                SS = self.push(SS, out, q)
                cv = list(self.key); tail = []; r = 0
            elif bl == 64:
                cv = self.f(cv, S3.block_words(tail), q, N32(64), T.bor(self.flags, N32(start)) if start else self.flags)[:8]
                tail = []
            tail.append(b); r += 1
        return ST.Anchor(r, T.add(an.P, T.const(len(bs), 64)), cv + [SS], tail, q=q)
    def derived(self, an): return [an.q, popcount(an.q)]
    def fieldlist(self):
        L = self.lay
        return ([(L['key'] + 4 * i, 4) for i in range(8)] + [(L['flags'], 4)] + [(L['chaining'] + 4 * i, 4) for i in range(8)] + [(L['counter'], 8)]
                + [(L['block'] + i, 1) for i in range(64)] + [(L['block_len'], 8), (L['blocks'], 8), (L['chunk_len'], 8), (L['stack'], self.SW // 8), (L['stack_len'], 8)])
    def values(self, an):
        """the fields of the state that represents an"""
        bc, bl = self.split(an.r); N = lambda v: T.const(v, 64)
        return (list(self.key) + [self.flags] + list(an.H[:8]) + [an.q] + list(an.tail) + [T.const(0, 8)] * (64 - bl)
                + [N(bl), N(bc), N(an.r), an.H[8], popcount(an.q)])
    GROUPS = (('key and flags unchanged', 0, 9), ('chunk chaining value', 9, 17), ('chunk counter', 17, 18), ('pending bytes, zero padded', 18, 82), ('positions', 82, 85), ('subtree stack', 85, 87))
    def place(self, st, obj, an):
        c = self.fill(st, obj)
        for (o, n), v in zip(self.fieldlist(), self.values(an)): self.put(c, o, v)
    def read(self, ex, st, obj, off=0): return [ex.load_int(st, obj, off + o, n) for o, n in self.fieldlist()]
    def compare(self, ex, st, obj, end):
        got = self.read(ex, st, obj); want = self.values(end)
        return [(nm, list(zip(got[a:b], want[a:b]))) for nm, a, b in self.GROUPS]
    def init(self): return ST.Anchor(0, T.const(0, 64), list(self.key) + [T.const(0, self.SW)], [], q=T.const(0, 64))
    def compress_contract(self):
        def c(ex, st, fr, i, args):
            out, cv, m, ctr, blen, flags = args
            ld = lambda p, k: ex.load(st, E.Ptr(p.obj, T.add(p.off, T.const(4 * k, 64))), 4)
            res = self.f([ld(cv, k) for k in range(8)], [ld(m, k) for k in range(16)], ctr, blen, flags)
            for k, v in enumerate(res):
                r = ex.store(st, E.Ptr(out.obj, T.add(out.off, T.const(4 * k, 64))), v, 4)
                assert r is None
        return (self.rx, c)
    def push_contract(self):
        L = self.lay
        def c(ex, st, fr, i, args):
            s, cv, total = args
            at = lambda o: E.Ptr(s.obj, T.add(s.off, T.const(o, 64)))
            vals = [ex.load(st, E.Ptr(cv.obj, T.add(cv.off, T.const(4 * k, 64))), 4) for k in range(8)]
            key = [ex.load(st, at(L['key'] + 4 * k), 4) for k in range(8)]; fl = ex.load(st, at(L['flags']), 4)
            for a, b in list(zip(key, self.key)) + [(fl, self.flags)]: ex.oblige(st, 'precondition of the chunk merge: key and flags of this hash', T.eq(a, b))
            prev = T.sub(total, T.const(1, 64))
            ex.oblige(st, 'precondition of the chunk merge: one stack entry per one bit of the chunk count', T.eq(ex.load(st, at(L['stack_len']), 8), popcount(prev)))
            ex.oblige(st, 'precondition of the chunk merge: at most 2^53 chunks', T.ult(prev, T.const(1 << 53, 64)))
            SS = self.push(ex.load(st, at(L['stack']), self.SW // 8), vals, total)
            ex.store(st, at(L['stack']), SS, self.SW // 8); ex.store(st, at(L['stack_len']), popcount(total), 8)
        return (self.rx_push, c)
    def contracts(self): return [self.compress_contract(), self.push_contract()]
    # contracts of Update and Finalize, for their callers
    def upd_term(self, tag, vals):
        ws = [n * 8 for _, n in self.fieldlist()]
        u = T.uf('B3Update_' + tag, sum(ws), *vals); out = []; lo = 0
        for w in ws: out.append(T.ext(u, lo + w - 1, lo)); lo += w
        return out
    def fin_term(self, n, vals):
        u = T.uf('B3Final%d' % n, 8 * n, *vals)
        return [T.ext(u, 8 * k + 7, 8 * k) for k in range(n)]
    def caller_contracts(self, inputs):
        """inputs: {object id: (tag, length term)}"""
        def upd(ex, st, fr, i, args):
            s, n, p = args
            ok = isinstance(p, E.Ptr) and p.obj is not None and p.obj.id in inputs
            ex.oblige(st, 'the update is given the input', T.boolc(ok))
            if not ok: return ('dead',)
            tag, ln = inputs[p.obj.id]
            ex.oblige(st, 'the update is given the whole input', T.band(T.eq(p.off, E.C0), T.eq(n, ln)))
            off = ex.resolve(st, s.off).val
            for (o, nb), v in zip(self.fieldlist(), self.upd_term(tag, self.read(ex, st, s.obj, off))): ex.store(st, E.Ptr(s.obj, T.const(off + o, 64)), v, nb)
        def fin(n):
            def c(ex, st, fr, i, args):
                s = args[-1]
                off = ex.resolve(st, s.off).val
                if len(args) == 1: fr.env[i['id']] = T.cat(*reversed(self.fin_term(n, self.read(ex, st, s.obj, off)))); return
                out = args[0]
                for k, v in enumerate(self.fin_term(n, self.read(ex, st, s.obj, off))): ex.store(st, E.Ptr(out.obj, T.add(out.off, T.const(k, 64))), v, 1)
            return c
        return [(self.rx_update, upd)] + [(self.rx_final % (n, n), fin(n)) for n in XOF]
XOF = (1, 32, 64, 65, 131)

# ------------------------------------------------------------------ problems
class Update(ST.Problem):
    def __init__(self, m, residues=None):
        self.m = m; self.B = m.B; self.eager = isinstance(m, Blake3)
        self.residues = residues if residues is not None else list(m.residues())
        self.state = E.Obj('state', m.lay['size'], 'arg')
        self.data = E.Obj('data', ST.LEN, 'arg', ro=True, region='data')
        for o in (self.state, self.data): E.Exec.objs_by_id[o.id] = o
    def hvars(self, r): return self.m.hvars(r)
    def derived(self, an): return self.m.derived(an)
    def nblocks(self, an, d): return self.m.nblocks(an, d)
    def basic(self, P):
        c = ST.Problem.basic(self, P)
        if isinstance(self.m, Blake3): c.append(T.ult(ST.Q, T.const(1 << 53, 64)))     # entry: q <= 2^52, and at most 2^61/2^10 further chunks
        return c
    def cases(self): return self.residues
    def setup(self, ex, fn, r):
        st = E.State()
        an = self.m.anchor(r)
        self.m.place(st, self.state, an)
        st.ghost['anchor'] = an
        for c in self.basic(T.const(0, 64)): st.assume(c)
        self.m.assume(st)
        args = [E.Ptr(self.state, E.C0), E.Ptr(self.data, E.C0), ST.LEN]
        if not fn.name.startswith('vh_'): args = [args[0], args[2], args[1]]      # string_view: {length, pointer}
        return ex.call_state(fn, args, st)
    def absorb(self, an, bs): return self.m.absorb(an, bs)
    def at_return(self, eng, st, ret, an, end, m, pc):
        for label, pairs in self.m.compare(eng.ex, st, self.state, end):
            eng.require_equal('update: ' + label, pairs, pc, m)

class OneShot(ST.Problem):
    """result == Digest(data), for a function (data, n, out)"""
    def __init__(self, m, keyobj=None, order=None):
        self.m = m; self.B = m.B
        self.data = E.Obj('data', ST.LEN, 'arg', ro=True, region='data')
        self.out = E.Obj('out', m.dig, 'arg')
        for o in (self.out, self.data): E.Exec.objs_by_id[o.id] = o
    def hvars(self, r): return self.m.hvars(r)
    def derived(self, an): return self.m.derived(an)
    def nblocks(self, an, d): return self.m.nblocks(an, d)
    def cases(self): return [0]
    def setup(self, ex, fn, r):
        st = E.State()
        st.ghost['anchor'] = self.m.init()
        for c in self.basic(T.const(0, 64)): st.assume(c)
        return ex.call_state(fn, [E.Ptr(self.data, E.C0), ST.LEN, E.Ptr(self.out, E.C0)], st)
    def absorb(self, an, bs): return self.m.absorb(an, bs)
    def at_return(self, eng, st, ret, an, end, m, pc):
        got = [eng.ex.load_int(st, self.out, i, 1) for i in range(self.m.dig)]
        eng.require_equal('digest: result bytes', list(zip(got, self.m.finish(end))), pc, m)

# ------------------------------------------------------------------ jobs
def bad(ex):
    if ex.obligs: raise ST.Violation(ex.obligs[0].kind, '%r %s' % (ex.obligs[0], ex.obligs[0].info), data=ex.obligs[0])

def require(ex, name, pairs, pc, where=''):
    n = ex.nob.setdefault(name, [0, 0, 0]); n[0] += len(pairs)
    rest = [(c, s) for c, s in pairs if c is not s]
    n[1] += len(pairs) - len(rest)
    if not rest: return
    r = eqv.equal(rest, pc)
    if r.ok: n[2] += len(rest); return
    raise ST.Violation(name, 'not provable (%s)%s: %d of %d component(s) differ' % (r.how, where, len(rest), len(pairs)), data=(r, rest, pc))

def find_one(mod, rx):
    import re
    fs = [f for f in mod.fns.values() if re.search(rx, f.dem)]
    if len(fs) != 1: raise E.Unsupported('expected one function matching %s, found %r' % (rx, [f.dem for f in fs]))
    return fs[0]

def make(desc, so=None):
    """model from a JSON-able description"""
    kind = desc[0]
    if kind == 'md':
        from specs import sha2
        return MD(sha2.ALGOS[desc[1]], so)
    if kind == 'sha3':
        from specs import keccak
        return Sponge(keccak.ALGOS[desc[1]], so)
    if kind == 'shake':
        from specs import keccak
        a = keccak.shake(desc[1], desc[2])
        return Sponge(a, so, layname='%s_%d' % (desc[1], desc[2]))
    if kind == 'blake2b':
        from specs import blake2b
        return Blake2b(blake2b.Blake2b(desc[1]), so)
    if kind == 'blake3': return Blake3(so)
    raise KeyError(kind)

def finish_job(res, ex):
    from . import drive
    bad(ex)
    drive.absorb_exec(res, ex)

def job_block(res, js, desc):
    """the block function equals the standard's, for every input"""
    from . import drive
    mod = drive.load_module(js); m = make(desc)
    fn = find_one(mod, m.rx)
    ex = E.Exec(mod); ex.returns = 0
    if isinstance(m, MD):
        wb = m.w // 8
        h = E.Obj('hash', m.nh * wb, 'arg'); b = E.Obj('block', m.B, 'arg', ro=True)
        H = [T.var('H%d' % i, m.w) for i in range(m.nh)]; blk = [T.var('b%d' % i, 8) for i in range(m.B)]
        h.default = lambda o: (H[o // wb], o % wb); b.default = lambda o: (blk[o], 0)
        spec = m.a.compress(H, blk)
        for st, _ in ex.run([ex.call_state(fn, [E.Ptr(h, E.C0), E.Ptr(b, E.C0)])]):
            ex.returns += 1; bad(ex)
            require(ex, 'block function: output equals the standard', list(zip([ex.load_int(st, h, wb * i, wb) for i in range(m.nh)], spec)), st.pc)
    elif isinstance(m, Sponge):
        from specs import keccak
        T.DISTRIBUTE[0] = False
        h = E.Obj('lanes', 200, 'arg'); A = [T.var('A%d' % i, 64) for i in range(25)]
        h.default = lambda o: (A[o // 8], o % 8)
        spec = keccak.keccak_f(A)
        for st, _ in ex.run([ex.call_state(fn, [E.Ptr(h, E.C0)])]):
            ex.returns += 1; bad(ex)
            require(ex, 'block function: output equals the standard', list(zip([ex.load_int(st, h, 8 * i, 8) for i in range(25)], spec)), st.pc)
    elif isinstance(m, Blake2b):
        from specs import blake2b
        h = E.Obj('hash', 64, 'arg'); b = E.Obj('block', 128, 'arg', ro=True)
        H = [T.var('H%d' % i, 64) for i in range(8)]; blk = [T.var('b%d' % i, 8) for i in range(128)]
        h.default = lambda o: (H[o // 8], o % 8); b.default = lambda o: (blk[o], 0)
        t = T.var('T', 64)
        lw = fn.params[3]['ty']
        for last in (0, 1):
            spec = blake2b.compress(H, blk, t, bool(last))
            for st, _ in ex.run([ex.call_state(fn, [E.Ptr(h, E.C0), E.Ptr(b, E.C0), t, T.const(last, E.tyw(lw))])]):
                ex.returns += 1; bad(ex)
                require(ex, 'block function: output equals the standard', list(zip([ex.load_int(st, h, 8 * i, 8) for i in range(8)], spec)), st.pc)
    else:
        from specs import blake3
        o = E.Obj('out', 64, 'arg'); cv = E.Obj('cv', 32, 'arg', ro=True); mw = E.Obj('m', 64, 'arg', ro=True)
        C = [T.var('C%d' % i, 32) for i in range(8)]; M = [T.var('m%d' % i, 32) for i in range(16)]
        cv.default = lambda k: (C[k // 4], k % 4); mw.default = lambda k: (M[k // 4], k % 4)
        ctr, bl, fl = T.var('ctr', 64), T.var('bl', 32), T.var('fl', 32)
        spec = blake3.compress(C, M, ctr, bl, fl)
        for st, _ in ex.run([ex.call_state(fn, [E.Ptr(o, E.C0), E.Ptr(cv, E.C0), E.Ptr(mw, E.C0), ctr, bl, fl])]):
            ex.returns += 1; bad(ex)
            require(ex, 'block function: output equals the standard', list(zip([ex.load_int(st, o, 4 * i, 4) for i in range(16)], spec)), st.pc)
    if not ex.returns: raise ST.Violation('reachability', 'the block function never returns')
    finish_job(res, ex)

def job_update(res, js, so, desc, entry, residues):
    from . import drive
    mod = drive.load_module(js); m = make(desc, so)
    for rx, _ in m.contracts(): find_one(mod, rx)
    fn = mod.fns[entry] if entry else find_one(mod, m.rx_update)
    ex = ST.run(mod, fn, Update(m, residues), m.contracts())
    drive.absorb_exec(res, ex)
    res['detail'].append('%d entry residues: %d loop invariant(s), %d header visits' % (len(residues), ex.generics, ex.header_visits))

def job_oneshot(res, js, desc, entry):
    from . import drive
    mod = drive.load_module(js); m = make(desc)
    for rx, _ in m.contracts(): find_one(mod, rx)
    ex = ST.run(mod, mod.fns[entry], OneShot(m), m.contracts())
    drive.absorb_exec(res, ex)
    res['detail'].append('%d loop invariant(s), %d header visits' % (ex.generics, ex.header_visits))

def job_initfinal(res, js, so, desc, init, final):
    from . import drive
    mod = drive.load_module(js); m = make(desc, so)
    ex = E.Exec(mod, m.contracts()); ex.returns = 0
    if init:
        so_ = E.Obj('state', m.lay['size'], 'arg')
        for st, _ in ex.run([ex.call_state(mod.fns[init], [E.Ptr(so_, E.C0)])]):
            ex.returns += 1; bad(ex)
            for label, pairs in m.compare(ex, st, so_, m.init()): require(ex, 'init: ' + label, pairs, st.pc)
        bad(ex)
    for r in (m.residues() if final else ()):
        before = ex.returns
        st = E.State()
        so_ = E.Obj('state', m.lay['size'], 'arg', ro=True); out = E.Obj('out', m.dig, 'arg')
        an = m.anchor(r); m.place(st, so_, an); m.assume(st)
        spec = m.finish(an)
        for s2, _ in ex.run([ex.call_state(mod.fns[final], [E.Ptr(so_, E.C0), E.Ptr(out, E.C0)], st)]):
            ex.returns += 1; bad(ex)
            require(ex, 'final: result equals the digest of the represented message', list(zip([ex.load_int(s2, out, i, 1) for i in range(m.dig)], spec)), s2.pc, ' at residue %d' % r)
        bad(ex)
        if ex.returns == before: raise ST.Violation('reachability', 'final never returns at residue %d' % r)
    finish_job(res, ex)
    res['detail'].append('all %d residues' % len(list(m.residues())))

# ------------------------------------------------------------------ BLAKE3 jobs
def job_b3push(res, js, so, ss):
    """PushChunkChaining: for every stack length s = popcount(total - 1) <= 53 and every number k of trailing
    zero bits of total: the k top subtrees are merged with the new chaining value, which is pushed; nothing else changes"""
    from . import drive
    from specs import blake3 as S3
    mod = drive.load_module(js); m = make(['blake3'], so)
    fn = find_one(mod, m.rx_push)
    ex = E.Exec(mod, [m.compress_contract()]); ex.returns = 0
    L = m.lay
    for s in ss:
        for k in range(s + 1):
            before = ex.returns
            hi = T.var('hi', 63 - k) if k < 63 else None
            total = T.cat(hi, T.const(1, 1), T.const(0, k)) if k else T.cat(hi, T.const(1, 1))
            prev = T.cat(hi, T.const(0, 1), T.const(-1, k)) if k else T.cat(hi, T.const(0, 1))
            # lemma: popcount(total) == popcount(total - 1) - k + 1 (both have the one bits of hi, plus 1 resp. k)
            if s == ss[0] or k == s: require(ex, 'lemma: total - 1 has k trailing one bits and the same upper bits', [(T.sub(total, T.const(1, 64)), prev)], [])
            st = E.State()
            o = E.Obj('state', L['size'], 'arg'); cvo = E.Obj('chaining', 32, 'arg')
            H, tail, _ = m.hvars(1024)
            c = m.fill(st, o)
            F = [(off, n, T.var('f%d' % j, 8 * n)) for j, (off, n) in enumerate(m.fieldlist())]
            for off, n, v in F: m.put(c, off, v)
            stack = [[T.var('s%d_%d' % (e, j), 32) for j in range(8)] for e in range(54)]
            for e in range(54):
                for j in range(8): m.put(c, L['stack'] + 32 * e + 4 * j, stack[e][j])
            m.put(c, L['stack_len'], T.const(s, 64))
            key = [F[j][2] for j in range(8)]; flags = F[8][2]
            cv = [T.var('v%d' % j, 32) for j in range(8)]
            cc = st.mem.wcells(cvo)
            for j in range(8): m.put(cc, 4 * j, cv[j])
            want = cv
            for j in range(k): want = m.f(key, stack[s - 1 - j] + list(want), T.const(0, 64), T.const(64, 32), T.bor(flags, T.const(S3.PARENT, 32)))[:8]
            for s2, _ in ex.run([ex.call_state(fn, [E.Ptr(o, E.C0), E.Ptr(cvo, E.C0), total], st)]):
                ex.returns += 1; bad(ex)
                require(ex, 'chunk merge: merged subtree pushed', list(zip([ex.load_int(s2, o, L['stack'] + 32 * (s - k) + 4 * j, 4) for j in range(8)], want)), s2.pc)
                require(ex, 'chunk merge: lower subtrees unchanged', [(ex.load_int(s2, o, L['stack'] + 32 * e + 4 * j, 4), stack[e][j]) for e in range(s - k) for j in range(8)], s2.pc)
                require(ex, 'chunk merge: stack length', [(ex.load_int(s2, o, L['stack_len'], 8), T.const(s - k + 1, 64))], s2.pc)
                require(ex, 'chunk merge: rest of the state unchanged', [(ex.load_int(s2, o, off, n), v) for off, n, v in F[:-2]], s2.pc)
            bad(ex)
            if ex.returns == before: raise ST.Violation('reachability', 'the chunk merge never returns')
    finish_job(res, ex)

def job_b3final(res, js, so, n):
    """Finalize<n>: root of the pending chunk and s stacked subtrees, n output bytes, for s = 0..54"""
    from . import drive
    from specs import blake3 as S3
    mod = drive.load_module(js); m = make(['blake3'], so)
    fn = find_one(mod, m.rx_final % (n, n))
    ex = E.Exec(mod, [m.compress_contract()]); ex.returns = 0
    L = m.lay
    for s in range(55):
        before = ex.returns
        st = E.State()
        o = E.Obj('state', L['size'], 'arg', ro=True); out = E.Obj('out', n, 'arg')
        c = m.fill(st, o)
        F = [(off, nb, T.var('f%d' % j, 8 * nb)) for j, (off, nb) in enumerate(m.fieldlist())]
        for off, nb, v in F: m.put(c, off, v)
        stack = [[T.var('s%d_%d' % (e, j), 32) for j in range(8)] for e in range(54)]
        for e in range(54):
            for j in range(8): m.put(c, L['stack'] + 32 * e + 4 * j, stack[e][j])
        m.put(c, L['stack_len'], T.const(s, 64))
        V = [v for _, _, v in F]
        key, flags, cv, ctr, block, blen, bc = V[:8], V[8], V[9:17], V[17], V[18:82], V[82], V[83]
        def spec(first):
            node = (cv, [T.cat(*reversed(block[4 * i:4 * i + 4])) for i in range(16)], ctr, T.trunc(blen, 32), T.bor(flags, T.const(S3.CHUNK_END | (S3.CHUNK_START if first else 0), 32)))
            for e in range(s - 1, -1, -1):
                node = (key, stack[e] + m.f(*node)[:8], T.const(0, 64), T.const(64, 32), T.bor(flags, T.const(S3.PARENT, 32)))
            o = []; i = 0
            while len(o) < n:
                for w in m.f(node[0], node[1], T.const(i, 64), node[3], T.bor(node[4], T.const(S3.ROOT, 32))): o += le_bytes(w)
                i += 1
            return o[:n]
        byreg = len(fn.params) == 1
        for s2, ret in ex.run([ex.call_state(fn, ([] if byreg else [E.Ptr(out, E.C0)]) + [E.Ptr(o, E.C0)], st)]):
            ex.returns += 1; bad(ex)
            got = le_bytes(ret) if byreg else [ex.load_int(s2, out, i, 1) for i in range(n)]
            zero = T.eq(bc, T.const(0, 64))
            for first in (True, False):
                cond = zero if first else T.bnot(zero)
                from . import solver as S
                if S.check(s2.pc + [cond])[0] == 'unsat': continue
                require(ex, 'final: result equals the root output of the represented message', list(zip(got, spec(first))), s2.pc + [cond], ' with %d stacked subtrees' % s)
        bad(ex)
        if ex.returns == before: raise ST.Violation('reachability', 'finalisation never returns with %d stacked subtrees' % s)
    finish_job(res, ex)

def job_b3entry(res, js, so, entry, kind, n=32):
    """entry points against the contracts of Update and Finalize"""
    from . import drive, solver as S
    from specs import blake3 as S3
    mod = drive.load_module(js); m = make(['blake3'], so)
    fn = mod.fns[entry]
    inputs = {}
    IV = [T.const(x, 32) for x in S3.IV]
    def region(name, ln):
        o = E.Obj(name, ln, 'arg', ro=True, region=name); E.Exec.objs_by_id[o.id] = o
        inputs[o.id] = (name, ln); return E.Ptr(o, E.C0), ln
    ex = E.Exec(mod, m.caller_contracts(inputs) + [m.compress_contract(), m.push_contract()]); ex.returns = 0
    st = E.State()
    out = E.Obj('out', n, 'arg'); so_ = E.Obj('state', m.lay['size'], 'arg')
    for x in (out, so_): E.Exec.objs_by_id[x.id] = x
    data, ln = region('data', T.var('len', 64)); key, kl = region('key', T.var('klen', 64))
    st.assume(T.ule(ln, T.const(1 << 61, 64))); st.assume(T.ule(kl, T.const(1 << 61, 64)))
    kb = lambda v: [T.sel('key', T.const(j, 64)) for j in range(v)] + [T.const(0, 8)] * (32 - v)
    kw = lambda bs: [T.cat(*reversed(bs[4 * j:4 * j + 4])) for j in range(8)]
    def st0(k, fl):
        mm = Blake3(so, key=k, flags=T.const(fl, 32)); return mm.values(mm.init())
    state = E.Ptr(so_, E.C0); o = E.Ptr(out, E.C0)
    got = lambda s2: [ex.load_int(s2, out, i, 1) for i in range(n)]
    keycase = [(v, (T.eq(kl, T.const(v, 64)) if v < 32 else T.bnot(T.ult(kl, T.const(32, 64))))) for v in range(33)] if kind in ('kinit', 'keyed') else [(0, T.TRUE)]
    if kind == 'init': args = [state]; spec = lambda v: st0(IV, 0); name = 'init: fields of the empty hash'
    elif kind == 'kinit': args = [state, key, kl]; spec = lambda v: st0(kw(kb(v)), S3.KEYED); name = 'keyed init: fields of the empty keyed hash'
    elif kind == 'update':
        m.place(st, so_, m.anchor(0)); c = st.mem.wcells(so_); V = [T.var('f%d' % j, 8 * nb) for j, (off, nb) in enumerate(m.fieldlist())]
        for (off, nb), v in zip(m.fieldlist(), V): m.put(c, off, v)
        args = [state, data, ln]; spec = lambda v: m.upd_term('data', V); name = 'update: exactly one update with the given data'
    elif kind == 'final':
        so_.ro = True
        c = m.fill(st, so_); V = [T.var('f%d' % j, 8 * nb) for j, (off, nb) in enumerate(m.fieldlist())]
        for (off, nb), v in zip(m.fieldlist(), V): m.put(c, off, v)
        args = [state, o]; spec = lambda v: m.fin_term(n, V); name = 'final: the bytes of Finalize'
    elif kind == 'hash': args = [data, ln, o]; spec = lambda v: m.fin_term(n, m.upd_term('data', st0(IV, 0))); name = 'digest: result bytes'
    elif kind == 'keyed': args = [key, kl, data, ln, o]; spec = lambda v: m.fin_term(n, m.upd_term('data', st0(kw(kb(v)), S3.KEYED))); name = 'keyed digest: result bytes'
    elif kind == 'derive':
        args = [key, kl, data, ln, o]
        def spec(v):
            ck = m.fin_term(32, m.upd_term('key', st0(IV, S3.CTX)))
            return m.fin_term(n, m.upd_term('data', st0(kw(ck), S3.MATERIAL)))
        name = 'derived key: result bytes'
    isstate = kind in ('init', 'kinit', 'update')
    seen = set()
    for s2, _ in ex.run([ex.call_state(fn, args, st)]):
        ex.returns += 1; bad(ex)
        g = m.read(ex, s2, so_) if isstate else got(s2)
        for v, cond in keycase:
            if cond is not T.TRUE and S.check(s2.pc + [cond])[0] == 'unsat': continue
            seen.add(v)
            require(ex, name, list(zip(g, spec(v))), s2.pc + ([cond] if cond is not T.TRUE else []))
    bad(ex)
    if len(seen) != len(keycase): raise ST.Violation('reachability', '%s: not all key lengths reach the return' % entry)
    finish_job(res, ex)

# ------------------------------------------------------------------ BLAKE2b keyed mode
class OneShotKeyed(OneShot):
    """(key, klen, data, n, out): key lengths 0..64, and every longer key (only its first 64 bytes count)"""
    eager = False
    def __init__(self, m, cases):
        OneShot.__init__(self, m)
        self.key = E.Obj('key', T.var('klen', 64), 'arg', ro=True, region='key'); E.Exec.objs_by_id[self.key.id] = self.key
        self._cases = cases
    def cases(self): return self._cases
    def setup(self, ex, fn, kl):
        st = E.State()
        n, an = keyed_anchor(self.m, st, kl)
        st.ghost['anchor'] = an
        for c in self.basic(T.const(0, 64)): st.assume(c)
        key = E.Obj('key', n, 'arg', ro=True, region='key') if kl <= 64 else self.key
        E.Exec.objs_by_id[key.id] = key
        return ex.call_state(fn, [E.Ptr(key, E.C0), n, E.Ptr(self.data, E.C0), ST.LEN, E.Ptr(self.out, E.C0)], st)

def keyed_anchor(m, st, kl):
    """kl = 65 stands for every key length above 64"""
    n = T.const(kl, 64) if kl <= 64 else T.var('klen', 64)
    if kl > 64: st.assume(T.ult(T.const(64, 64), n)); st.assume(T.ule(n, T.const(1 << 61, 64)))
    k = min(kl, 64)
    tail = [T.sel('key', T.const(j, 64)) for j in range(k)] + [T.const(0, 8)] * (128 - k) if k else []
    return n, ST.Anchor(128 if k else 0, T.const(0, 64), m.a.init(SYM, k), tail, q=T.const(0, 64))

def job_keyed(res, js, so, desc, entry, what, cases):
    from . import drive
    mod = drive.load_module(js); m = make(desc, so)
    if what == 'digest':
        ex = ST.run(mod, mod.fns[entry], OneShotKeyed(m, cases), m.contracts())
        drive.absorb_exec(res, ex); return
    ex = E.Exec(mod, m.contracts()); ex.returns = 0
    for kl in cases:
        st = E.State(); n, an = keyed_anchor(m, st, kl); before = ex.returns
        so_ = E.Obj('state', m.lay['size'], 'arg'); key = E.Obj('key', n, 'arg', ro=True, region='key')
        for s2, _ in ex.run([ex.call_state(mod.fns[entry], [E.Ptr(so_, E.C0), E.Ptr(key, E.C0), n], st)]):
            ex.returns += 1; bad(ex)
            for label, pairs in m.compare(ex, s2, so_, an): require(ex, 'keyed init: ' + label, pairs, s2.pc, ' with %d key bytes' % kl)
        bad(ex)
        if ex.returns == before: raise ST.Violation('reachability', 'keyed init never returns')
    finish_job(res, ex)
