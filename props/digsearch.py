"""Search for a concrete failing input of a digest against the real (natively compiled) code.
Only used after an obligation failed; the oracle is hashlib or the specification on concrete words."""
import ctypes, random, os
from vc import drive
from vc.word import *

class Algo:
    """native entry points: <p>init(s) <p>update(s,p,n) <p>final(s,out) <p>digest(p,n,out) [<p>adigest]"""
    def __init__(self, lib, name, prefix, state_size, dig, B, oracle, model=None, spec=None, oneshots=('digest', 'adigest'), maxlen=None, wrap=''):
        self.lib = lib; self.name = name; self.pre = prefix; self.ss = state_size; self.dig = dig; self.B = B; self.oracle = oracle
        self.wrap = wrap; self.lay = getattr(model, 'lay', None); self.model = model; self.spec = spec; self.oneshots = oneshots; self.maxlen = maxlen
    def f(self, n):
        f = getattr(self.lib, self.pre + (self.wrap if n in ('init', 'update', 'final') else '') + n); f.restype = None
        f.argtypes = {'init': [ctypes.c_void_p], 'update': [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t], 'final': [ctypes.c_void_p, ctypes.c_void_p]}.get(n, [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_void_p])
        return f

def pattern(n, k, seed=0):
    if k == 0: return bytes((i * 131 + 7 + (i >> 8)) & 255 for i in range(n))
    if k == 1: return b'\xff' * n
    if k == 2: return bytes(n)
    return random.Random(seed * 1000 + n * 7 + k).randbytes(n)

def run_algo(a, report, seed, deadline, thorough=False):
    """-> failing input dict or None"""
    import time
    g = drive.Guard(1 << 18); out = ctypes.create_string_buffer(a.dig + 64)
    st = ctypes.create_string_buffer(a.ss + 64)
    B = a.B
    init, update, final = a.f('init'), a.f('update'), a.f('final')
    lens = list(range(0, 3 * B + 10))
    for m in (4, 8, 16): lens += [m * B - 1, m * B, m * B + 1]
    lens += [1000, 4096, 5000, 65537 % (1 << 17)]
    if a.maxlen: lens = [l for l in lens if l <= a.maxlen] 
    cache = {}
    def want(d):
        if d not in cache:
            if len(cache) > 4000: cache.clear()
            cache[d] = a.oracle(d)
        return cache[d]
    # one-shot
    for k in (0, 1, 3):
        for n in lens:
            if time.time() > deadline: return None
            d = pattern(n, k, seed)
            p = g.put(d)
            for fn in a.oneshots:
                rec = {'algorithm': a.name, 'operation': 'one-shot (%s)' % fn, 'data_hex': d.hex() if n <= 512 else None, 'data_len': n, 'pattern': k}
                report(rec)
                a.f(fn)(p, n, out)
                if out.raw[:a.dig] != want(d): rec.update(expected=want(d).hex(), got=out.raw[:a.dig].hex()); return rec
    # streaming: every fill, every chunk length
    def stream(chunks, peek, k):
        rec = {'algorithm': a.name, 'operation': 'streaming', 'chunk_lengths': chunks, 'peek_after_each': peek, 'pattern': k, 'data_hex': None}
        report(rec)
        tot = sum(chunks); d = pattern(tot, k, seed)
        if tot <= 600: rec['data_hex'] = d.hex()
        init(st); off = 0
        for c in chunks:
            p = g.put(d[off:off + c]); update(st, p, c); off += c
            if peek:
                b = st.raw
                final(st, out)
                if st.raw != b: rec.update(what='finalising modified the caller\'s state', after_bytes=off); return rec
                if out.raw[:a.dig] != want(d[:off]): rec.update(after_bytes=off, expected=want(d[:off]).hex(), got=out.raw[:a.dig].hex()); return rec
        final(st, out)
        if out.raw[:a.dig] != want(d): rec.update(expected=want(d).hex(), got=out.raw[:a.dig].hex()); return rec
        return None
    big = min(2 * B + 2, 300) if B <= 200 else 40
    fills = range(0, B + 1) if B <= 200 else [0, 1, 63, 64, 65, 127, 128, 512, 1000, 1023, 1024]
    step = 1
    for fill in fills:
        for c in (list(range(0, big, step)) if B <= 200 else [0, 1, 63, 64, 65, 127, 128, 129, 512, 960, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4096, 5000]):
            if time.time() > deadline: return None
            r = stream([fill, c], False, 0)
            if r: return r
    for ch in ([1] * (2 * B + 3) if B <= 200 else [1] * 70, [B, B, B], [B - 1, 1, B, 1], [2 * B, 1, 2 * B, B - 1], [3, 0, 5, 0, B], [0, 0], [B * 3, B * 2 + 1], [5, B * 4 + 3, 7]):
        for k in (0, 3):
            r = stream(ch, True, k)
            if r: return r
    rnd = random.Random(seed)
    for _ in range(300):
        if time.time() > deadline: return None
        ch = [rnd.choice([0, 1, 2, B - 1, B, B + 1, rnd.randrange(3 * B)]) for _ in range(rnd.randrange(1, 7))]
        r = stream(ch, rnd.random() < 0.5, 3)
        if r: return r
    return None

def inject_md(a, report, seed, deadline, hints):
    """start from an arbitrary represented state (hash value, pending bytes, large totals)"""
    import time
    lay = a.lay; m = a.spec
    g = drive.Guard(1 << 16); out = ctypes.create_string_buffer(a.dig + 64); st = ctypes.create_string_buffer(a.ss + 64)
    update, final = a.f('update'), a.f('final')
    wb = m.w // 8
    rnd = random.Random(seed)
    def load(H, tail, tot):
        b = bytearray(a.ss)
        for i, h in enumerate(H): b[lay['hash'] + i * wb: lay['hash'] + (i + 1) * wb] = h.to_bytes(wb, 'little')
        for i in range(m.B): b[lay['buffer'] + i] = rnd.getrandbits(8)
        b[lay['buffer']:lay['buffer'] + len(tail)] = tail
        b[lay['total']:lay['total'] + 8] = tot.to_bytes(8, 'little')
        ctypes.memmove(st, bytes(b), a.ss)
    def case(H, tail, tot, data, kind):
        rec = {'algorithm': a.name, 'operation': kind, 'state_hash': ['%#x' % h for h in H], 'pending_hex': tail.hex(), 'total_len': tot, 'data_hex': data.hex()}
        report(rec)
        load(H, tail, tot)
        p = g.put(data)
        update(st, p, len(data))
        SH = [INT(h, m.w) for h in H]; pend = tail + data
        k = len(pend) - len(pend) % m.B
        for i in range(0, k, m.B): SH = m.compress(SH, wbytes(pend[i:i + m.B]))
        raw = st.raw
        got = [int.from_bytes(raw[lay['hash'] + i * wb:lay['hash'] + (i + 1) * wb], 'little') for i in range(m.nh)]
        if got != [h.v for h in SH]: rec.update(what='state after update', expected=['%#x' % h.v for h in SH], got=['%#x' % h for h in got]); return rec
        if raw[lay['buffer']:lay['buffer'] + len(pend) - k] != pend[k:]: rec.update(what='pending bytes after update', expected=pend[k:].hex()); return rec
        final(st, out)
        F = SH
        for b in m.pad(wbytes(pend[k:]), INT(tot + len(data), 64)): F = m.compress(F, b)
        want = to_bytes(m.finish(F))
        if out.raw[:a.dig] != want: rec.update(expected=want.hex(), got=out.raw[:a.dig].hex()); return rec
        return None
    for h in hints:
        env = (h or {}).get('env') or {}
        H = [env.get('H%d' % i, rnd.getrandbits(m.w)) & ((1 << m.w) - 1) for i in range(m.nh)]
        if any(k.startswith('b') and k[1:].isdigit() for k in env):
            blk = bytes(env.get('b%d' % i, 0) & 255 for i in range(m.B))
            r = case(H, b'', 0, blk, 'compression of one block from a given chaining value')
            if r: return r
        q = env.get('q', 0)
        if any(k.startswith('t') and k[1:].isdigit() for k in env) or q:
            for rr in range(m.B):
                tail = bytes(env.get('t%d' % i, 0) & 255 for i in range(rr))
                r = case(H, tail, m.B * (q & ((1 << 56) - 1)) + rr, b'', 'finalisation from a given state') or case(H, tail, m.B * (q & ((1 << 56) - 1)) + rr, b'x' * 70, 'update from a given state')
                if r: return r
    IV = [x.v for x in m.init(INT)]
    for tot0 in (0, 1 << 29, 1 << 32, (1 << 32) - m.B, 1 << 53, 1 << 61, (1 << 61) - m.B, 1 << 62):
        for rr in (0, 1, m.B // 2, m.B - 17, m.B - 16, m.B - 9, m.B - 8, m.B - 1):
            for n in (0, 1, m.B, m.B + 1, 3 * m.B - 5):
                if time.time() > deadline: return None
                r = case(IV, pattern(rr, 0), tot0 + rr, pattern(n, 3), 'update and finalisation from a state with a large total length')
                if r: return r
    for i in range(400):
        if time.time() > deadline: return None
        sp = rnd.random() < 0.5
        w = lambda bits: rnd.choice([0, 1, (1 << bits) - 1, 1 << (bits - 1), rnd.getrandbits(bits)]) if sp else rnd.getrandbits(bits)
        blk = b''.join(w(m.w).to_bytes(wb, 'big') for _ in range(16))
        r = case([w(m.w) for _ in range(m.nh)], b'', m.B * rnd.choice([0, 1, 1 << 40]), blk, 'compression of one block from a given chaining value')
        if r: return r
    return None

def guarded_all(tasks, budget=200):
    """tasks: callables f(report, deadline) -> dict|None; first failing input"""
    import time
    for f in tasks:
        dl = time.time() + budget / max(1, len(tasks))
        kind, v, sig = drive.guarded(lambda rep, f=f, dl=dl: f(rep, dl), timeout=budget)
        if kind == 'ok' and v: return v
        if kind == 'crash' and v: v['what'] = 'the call ended with signal %d (access outside the given buffers, or abort)' % sig; return v
        if kind == 'timeout' and v: v['what'] = 'the call did not return within %d s' % budget; return v
        if kind == 'exception': print('note: ' + str(v)[-800:])
    return None

def blake3_modes(lib, lay, report, seed, deadline):
    """keyed, derived-key and extended output; and finalisation / chunk merging from states deep in a large message"""
    import time
    from specs import blake3 as S3
    g = drive.Guard(1 << 16); g2 = drive.Guard(1 << 16); out = ctypes.create_string_buffer(256)
    vp, sz = ctypes.c_void_p, ctypes.c_size_t
    def call(n, types, *a):
        f = getattr(lib, n); f.restype = None; f.argtypes = types; f(*a)
    lens = [0, 1, 3, 63, 64, 65, 127, 128, 1023, 1024, 1025, 2047, 2048, 2049, 3072, 3073, 4096, 5120]
    for n in (32, 1, 64, 65, 131):
        for ln in lens:
            d = pattern(ln, 0); p = g.put(d)
            for kind in ('xof', 'keyed', 'derive'):
                for kl in ((0,) if kind == 'xof' else (0, 1, 31, 32, 33, 40, 64, 1024, 1025) if ln in (0, 65, 1025) else (32,)):
                    if time.time() > deadline: return None
                    k = pattern(kl, 3, seed)
                    rec = {'algorithm': 'blake3', 'operation': '%s<%d>' % (kind, n), 'key_hex': k.hex(), 'data_len': ln, 'data_hex': d.hex()}
                    report(rec)
                    if kind == 'xof': call('vh_blake3_xof%d' % n, [vp, sz, vp], p, ln, out); want = S3.hash(d, n)
                    else:
                        call('vh_blake3_%s%d' % (kind, n), [vp, sz, vp, sz, vp], g2.put(k), kl, p, ln, out)
                        want = S3.keyed(k, d, n) if kind == 'keyed' else S3.derive(k, d, n)
                    if out.raw[:n] != want: rec.update(expected=want.hex(), got=out.raw[:n].hex()); return rec
    # injected states
    rnd = random.Random(seed)
    st = ctypes.create_string_buffer(lay['size'] + 64)
    W = lambda: [rnd.getrandbits(32) for _ in range(8)]
    qs = [0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 127, 255, 256, 1023, 4095, (1 << 20) - 1, 1 << 20, (1 << 31) - 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, (1 << 40) - 1, (1 << 52) - 1, (1 << 53) - 1] + [rnd.getrandbits(50) for _ in range(10)]
    for q in qs:
        for r in (1024, 64, 1000, 1, 65):
            for extra in (0, 1, 1025):
                if time.time() > deadline: return None
                if q + 2 >= 1 << 53 and extra: continue
                key = W(); flags = rnd.choice([0, 16, 64]); s = bin(q).count('1')
                if s > 53: continue
                stack = [W() for _ in range(54)]; cv = W() if r > 64 else list(key)
                bc = (r - 1) // 64; bl = r - 64 * bc; tail = rnd.randbytes(bl)
                b = bytearray(lay['size'])
                def put(k, v, n): b[k:k + n] = v.to_bytes(n, 'little')
                for i in range(8): put(lay['key'] + 4 * i, key[i], 4); put(lay['chaining'] + 4 * i, cv[i], 4)
                put(lay['flags'], flags, 4); put(lay['counter'], q, 8); b[lay['block']:lay['block'] + bl] = tail
                put(lay['block_len'], bl, 8); put(lay['blocks'], bc, 8); put(lay['chunk_len'], r, 8); put(lay['stack_len'], s, 8)
                for e in range(54):
                    for i in range(8): put(lay['stack'] + 32 * e + 4 * i, stack[e][i], 4)
                ctypes.memmove(st, bytes(b), lay['size'])
                data = pattern(extra, 3, seed)
                rec = {'algorithm': 'blake3', 'operation': 'update and finalisation from a state deep in a message', 'complete_chunks': q, 'bytes_in_chunk': r, 'key': key, 'flags': flags, 'stack': stack[:s], 'chaining': cv, 'pending_hex': tail.hex(), 'data_hex': data.hex()}
                report(rec)
                call('vh_blake3_update', [vp, vp, sz], st, g.put(data), extra)
                call('vh_blake3_final', [vp, vp], st, out)
                # model
                N32 = lambda x: INT(x, 32)
                K = [N32(x) for x in key]; C = [N32(x) for x in cv]; stk = [[N32(x) for x in e] for e in stack[:s]]
                Q, R, T_ = q, r, tail
                def node(): return (C, S3.block_words(wbytes(T_)), INT(Q, 64), N32(len(T_)), flags | (1 if (R - 1) // 64 == 0 else 0) | 2)
                comp = lambda n_, f=0: S3.compress(n_[0], n_[1], n_[2], n_[3], N32(n_[4] | f))
                for x in data:
                    if R == 1024:
                        v = comp(node())[:8]; Q += 1; t = Q
                        while t % 2 == 0: v = comp((K, stk.pop() + v, INT(0, 64), N32(64), flags | 4))[:8]; t //= 2
                        stk.append(v); C = list(K); T_ = b''; R = 0
                    elif len(T_) == 64:
                        C = S3.compress(C, S3.block_words(wbytes(T_)), INT(Q, 64), N32(64), N32(flags | (1 if (R - 1) // 64 == 0 else 0)))[:8]; T_ = b''
                    T_ += bytes([x]); R += 1
                nd = node()
                for e in reversed(stk): nd = (K, e + comp(nd)[:8], INT(0, 64), N32(64), flags | 4)
                want = to_bytes([y for w in S3.compress(nd[0], nd[1], INT(0, 64), nd[3], N32(nd[4] | 8)) for y in [ext(w, 7, 0), ext(w, 15, 8), ext(w, 23, 16), ext(w, 31, 24)]])[:32]
                if out.raw[:32] != want: rec.update(expected=want.hex(), got=out.raw[:32].hex()); return rec
    return None

def blake2b_keyed(lib, name, dig, report, seed, deadline):
    import time, hashlib
    g = drive.Guard(1 << 16); g2 = drive.Guard(1 << 16); out = ctypes.create_string_buffer(128); st = ctypes.create_string_buffer(1024)
    vp, sz = ctypes.c_void_p, ctypes.c_size_t
    def call(n, types, *a):
        f = getattr(lib, 'vh_%s_%s' % (name, n)); f.restype = None; f.argtypes = types; f(*a)
    for kl in list(range(0, 70)) + [100, 128, 200, 4096]:
        for ln in (0, 1, 5, 64, 127, 128, 129, 255, 256, 257, 600):
            if time.time() > deadline: return None
            k = pattern(kl, 3, seed); d = pattern(ln, 0)
            want = hashlib.blake2b(d, digest_size=dig, key=k[:64]).digest()
            rec = {'algorithm': name, 'key_hex': k.hex(), 'data_hex': d.hex(), 'operation': 'keyed digest'}
            report(rec)
            call('kdigest', [vp, sz, vp, sz, vp], g2.put(k), kl, g.put(d), ln, out)
            if out.raw[:dig] != want: rec.update(expected=want.hex(), got=out.raw[:dig].hex()); return rec
            rec['operation'] = 'keyed streaming'
            call('kinit', [vp, vp, sz], st, g2.put(k), kl); call('update', [vp, vp, sz], st, g.put(d[:ln // 2]), ln // 2); call('update', [vp, vp, sz], st, g.put(d[ln // 2:]), ln - ln // 2); call('final', [vp, vp], st, out)
            if out.raw[:dig] != want: rec.update(expected=want.hex(), got=out.raw[:dig].hex()); return rec
    return None

def hmac_modes(lib, a, B, report, seed, deadline):
    """HMAC over one real algorithm against RFC 2104 computed with hashlib / the specification"""
    import time, hashlib
    from . import dig
    o = dig.oracle({'blake2b': 'blake2b_512'}.get(a, a))
    def mac(k, m):
        if len(k) > B: k = o(k)
        k = k + bytes(B - len(k))
        return o(bytes(x ^ 0x5c for x in k) + o(bytes(x ^ 0x36 for x in k) + m))
    D = len(o(b''))
    V, Z = ctypes.c_void_p, ctypes.c_size_t
    def fn(n, at, rt=None):
        f = getattr(lib, n); f.argtypes = at; f.restype = rt; return f
    size = fn(a + '_size', [], Z)()
    st = ctypes.create_string_buffer(size); out = ctypes.create_string_buffer(D + 64)
    gk, gm = drive.Guard(1 << 14), drive.Guard(1 << 14)
    one = fn('vh_%s_digest' % a, [V, Z, V, Z, V])
    slow = a in ('blake3', 'sha512_224')
    kls = list(range(0, 2 * B + 3)) if not slow else list(range(0, B + 4)) 
    for kl in kls + [1000]:
        for ml in (0, 1, 37, B - 1, B, B + 1, 300):
            for pat in ((0, 1, 3) if not slow else (0,)):
                if time.time() > deadline: return None
                k, m = pattern(kl, pat, seed), pattern(ml, 0, seed + 1)
                rec = {'algorithm': 'HMAC over ' + a, 'key_hex': k.hex(), 'message_hex': m.hex()}
                report(rec)
                pk = gk.put(k); pm = gm.put(m)
                want = mac(k, m)
                one(pk, kl, pm, ml, out)
                if out.raw[:D] != want: rec.update(operation='one-shot', expected=want.hex(), got=out.raw[:D].hex()); return rec
                for w in ('', 'w'):
                    init, upd, fin = fn('vh_%s_%sinit' % (a, w), [V, V, Z]), fn('vh_%s_%supdate' % (a, w), [V, V, Z]), fn('vh_%s_%sfinal' % (a, w), [V, V])
                    init(st, pk, kl); c = ml // 3
                    for off, n in ((0, c), (c, 0), (c, ml - c)):
                        upd(st, pm + off, n); b = st.raw; fin(st, out)
                        if st.raw != b: rec.update(operation='streaming', what='finalising modified the caller\'s state'); return rec
                        wm = mac(k, m[:off + n])
                        if out.raw[:D] != wm: rec.update(operation='streaming (%s)' % ('wrapper' if w else 'raw'), chunks=[c, 0, ml - c], after_bytes=off + n, expected=wm.hex(), got=out.raw[:D].hex()); return rec
    return None
