from . import dig
PROP = 'P09'
ASSUMPTIONS = ['lines shorter than 2^61 bytes', 'isxdigit in the "C" locale', 'hex rendering: for digests of 1, 7, 8, 16, 20, 28, 32, 48 and 64 bytes']
SIZES = (1, 7, 8, 16, 20, 28, 32, 48, 64)
def plan(ctx):
    js = ctx.ir('hex.cc')
    P = dig.Planner(ctx, js)
    P.add('checksum-line', 'vc.text', 'job_line', js=js)
    for n in SIZES: P.add('hex%d' % n, 'vc.text', 'job_hex', js=js, n=n)
    return P.jobs
def search(ctx, fails):
    import ctypes, random, itertools
    from . import digsearch as DS
    from vc import drive
    lib = ctypes.CDLL(ctx.native('hex.cc'))
    def line(rep, dl):
        g = drive.Guard(1 << 12); out = (ctypes.c_size_t * 4)()
        f = lib.vh_checksum; f.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_size_t, ctypes.c_void_p]
        def case(s, h):
            rec = {'function': 'ParseChecksumLine', 'line_hex': s.hex(), 'hex_length': h}; rep(rec)
            r = f(g.put(s), len(s), h, out)
            ok = len(s) >= h + 3 and all(c in b'0123456789abcdefABCDEF' for c in s[:h]) and s[h:h + 1] == b' ' and s[h + 1:h + 2] in (b' ', b'*')
            if bool(r) != ok: rec.update(expected='parsed' if ok else 'rejected', got='parsed' if r else 'rejected'); return rec
            if ok and list(out) != [0, h, h + 2, len(s) - h - 2]: rec.update(expected=[0, h, h + 2, len(s) - h - 2], got=list(out)); return rec
        rnd = random.Random(ctx.seed)
        for h in (0, 1, 2, 4, 32, 40, 56, 64, 96, 128, 200, 300, 600):
            base = bytes(rnd.choice(b'0123456789abcdefABCDEF') for _ in range(h))
            for tail in (b'', b' ', b'  ', b' *', b'  f', b' *f', b'*  f', b' -f', b'   ', b' *name', b'  name\nx', b'* x', b'  \0'):
                s = base + tail
                for hh in (h, h + 1, max(h - 1, 0), len(s), len(s) + 1, 2**64 - 1, 2**63):
                    r = case(s, hh)
                    if r: return r
            for k in range(min(h, 200)):
                for c in range(256):
                    r = case(base[:k] + bytes([c]) + base[k + 1:] + b'  file', h)
                    if r: return r
            for c1 in range(256):
                for s in (base + bytes([c1]) + b' f', base + b' ' + bytes([c1]) + b'f', base + b'  ' + bytes([c1])):
                    r = case(s, h)
                    if r: return r
    def hexr(rep, dl):
        for n in SIZES:
            g = drive.Guard(256); out = ctypes.create_string_buffer(2 * n); ln = ctypes.c_size_t()
            f = getattr(lib, 'vh_hex%d' % n); f.argtypes = [ctypes.c_void_p] * 3; f.restype = None
            for c in range(256):
                for d in (bytes([c]) * n, bytes((c + 37 * i) & 255 for i in range(n))):
                    rec = {'function': 'ToHexString', 'digest_hex': d.hex()}; rep(rec)
                    f(g.put(d), out, ctypes.byref(ln))
                    if ln.value != 2 * n or out.raw != d.hex().encode(): rec.update(got=repr(out.raw), length=ln.value); return rec
    return DS.guarded_all([line, hexr])
