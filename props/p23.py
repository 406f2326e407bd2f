from vc import strs as K
from . import dig
PROP = 'P23'
ASSUMPTIONS = ['std::to_string writes the decimal digits of its argument', 'texts shorter than 2^60 characters', 'the length function and the text are proved for the signed and unsigned types of 8, 16, 32 and 64 bits']
def spec_selftest():
    from vc import term as T
    import random
    rnd = random.Random(3); n = 0
    for w, s in K.TYPES.values():
        v = T.var('v', w); cs = list(K.cases(v, s))
        for x in [0, 9, 10, 99, 100, 999, 1000, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1] + [rnd.getrandbits(w) for _ in range(20)]:
            x &= (1 << w) - 1; y = x - (1 << w) if s and x >> (w - 1) else x
            got = [(g, k) for c, g, k in cs if T.evaluate([c], {'v': x})[0]]
            assert got == [(y < 0, len(str(abs(y))))], (w, s, y, got); n += 1
    return n
def plan(ctx):
    js = ctx.ir('strings.cc', keep='^std::__cxx11::to_string')
    P = dig.Planner(ctx, js)
    for t in K.TYPES: P.add('number.' + t, 'vc.strs', 'job_number', js=js, ty=t)
    P.add('at-last', 'vc.strs', 'job_last', js=js)
    return P.jobs
def search(ctx, fails):
    import ctypes, random
    from . import digsearch as DS
    from vc import drive
    lib = ctypes.CDLL(ctx.native('strings.cc'))
    def run(rep, dl):
        rnd = random.Random(ctx.seed)
        out = ctypes.create_string_buffer(32); ln = ctypes.c_size_t()
        for t, (w, s) in K.TYPES.items():
            ct = getattr(ctypes, 'c_%sint%d' % ('' if s else 'u', w))
            fl = getattr(lib, 'vh_len_' + t); fl.argtypes = [ct]; fl.restype = ctypes.c_uint
            fb = getattr(lib, 'vh_text_' + t); fb.argtypes = [ct, ctypes.c_void_p]; fb.restype = ctypes.c_size_t
            xs = [0] + [10**k + d for k in range(20) for d in (-1, 0, 1)] + [(1 << b) + d for b in range(w + 1) for d in (-1, 0, 1)] + [rnd.getrandbits(rnd.randrange(1, w + 1)) for _ in range(200)]
            if w <= 16: xs += range(1 << w)
            for x in xs:
                for y in ((x, -x) if s else (x,)):
                    if not (-(1 << (w - 1)) if s else 0) <= y < (1 << (w - 1 if s else w)): continue
                    rec = {'function': 'BigNumber/BigNumberLen', 'type': t, 'value': y}; rep(rec)
                    want = format(y, ',').replace(',', "'").encode()
                    n = fb(y, out); got = out.raw[:min(n, 32)]; l = fl(y)
                    if n != len(want) or got != want or l != len(want):
                        rec.update(expected=[want.decode(), len(want)], got=[repr(got), l]); return rec
        f = lib.vh_atlast; f.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_char, ctypes.c_size_t, ctypes.c_void_p]; f.restype = ctypes.c_void_p
        g = drive.Guard(1 << 12)
        for n in list(range(0, 9)) * 30 + [40, 300]:
            for _ in range(20):
                s = bytes(rnd.choice(b'a=b=\0\xff') for _ in range(n)); sep = bytes([rnd.choice(b'=a\0\xffz')])
                for pos in range(n + 1):
                    rec = {'function': 'AtLast::Find', 'text_hex': s.hex(), 'separator_hex': sep.hex(), 'pos': pos}; rep(rec)
                    base = g.put(s); r = f(base, n, sep, pos, ctypes.byref(ln))
                    j = s.rfind(sep, pos); want = [n, 0] if j < 0 else [j, 1]
                    b = base if isinstance(base, int) else ctypes.cast(base, ctypes.c_void_p).value
                    if [r - b, ln.value] != want: rec.update(expected=want, got=[r - b, ln.value]); return rec
        return None
    return DS.guarded_all([run])
