from vc import hmac as H
from . import dig
PROP = 'P07'
ASSUMPTIONS = ['the digest algorithm meets its streaming contract (proved for every algorithm of the library in P01..P06)',
               'keys and data shorter than 2^61 bytes', 'HMAC is generic; it is verified for every (block size, digest size) pair that the algorithms of the library have']
def spec_selftest(): return 0
def plan(ctx):
    js = ctx.ir('hmac.cc'); so = ctx.native('hmac.cc', defs=['HMAC_STUBS'], name='lay')
    P = dig.Planner(ctx, js)
    for B, D in H.SIZES:
        for e, kind in (('digest', 'digest'), ('init', 'init'), ('winit', 'init'), ('update', 'update'), ('wupdate', 'update'), ('final', 'final'), ('wfinal', 'final')):
            P.add('hmac<%d,%d>.%s' % (B, D, e), 'vc.hmac', 'job', js=js, so=so, B=B, D=D, entry=e, kind=kind)
    return P.jobs
REAL = ['md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'sha512_224', 'sha512_256', 'sha3_224', 'sha3_256', 'sha3_384', 'sha3_512', 'blake2b', 'blake2b_256', 'blake3']
BLOCK = {'md5': 64, 'sha1': 64, 'sha224': 64, 'sha256': 64, 'blake3': 64, 'sha3_224': 144, 'sha3_256': 136, 'sha3_384': 104, 'sha3_512': 72}
def search(ctx, fails):
    from . import digsearch as DS
    import ctypes
    so = ctx.native('hmac.cc', defs=['HMAC_NATIVE'], name='hmacnat', flags=('-O2',))
    lib = ctypes.CDLL(so)
    def mk(a): return lambda rep, dl: DS.hmac_modes(lib, a, BLOCK.get(a, 128), rep, ctx.seed, dl)
    return DS.guarded_all([mk(a) for a in REAL])
