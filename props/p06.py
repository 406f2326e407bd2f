from . import dig
PROP = 'P06'
ALGOS = ["blake3"]
ASSUMPTIONS = ['total message length below 2^63 bytes; one update call at most 2^61 bytes',
               'the incremental subtree stack of the BLAKE3 paper (section 5.1.2) computes the tree of section 2.1 (compared on concrete messages up to 5 chunks and published vectors)']
def spec_selftest():
    from specs import blake3
    return blake3.selftest()
def plan(ctx): return dig.plan_blake3(ctx)
def search(ctx, fails):
    from . import digsearch as DS
    from vc import digest as D
    import os
    def modes(lib, rep, seed, dl):
        lay = D.lay(os.path.join(ctx.tmp, 'liblay.so'), 'blake3', D.Blake3.KEYS)
        return DS.blake3_modes(lib, lay, rep, seed, dl)
    return dig.search(ctx, fails, ALGOS, extra=(modes,))
