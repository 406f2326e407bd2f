from . import dig
PROP = 'P04'
ALGOS = ['sha3_224', 'sha3_256', 'sha3_384', 'sha3_512'] + ['%s_%d' % (n, k) for n, o in dig.SHAKE_OUT.items() for k in o]
ASSUMPTIONS = ['one update call at most 2^61 bytes', 'the extendable-output functions are instantiated for the output sizes %r' % (dig.SHAKE_OUT,)]
def spec_selftest():
    from specs import keccak
    return keccak.selftest()
def plan(ctx): return dig.plan(ctx, ALGOS, chunks=4)
def search(ctx, fails): return dig.search(ctx, fails, ALGOS)
