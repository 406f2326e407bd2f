from . import dig
PROP = 'P02'
ALGOS = 'sha512,sha384,sha512_224,sha512_256'.split(',')
ASSUMPTIONS = ['total message length below 2^63 bytes; one update call at most 2^61 bytes']
def spec_selftest():
    from specs import sha2
    return sha2.selftest()
def plan(ctx): return dig.plan(ctx, ALGOS)
def search(ctx, fails): return dig.search(ctx, fails, ALGOS)
