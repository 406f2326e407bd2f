from . import dig
PROP = 'P05'
ALGOS = ["blake2b_512", "blake2b_256"]
ASSUMPTIONS = ['total message length below 2^63 bytes; one update call at most 2^61 bytes']
def spec_selftest():
    from specs import blake2b
    return blake2b.selftest()
def plan(ctx): return dig.plan(ctx, ALGOS)
def search(ctx, fails): return dig.search(ctx, fails, ALGOS)
