from . import hashprop as H
PROP = 'P10'
NAMES = ['xxh64']
ASSUMPTIONS = ['little-endian target', 'inputs shorter than 2^61 bytes']
def plan(ctx): return H.plan(ctx, NAMES)
def search(ctx, fails): return H.search(ctx, NAMES)
def spec_selftest(): return 0
