from . import hashprop as H, dig
from . import p15
PROP = 'P17'
NAMES = ['xxh64', 'xxh3_64', 'xxh3_128', 'siphash24', 'siphash24k', 'siphash13k', 'murmur3', 'murmur3_64', 'fnv1a', 'rapidhash'] + p15.NAMES
DIGS = ['md5', 'sha1', 'sha256', 'sha512', 'sha3_256', 'blake2b_512']
ASSUMPTIONS = ['little-endian target', 'inputs shorter than 2^61 bytes', 'constant evaluation follows the same C++ semantics as the generated code; it is reached by compiling with the builtin is_constant_evaluated() yielding true']
def plan(ctx): return H.plan(ctx, NAMES, entries=False, ce=True, tag='compile-time ') + dig.plan_ce(ctx, DIGS, H.CE)
def search(ctx, fails): return H.search(ctx, NAMES, ce=True)
def spec_selftest(): return 0
