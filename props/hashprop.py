"""Shared plan and failing-input search of the hash properties."""
import ctypes, os, random
from vc import drive
from vc import hashes as VH
from specs import hashes as HS
from . import dig

TEMBO = ['tembo_%d_%d_%d' % t for t in HS.TEMBO]
STREAMED = ('xxh64', 'siphash24', 'mumbo', 'jumbo')
ENTRIES = {'fnv1a': '_f _e', 'xxh64': '_f _e', 'siphash24': '_e', 'siphash24k': '_f', 'siphash13k': '_f', 'murmur3': '_f _e', 'rapidhash': '_f _e', 'xxh3_64': '_f _e', 'xxh3_128': '_f _e',
           'mumbo': '_f _e', 'mumbo128': '_f _e', 'jumbo': '_f _e', 'jumbo128': '_f _e', 'dumbo': '_f _e', 'fambo': '_f _e'}
CE = '__builtin_is_constant_evaluated()=1'      # takes the branches that constant evaluation takes
DEFAULT = {'fnv1a': 14695981039346656037, 'mumbo': 5381, 'mumbo128': 5381, 'jumbo': 5381, 'jumbo128': 5381}     # seed used when none is given, else 0
def default_seed(n, e): return 5381 if n == 'fambo' and e == '_fd' else DEFAULT.get(n, 0)
def has_default(n): return n not in ('siphash24k', 'siphash13k') and not n.startswith('tembo')
def define(n): return 'W_' + ('_'.join(n.split('_')[:2]) if n.startswith('tembo') else n)
def streamed(names): return [n for n in names if n in STREAMED]

def plan(ctx, names, entries=True, streams=True, ce=False, tag=''):
    defs = sorted(set(define(n) for n in names))
    js = ctx.ir('hash.cc', defs=defs + ([CE] if ce else []), name='hash_ce' if ce else 'hash')
    so = ctx.native('hash.cc', defs=defs + ['LAYOUT'], name='hashlay') if streams and streamed(names) else None
    P = dig.Planner(ctx, js)
    for n in names:
        for e in [''] + (ENTRIES.get(n, '').split() if entries else []):
            f = 'vh_' + n + e
            if not P.once(f, ('hash', n)): continue
            for case in (('zero', 'nonzero') if n.startswith('xxh3') else (None,)):
                P.add('%s%s%s.long%s' % (tag, n, e, ' (%s seed)' % case if case else ''), 'vc.hashes', 'job_long', js=js, name=n, entry=f, case=case)
            P.add('%s%s%s.short' % (tag, n, e), 'vc.hashes', 'job_short', js=js, name=n, entry=f)
        if entries and has_default(n):
            for e in ('_d', '_fd'): P.add('%s%s%s.default-seed' % (tag, n, e), 'vc.hashes', 'job_short', js=js, name=n, entry='vh_' + n + e, seed=default_seed(n, e))
    for n in streamed(names) if streams else ():
        key = VH.layname(n)
        for w in ('s', 'w'):
            i, u, f = ('vh_%s_%s%s' % (n, w, x) for x in ('init', 'update', 'final'))
            i2 = i if P.once(i, ('init', key)) else None; f2 = f if P.once(f, ('final', key)) else None
            if i2 or f2: P.add('%s%s.%sinit-final' % (tag, n, w), 'vc.hashes', 'job_initfinal', js=js, so=so, name=n, init=i2, final=f2)
            if not P.once(u, ('update', key)): continue
            rs = VH.mkstream(n, so).residues(); k = 16 if len(rs) > 100 else 2
            for c in range(k): P.add('%s%s.%supdate[%d/%d]' % (tag, n, w, c, k), 'vc.hashes', 'job_update', js=js, so=so, name=n, entry=u, residues=sorted(set(rs[:1] + rs[c::k])))
    P.jobs.sort(key=lambda j: 0 if 'xxh3' in j.name and 'long' in j.name else 1 if 'rapid' in j.name or 'update' in j.name else 2)
    return P.jobs

SEEDS = (0, 1, 0x9e3779b97f4a7c15, (1 << 64) - 1, 0x8000000000000000, 0x0123456789abcdef)
def lengths(sp):
    B = sp.B
    l = list(range(0, 290)) + [k * B + d for k in (1, 2, 3, 4, 5, 8) for d in range(-2, 3)] + [k * 1024 + d for k in (1, 2, 3) for d in (-64, -1, 0, 1, 63, 64, 65)] + [300, 511, 512, 513, 700, 1000, 5000]
    return sorted(set(x for x in l if x >= 0))

def search(ctx, names, ce=False):
    from . import digsearch as DS
    defs = sorted(set(define(n) for n in names))
    st = streamed(names)
    lib = ctypes.CDLL(ctx.native('hash.cc', defs=defs + (['LAYOUT'] if st else []) + ([CE] if ce else []), name='hashnat', flags=('-O2',)))
    vp, sz, u64 = ctypes.c_void_p, ctypes.c_size_t, ctypes.c_uint64
    def one(n):
        sp = VH.spec(n); no = VH.nout(n)
        def run(rep, dl):
            import time
            g = drive.Guard(1 << 14); out = (u64 * 4)(); rnd = random.Random(ctx.seed)
            keyed = getattr(sp, 'keyed', False)
            for ln in lengths(sp):
                for k, s in [(0, SEEDS[0]), (1, SEEDS[1]), (2, SEEDS[2]), (3, rnd.getrandbits(64)), (1, 0), (3, SEEDS[3])] + [(0, x) for x in SEEDS[4:]]:
                    if time.time() > dl: return None
                    d = DS.pattern(ln, k, ctx.seed)
                    if keyed: s |= rnd.getrandbits(64) << 64
                    want = sp(d, s)[:no]
                    for e in [''] + ENTRIES.get(n, '').split() + (['_d', '_fd'] if has_default(n) and k == 3 else []):
                        if e in ('_d', '_fd'): s = default_seed(n, e); want = sp(d, s)[:no]
                        rec = {'algorithm': n, 'entry': 'vh_' + n + e, 'data_len': ln, 'data_hex': d.hex() if ln <= 600 else None, 'pattern': k, 'seed': hex(s)}
                        rep(rec); f = getattr(lib, 'vh_' + n + e); f.restype = None
                        if keyed:
                            kb = (u64 * 2)(s & HS.M64, s >> 64); f.argtypes = [vp, sz, vp, vp]; f(g.put(d), ln, kb, out)
                        else: f.argtypes = [vp, sz, u64, vp]; f(g.put(d), ln, s, out)
                        got = tuple(out[:no])
                        if got != want: rec.update(expected=[hex(x) for x in want], got=[hex(x) for x in got]); return rec
        return run
    def stream(n, w):
        sp = VH.spec(n)
        def run(rep, dl):
            import time
            g = drive.Guard(1 << 14); out = (u64 * 2)(); S = ctypes.create_string_buffer(1024); size = VH.lay(os.path.join(ctx.tmp, 'libhashnat.so'), VH.layname(n), ('size',))['size']
            fi, fu, ff = (getattr(lib, 'vh_%s_%s%s' % (n, w, x)) for x in ('init', 'update', 'final'))
            for f in (fi, fu, ff): f.restype = None
            fi.argtypes = [vp, u64]; fu.argtypes = [vp, vp, sz]; ff.argtypes = [vp, vp]
            rnd = random.Random(ctx.seed); B = sp.B
            plans = [[a, b] for a in range(0, B + 3) for b in (0, 1, 2, 7, 15, 16, 17, B - 1, B, B + 1, 2 * B, 3 * B + 5)] + [[1] * (3 * B + 5), [3] * (B + 2), [B, B, B, 1], [B - 1, 1, 1], [0, 0, 5, 0, B], [2 * B, 0, 5, 5, 5], [17, 120, 3, 200]]
            plans += [[rnd.randrange(0, 2 * B) for _ in range(rnd.randrange(1, 8))] for _ in range(200)]
            for pl in plans:
                if time.time() > dl: return None
                s = rnd.choice(SEEDS + (rnd.getrandbits(64),)); peek = len(pl) < 3 or rnd.random() < .3 or len(pl) > 20
                d = DS.pattern(sum(pl), rnd.choice((0, 3)), ctx.seed)
                rec = {'algorithm': n, 'operation': 'streaming (%s)' % ('StreamInit/StreamUpdate/StreamFinalize' if w == 's' else 'Streamer'), 'chunk_lengths': pl, 'seed': hex(s), 'data_hex': d.hex()}; rep(rec)
                ctypes.memset(S, 0xaa, 1024); fi(S, s); o = 0
                for c in pl + [None]:
                    if c is not None: fu(S, g.put(d[o:o + c]), c); o += c
                    if peek or c is None:
                        b = S.raw; ff(S, out); want = sp(d[:o], s)[0]
                        if out[0] != want or S.raw != b: rec.update(after_bytes=o, expected=hex(want), got=hex(out[0]), state_changed=S.raw != b); return rec
        return run
    return DS.guarded_all([one(n) for n in names] + [stream(n, w) for n in st for w in ('s', 'w')])
