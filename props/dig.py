"""Shared plan and failing-input search of the digest properties."""
import ctypes, random, hashlib, os
from vc import drive
from vc import digest as D
from vc.drive import Job

KEEP = (r'^mbo::digest::[A-Za-z0-9_:]+\((std::array<unsigned (int|long), [0-9]+ul>&(, (unsigned )?char const\*(, unsigned long, bool)?)?'
        r'|std::array<unsigned int, 8ul> const&, std::array<unsigned int, 16ul> const&, unsigned long, unsigned int, unsigned int'
        r'|[A-Za-z0-9_:]*State&, std::array<unsigned int, 8ul>( const&)?, unsigned long)\)'
        r'|^void mbo::digest::blake3_internal::[A-Za-z0-9_]+\([A-Za-z0-9_:]*State&, std::basic_string_view<char, std::char_traits<char> ?>\)'
        r'|^mbo::digest::blake3_internal::[A-Za-z0-9_]+\([A-Za-z0-9_:]*State&, std::basic_string_view<char, std::char_traits<char> ?>\)'
        r'|^std::array<unsigned char, [0-9]+ul> mbo::digest::blake3_internal::[A-Za-z0-9_]+<[0-9]+ul>\([A-Za-z0-9_:]*State( const&)?\)')

# algorithm name in the harness -> (model description, -D define)
ALGS = {}
for _n in ('md5', 'sha1', 'sha256', 'sha224', 'sha512', 'sha384', 'sha512_224', 'sha512_256'): ALGS[_n] = (('md', _n), _n)
for _n in ('sha3_224', 'sha3_256', 'sha3_384', 'sha3_512'): ALGS[_n] = (('sha3', _n), _n)
SHAKE_OUT = {'shake128': (1, 32, 167, 168, 169, 400, 1100), 'shake256': (1, 64, 135, 136, 137, 300, 1100)}
for _n, _o in SHAKE_OUT.items():
    for _k in _o: ALGS['%s_%d' % (_n, _k)] = (('shake', _n, _k), _n)
ALGS['blake2b_512'] = (('blake2b', 64), 'blake2b_512'); ALGS['blake2b_256'] = (('blake2b', 32), 'blake2b_256')
ALGS['blake3'] = (('blake3',), 'blake3')

def build(ctx, algos, more=(), name=None):
    defs = sorted(set('W_' + ALGS[a][1] for a in algos))
    js = ctx.ir('digest_all.cc', keep=KEEP, defs=defs + list(more), name=name)
    so = ctx.native('digest_all.cc', defs=defs, name='lay')
    return js, so

class Planner:
    """jobs, with functions whose IR is identical to one already planned under the same contract left out"""
    def __init__(self, ctx, js): self.ctx = ctx; self.mod = drive.load_module(js); self.seen = {}; self.jobs = []
    def once(self, entry, key):
        k = (drive.body_key(self.mod, entry), key)
        if k in self.seen: self.ctx.notes.append('%s: IR identical to %s (verified once)' % (entry, self.seen[k])); return False
        self.seen[k] = entry; return True
    def add(self, *a, **kw): self.jobs.append(Job(*a, **kw))

def plan(ctx, algos, chunks=4):
    js, so = build(ctx, algos)
    P = Planner(ctx, js)
    blocks = set()
    for a in algos:
        desc = list(ALGS[a][0]); m = D.make(desc, so)
        fam = (type(m).__name__, m.B, getattr(m, 'nh', 0), getattr(m, 'w', 0))
        bf = D.find_one(P.mod, m.rx).name
        if bf not in blocks or desc[0] == 'md':
            if (bf, fam) not in blocks: P.add('%s.block-function' % a, 'vc.digest', 'job_block', js=js, desc=desc)
            blocks.add(bf); blocks.add((bf, fam))
        for e in ('digest', 'adigest'):
            if P.once('vh_%s_%s' % (a, e), ('digest', a)): P.add('%s.%s' % (a, e), 'vc.digest', 'job_oneshot', js=js, desc=desc, entry='vh_%s_%s' % (a, e))
        for pre in ('', 'w'):
            init, final = 'vh_%s_%sinit' % (a, pre), 'vh_%s_%sfinal' % (a, pre)
            i = init if P.once(init, ('init', a)) else None
            f = final if P.once(final, ('final', a)) else None
            if i or f: P.add('%s.%sinit-final' % (a, pre), 'vc.digest', 'job_initfinal', js=js, so=so, desc=desc, init=i, final=f)
            up = 'vh_%s_%supdate' % (a, pre)
            if P.once(up, ('update', fam)):
                rs = list(m.residues()); r0 = rs[0]
                for k in range(chunks):
                    P.add('%s.%supdate[%d/%d]' % (a, pre, k, chunks), 'vc.digest', 'job_update', js=js, so=so, desc=desc, entry=up, residues=[r0] + rs[(k or chunks)::chunks])
        if desc[0] == 'blake2b':
            for k in range(4): P.add('%s.keyed-digest[%d/4]' % (a, k), 'vc.digest', 'job_keyed', js=js, so=so, desc=desc, entry='vh_%s_kdigest' % a, what='digest', cases=list(range(66))[k::4])
            P.add('%s.keyed-init' % a, 'vc.digest', 'job_keyed', js=js, so=so, desc=desc, entry='vh_%s_kinit' % a, what='init', cases=list(range(66)))
    P.jobs.sort(key=lambda j: 0 if 'digest' in j.name else 1)
    return P.jobs

def plan_ce(ctx, algos, ce):
    """the one-shot function and the block function, as constant evaluation runs them"""
    js, so = build(ctx, algos, [ce], 'digest_ce')
    P = Planner(ctx, js); blocks = set()
    for a in algos:
        desc = list(ALGS[a][0]); m = D.make(desc, so); fam = (type(m).__name__, m.B, getattr(m, 'nh', 0), getattr(m, 'w', 0))
        bf = D.find_one(P.mod, m.rx).name
        if bf not in blocks or (desc[0] == 'md' and (bf, fam) not in blocks): P.add('compile-time %s.block-function' % a, 'vc.digest', 'job_block', js=js, desc=desc)
        blocks.add(bf); blocks.add((bf, fam))
        if P.once('vh_%s_digest' % a, ('digest', a)): P.add('compile-time %s.digest' % a, 'vc.digest', 'job_oneshot', js=js, desc=desc, entry='vh_%s_digest' % a)
    return P.jobs

def plan_blake3(ctx, chunks=16):
    js, so = build(ctx, ['blake3'])
    P = Planner(ctx, js)
    rs = list(range(1025))
    for k in range(chunks): P.add('blake3.update[%d/%d]' % (k, chunks), 'vc.digest', 'job_update', js=js, so=so, desc=['blake3'], entry=None, residues=rs[k::chunks])
    for k in range(6): P.add('blake3.merge[%d/6]' % k, 'vc.digest', 'job_b3push', js=js, so=so, ss=list(range(54))[k::6])
    for n in D.XOF: P.add('blake3.finalize<%d>' % n, 'vc.digest', 'job_b3final', js=js, so=so, n=n)
    P.add('blake3.block-function', 'vc.digest', 'job_block', js=js, desc=['blake3'])
    E = [('init', 'init'), ('winit', 'init'), ('update', 'update'), ('wupdate', 'update'), ('final', 'final'), ('wfinal', 'final'), ('kinit', 'kinit'), ('digest', 'hash'), ('adigest', 'hash')]
    for e, kind in E: P.add('blake3.' + e, 'vc.digest', 'job_b3entry', js=js, so=so, entry='vh_blake3_' + e, kind=kind)
    for n in D.XOF:
        for e, kind in (('xof', 'hash'), ('xfinal', 'final'), ('keyed', 'keyed'), ('derive', 'derive')):
            P.add('blake3.%s%d' % (e, n), 'vc.digest', 'job_b3entry', js=js, so=so, entry='vh_blake3_%s%d' % (e, n), kind=kind, n=n)
    return P.jobs

def hints(fails): return [f['violation'].get('hint') for f in fails]

def oracle(a):
    if a in hashlib.algorithms_available and not a.startswith('shake') and not a.startswith('blake'): return lambda d: hashlib.new(a, d).digest()
    k = ALGS[a][0]
    if k[0] == 'shake': return lambda d: hashlib.new(k[1].replace('shake', 'shake_'), d).digest(k[2])
    if k[0] == 'blake2b': return lambda d: hashlib.blake2b(d, digest_size=k[1]).digest()
    if k[0] == 'blake3':
        from specs import blake3
        return blake3.hash
    from specs import sha2
    return sha2.ALGOS[a].digest

def search(ctx, fails, algos, extra=()):
    from . import digsearch as DS
    so = os.path.join(ctx.tmp, 'liblay.so')
    if not os.path.exists(so): _, so = build(ctx, algos)
    lib = ctypes.CDLL(so)
    bad = [a for a in algos if any(f['name'].startswith(a + '.') for f in fails)] or algos
    tasks = []
    for n in bad:
        m = D.make(list(ALGS[n][0]), so)
        for w in ('', 'w'):
            a = DS.Algo(lib, n, 'vh_%s_' % n, m.lay['size'], m.dig, 64 if n == 'blake3' else m.B, oracle(n), m, getattr(m, 'a', None), wrap=w)
            tasks.append(lambda rep, dl, a=a: DS.run_algo(a, rep, ctx.seed, dl))
        if isinstance(m, D.Blake2b): tasks.append(lambda rep, dl, n=n, m=m: DS.blake2b_keyed(lib, n, m.dig, rep, ctx.seed, dl))
        if isinstance(m, D.MD):
            hs = [f['violation'].get('hint') for f in fails if f['name'].startswith(n + '.')]
            tasks.append(lambda rep, dl, a=a, hs=hs: DS.inject_md(a, rep, ctx.seed, dl, hs))
    tasks += [lambda rep, dl, f=f: f(lib, rep, ctx.seed, dl) for f in extra]
    return DS.guarded_all(tasks)
