"""Driver: builds the verified text from /repo's working tree, runs the proof jobs of a
property in parallel, reports failed obligations (with a concrete failing input replayed
against the real code where one is found) and writes the evidence file."""
import os, sys, json, time, subprocess, tempfile, shutil, traceback, importlib, multiprocessing as mp, ctypes, random, resource, signal, hashlib
from . import term as T, solver as S, exe as E, stream as ST, eqv

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = 'clang++-18'
GXX = 'g++-13'
HARN = os.path.join(VERIF, 'harness')

class BuildError(Exception): pass

def sh(cmd, cwd=None, timeout=300):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')

def irdump_path():
    """the IR extractor, built from tools/irdump.cc when missing or older than its source"""
    src = os.path.join(VERIF, 'tools', 'irdump.cc')
    key = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(VERIF, 'build', 'irdump-' + key)
    if os.path.exists(out): return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    flags = subprocess.check_output(['llvm-config-18', '--cppflags']).decode().split()
    ld = subprocess.check_output(['llvm-config-18', '--ldflags']).decode().split()
    tmp = out + '.%d' % os.getpid()
    rc, o = sh([CLANG, '-O1', '-std=c++17', '-fno-rtti', '-fno-exceptions'] + flags + [src, '-o', tmp] + ld + ['-lLLVM-18'])
    if rc: raise BuildError('irdump: ' + o[-2000:])
    os.rename(tmp, out)
    return out

INC = ['-I', os.path.join(HARN, 'shim'), '-iquote', '.', '-iquote', os.path.join(HARN, 'gen'), '-iquote', HARN]

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop; self.tier = tier; self.seed = seed
        self.tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.cmds = []
        self.errors = []
        self.notes = []
    def close(self): shutil.rmtree(self.tmp, ignore_errors=True)
    def ir(self, harness, keep='^$', defs=(), roots='^vh_', name=None, pipeline=None, std='c++20'):
        """compile the harness (which includes /repo's sources) to IR and extract; returns the JSON path"""
        name = name or os.path.splitext(harness)[0]
        ll = os.path.join(self.tmp, name + '.ll'); js = os.path.join(self.tmp, name + '.json')
        cmd = [CLANG, '-std=' + std, '-O1', '-fno-exceptions', '-fno-rtti', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', '-g1', '-w'] + INC + ['-D' + d for d in defs] + [os.path.join(HARN, harness), '-o', ll]
        rc, o = sh(cmd, cwd=REPO)
        if rc: raise BuildError('harness %s does not compile against the current tree:\n%s' % (harness, o[-3000:]))
        rc, o = sh([irdump_path(), ll, js, roots, keep] + ([pipeline] if pipeline else []))
        if rc: raise BuildError('irdump %s: %s' % (harness, o[-2000:]))
        self.cmds.append('cd %s && ' % REPO + ' '.join(cmd))
        return js
    def native(self, harness, defs=(), name=None, flags=('-O1',), std='c++20'):
        name = name or os.path.splitext(harness)[0]
        so = os.path.join(self.tmp, 'lib%s.so' % name)
        cmd = [GXX, '-std=' + std, '-shared', '-fPIC', '-w'] + list(flags) + INC + ['-D' + d for d in defs] + [os.path.join(HARN, harness), '-o', so]
        rc, o = sh(cmd, cwd=REPO)
        if rc: raise BuildError('native %s: %s' % (harness, o[-3000:]))
        return so

# ------------------------------------------------------------------ jobs
class Job:
    def __init__(self, name, mod, fn, /, **kw): self.name = name; self.mod = mod; self.fn = fn; self.kw = kw

_mods = {}
def load_module(path):
    if path not in _mods: _mods[path] = E.Module(path)
    return _mods[path]

def new_result():
    return {'obligations': {}, 'functions': [], 'contracts': {}, 'assumed': [], 'detail': [], 'violation': None, 'kind': 'proof', 'paths': 0}

def absorb_exec(res, ex):
    for k, v in ex.nob.items():
        o = res['obligations'].setdefault(k, [0, 0, 0])
        for i in range(3): o[i] += v[i]
    for f in sorted(ex.fns_used):
        if f not in res['functions']: res['functions'].append(f)
    for k, v in ex.contract_used.items(): res['contracts'][k] = res['contracts'].get(k, 0) + v
    for a in sorted(ex.assumed):
        if a not in res['assumed']: res['assumed'].append(a)
    res['paths'] += getattr(ex, 'returns', 0)

def body_key(mod, name):
    """identity of a function's code (all operands, callees and types; not its own name or line numbers)"""
    f = mod.fns[name]
    def strip(o):
        if isinstance(o, dict): return {k: strip(v) for k, v in o.items() if k not in ('line',)}
        if isinstance(o, list): return [strip(x) for x in o]
        return o
    return hashlib.sha256(json.dumps([strip(f.params), strip(f.blocks), f.ret], sort_keys=True).encode()).hexdigest()

def run_job(job):
    sys.setrecursionlimit(100000)
    t0 = time.time(); q0 = S.STATS.queries; s0 = S.STATS.time
    res = new_result()
    T.DISTRIBUTE[0] = True
    try:
        m = importlib.import_module(job.mod)
        getattr(m, job.fn)(res, **job.kw)
        if not res['violation'] and sum(v[0] for v in res['obligations'].values()) == 0:
            res['violation'] = {'obligation': 'vacuity', 'msg': 'the job generated no obligation'}
    except ST.Violation as v:
        res['violation'] = {'obligation': v.oblig, 'msg': v.msg[:3000], 'hint': v_hint(v)}
    except (E.Unsupported, E.NeedCut, E.Budget) as e:
        res['violation'] = {'obligation': 'verification condition generation', 'msg': '%s: %s' % (type(e).__name__, describe(e)), 'unsupported': True}
    except MemoryError:
        res['violation'] = {'obligation': 'verification condition generation', 'msg': 'out of memory', 'unsupported': True}
    except Exception as e:
        res['violation'] = {'obligation': 'verification condition generation', 'msg': '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1800:]), 'unsupported': True}
    res['name'] = job.name; res['wall'] = time.time() - t0
    res['queries'] = S.STATS.queries - q0; res['solver_s'] = S.STATS.time - s0
    return res

def describe(e):
    if isinstance(e, E.NeedCut): return 'loop at block %d of %s is not bounded' % (e.hdr, e.fn.dem)
    return str(e)[:1500]

def v_hint(v):
    """concrete values for the failed obligation (for the replay search)"""
    try:
        d = v.data
        if d is None: return None
        if isinstance(d, tuple) and hasattr(d[0], 'env') and d[0].env:
            env, sel = d[0].env
            names = set()
            for p in d[1][:4]: names |= set(x for x in S.leafset(p[0]) | S.leafset(p[1]) if not x.startswith(('mem:', 'uf:')))
            out = {}
            for t in T.topo([x for p in d[1][:4] for x in p]):
                if t.op == 'v':
                    try: out[t.val] = T.evaluate([t], env, sel)[0]
                    except Exception: pass
            return {'env': out}
        if hasattr(d, 'pc') and d.pc is not None:
            r, m = S.check(list(d.pc) + ([T.bnot(d.goal)] if d.goal is not None else []), want_model=True)
            if r == 'sat': return {'env': S.model_env(m, list(d.pc) + ([d.goal] if d.goal is not None else []))}
    except Exception: pass
    return None

def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)

def run_jobs(jobs, nproc=8, deadline=None):
    """all jobs; a job that dies (memory) yields an unproved obligation"""
    import concurrent.futures as cf
    from concurrent.futures.process import BrokenProcessPool
    res = {}
    ctx = mp.get_context('fork')
    pend = list(enumerate(jobs))
    tries = 0
    while pend and tries < 2:
        tries += 1
        ex = cf.ProcessPoolExecutor(max_workers=min(nproc, max(1, len(pend))), mp_context=ctx, initializer=_init_worker)
        fut = {ex.submit(run_job, j): (i, j) for i, j in pend}
        try:
            left = max(1, deadline - time.time()) if deadline else None
            for f in cf.as_completed(fut, timeout=left):
                i, j = fut[f]
                try: res[i] = f.result()
                except BrokenProcessPool: pass
        except cf.TimeoutError:
            for p in list(ex._processes.values()): p.kill()
            for f, (i, j) in fut.items():
                if i not in res:
                    r = new_result(); r['name'] = j.name; r['wall'] = 0; r['queries'] = 0; r['solver_s'] = 0
                    r['violation'] = {'obligation': 'verification condition generation', 'msg': 'time budget exhausted', 'unsupported': True}
                    res[i] = r
        ex.shutdown(wait=False, cancel_futures=True)
        pend = [(i, j) for i, j in pend if i not in res]
        nproc = 3
    for i, j in pend:
        r = new_result(); r['name'] = j.name; r['wall'] = 0; r['queries'] = 0; r['solver_s'] = 0
        r['violation'] = {'obligation': 'verification condition generation', 'msg': 'worker ended', 'unsupported': True}
        res[i] = r
    return [res[i] for i in range(len(jobs))]

# ------------------------------------------------------------------ concrete replay search
def guarded(fn, timeout=240):
    """run fn(report) in a forked child; report(x) records the input being tried.
    -> ('ok', value) | ('crash', last reported input, signal) | ('timeout', last)"""
    import pickle
    f = tempfile.NamedTemporaryFile(delete=False); f.close()
    g = tempfile.NamedTemporaryFile(delete=False); g.close()
    pid = os.fork()
    if pid == 0:
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.alarm(int(timeout))
            fd = os.open(g.name, os.O_WRONLY)
            def report(x):
                b = json.dumps(x).encode()
                os.pwrite(fd, len(b).to_bytes(8, 'little') + b, 0)
            sys.stderr.flush(); sys.stdout.flush()
            dn = os.open('/dev/null', os.O_WRONLY); os.dup2(dn, 2); os.dup2(dn, 1)
            v = fn(report)
            pickle.dump(v, open(f.name, 'wb'))
            os._exit(0)
        except BaseException:
            try: pickle.dump(('exception', traceback.format_exc()), open(f.name, 'wb'))
            except Exception: pass
            os._exit(3)
    _, stt = os.waitpid(pid, 0)
    last = None
    try:
        b = open(g.name, 'rb').read()
        if b: last = json.loads(b[8:8 + int.from_bytes(b[:8], 'little')])
    except Exception: pass
    val = None
    try: val = pickle.load(open(f.name, 'rb'))
    except Exception: pass
    os.unlink(f.name); os.unlink(g.name)
    if os.WIFSIGNALED(stt):
        s = os.WTERMSIG(stt)
        return ('timeout', last, s) if s == signal.SIGALRM else ('crash', last, s)
    return ('ok' if os.WEXITSTATUS(stt) == 0 else 'exception', val, None)

class Guard:
    """buffers that end at an inaccessible page, so that a read past the end faults"""
    def __init__(self, size=1 << 16):
        import mmap
        self.libc = ctypes.CDLL(None, use_errno=True)
        self.libc.mmap.restype = ctypes.c_void_p
        self.libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
        self.libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
        self.size = (size + 4095) & ~4095
        b = self.libc.mmap(None, self.size + 8192, 3, 0x22, -1, 0)
        self.base = b + 4096
        self.libc.mprotect(b, 4096, 0)
        self.libc.mprotect(self.base + self.size, 4096, 0)
    def put(self, data, end=True, align=0):
        """address of a copy of data placed right before the guard page (or at the front)"""
        a = self.base + self.size - len(data) if end else self.base + align
        ctypes.memmove(a, bytes(data), len(data))
        return a

# ------------------------------------------------------------------ main
def vacuity_selftest(ctx):
    """per-run checks of the machinery itself"""
    from . import termtest
    n = termtest.run(seed=ctx.seed + 1000) + termtest.run_anf(ctx.seed + 1000, 10)
    return n

def main(prop_mod, argv):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv: tier = 'thorough'
    if '--quick' in argv: tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    m = importlib.import_module('props.' + prop_mod)
    pid = m.PROP
    ctx = Ctx(pid, tier, seed)
    rc = 1
    try:
        rc = _main(m, pid, ctx, t0)
    finally:
        ctx.close()
    return rc

def _main(m, pid, ctx, t0):
    budget = 700 if ctx.tier == 'quick' else 3600
    fails = []; results = []
    n_self = vacuity_selftest(ctx)
    try:
        n_spec = m.spec_selftest() if hasattr(m, 'spec_selftest') else 0
        jobs = m.plan(ctx)
        results = run_jobs(jobs, deadline=t0 + budget)
    except BuildError as e:
        fails.append({'name': 'build', 'violation': {'obligation': 'verification condition generation', 'msg': str(e), 'unsupported': True}})
    except (E.Unsupported, AssertionError, KeyError, IndexError, OSError) as e:
        fails.append({'name': 'plan', 'violation': {'obligation': 'verification condition generation', 'msg': '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]), 'unsupported': True}})
    fails += [r for r in results if r['violation']]
    cover = summarise(m, ctx, results, n_self)
    nviol = 0
    ev = {'property': pid, 'tier': ctx.tier, 'seed': ctx.seed, 'level': getattr(m, 'LEVEL', 'proof'), 'coverage': cover,
          'assumptions': sorted(set(list(getattr(m, 'ASSUMPTIONS', [])) + [a for r in results for a in r['assumed']])), 'wall_s': 0.0, 'violations': 0}
    rc = 0
    if fails:
        rc = 1; nviol = len(fails)
        replay_dir = os.path.join(VERIF, 'replay'); os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, '%s.json' % pid)
        found = None
        for r in fails[:20]:
            print('FAILED-OBLIGATION property=%s job=%s obligation=%s: %s' % (pid, r['name'], r['violation']['obligation'], r['violation']['msg'][:600].replace('\n', ' | ')))
        if hasattr(m, 'search'):
            try: found = m.search(ctx, fails)
            except Exception as e:
                print('note: search for a failing input ended: %s' % str(e)[:800])
        json.dump({'property': pid, 'failed_obligations': [{'job': r['name'], **{k: v for k, v in r['violation'].items()}} for r in fails], 'failing_input': found,
                   'verified_tree': REPO}, open(path, 'w'), indent=1, default=repr)
        if found: print('failing input: %s' % json.dumps(found, default=repr)[:1500])
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if found else ' no-failing-input-found'))
    ev['violations'] = nviol
    ev['wall_s'] = round(time.time() - t0, 3)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    tot = cover.get('obligations'); print('%s %s: %s obligations, %s discharged, %d job(s), %.1f s' % (pid, 'FAILED' if rc else 'ok', tot, cover.get('discharged'), len(results), ev['wall_s']))
    return rc

def summarise(m, ctx, results, n_self):
    ob = {}; bk = {}
    for r in results:
        tgt = ob if r['kind'] == 'proof' else bk
        for k, v in r['obligations'].items():
            o = tgt.setdefault(k, [0, 0, 0])
            for i in range(3): o[i] += v[i]
    for r in results:
        if r['violation']: ob.setdefault(r['violation']['obligation'], [0, 0, 0])[0] += 1
    tot = sum(v[0] for v in ob.values()); dis = sum(v[1] + v[2] for v in ob.values())
    fns = []
    for r in results:
        for f in r['functions']:
            if f not in fns: fns.append(f)
    contracts = {}
    for r in results:
        for k, v in r['contracts'].items(): contracts[k] = contracts.get(k, 0) + v
    c = {'obligations': tot, 'discharged': dis,
         'checker_cmd': 'bin/check %s' % ctx.prop,
         'trusted_base': list(getattr(m, 'TRUSTED', [])) + TRUSTED,
         'obligations_by_kind': {k: {'generated': v[0], 'by_term_canonicalisation': v[1], 'by_solver_z3': v[2]} for k, v in sorted(ob.items())},
         'functions_under_contract': sorted(set(list(getattr(m, 'FUNCTIONS', [])))),
         'verified_entry_functions': fns, 'callee_contracts_applied': contracts,
         'jobs': [{'name': r['name'], 'kind': r['kind'], 'obligations': sum(v[0] for v in r['obligations'].values()), 'wall_s': round(r['wall'], 2), 'paths_to_return': r['paths'], 'detail': r['detail'][:6]} for r in results],
         'solver_queries': sum(r['queries'] for r in results), 'solver_time_s': round(sum(r['solver_s'] for r in results), 2),
         'paths_reaching_return': sum(r['paths'] for r in results),
         'machinery_selftest_evaluations': n_self,
         'notes': ctx.notes, 'ir_commands': ctx.cmds}
    if bk: c['bounded'] = {k: {'checked': v[0]} for k, v in sorted(bk.items())}
    return c

TRUSTED = ['clang 18 front end (C++ to LLVM IR, -O1 -disable-llvm-passes) and the inlining/SROA/simplifycfg passes of tools/irdump.cc',
           'vc/term.py canonical rewriting, vc/exe.py symbolic semantics of the IR subset (differentially self-tested on every run)', 'z3 4.8.12 / z3-solver']
