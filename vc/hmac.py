"""Contract of the generic HMAC (RFC 2104) over an abstract digest algorithm.

The algorithm's interface is used through its contract only (what P01..P06 prove of the real algorithms):
a stream state stands for the byte string it has been given (ghost), init() is "", update(s, d) is s || d,
final(s) and digest(d) are H of the byte string, H being an uninterpreted function of it.
    represents(state, key, m):  inner == (K' xor ipad) || m  and  opad == K' xor opad bytes
    init(key) ensures represents(state, key, "");  update(state, d): represents(., key, m) -> represents(., key, m || d)
    final(state) == H((K' xor opad) || H((K' xor ipad) || m)), state unchanged;  Digest(key, m) the same
for every key length (0..B one by one, and every longer key) and every data length."""
from . import term as T, exe as E, stream as ST
from .digest import lay, require, bad, finish_job, le_bytes

class Ghost:
    """byte strings: tuples of 8-bit terms and segments ('seg', region, off, len); interned as handles"""
    BASE = 0x5EED000000000000
    def __init__(self): self.ids = {}; self.msgs = []
    def handle(self, m):
        m = tuple(m)
        i = self.ids.get(m)
        if i is None: i = self.ids[m] = len(self.msgs); self.msgs.append(m)
        return T.const(self.BASE + i, 64)
    def msg(self, t):
        if t.op == 'c' and 0 <= t.val - self.BASE < len(self.msgs): return self.msgs[t.val - self.BASE]
        return None
    def H(self, m, B, D):
        name, args = 'H%d_%d:' % (B, D), []
        for x in m:
            if isinstance(x, T.Term): name += 'b'; args.append(x)
            elif x[0] == 'seg': name += 's(%s)' % x[1]; args += [x[2], x[3]]
            else: name += repr(x)
        u = T.uf(name, 8 * D, *args)
        return [T.ext(u, 8 * k + 7, 8 * k) for k in range(D)]
    def append(self, m, x):
        if x and isinstance(x, tuple) and m and isinstance(m[-1], tuple) and m[-1][0] == 'seg' and m[-1][1] == x[1] and T.add(m[-1][2], m[-1][3]) is x[2]:
            return m[:-1] + (('seg', x[1], m[-1][2], T.add(m[-1][3], x[3])),)
        return m + (x,)
    def data(self, ex, st, p, n, m):
        n = ex.resolve(st, n)
        if n.op == 'c':
            if n.val == 0: return m
            v = ex.load(st, p, n.val)
            return m + tuple(le_bytes(v) if n.val > 1 else [v])
        if not isinstance(p, E.Ptr) or p.obj is None or p.obj.region is None or st.mem.cells(p.obj) is not None: raise E.Unsupported('update with data of symbolic length that is not the input')
        ex.oblige(st, 'memory safety', T.band(T.ule(p.off, p.obj.size), T.ule(n, T.sub(p.obj.size, p.off))), 'data handed to the algorithm lies in the input')
        return self.append(m, ('seg', p.obj.region, p.off, n))
    def externs(self, B, D):
        def init(ex, st, fr, i, a): fr.env[i['id']] = self.handle(())
        def need(ex, st, t):
            m = self.msg(t)
            ex.oblige(st, 'the algorithm is given an initialised stream state', T.boolc(m is not None))
            return m
        def update(ex, st, fr, i, a):
            m = need(ex, st, ex.load(st, a[0], 8))
            if m is None: return ('dead',)
            ex.store(st, a[0], self.handle(self.data(ex, st, a[1], a[2], m)), 8)
        def final(ex, st, fr, i, a):
            m = need(ex, st, a[0])
            if m is None: return ('dead',)
            put(ex, st, a[1], self.H(m, B, D))
        def digest(ex, st, fr, i, a): put(ex, st, a[4], self.H(self.data(ex, st, a[2], a[3], ()), B, D))
        def put(ex, st, p, bs):
            for k, v in enumerate(bs): ex.store(st, E.Ptr(p.obj, T.add(p.off, T.const(k, 64))), v, 1)
        return {'abs_init': init, 'abs_update': update, 'abs_final': final, 'abs_digest': digest}

SIZES = [(64, 16), (64, 20), (64, 28), (64, 32), (128, 28), (128, 32), (128, 48), (128, 64), (144, 28), (136, 32), (104, 48), (72, 64)]

def job(res, js, so, B, D, entry, kind):
    from . import drive
    mod = drive.load_module(js); N = 'a%d_%d' % (B, D)
    fn = mod.fns['vh_%s_%s' % (N, entry)]
    L = lay(so, N, ('size', 'inner', 'opad'))
    G = Ghost()
    ex = E.Exec(mod, loop_limit=300); ex.extern = G.externs(B, D); ex.returns = 0
    xor = lambda bs, c: [T.xor(b, T.const(c, 8)) for b in bs]
    for kl in (range(B + 2) if kind in ('init', 'digest') else [0]):
        before = ex.returns
        st = E.State()
        so_ = E.Obj('state', L['size'], 'arg', ro=(kind == 'final')); out = E.Obj('out', D, 'arg')
        n = T.const(kl, 64) if kl <= B else T.var('klen', 64)
        key = E.Obj('key', n, 'arg', ro=True, region='key'); ln = T.var('len', 64); data = E.Obj('data', ln, 'arg', ro=True, region='data')
        for o in (so_, out, key, data): E.Exec.objs_by_id[o.id] = o
        st.assume(T.ule(ln, T.const(1 << 61, 64)))
        if kl > B: st.assume(T.ult(T.const(B, 64), n)); st.assume(T.ule(n, T.const(1 << 61, 64)))
        seg = ('seg', 'data', E.C0, ln)
        K = ([T.sel('key', T.const(j, 64)) for j in range(kl)] if kl <= B else G.H((('seg', 'key', E.C0, n),), B, D))
        K = K + [T.const(0, 8)] * (B - len(K))
        m0 = tuple(xor(K, 0x36)); op = xor(K, 0x5c)
        cells = st.mem.wcells(so_)
        for k in range(L['size']): cells[k] = (T.var('junk%d' % k, 8), 0)
        if kind in ('update', 'final'):
            m0 = (('any byte string',),); op = [T.var('o%d' % j, 8) for j in range(B)]
            h = G.handle(m0)
            for k in range(8): cells[L['inner'] + k] = (h, k)
            for k in range(B): cells[L['opad'] + k] = (op[k], 0)
        S, P, O = E.Ptr(so_, E.C0), E.Ptr(data, E.C0), E.Ptr(out, E.C0)
        args = {'init': [S, E.Ptr(key, E.C0), n], 'update': [S, P, ln], 'final': [S, O], 'digest': [E.Ptr(key, E.C0), n, P, ln, O]}[kind]
        where = ' with %s key bytes' % (kl if kl <= B else 'more than %d' % B)
        for s2, _ in ex.run([ex.call_state(fn, args, st)]):
            ex.returns += 1; bad(ex)
            mac = lambda m: G.H(tuple(op) + tuple(G.H(m, B, D)), B, D)
            if kind in ('init', 'update'):
                want = G.append(m0, seg) if kind == 'update' else m0
                got = ex.load_int(s2, so_, L['inner'], 8); gm = G.msg(got); want = tuple(want)
                same = gm is not None and len(gm) == len(want) and all(isinstance(a, T.Term) == isinstance(b, T.Term) and (isinstance(a, T.Term) or a == b) for a, b in zip(gm, want))
                require(ex, kind + ': inner stream has been given the padded key and the message',      # byte by byte when the strings have the same shape
                        [(a, b) for a, b in zip(gm, want) if isinstance(a, T.Term)] + [(G.handle(()), G.handle(()))] if same else [(got, G.handle(want))], s2.pc, where)
                require(ex, kind + ': outer pad', [(ex.load_int(s2, so_, L['opad'] + k, 1), op[k]) for k in range(B)], s2.pc, where)
            else:
                require(ex, kind + ': result equals the RFC 2104 MAC', list(zip([ex.load_int(s2, out, i, 1) for i in range(D)], mac(m0 if kind == 'final' else G.append(m0, seg)))), s2.pc, where)
        bad(ex)
        if ex.returns == before: raise ST.Violation('reachability', '%s never returns%s' % (fn.dem, where))
    finish_job(res, ex)
