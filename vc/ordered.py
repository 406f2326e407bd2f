"""Contracts of LimitedSet and LimitedMap against a mathematical ordered set or map. The state before an operation is any
strictly increasing list (values symbolic, every size); where a key lies relative to the elements is a case distinction
over all positions, between and at elements. Unordered inputs are covered by all weak orders of the inputs."""
from . import term as T, exe as E, stream as ST
from .digest import finish_job
from .container import FATAL, BIG, c32, c64, sx, sgn, install, run_case, lex, live_of
import itertools

HALF = lambda v: T.ashr(v, T.const(1, 32))
ORDERS = {'less': lambda u, v: T.slt(u, v), 'greater': lambda u, v: T.slt(v, u), 'half': lambda u, v: T.slt(HALF(u), HALF(v))}
def weak(k):
    """all weak orders of k things, as rank tuples"""
    return [r for r in itertools.product(range(k), repeat=k) if set(r) == set(range(max(r) + 1))] if k else [()]
def weak2(n, m):
    """weak orders of n + m things of which the first n are strictly increasing"""
    return [r for r in weak(n + m) if list(r[:n]) == sorted(set(r[:n]))]

class OCase:
    """cf: dict with kind, C, D (capacity of the other type), W (values per element), order, flags"""
    def __init__(s, cf, op, n, m, i, j, values=None, rnd=None):
        s.cf, s.op, s.n, s.m, s.i, s.j = cf, op, n, m, i, j
        s.kind, s.C, s.D, s.W, s.order = cf['kind'], cf['C'], cf['D'], cf['W'], ORDERS[cf['order']]
        s.fl = OPS[op][2]; W = s.W
        total = W * (n + max(m, 2) + 1)
        s.x, s.y, s.inp = T.var('x', 32), T.var('y', 32), [T.var('in%d' % k, 32) for k in range(total)]
        if values is not None: s.x, s.y, *s.inp = [c32(v) for v in s.pick(rnd)]
        el = lambda k: tuple(s.inp[W * k:W * k + W])
        s.A = [el(k) for k in range(n)]; s.B = [el(n + k) for k in range(m)]
    def __repr__(s): return 'n=%d m=%d i=%s j=%s' % (s.n, s.m, sgn(s.i), sgn(s.j))
    def ranks(s): return weak2(s.n, s.m)[s.i]
    def pick(s, rnd):
        """concrete values that meet the case's assumptions"""
        n, m, W = s.n, s.m, s.W; o = s.cf['order']
        total = len(s.inp)
        if 's' in s.fl:
            rk = s.ranks(); top = max(rk, default=0) + 2; pool = sorted(rnd.sample(range(-40, 40), top)); key = [pool[r] for r in rk]
        else:
            pool = sorted(rnd.sample(range(-40, 40), max(n, 1) + 1)); key = pool[:n]
            k2 = sorted(rnd.sample(range(-40, 40), m)); k2 = [v for v in k2]
            if rnd.random() < 0.5 and m <= n: k2 = key[:m]
            if 'd' in s.fl: k2 = k2[::-1] if o != 'greater' else k2
            key = key + k2
        def at(p):
            """a doubled key value at position p among the elements"""
            r, eq = divmod(p, 2)
            if eq: return 4 * key[r]
            return 4 * key[r] - 2 if r < n else (4 * key[n - 1] + 2 if n else rnd.randrange(-5, 5) * 2)
        sg = -1 if o == 'greater' else 1; bit = (lambda: rnd.randrange(2)) if o == 'half' else (lambda: 0)
        x = sg * at(s.i) + bit() if 'x' in s.fl else rnd.randrange(-9, 9); y = sg * at(s.j) + bit() if 'y' in s.fl else rnd.randrange(-9, 9)
        inp = []
        for k in key: inp += [sg * 4 * k + bit()] + [rnd.randrange(-99, 99) for _ in range(W - 1)]
        return [x, y] + (inp + [7] * total)[:total]
    def facts(s):
        """the case's assumptions"""
        F = []
        def rel(u, v, c, order=None):
            lt, gt = (order or s.order)(u, v), (order or s.order)(v, u)
            F.extend([lt, T.bnot(gt), T.ne(u, v)] if c < 0 else [gt, T.bnot(lt), T.ne(u, v)] if c > 0 else [T.bnot(lt), T.bnot(gt)] + ([T.eq(u, v)] if s.cf['order'] != 'half' else []))
        ks = [e[0] for e in s.A]; kb = [e[0] for e in s.B]
        if 's' in s.fl:
            rk = s.ranks(); al = ks + kb
            for p in range(len(al)):
                for q in range(p + 1, len(al)): rel(al[p], al[q], (rk[p] > rk[q]) - (rk[p] < rk[q]))
        else:
            for p in range(s.n):
                for q in range(p + 1, s.n): rel(ks[p], ks[q], -1)
            for p in range(s.m):
                for q in range(p + 1, s.m): rel(kb[p], kb[q], -1, (lambda u, v: T.slt(v, u)) if 'd' in s.fl else None)
        for f, v, p in (('x', s.x, s.i), ('y', s.y, s.j)):
            if f not in s.fl: continue
            r, eq = divmod(p, 2)
            for q, k in enumerate(ks): rel(v, k, 0 if eq and q == r else 1 if q < r else -1)
        return F
    # positions of x and y
    @property
    def px(s): return s.i // 2, s.i % 2
    @property
    def py(s): return s.j // 2, s.j % 2

flat = lambda els: [v for e in els for v in e]
def out(ret, a, b=None): return (ret, flat(a), None if b is None else flat(b))
def put(c, el, keep=True):
    r, eq = c.px
    if eq: return out(c64(r), c.A if keep else c.A[:r] + [(c.A[r][0], el[1])] + c.A[r + 1:])
    if c.n == c.C: return FATAL
    return out(c64(r + 100), c.A[:r] + [el] + c.A[r:])
def el(c): return (c.x, c.y)[:c.W]
def erased(c):
    r, eq = c.px
    return out(c64(eq), c.A[:r] + c.A[r + 1:] if eq else c.A)
def rng(c, i, j): return FATAL if not 0 <= i <= j <= c.n else out(c64(i), c.A[:i] + c.A[j:])
def ranked(c, els, rk, have=()):
    """first wins; the result in order of rank"""
    seen = dict()
    for e, r in zip(els, rk):
        if r not in seen:
            seen[r] = e
            if len(seen) > c.C: return None
    return [seen[r] for r in sorted(seen)]
def insert_range(c):
    l = ranked(c, c.A + c.B, c.ranks())
    return FATAL if l is None else out(c64(0), l)
def ctor_range(c):
    rk = c.ranks()
    if 'sorted' in c.cf['flags']:
        if list(rk) != sorted(rk) or len(rk) > c.C: return FATAL
    l = ranked(c, c.B, rk)
    return FATAL if l is None else out(c64(0), l)
def lookup(f): return lambda c: out(c64(f(c, *c.px)), c.A)
def b01(t): return T.zext(t, 64) if t.w == 1 else t
def ltxy(c): return T.ite(c.order(c.x, c.y), c64(1), c64(0))
def idx(c): return FATAL if c.i >= c.n else out(sx(c.A[c.i][-1]), c.A)
def at_index(c):
    if c.i >= c.n: return FATAL
    return out(sx(c.A[c.i][0]), c.A)
def at_(c):
    r, eq = c.px
    return out(sx(c.A[r][1]), c.A) if eq else FATAL
def index(c, el=None):
    r, eq = c.px
    if eq: return out(sx(c.A[r][1]) if el is None else c64(0), c.A if el is None else c.A[:r] + [(c.A[r][0], c.y)] + c.A[r + 1:])
    if c.n == c.C: return FATAL
    return out(c64(0), c.A[:r] + [(c.x, c32(0) if el is None else c.y)] + c.A[r:])
def counts(c): return c64(c.n + 100 * c.C + 10000 * c.C + 1000000 * (c.n == 0) + 10000000 * c.n + 1000000000 * c.n + 100000000000)
def conv(c): return out(c64(0), c.B[::-1] if c.cf['order'] == 'less' else c.B, c.B)

def sizes(C, big=False): return range(C + 1)
def d_none(cf): return ((n, 0, 0, 0) for n in sizes(cf['C']))
def d_x(cf): return ((n, 0, p, 0) for n in sizes(cf['C']) for p in range(2 * n + 1))
def d_xy(cf): return ((n, 0, p, q) for n in sizes(cf['C']) for p in range(2 * n + 1) for q in range(2 * n + 1))
def d_i(cf): return ((n, 0, i, 0) for n in sizes(cf['C']) for i in list(range(n + 2)) + [BIG])
def d_it(cf): return ((n, 0, i, 0) for n in sizes(cf['C']) for i in range(n + 1))
def d_rng(cf): return ((n, 0, i, j) for n in sizes(cf['C']) for i in range(n + 2) for j in range(n + 2))
def d_two(cf): return ((n, m, 0, 0) for n in sizes(cf['C']) for m in sizes(cf['C']))
def d_twod(cf): return ((n, m, 0, 0) for n in sizes(cf['C']) for m in sizes(cf['D']))
def d_src(cf): return ((n, m, i, 0) for n in range(min(cf['C'], 2) + 1) for m in range(3) for i in range(len(weak2(n, m))))
def d_ctor(cf): return ((0, m, i, 0) for m in range(min(cf['C'] + 1, 4) + 1) for i, r in enumerate(weak(m)) if not ('sorted' in cf['flags'] and list(r) == sorted(r) and len(set(r)) < m))
def d_ctor2(cf): return ((0, 2, i, 0) for i, r in enumerate(weak(2)) if not ('sorted' in cf['flags'] and len(set(r)) < 2))
def d_self(cf): return ((n, 0, p, j) for n in range(1, cf['C'] + 1) for p in range(2 * n + 1) for j in range(n))
def d_selfset(cf): return ((n, 0, 0, j) for n in range(1, cf['C'] + 1) for j in range(n))
def d_write(cf): return ((n, 0, i, 0) for n in range(1, cf['C'] + 1) for i in range(n))
def d_zero(cf): return ((0, 0, 0, 0),)
FIND = lookup(lambda c, r, eq: r if eq else c.n)
OPS = {
    'state': (d_none, lambda c: out(c64(0), c.A), ''),
    'insert_copy': (d_x, lambda c: put(c, el(c)), 'x'), 'insert_move': (d_x, lambda c: put(c, el(c)), 'x'),
    'insert_range': (d_src, insert_range, 's'),
    'erase_key': (d_x, erased, 'x'), 'erase_key_mutable': (d_x, erased, 'x'), 'f_erase': (d_x, erased, 'x'),
    'erase_it': (d_it, lambda c: rng(c, c.i, c.i + 1), ''), 'erase_cit': (d_it, lambda c: rng(c, c.i, c.i + 1), ''), 'erase_range': (d_rng, lambda c: rng(c, c.i, c.j), ''),
    'find': (d_x, FIND, 'x'), 'cfind': (d_x, FIND, 'x'), 'contains': (d_x, lookup(lambda c, r, eq: eq), 'x'), 'count': (d_x, lookup(lambda c, r, eq: eq), 'x'),
    'lower': (d_x, lookup(lambda c, r, eq: r), 'x'), 'clower': (d_x, lookup(lambda c, r, eq: r), 'x'), 'upper': (d_x, lookup(lambda c, r, eq: r + eq), 'x'), 'cupper': (d_x, lookup(lambda c, r, eq: r + eq), 'x'),
    'equal': (d_x, lookup(lambda c, r, eq: r + 100 * (r + eq)), 'x'), 'cequal': (d_x, lookup(lambda c, r, eq: r + 100 * (r + eq)), 'x'),
    'index_of': (d_x, lookup(lambda c, r, eq: r if eq else BIG), 'x'),
    'contains_all': (d_xy, lambda c: out(c64(c.px[1] & c.py[1]), c.A), 'xy'), 'contains_any': (d_xy, lambda c: out(c64(c.px[1] | c.py[1]), c.A), 'xy'),
    'contains_all_of': (d_xy, lambda c: out(c64(c.px[1] & c.py[1]), c.A), 'xy'), 'contains_any_of': (d_xy, lambda c: out(c64(c.px[1] | c.py[1]), c.A), 'xy'),
    'at_index': (d_i, at_index, ''), 'clear': (d_none, lambda c: out(c64(0), []), ''), 'self_copy': (d_none, lambda c: out(c64(0), c.A), ''), 'self_move': (d_none, lambda c: out(c64(0), c.A), ''),
    'counts': (d_none, lambda c: out(counts(c), c.A), ''), 'reverse': (d_none, lambda c: out(c64(2), c.A), ''),
    'key_comp': (d_zero, lambda c: out(ltxy(c), c.A), ''), 'value_comp': (d_zero, lambda c: out(ltxy(c), c.A), ''),
    'copy_ctor': (d_two, lambda c: out(ltxy(c), c.A, c.A), ''), 'move_ctor': (d_two, lambda c: out(ltxy(c), [], c.A), ''),
    'copy_assign': (d_two, lambda c: out(c64(1), c.A, c.A), ''), 'move_assign': (d_two, lambda c: out(c64(1), [], c.A), ''),
    'swap': (d_two, lambda c: out(c64(0), c.B, c.A), ''), 'compare': (d_two, lambda c: (lex(flat(c.A), flat(c.B)), flat(c.A), flat(c.B)), ''),
    'compare_other': (d_twod, lambda c: (lex(flat(c.A), flat(c.B)), flat(c.A), flat(c.B)), 'd'),
    'conv_copy_assign': (d_twod, conv, 'd'), 'conv_copy_ctor': (d_twod, conv, 'd'),
    'ctor_default': (d_zero, lambda c: out(c64(0), []), ''), 'ctor_range': (d_ctor, ctor_range, 's'), 'ctor_list2': (d_ctor2, ctor_range, 's'),
    'emplace': (d_x, lambda c: put(c, el(c)), 'x'), 'emplace_move': (d_x, lambda c: put(c, el(c)), 'x'), 'emplace_conv': (d_x, lambda c: put(c, el(c)), 'x'),
    'make_helper': (d_ctor2, ctor_range, 's'), 'make_of': (d_ctor2, ctor_range, 's'), 'make_array': (d_ctor2, ctor_range, 's'), 'make_list': (d_ctor2, ctor_range, 's'),
}
for _n in ('find', 'cfind', 'contains', 'count', 'lower', 'clower', 'upper', 'cupper', 'equal', 'cequal', 'index_of', 'contains_all', 'contains_any'): OPS['f_' + _n] = OPS[_n]
def emplace_self(c): return put(c, (c.x, c.A[c.j][1])) if c.W == 2 else out(c64(c.j), c.A)
SETOPS = dict(OPS); MAPOPS = dict(OPS)
SETOPS['emplace_self'] = (d_selfset, emplace_self, '')
MAPOPS['emplace_self'] = (d_self, emplace_self, 'x')
MAPOPS.update({
    'at': (d_x, at_, 'x'), 'cat': (d_x, at_, 'x'), 'f_at': (d_x, at_, 'x'), 'index': (d_x, index, 'x'), 'index_move': (d_x, index, 'x'), 'index_write': (d_x, lambda c: index(c, 1), 'x'),
    'try_copy': (d_x, lambda c: put(c, el(c)), 'x'), 'try_move': (d_x, lambda c: put(c, el(c)), 'x'),
    'assign_copy': (d_x, lambda c: put(c, el(c), False), 'x'), 'assign_move': (d_x, lambda c: put(c, el(c), False), 'x'),
    'write': (d_write, lambda c: out(c64(0), c.A[:c.i] + [(c.A[c.i][0], c.y)] + c.A[c.i + 1:]), '')})
del MAPOPS['emplace_move'], SETOPS['emplace_conv'], MAPOPS['make_of']
NEEDOPEN = {o for o in MAPOPS if o.startswith('f_')} - {'f_erase'}
STATEFUL = {'compare_other', 'conv_copy_assign', 'conv_copy_ctor', 'ctor_default'}
SMALLB = {'compare_other', 'conv_copy_assign', 'conv_copy_ctor'}
def table(cf):
    t = MAPOPS if cf['W'] == 2 else SETOPS
    skip = set()
    if 'open' not in cf['flags']: skip |= NEEDOPEN
    if 'state' in cf['flags']: skip |= STATEFUL
    if cf['order'] == 'half': skip |= SMALLB
    if 'helpers' not in cf['flags']: skip |= {o for o in t if o.startswith('make_')}
    if 'sorted' in cf['flags']: skip |= {'conv_copy_ctor'} & set()
    if cf.get('ops'): t = {o: t[o] for o in t if o in cf['ops']}
    return {o: v for o, v in t.items() if o not in skip}
def case(cf, op, d, rnd=None):
    global OPS
    OPS = MAPOPS if cf['W'] == 2 else SETOPS
    return OCase(cf, op, *d, values=rnd and True, rnd=rnd)

def job_ordered(res, js, cf, ops):
    from . import drive
    mod = drive.load_module(js); ex = E.Exec(mod, loop_limit=400); ex.returns = 0; install(ex)
    tab = table(cf)
    for op in ops:
        if 'vh_' + op not in mod.fns: raise ST.Violation('contract', 'no entry ' + op)
        domain, model, _ = tab[op]
        for d in domain(cf):
            c = case(cf, op, d); want = model(c); r0, f0 = ex.returns, ex.fatals
            run_case(ex, mod, op, c, want, None, live_of(c, want), '')
            if ex.returns == r0 and ex.fatals == f0: raise ST.Violation('reachability', '%s %r never returns' % (op, c))
    ex.returns += ex.fatals
    finish_job(res, ex)
