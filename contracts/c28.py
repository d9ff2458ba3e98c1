"""NN-Descent and the VP tree: whatever the random draws, only pairs within the radius are handed over."""
from contracts.common import *
from contracts import clusters as CL
from pv.engine import S as SV

I, RS = z3.IntSort(), z3.RealSort()
IS = ITEM.sort()
IP, LI = TTup(INT, INT), TList(INT)
CLOSE = z3.Function('closeness', IS, IS, RS)         # the similarity, or minus the distance
a, b, p, q, w = z3.Ints('a! b! p! q! w!')
ip = z3.Const('ip!', IP.sort())
PATH = 'fog/clustering/nn_descent.py:'


def sim(E, st, args): return CLOSE(*args)


def src(S):
    g = S._E.args0raw['data']
    return (g.n, g.arr) if isinstance(g, Gen) else (S.arg('data').n, S.arg('data').arr)


def pre(S):
    n, arr = src(S)
    x, y = z3.Consts('x! y!', IS)
    k = S._E.args0raw['k']
    return [n >= 0, forall([x, y], CLOSE(x, y) == CLOSE(y, x), CLOSE(x, y))] + ([] if k is None else [S.arg('k') >= 1])


def level(S):
    r = S.arg('radius')
    return r if S._E.args0raw['distance'] is None else -r


# ------------------------------------------------------------------------------------------- externals
def randint(E, st, args, kw, node):
    lo, hi = E.num(args[0]), E.num(args[1])
    E.oblige(st, 'the range to draw from is not empty', lo <= hi, node, 'no-raise')
    x = E.fresh('drawn', I)
    st.assume(lo <= x, x <= hi)
    return [(st, x)]


def heapify(E, st, args, kw, node):
    c = E.read(st, args[0])
    if c.t is None: return [(st, None)]
    arr = E.fresh('heap', c.arr.sort())
    f = z3.Function('heap_from!%d' % next(E.counter), I, I)
    st.assume(forall([p], implies(z3.And(0 <= p, p < c.n), z3.And(0 <= f(p), f(p) < c.n, arr[p] == c.arr[f(p)])), arr[p]))
    E.write(st, args[0], Lst(c.n, arr, c.t))
    return [(st, None)]


def heapreplace(E, st, args, kw, node):
    c = E.read(st, args[0])
    E.oblige(st, 'the heap is not empty', c.n >= 1, node, 'no-raise')
    x = E.embed(st, args[1], c.t)
    arr = E.fresh('heap', c.arr.sort())
    f = z3.Function('heap_from!%d' % next(E.counter), I, I)
    st.assume(forall([p], implies(z3.And(0 <= p, p < c.n), z3.Or(arr[p] == x, z3.And(0 <= f(p), f(p) < c.n, arr[p] == c.arr[f(p)]))), arr[p]))
    E.write(st, args[0], Lst(c.n, arr, c.t))
    return [(st, None)]


def log2(E, st, args, kw, node):
    x = E.num(args[0])
    r = E.fresh('log2', RS)
    st.assume(implies(x >= 2, r >= 1))
    st.ghost = dict(st.ghost)
    st.ghost['kk'] = z3.If(z3.ToInt(r) <= x - 1, z3.ToInt(r), x - 1)
    return [(st, r)]


EXT = {'random.Random': lambda E, st, args, kw, node: [(st, Opaque('rng'))], 'rng.randint': randint, 'heapq.heapify': heapify, 'heapq.heapreplace': heapreplace, 'math.log2': log2}


# ------------------------------------------------------------------------------------------- callee contracts
def sample(E, st, env, node):
    """contract of sample"""
    n, k, i = E.num(env['N']), E.num(env['k']), E.num(env['i'])
    E.oblige(st, 'no more indices are asked for than there are others', z3.And(0 <= i, i < n, k <= n - 1), node, 'call')
    arr = E.fresh('sampled', z3.ArraySort(I, I))
    m = E.fresh('nsampled', I)
    st.assume(m == z3.If(k > 0, k, 0), forall([p], implies(z3.And(0 <= p, p < m), z3.And(0 <= arr[p], arr[p] < n, arr[p] != i)), arr[p]))
    return [(st, E.new_cell(st, Lst(m, arr, INT)))]


def sample_pre(S): return [S.arg('N') >= 2, 0 <= S.arg('i'), S.arg('i') < S.arg('N'), S.arg('k') <= S.arg('N') - 1]


def sample_inv(S):
    if S.S.c.t is None: return [S.arg('k') >= -10**9]
    return [forall([p], implies(S.S.set[p], z3.And(0 <= p, p < S.arg('N'), p != S.arg('i'))), S.S.set[p]), z3.Or(TY.card(S.S.set) <= S.arg('k'), TY.card(S.S.set) == 0)]


def sample_post(S):
    R = S.result
    k = S.arg('k')
    if R.c.t is None: return [k <= 0]
    return [R.n == z3.If(k > 0, k, 0), forall([p], implies(z3.And(0 <= p, p < R.n), z3.And(0 <= R.arr[p], R.arr[p] < S.arg('N'), R.arr[p] != S.arg('i'))), R.arr[p])]


def rows(L, n, N, arr, row=None):
    """every cell of the n lists is an index below N"""
    return forall([p, q], implies(z3.And(0 <= p, p < n, 0 <= q, q < L.len(arr[p])), z3.And(0 <= L.arr(arr[p])[q], L.arr(arr[p])[q] < N)), L.arr(arr[p])[q])


def reverse(E, st, env, node):
    """contract of reverse"""
    c = E.read(st, env['B'])
    E.oblige(st, 'every neighbour is an index', z3.And(*linked_raw(c, c.n)), node, 'call')
    arr = E.fresh('reversed', z3.ArraySort(I, LI.sort()))
    st.assume(rows(LI, c.n, c.n, arr), forall([p], implies(z3.And(0 <= p, p < c.n), LI.len(arr[p]) >= 0), arr[p]))
    return [(st, E.new_cell(st, Lst(c.n, arr, LI)))]


def linked_raw(c, N):
    L = c.t
    j = lambda x: L.t.get(1, x)
    cell = L.arr(c.arr[p])[q]
    return [forall([p, q], implies(z3.And(0 <= p, p < c.n, 0 <= q, q < L.len(c.arr[p])), z3.And(0 <= j(cell), j(cell) < N)), cell)]


def rev_pre(S): return linked_raw(S._E.read(S._st, S._E.args0raw['B']), S.arg('B').n)


def rev_inv(S):
    if S.R.c.t is None or S.R.c.t.t is None: return [S.R.n == S.arg('B').n]
    n = S.arg('B').n
    L = S.R.c.t
    return [S.R.n == n, rows(L, n, n, S.R.arr), forall([p], implies(z3.And(0 <= p, p < n), L.len(S.R.arr[p]) >= 0), S.R.arr[p])]


def rev_post(S):
    R = S.result
    n = S.arg('B').n
    if R.c.t is None: return [n == 0, R.n == n]
    if R.c.t.t is None: return [R.n == n]
    return [R.n == n, rows(R.c.t, n, n, R.arr)]


def clusters(E, st, env, node):
    """callee contract of clusters_from_pairs on positions"""
    c = CL.Clusters(E, st, env)
    if env['fuzzy'] is not True: raise Stale('pairs may come twice')
    x, y = IP.get(0, ip), IP.get(1, ip)
    E.oblige(st, 'precondition no item is paired with itself of clusters_from_pairs', forall([ip], implies(c.bag[ip] > 0, x != y), c.bag[ip]), node, 'call')
    n = E.fresh('nclusters', I)
    arr = E.fresh('clusters', z3.ArraySort(I, LI.sort()))
    wit = z3.Function('pair_of', I, I, IP.sort())
    u = wit(p, q)
    mem = LI.arr(arr[p])[q]
    st.assume(n >= 0, forall([p], implies(z3.And(0 <= p, p < n), LI.len(arr[p]) >= 0), arr[p]),
              forall([p, q], implies(z3.And(0 <= p, p < n, 0 <= q, q < LI.len(arr[p])), z3.And(c.bag[u] > 0, z3.Or(mem == IP.get(0, u), mem == IP.get(1, u)))), mem))
    st.ghost = dict(st.ghost); st.ghost['asked'] = c; st.ghost['clusters'] = (n, arr)
    return [(st, Gen(n=n, arr=arr, t=LI, depth=E.loopdepth))]


# ------------------------------------------------------------------------------------------- nn_descent
def links(S, top, N=None):
    """the neighbours of the first items are others, with their similarity"""
    B = S.B
    if B.c.t is None or B.c.t.t is None: return [top == 0, B.n == 0]
    n, d = src(S)
    L = B.c.t
    T = L.t
    cell = L.arr(B.arr[p])[q]
    s, j = T.get(0, cell), T.get(1, cell)
    return [B.n == top, forall([p], implies(z3.And(0 <= p, p < top), z3.And(L.len(B.arr[p]) == KK(S), L.len(B.arr[p]) >= 1)), B.arr[p]), KK(S) >= 1, KK(S) <= n - 1,
            forall([p, q], implies(z3.And(0 <= p, p < top, 0 <= q, q < L.len(B.arr[p])), z3.And(0 <= j, j < n, j != p, s == CLOSE(d[p], d[j]))), cell)]


def KK(S):
    k = S._E.args0raw['k']
    n, _ = src(S)
    if k is None: return S._st.ghost['kk']
    k = S.arg('k')
    return z3.If(k <= n - 1, k, n - 1)


def cands(S, top):
    C = S.C
    if C.c.t is None or C.c.t.t is None: return [C.n == top]
    n, d = src(S)
    return [C.n == top, rows(C.c.t, top, n, C.arr), forall([p], implies(z3.And(0 <= p, p < top), C.c.t.len(C.arr[p]) >= 0), C.arr[p])]


def whole(S): return links(S, src(S)[0])


def bag_sound(S, bag):
    if bag is None: return z3.BoolVal(True)
    x, y = IP.get(0, ip), IP.get(1, ip)
    n, d = src(S)
    return forall([ip], z3.And(bag[ip] >= 0, implies(bag[ip] > 0, z3.And(0 <= x, x < n, 0 <= y, y < n, x != y, CLOSE(d[x], d[y]) >= level(S)))), bag[ip])


def asked(S):
    c = S._st.ghost.get('asked')
    return c


def post_pairs(S):
    c = asked(S)
    if c is None: return src(S)[0] < 2
    return bag_sound(S, c.bag)


def post_bounds(S):
    c, r = asked(S), S._E.args0raw
    if c is None: return src(S)[0] < 2
    g = c.env['max_size']; m = r['max_size']
    return z3.And(S._E.lift(c.env['min_size']) == r['min_size'], z3.And(g.inf == m.inf, z3.Or(m.inf, g.val == m.val)), z3.BoolVal(c.env['mode'] is r['mode'] or c.env['mode'] == r['mode']) if not isinstance(r['mode'], z3.ExprRef) else c.env['mode'] == r['mode'])


def on_yield(OUT):
    def f(S, v):
        if v.c.kind != 'list': raise Stale('a cluster is not a list')
        n, arr = S._st.ghost['clusters']
        k = S.ghost(('k', OUT))
        d = src(S)[1]
        return [('as many members as the cluster of positions', v.n == LI.len(arr[k])), ('they are the items at these positions', forall([q], implies(z3.And(0 <= q, q < v.n), v.arr[q] == d[LI.arr(arr[k])[q]]), v.arr[q]))], {'yielded': S.ghost('yielded') + 1}
    return f


def post_all(S):
    if asked(S) is None: return S.ghost('yielded') == 0
    return S.ghost('yielded') == S._st.ghost['clusters'][0]


NN = [('nn_descent', k) for k in range(8)]
F2 = TFn([ITEM, ITEM], REAL, CLOSE)
DISTF = TFn([ITEM, ITEM], REAL, lambda x, y: -CLOSE(x, y))


def cases(extra=None):
    out = []
    for dn, d in (('a list', TList(ITEM)), ('a stream', TStream(ITEM))):
        for fn, s, t in (('similarity', F2, None), ('distance', None, DISTF)):
            for kn, k in (('any k', INT), ('default k', None)):
                out.append(Case('%s, %s, %s' % (dn, fn, kn), dict({'data': d, 'radius': REAL, 'similarity': s, 'distance': t, 'k': k, 'min_size': INT, 'max_size': TExt(), 'mode': STR, 'seed': None}, **(extra or {})), pre=pre))
    return out


# ------------------------------------------------------------------------------------------- nn_descent_full
GOOD = z3.Function('any_predicate', IP.sort(), z3.BoolSort())     # uninterpreted: what holds of it holds of every predicate
GOODI = z3.Function('any_predicate_on_int', I, z3.BoolSort())


def good(t): return GOODI if t is INT else GOOD


def listed(v):
    c = v.c
    return forall([p], implies(z3.And(0 <= p, p < c.n), good(c.t)(c.arr[p])), c.arr[p])


def full_pre(S): return [S.arg('k') >= 0, listed(S.arg('L'))] + ([S.arg('k') <= S.arg('L').n] if 'shuffle' in S._E.contract.target else [])


def moved(E, st, ref):
    """the list is permuted: every member is one of those before"""
    c = E.read(st, ref)
    if c.t is None: return None
    arr = E.fresh('shuffled', c.arr.sort())
    f = z3.Function('moved_from!%d' % next(E.counter), I, I)
    st.assume(forall([p], implies(z3.And(0 <= p, p < c.n), z3.And(0 <= f(p), f(p) < c.n, arr[p] == c.arr[f(p)])), arr[p]))
    E.write(st, ref, Lst(c.n, arr, c.t))
    return c


def shuffle_k(E, st, env, node):
    """contract of shuffle_k"""
    E.oblige(st, 'precondition of shuffle_k', z3.And(0 <= E.num(env['k']), E.num(env['k']) <= E.read(st, env['L']).n), node, 'call')
    moved(E, st, env['L'])
    return [(st, None)]


def sample_full(E, st, env, node):
    """contract of sample_full"""
    k = E.num(env['k'])
    E.oblige(st, 'precondition of sample_full', k >= 0, node, 'call')
    c = moved(E, st, env['L'])
    if c is None: return [(st, env['L'])]
    m = E.fresh('nkept', I)
    arr = E.fresh('kept', c.arr.sort())
    f = z3.Function('kept_from!%d' % next(E.counter), I, I)
    st.assume(m == z3.If(c.n <= k, c.n, k), forall([p], implies(z3.And(0 <= p, p < m), z3.And(0 <= f(p), f(p) < c.n, arr[p] == c.arr[f(p)])), arr[p]))
    return [(st, E.new_cell(st, Lst(m, arr, c.t)))]


def shuffle_inv(S): return [S.i >= -1, S.i <= S.arg('k'), S.L.n == S.arg('L').n, S.last_i == S.arg('L').n - 1, z3.Or(S.i < S.arg('k'), S.i == -1), listed(S.L)]


def sets(c, N):
    """every member of the sets is an index"""
    return forall([p, q], implies(z3.And(0 <= p, p < c.n, c.arr[p][q]), z3.And(0 <= q, q < N)), c.arr[p][q])


def revf_pre(S):
    o, n = S.arg('old'), S.arg('new')
    return [o.n == n.n, sets(o, o.n), sets(n, o.n)]


def revf_inv(S):
    n = S.arg('old').n
    out = []
    for v in (S.old_prime, S.new_prime):
        out.append(v.n == n)
        if v.c.t is None or v.c.t.t is None: continue
        out += [rows(v.c.t, n, n, v.arr), forall([p], implies(z3.And(0 <= p, p < n), v.c.t.len(v.arr[p]) >= 0), v.arr[p])]
    return out


def revf_post(S):
    n = S.arg('old').n
    out = []
    for v in [S._E.spec(S._st, x) for x in S.rawresult.items]:
        out.append(v.n == n)
        if v.c.t is not None and v.c.t.t is not None: out.append(rows(v.c.t, n, n, v.arr))
    return out


def reverse_full(E, st, env, node):
    """contract of reverse_full"""
    o, n = E.read(st, env['old']), E.read(st, env['new'])
    if o.t is None or n.t is None: raise Unsupported('untyped')
    E.oblige(st, 'precondition of reverse_full', z3.And(o.n == n.n, sets(o, o.n), sets(n, o.n)), node, 'call')
    out = []
    for w_ in 'on':
        arr = E.fresh('reversed', z3.ArraySort(I, LI.sort()))
        st.assume(rows(LI, o.n, o.n, arr), forall([p], implies(z3.And(0 <= p, p < o.n), LI.len(arr[p]) >= 0), arr[p]))
        out.append(E.new_cell(st, Lst(o.n, arr, LI)))
    return [(st, Tup(out))]


def split(S, top):
    out = []
    for v in (S.old, S.new):
        out.append(v.n == top)
        if v.c.t is not None: out.append(sets(v.c, src(S)[0]))
    return out


def primes(S):
    N = src(S)[0]
    out = []
    for v in (S.old_prime, S.new_prime):
        out += [v.n == N, rows(LI, N, N, v.arr), forall([p], implies(z3.And(0 <= p, p < N), LI.len(v.arr[p]) >= 0), v.arr[p])]
    return out


def fresh_ones(S):
    """positions of the neighbours in the heap, and their indices"""
    n = S.n
    N = src(S)[0]
    out = []
    if n.c.t is not None: out.append(forall([p], implies(z3.And(0 <= p, p < n.n), z3.And(0 <= IP.get(0, n.arr[p]), IP.get(0, n.arr[p]) < KK(S), 0 <= IP.get(1, n.arr[p]), IP.get(1, n.arr[p]) < N)), n.arr[p]))
    return out


def old_ones(S):
    o = S.o
    return [] if o.c.t is None else [forall([q], implies(o.set[q], z3.And(0 <= q, q < src(S)[0])), o.set[q])]


NF = [('nn_descent_full', k) for k in range(12)]


def full_extra(S): return pre(S) + [S.arg('rho') >= 0]


def fcases():
    return [Case(c.name, dict(c.params, rho=REAL, delta=REAL), pre=full_extra) for c in cases() if c.name in ('a list, similarity, any k', 'a list, distance, default k', 'a stream, similarity, default k', 'a stream, distance, any k')]


# ------------------------------------------------------------------------------------------- vp_tree
VP = ('vp_tree', 0)
DIST = z3.Function('distance', IS, IS, RS)
DATA = z3.Function('is_an_item', IS, z3.BoolSort())
IX = z3.Function('index_of', IS, I)
BALL = z3.Function('number_within_radius', IS, I)
y_ = z3.Const('y!', IS)
NB = TTup(ITEM, REAL)


def vp_pre(S):
    n, d = src(S)
    return [n >= 0, S.arg('radius') >= 0, forall([y_], DIST(y_, y_) == 0, DATA(y_)), forall([p], implies(z3.And(0 <= p, p < n), DATA(d[p])), d[p]), forall([y_], implies(DATA(y_), z3.And(0 <= IX(y_), IX(y_) < n, d[IX(y_)] == y_)), DATA(y_)),
            forall([p, q], implies(z3.And(0 <= p, p < q, q < n), d[p] != d[q]), z3.MultiPattern(d[p], d[q]))]


def near(S, x, y): return z3.And(DATA(y), DIST(x, y) <= S.arg('radius'))


def vptree(E, st, args, kw, node):
    S = SV(E, st, None)
    n, d = src(S)
    c = E.read(st, args[0])
    E.oblige(st, 'the tree is built on all items', z3.And(c.n == n, forall([p], implies(z3.And(0 <= p, p < n), c.arr[p] == d[p]), c.arr[p])), node, 'call')
    if args[1] is not E.args0raw['distance']: raise Stale('the tree is built with another function')
    return [(st, Opaque('vptree'))]


def in_radius(E, st, args, kw, node):
    x = E.lift(args[0])
    S = SV(E, st, None)
    r = E.num(args[1])
    E.oblige(st, 'queried with the radius', r == S.arg('radius'), node, 'call')
    arr = E.fresh('found', z3.ArraySort(I, NB.sort()))
    at = z3.Function('found_at!%d' % next(E.counter), IS, I)
    it = lambda i: NB.get(0, arr[i])
    st.assume(BALL(x) >= 0, forall([p], implies(z3.And(0 <= p, p < BALL(x)), z3.And(near(S, x, it(p)), NB.get(1, arr[p]) == DIST(x, it(p)), at(it(p)) == p)), arr[p]),
              forall([y_], implies(near(S, x, y_), z3.And(0 <= at(y_), at(y_) < BALL(x), it(at(y_)) == y_)), DATA(y_)))
    st.ghost = dict(st.ghost); st.ghost['at'] = at
    return [(st, E.new_cell(st, Lst(BALL(x), arr, NB)))]


def vp_yield(S, v):
    if v.c.kind != 'list': raise Stale('a cluster is not a list')
    n, d = src(S)
    x = d[S.ghost(('k', VP))]
    cov = S.ghost('covered')
    at = S._st.ghost['at']
    mx = S._E.args0raw['max_size']
    new = S._E.fresh('covered', cov.sort())
    S._st.assume(forall([y_], new[y_] == z3.Or(cov[y_], near(S, x, y_)), new[y_]))
    return [('its centre was not seen yet', z3.Not(cov[x])), ('all within the radius', forall([p], implies(z3.And(0 <= p, p < v.n), near(S, x, v.arr[p])), v.arr[p])),
            ('everything within the radius', forall([y_], implies(near(S, x, y_), z3.And(at(y_) < v.n, at(y_) >= 0, v.arr[at(y_)] == y_)), DATA(y_))),
            ('no item twice', forall([p, q], implies(z3.And(0 <= p, p < q, q < v.n), v.arr[p] != v.arr[q]), z3.MultiPattern(v.arr[p], v.arr[q]))),
            ('size bounds', z3.And(v.n >= S.arg('min_size'), z3.Or(mx.inf, v.n <= mx.val)))], {'covered': new}


def vp_done(S, top):
    n, d = src(S)
    mx = S._E.args0raw['max_size']
    return forall([p], implies(z3.And(0 <= p, p < top), z3.Or(S.ghost('covered')[d[p]], BALL(d[p]) < S.arg('min_size'), z3.And(z3.Not(mx.inf), BALL(d[p]) > mx.val))), d[p])


def vp_inv(S):
    n, d = src(S)
    cov = S.ghost('covered')
    out = [vp_done(S, S.k)]
    if S.visited.c.t is None: out.append(forall([y_], z3.Not(cov[y_]), cov[y_]))
    else: out += [forall([y_], S.visited.set[y_] == cov[y_], S.visited.set[y_]), forall([y_], S.visited.set[y_] == cov[y_], cov[y_])]
    return out


VEXT = {'phylactery.VPTree': vptree, 'vptree.neighbors_in_radius': in_radius}
F3 = TFn([ITEM, ITEM], REAL, DIST)


CONTRACTS = [
    Contract(PATH + 'sample', [Case('', {'rng': lambda E, st: Opaque('rng'), 'N': INT, 'k': INT, 'i': INT}, pre=sample_pre)], externals=EXT, loops={('sample', 0): Loop([('others drawn so far', sample_inv)])}, post=[('k indices of others', sample_post)]),
    Contract(PATH + 'reverse', [Case('', {'B': TList(TList(TTup(REAL, INT)))}, pre=rev_pre)], loops={('reverse', 0): Loop([('indices', rev_inv)]), ('reverse', 1): Loop([('indices', rev_inv)])}, post=[('lists of indices', rev_post)]),
    Contract(PATH + 'nn_descent', cases(), yields=False, externals=EXT, summaries={'sample': sample, 'reverse': reverse, 'clusters_from_pairs': clusters}, ghost={'yielded': z3.IntVal(0)}, on_yield=on_yield(NN[6]),
             loops={NN[0]: Loop([('neighbours so far', lambda S: links(S, S.k))]), NN[1]: Loop([('neighbours', whole)]), NN[2]: Loop([('neighbours', whole), ('candidates so far', lambda S: cands(S, S.k))]),
                    NN[3]: Loop([('neighbours', whole)]), NN[4]: Loop([('neighbours', whole)]), NN[5]: Loop([('neighbours', whole)]),
                    ('clustering', 0): Loop([('pairs so far', lambda S: bag_sound(S, S.bag))]), ('clustering', 1): Loop([('pairs so far', lambda S: bag_sound(S, S.bag))]), NN[6]: Loop([('one cluster each', lambda S: S.ghost('yielded') == S.k)])},
             post=[('only pairs within the radius', post_pairs), ('bounds and mode are handed over', post_bounds), ('every cluster is yielded', post_all)]),
    Contract(PATH + 'shuffle_k', [Case('pairs', {'rng': lambda E, st: Opaque('rng'), 'L': TList(IP), 'k': INT}, pre=full_pre), Case('indices', {'rng': lambda E, st: Opaque('rng'), 'L': LI, 'k': INT}, pre=full_pre)], externals=EXT, mutates=['L'],
             loops={('shuffle_k', 0): Loop([('same members', shuffle_inv)])}, post=[('same members', lambda S: [S.L.n == S.arg('L').n, listed(S.L)])]),
    Contract(PATH + 'sample_full', [Case('pairs', {'rng': lambda E, st: Opaque('rng'), 'L': TList(IP), 'k': INT}, pre=full_pre), Case('indices', {'rng': lambda E, st: Opaque('rng'), 'L': LI, 'k': INT}, pre=full_pre)], externals=EXT, summaries={'shuffle_k': shuffle_k}, mutates=['L'],
             post=[('members of the list', lambda S: [listed(S.result), listed(S.L), S.result.n == z3.If(S.arg('L').n <= S.arg('k'), S.arg('L').n, S.arg('k'))])]),
    Contract(PATH + 'reverse_full', [Case('', {'old': TList(TSet(INT)), 'new': TList(TSet(INT))}, pre=revf_pre)], loops={('reverse_full', k): Loop([('indices', revf_inv)]) for k in range(3)}, post=[('lists of indices', revf_post)]),
    Contract(PATH + 'nn_descent_full', fcases(), yields=False, externals=EXT, summaries={'sample': sample, 'sample_full': sample_full, 'reverse_full': reverse_full, 'clusters_from_pairs': clusters}, ghost={'yielded': z3.IntVal(0)}, on_yield=on_yield(NF[9]),
             loops={NF[0]: Loop([('neighbours so far', lambda S: links(S, S.k))]), NF[1]: Loop([('neighbours', whole)]), NF[2]: Loop([('neighbours', whole), ('split so far', lambda S: split(S, S.k))]),
                    NF[3]: Loop([('neighbours', whole), ('old', old_ones), ('new', fresh_ones)]), NF[4]: Loop([('neighbours', whole)]),
                    NF[5]: Loop([('neighbours', whole), ('reverse lists', primes), ('split', lambda S: split(S, src(S)[0]))]), NF[6]: Loop([('neighbours', whole)]), NF[7]: Loop([('neighbours', whole)]), NF[8]: Loop([('neighbours', whole)]),
                    ('clustering', 0): Loop([('pairs so far', lambda S: bag_sound(S, S.bag))]), ('clustering', 1): Loop([('pairs so far', lambda S: bag_sound(S, S.bag))]), NF[9]: Loop([('one cluster each', lambda S: S.ghost('yielded') == S.k)])},
             post=[('only pairs within the radius', post_pairs), ('bounds and mode are handed over', post_bounds), ('every cluster is yielded', post_all)]),
    Contract('fog/clustering/vp_tree.py:vp_tree', [Case(nm, {'data': t, 'distance': F3, 'radius': REAL, 'min_size': INT, 'max_size': TExt()}, pre=vp_pre) for nm, t in (('a list', TList(ITEM)), ('a stream', TStream(ITEM)))], yields=False, externals=VEXT, on_yield=vp_yield,
             ghost={'covered': z3.K(IS, z3.BoolVal(False))}, loops={VP: Loop([('what was yielded', vp_inv)])}, post=[('a cluster around every item not seen yet', lambda S: vp_done(S, src(S)[0]))]),
]
COMPLETE = False
BOUNDED = ['termination of nn_descent and nn_descent_full (bounded: runs under a time limit)']
ASSUMPTIONS = ['the similarity is symmetric and deterministic; a distance is 0 between an item and itself, and the radius of vp_tree is not negative',
               'random.Random.randint returns some integer within its bounds (any one: nothing else is assumed of the draws)', 'heapq.heapify and heapq.heapreplace only reorder the list and put the new entry in place of one of its entries', 'math.log2(n) >= 1 for n >= 2',
               'phylactery.VPTree.neighbors_in_radius returns exactly the (item, distance) pairs within the radius, once each', 'items given to vp_tree are distinct (as the property says)',
               'clusters_from_pairs is used by its contract (proved in C08)', 'rho >= 0 in nn_descent_full']
