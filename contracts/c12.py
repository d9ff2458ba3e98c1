"""intersection_index reports the pairs of positions whose token sets have the requested overlap, once each"""
from contracts.common import *
from contracts import clusters as CL

TS = TOK.sort()
SS = z3.ArraySort(TS, z3.BoolSort())
IP = TTup(INT, INT)
LT = TList(TOK)
LI = TList(INT)
DI = TCounter(INT, INT)
a, b, p, q, w = z3.Ints('a! b! p! q! w!')
t = z3.Const('t!', TS)
ip = z3.Const('ip!', IP.sort())
keyf = z3.Function('tokens_of', ITEM.sort(), LT.sort())
tok = z3.Function('token_set', z3.IntSort(), SS)                      # distinct tokens of the item at a position
cnt = z3.Function('holders_before', TS, z3.IntSort(), z3.IntSort())   # how many earlier positions hold a token
common = z3.Function('common', z3.IntSort(), z3.IntSort(), z3.IntSort())
DATA, SHIN, BUCK, OUT = [('intersection_index', k) for k in range(4)]
CO, CI = ('clustering', 0), ('clustering', 1)


def src(S):
    g = S._E.args0raw['data']
    return (g.n, g.arr) if isinstance(g, Gen) else (S.arg('data').n, S.arg('data').arr)


def row(S, i):
    x = src(S)[1][i]
    return x if S._E.args0raw['key'] is None else keyf(x)


def defs(S):
    n, arr = src(S)
    return [n >= 0,
            forall([p], tok(p) == TY.elems(LT.len(row(S, p)), LT.arr(row(S, p))), tok(p)),
            forall([t], cnt(t, 0) == 0, cnt(t, 0)),
            forall([t, p], implies(p >= 0, cnt(t, p + 1) == cnt(t, p) + z3.If(tok(p)[t], 1, 0)), cnt(t, p + 1)),
            forall([a, b], common(a, b) == TY.card(TY.inter(tok(a), tok(b))), common(a, b))]


def held(S, i, seen):
    """positions entered in the bucket of a token so far"""
    if seen is None: return lambda x, r: z3.And(0 <= r, r < i, tok(r)[x])
    return lambda x, r: z3.And(0 <= r, z3.Or(z3.And(r < i, tok(r)[x]), z3.And(r == i, seen[x])))


def buckets(S, i, seen=None):
    B = S.buckets
    if B.c.dom is None or B.c.vt is None or B.c.vt.t is None: return []     # types still being inferred
    L = B.c.vt
    h = held(S, i, seen)
    extra = (lambda x: z3.If(seen[x], 1, 0)) if seen is not None else (lambda x: 0)
    cell = lambda x, u: L.arr(B.val[x])[u]
    return [forall([t, p], implies(h(t, p), z3.And(B.dom[t], 0 <= cnt(t, p), cnt(t, p) < L.len(B.val[t]), cell(t, cnt(t, p)) == p)), tok(p)[t]),
            forall([t, w], implies(z3.And(B.dom[t], 0 <= w, w < L.len(B.val[t])), z3.And(h(t, cell(t, w)), cnt(t, cell(t, w)) == w)), cell(t, w)),
            forall([t], cnt(t, i) >= 0, cnt(t, i)),
            forall([t], implies(B.dom[t], L.len(B.val[t]) == cnt(t, i) + extra(t)), B.dom[t], B.val[t]),
            forall([t], implies(z3.Not(B.dom[t]), cnt(t, i) + extra(t) == 0), B.dom[t])]


def counts(S, i, cur=None):
    """the intersections counted so far: complete rows before i; row i counts what `cur` says"""
    X = S.intersections
    if X.c.dom is None or X.c.vt is None or X.c.vt.k is None: return []
    rd = lambda x, y: z3.And(X.dom[x], DI.dom(X.val[x])[y])
    vv = lambda x, y: DI.val(X.val[x])[y]
    want = (lambda x, y: common(x, y)) if cur is None else (lambda x, y: z3.If(x == i, cur(y), common(x, y)))
    top = i if cur is None else i + 1
    return [forall([a, b], implies(rd(a, b), z3.And(0 <= b, b < a, a < top, vv(a, b) == want(a, b), want(a, b) >= 1)), DI.dom(X.val[a])[b], common(a, b)),
            forall([a, b], implies(z3.And(0 <= b, b < a, a < top, want(a, b) >= 1), rd(a, b)), common(a, b), DI.dom(X.val[a])[b])]


def sizes(S, top):
    z = S.sizes
    return [z.n == src(S)[0], forall([p], implies(z3.And(0 <= p, p < top), z.arr[p] == TY.card(tok(p))), z.arr[p])]


def k0(S): return S.ghost(('k', DATA))


def part(s, y): return TY.card(TY.inter(s, tok(y)))


def inv_data(S): return buckets(S, S.k) + counts(S, S.k) + sizes(S, S.k)


def inv_shin(S):
    i = k0(S)
    sn = S.seen
    return buckets(S, i, sn) + counts(S, i, lambda y: part(sn, y)) + sizes(S, i + 1) + [forall([t], implies(sn[t], tok(i)[t]), sn[t])]


def inv_buck(S):
    i = k0(S)
    sn = S.ghost(('seen', SHIN)); x = S.shingle
    return counts(S, i, lambda y: part(sn, y) + z3.If(z3.And(0 <= y, y < i, tok(y)[x], cnt(x, y) < S.k), 1, 0))


def ok(S, x, y):
    """the pair (x, y) is to be reported"""
    r = S.arg('radius')
    I = z3.ToReal(common(x, y)); A, B = z3.ToReal(TY.card(tok(x))), z3.ToReal(TY.card(tok(y)))
    den = A + B - I if S._E.args0raw['metric'] == 'jaccard' else z3.If(A <= B, A, B)
    return z3.And(0 <= y, y < x, x < src(S)[0], common(x, y) >= 1, I / den >= r)


def bagis(S, bag, done):
    if bag is None: return z3.BoolVal(True)      # types still being inferred
    x, y = IP.get(0, ip), IP.get(1, ip)
    return forall([ip], bag[ip] == z3.If(z3.And(ok(S, x, y), done(x, y)), 1, 0), bag[ip])


def inv_co(S): return bagis(S, S.bag, lambda x, y: S.seen[x])


def inv_ci(S):
    so = S.ghost(('seen', CO))
    return bagis(S, S.bag, lambda x, y: z3.Or(so[x], z3.And(x == S.i, S.seen[y])))


def clusters(E, st, env, node):
    """callee contract of clusters_from_pairs on positions: a stream of lists of positions that occur in a pair"""
    c = CL.Clusters(E, st, env)
    if env['fuzzy'] is not False: raise Unsupported('fuzzy')
    x, y = IP.get(0, ip), IP.get(1, ip)
    E.oblige(st, 'precondition no pair comes twice of clusters_from_pairs', forall([ip], implies(c.bag[ip] > 0, z3.And(c.bag[ip] == 1, x != y, c.bag[IP.mk(y, x)] <= 0)), c.bag[ip]), node, 'call')
    n = E.fresh('nclusters', z3.IntSort())
    arr = E.fresh('clusters', z3.ArraySort(z3.IntSort(), LI.sort()))
    wit = z3.Function('pair_of', z3.IntSort(), z3.IntSort(), IP.sort())
    u = wit(p, q)
    mem = LI.arr(arr[p])[q]
    st.assume(n >= 0, forall([p], implies(z3.And(0 <= p, p < n), LI.len(arr[p]) >= 0), arr[p]),
              forall([p, q], implies(z3.And(0 <= p, p < n, 0 <= q, q < LI.len(arr[p])), z3.And(c.bag[u] > 0, z3.Or(mem == IP.get(0, u), mem == IP.get(1, u)))), mem))
    st.ghost = dict(st.ghost); st.ghost['asked'] = c; st.ghost['clusters'] = (n, arr)
    return [(st, Gen(n=n, arr=arr, t=LI, depth=E.loopdepth))]


def asked(S):
    c = S._st.ghost.get('asked')
    if c is None: raise Stale('clusters_from_pairs is not called')
    return c


def post_pairs(S): return bagis(S, asked(S).bag, lambda x, y: z3.BoolVal(True))


def post_bounds(S):
    c, r = asked(S), S._E.args0raw
    g = c.env['max_size']; m = r['max_size']
    return z3.And(S._E.lift(c.env['min_size']) == r['min_size'], z3.And(g.inf == m.inf, z3.Or(m.inf, g.val == m.val)), z3.BoolVal(c.env['mode'] is r['mode'] or c.env['mode'] == r['mode']) if not isinstance(r['mode'], z3.ExprRef) else c.env['mode'] == r['mode'])


def on_yield(S, v):
    if v.c.kind != 'list': raise Stale('a cluster is not a list')
    n, arr = S._st.ghost['clusters']
    k = S.ghost(('k', OUT))
    d = src(S)[1]
    out = [('as many members as the cluster of positions', v.n == LI.len(arr[k])), ('they are the items at these positions', forall([q], implies(z3.And(0 <= q, q < v.n), v.arr[q] == d[LI.arr(arr[k])[q]]), v.arr[q]))]
    return out, {'yielded': S.ghost('yielded') + 1}


def out_inv(S): return S.ghost('yielded') == S.k


def post_all(S): return S.ghost('yielded') == S._st.ghost['clusters'][0]


def case(name, data, key, metric):
    return Case('%s, %s' % (metric, name), {'data': data, 'metric': metric, 'radius': REAL, 'key': key, 'min_size': INT, 'max_size': TExt(), 'mode': STR}, pre=defs,
                consts={'raises': 'TypeError'} if metric == 'nope' else None)


KEYF = TFn([ITEM], LT, keyf)
CONTRACTS = [
    Contract('fog/clustering/intersection_index.py:intersection_index',
             [case('a list of token lists', TList(LT), None, 'jaccard'), case('a list and a key', TList(ITEM), KEYF, 'jaccard'), case('a stream and a key', TStream(ITEM), KEYF, 'jaccard'),
              case('a list of token lists', TList(LT), None, 'overlap'), case('a stream and a key', TStream(ITEM), KEYF, 'overlap'), case('a list of token lists', TList(LT), None, 'nope')],
             yields=False, summaries={'clusters_from_pairs': clusters}, ghost={'yielded': z3.IntVal(0)}, on_yield=on_yield,
             loops={DATA: Loop([('index so far', inv_data)]), SHIN: Loop([('index so far', inv_shin)]), BUCK: Loop([('row so far', inv_buck)]),
                    CO: Loop([('pairs so far', inv_co)]), CI: Loop([('pairs so far', inv_ci)]), OUT: Loop([('one cluster of items for each cluster of positions', out_inv)])},
             post=[('the pairs are those whose tokens overlap enough, each once', post_pairs), ('bounds and mode are handed over', post_bounds), ('every cluster is yielded', post_all)]),
]
COMPLETE = True
