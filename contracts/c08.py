from contracts.common import *
from contracts import clusters as CL

IS = ITEM.sort()
BOOLS = z3.BoolSort()
SS = z3.ArraySort(IS, BOOLS)
PAIR = TTup(ITEM, ITEM)
x, y = z3.Consts('x! y!', IS)
Z_ = z3.Const('Z!', SS)
p, q, i = z3.Ints('p! q! i!')

adj = z3.Function('adj', IS, IS, BOOLS)          # linked by a pair
wit = z3.Function('adj_at', IS, IS, z3.IntSort())
fa = z3.Function('first_appearance', IS, z3.IntSort())
node = z3.Function('node', IS, BOOLS)
isclosed = z3.Function('closed', SS, BOOLS)
cx, cy = z3.Function('cx', SS, IS), z3.Function('cy', SS, IS)
Z = z3.Const('Z', SS)                            # any set closed under links (both ways)
K = z3.Const('K', SS)                            # any connected component
k0 = z3.Const('k0', IS)

OUTER, WHILE, FUZZY, READ = ('clusters_from_pairs', 2), ('clusters_from_pairs', 3), ('clusters_from_pairs', 1), ('clusters_from_pairs', 0)


def P(S):
    g = S._E.args0raw['pairs']
    if isinstance(g, Gen): return g.n, g.arr
    return S.arg('pairs').n, S.arg('pairs').arr


def graph_defs(S):
    """the graph of the pairs: links, nodes, closed sets, an arbitrary component K and an arbitrary closed set Z"""
    n, arr = P(S)
    a, b = (lambda t: PAIR.get(0, t)), (lambda t: PAIR.get(1, t))
    at = arr[p]
    w = arr[wit(x, y)]
    rng = z3.And(0 <= p, p < n)
    f = [
        forall([p], implies(rng, z3.And(adj(a(at), b(at)), adj(b(at), a(at)))), at),
        forall([x, y], implies(adj(x, y), z3.And(0 <= wit(x, y), wit(x, y) < n, z3.Or(z3.And(a(w) == x, b(w) == y), z3.And(a(w) == y, b(w) == x)), adj(y, x))), adj(x, y)),
        # closed sets
        forall([Z_], implies(isclosed(Z_), forall([x, y], implies(z3.And(adj(x, y), Z_[x]), Z_[y]), adj(x, y))), isclosed(Z_)),
        forall([Z_], z3.Or(isclosed(Z_), z3.And(adj(cx(Z_), cy(Z_)), Z_[cx(Z_)], z3.Not(Z_[cy(Z_)]))), isclosed(Z_)),
        forall([x, y], implies(adj(x, y), z3.And(Z[x] == Z[y], K[x] == K[y])), adj(x, y)),
        K[k0], node(k0),
        forall([Z_], implies(z3.And(isclosed(Z_), Z_[k0]), TY.subset(K, Z_)), isclosed(Z_)),
    ]
    if 'min_size' in S._E.args0raw:
        f.append(S.arg('min_size') >= 0)
    return f


def appear_at(S, p):
    """definition of nodes and of the position of their first appearance, for one pair"""
    n, arr = P(S)
    a, b = PAIR.get(0, arr[p]), PAIR.get(1, arr[p])
    return implies(z3.And(0 <= p, p < n), z3.And(node(a), node(b), fa(a) <= 2 * p, fa(b) <= 2 * p + 1))


def appear(S, pat=None):
    """... and for one node"""
    n, arr = P(S)
    a, b = PAIR.get(0, arr[fa(x) / 2]), PAIR.get(1, arr[fa(x) / 2])
    return [forall([x], implies(node(x), z3.And(0 <= fa(x), fa(x) < 2 * n, z3.Implies(fa(x) % 2 == 0, a == x), z3.Implies(fa(x) % 2 == 1, b == x))), node(x) if pat is None else pat)]


def simple(S):
    """fuzzy clusters: no pair is linked to itself; without the fuzzy flag no pair comes twice"""
    n, arr = P(S)
    f = [forall([p], implies(z3.And(0 <= p, p < n), PAIR.get(0, arr[p]) != PAIR.get(1, arr[p])), arr[p]), forall([x], fa(x) >= 0, fa(x))]
    if S._E.args0raw['fuzzy'] is False:
        f.append(forall([p], implies(z3.And(0 <= p, p < n), z3.And(wit(PAIR.get(0, arr[p]), PAIR.get(1, arr[p])) == p, wit(PAIR.get(1, arr[p]), PAIR.get(0, arr[p])) == p)), arr[p]))
    return f


def gset(G, v):
    t = G.c.vt
    if isinstance(t, TSet): return G.val[v]
    return TY.elems(t.len(G.val[v]), t.arr(G.val[v]))


def glen(G, v):
    t = G.c.vt
    if isinstance(t, TSet): return TY.card(G.val[v])
    return t.len(G.val[v])


def isfuzzymode(S): return S._E.args0raw['mode'] == 'fuzzy_clusters'


def read_inv(S):
    G = S.graph
    n, arr = P(S)
    k = S.k
    if G.c.dom is None: return k == 0
    a, b = PAIR.get(0, arr[p]), PAIR.get(1, arr[p])
    f = [forall([p], implies(z3.And(0 <= p, p < k), z3.And(G.dom[a], G.dom[b], gset(G, a)[b], gset(G, b)[a])), arr[p]),
         forall([x, y], implies(z3.And(G.dom[x], gset(G, x)[y]), z3.And(adj(x, y), G.dom[y])), gset(G, x)[y]),
         forall([x], implies(G.dom[x], z3.And(node(x), fa(x) < 2 * k)), G.dom[x])]
    if isinstance(G.c.vt, TList):
        f.append(forall([x], implies(G.dom[x], glen(G, x) >= 0), G.val[x]))
    if isfuzzymode(S):
        f.append(forall([x, y], implies(z3.And(G.dom[x], G.dom[y], fa(x) < fa(y)), G.rank[x] < G.rank[y]), z3.MultiPattern(G.rank[x], G.rank[y])))
        f.append(forall([x], implies(G.dom[x], G.rank[x] < G.nextrank), G.rank[x]))
        f.append(forall([x], implies(z3.And(node(x), fa(x) < 2 * k), G.dom[x]), fa(x)))
        if isinstance(G.c.vt, TList):
            f.append(forall([x, y], implies(z3.And(G.dom[x], gset(G, x)[y]), wit(x, y) < k), gset(G, x)[y]))
            f.append(forall([x], implies(G.dom[x], glen(G, x) == TY.card(gset(G, x))), G.dom[x]))
    return f


def graph_hint(S):
    """once read, the dictionary is the graph"""
    G = S.graph
    if G.c.dom is None: return []
    return [('the keys are the nodes', forall([x], implies(node(x), G.dom[x]), node(x)), appear(S)),
            ('the neighbours are the linked items', forall([x, y], implies(adj(x, y), z3.And(G.dom[x], gset(G, x)[y])), adj(x, y)))]


def graph_facts(S):
    G = S.graph
    f = [forall([x], G.dom[x] == node(x), G.dom[x], node(x)), forall([x, y], implies(adj(x, y), gset(G, x)[y]), adj(x, y)),
         forall([x, y], implies(z3.And(G.dom[x], gset(G, x)[y]), z3.And(adj(x, y), G.dom[y])), gset(G, x)[y])]
    if isinstance(G.c.vt, TList):
        f.append(forall([x], implies(G.dom[x], glen(G, x) >= 0), G.val[x]))
    return f


def within(S, n):
    M = S._E.args0raw['max_size']
    return z3.And(S.arg('min_size') <= n, z3.Or(M.inf, n <= M.val))


# ------------------------------------------------------------------------------------------- connected components
def vset(S):
    v = S.visited
    return v.c.arr if v.c.t is not None else TY.empty_set(IS)


def cc_outer(S):
    V = vset(S)
    return [forall([x], implies(S.seen[x], V[x]), S.seen[x]),
            forall([x], implies(V[x], node(x)), V[x]),
            forall([x, y], implies(z3.And(adj(x, y), V[x]), V[y]), adj(x, y)),
            S.ghost('cntK') == z3.If(z3.And(V[k0], within(S, TY.card(K))), 1, 0),
            S.stack.len == 0]


def cset(S): return TY.elems(S.cluster.n, S.cluster.arr)


def cc_while(S):
    V, C, st = vset(S), cset(S), S.stack
    item = S.item
    ins = TY.elems(st.n, st.arr) if st.c.t is not None else TY.empty_set(IS)
    f = [S.cluster.n == TY.card(C), S.cluster.n >= 1, S.cluster.arr[0] == item, C[item], node(item),
         forall([x], implies(C[x], z3.And(V[x], node(x), Z[x] == Z[item], K[x] == K[item])), C[x]),
         forall([x], implies(V[x], node(x)), V[x]),
         forall([x, y], implies(z3.And(adj(x, y), V[x], z3.Not(C[x])), z3.And(V[y], z3.Not(C[y]))), adj(x, y)),
         forall([x, y], implies(z3.And(adj(x, y), C[x]), z3.Or(V[y], ins[y])), adj(x, y)),
         S.ghost('cntK') == z3.If(z3.And(V[k0], z3.Not(C[k0]), within(S, TY.card(K))), 1, 0)]
    if st.c.t is not None:
        f.append(forall([x], implies(ins[x], z3.And(node(x), Z[x] == Z[item], K[x] == K[item])), ins[x]))
    return f


def cc_top(S):
    st = S.stack
    if st.c.t is None: return []
    last = st.arr[st.n - 1]
    return [('the next item is on the stack', implies(st.n > 0, TY.elems(st.n, st.arr)[last])), ('and is a node', implies(st.n > 0, z3.And(node(last), S.graph.dom[last])))]


def cc_hint(S):
    o, st = S.pre.stack, S.stack
    if o.c.t is None or st.c.t is None: return []
    last = o.arr[o.n - 1]
    A, E1, B = TY.elems(o.n, o.arr), TY.elems(o.n - 1, o.arr), TY.elems(st.n, st.arr)
    V0, V, C0, C = vset(S.pre), vset(S), cset(S.pre), cset(S)
    return [('popped', forall([x], implies(A[x], z3.Or(E1[x], x == last)), A[x])), ('popped', forall([x], implies(E1[x], A[x]), E1[x])),
            ('kept', forall([x], implies(E1[x], B[x]), E1[x])), ('added', forall([x], implies(B[x], z3.Or(E1[x], adj(last, x))), B[x])),
            ('visited', z3.And(forall([x], V[x] == z3.Or(V0[x], x == last), V[x]), forall([x], implies(V0[x], V[x]), V0[x]), V[last])),
            ('collected', z3.And(forall([x], C[x] == z3.Or(C0[x], z3.And(x == last, z3.Not(V0[last]))), C[x]), forall([x], implies(C0[x], C[x]), C0[x]))),
            ('its neighbours are on the stack', implies(z3.Not(V0[last]), z3.And(C[last], forall([x], implies(adj(last, x), B[x]), adj(last, x)))))]


def cc_seen(S):
    sn = S.ghost(('seen', OUTER))
    V = vset(S)
    return [forall([x], implies(sn[x], V[x]), sn[x]), z3.Not(sn[S.item])]


def cc_dec(S):
    G = S.graph
    return [TY.card(TY.diff(G.dom, vset(S))), S.stack.len]


def cc_exit(S):
    C = cset(S)
    return [('the cluster is closed', isclosed(C)),
            ('a cluster that meets K is K', implies(C[k0], z3.And(TY.subset(K, C), TY.subset(C, K), C == K))),
            ('a cluster that does not meet K is not K', implies(z3.Not(C[k0]), C != K))]


def on_yield(S, v):
    if isfuzzymode(S): return fz_yield(S, v)
    if v.c.kind != 'list': raise Stale('a cluster is not a list')
    C = TY.elems(v.n, v.arr)
    item = v.arr[0]
    cnt = S.ghost('cntK')
    return ([('the cluster has no repeated member', v.n == TY.card(C)), ('the cluster is closed under the links', isclosed(C)),
             ('the cluster is connected', z3.And(v.n > 0, C[item], node(item), forall([x], implies(C[x], Z[x] == Z[item]), C[x]))),
             ('the size is admissible', within(S, v.n))],
            {'cntK': cnt + z3.If(C == K, 1, 0)})


def cc_post(S):
    if isfuzzymode(S): return None
    return S.ghost('cntK') == z3.If(within(S, TY.card(K)), 1, 0)


# ------------------------------------------------------------------------------------------- fuzzy clusters
deg = z3.Function('neighbours', IS, SS)


def deg_defs(S):
    return [forall([x, y], deg(x)[y] == adj(x, y), deg(x)[y], adj(x, y))]


def fz_yield(S, v):
    """[item] + all its neighbours, once each.  Ghost state: Y, the items whose cluster was yielded; N, their neighbours; L, for each of these the first such item"""
    if v.c.kind != 'list': raise Stale('a cluster is not a list')
    C = TY.elems(v.n, v.arr)
    item = v.arr[0]
    Y, N, L = S.ghost('Y'), S.ghost('N'), S.ghost('L')
    N1, L1 = S._E.fresh('N', N.sort()), S._E.fresh('L', L.sort())
    S._st.assume(forall([x], N1[x] == z3.Or(N[x], adj(item, x)), N1[x]), forall([x], L1[x] == z3.If(z3.And(adj(item, x), z3.Not(N[x])), item, L[x]), L1[x]))
    return ([('the first item was not a neighbour in an earlier cluster', z3.And(v.n > 0, forall([x], implies(Y[x], z3.Not(adj(x, item))), Y[x]))),
             ('the others are its neighbours', z3.And(node(item), forall([x], C[x] == z3.Or(x == item, adj(item, x)), C[x], adj(item, x)))),
             ('no repeated member', v.n == TY.card(deg(item)) + 1),
             ('the size is admissible', within(S, v.n)),
             ('clusters come in order of first appearance', forall([x], implies(Y[x], fa(x) < fa(item)), Y[x])),
             ('an item is not repeated', z3.Not(Y[item]))],
            {'Y': z3.Store(Y, item, z3.BoolVal(True)), 'N': N1, 'L': L1})


def adm(S, t): return within(S, TY.card(deg(t)) + 1)


def skipped(S, Y, L, x):
    return z3.And(Y[L[x]], adj(L[x], x), fa(L[x]) < fa(x))


def fz_inv(S):
    V = vset(S)
    Y, N, L = S.ghost('Y'), S.ghost('N'), S.ghost('L')
    itx = S.it()
    arr, pos = itx['arr'], itx['pos']
    k = S.k
    return [forall([x], implies(Y[x], z3.And(node(x), pos(x) < k)), Y[x]),
            forall([x], V[x] == N[x], V[x], N[x]),
            forall([x], implies(N[x], z3.And(Y[L[x]], adj(L[x], x))), N[x]),
            forall([x, y], implies(z3.And(Y[x], adj(x, y)), N[y]), z3.MultiPattern(Y[x], adj(x, y))),
            forall([p], implies(z3.And(0 <= p, p < k), z3.Or(Y[arr[p]], z3.Not(adm(S, arr[p])), z3.And(N[arr[p]], skipped(S, Y, L, arr[p])))), arr[p])]


def fz_use(S):
    """insertion order of the keys = order of first appearance"""
    G = S.graph
    f = [forall([x, y], implies(z3.And(G.dom[x], G.dom[y], fa(x) < fa(y)), G.rank[x] < G.rank[y]), z3.MultiPattern(fa(x), fa(y))),
         forall([x, y], implies(z3.And(node(x), node(y), fa(x) == fa(y)), x == y), z3.MultiPattern(fa(x), fa(y))),
         forall([x], implies(G.dom[x], TY.card(deg(x)) == glen(G, x)), G.dom[x], deg(x))]
    return f


def fz_hint(S):
    G = S.graph
    if G.c.dom is None or not isfuzzymode(S): return []
    return [('the neighbours as a set', forall([x], implies(G.dom[x], z3.And(TY.subset(deg(x), gset(G, x)), TY.subset(gset(G, x), deg(x)))), G.dom[x])),
            ('the neighbours as a set', forall([x], implies(G.dom[x], deg(x) == gset(G, x)), G.dom[x]))] + [('order and degree', z3.And(*fz_use(S)), appear(S))]


def fz_post(S):
    if not isfuzzymode(S): return None
    Y, L = S.ghost('Y'), S.ghost('L')
    return forall([x], implies(node(x), z3.Or(Y[x], z3.Not(adm(S, x)), skipped(S, Y, L, x))), node(x))


def hints(S):
    return graph_hint(S) + fz_hint(S)


def defs(S):
    return graph_defs(S) + deg_defs(S) + (simple(S) if S._E.args0raw['mode'] == 'fuzzy_clusters' else [])


def case(mode, fuzzy, lazy=True, raises=None):
    return Case('%s, %s' % (mode, 'repeated pairs' if fuzzy else 'pairs once'), {'pairs': TStream(PAIR) if lazy else TList(PAIR), 'min_size': INT, 'max_size': TExt(), 'mode': mode, 'fuzzy': fuzzy},
                pre=defs, consts={'raises': raises} if raises else None)


# ------------------------------------------------------------------------------------------- buckets
B0, B1, B2 = [('pairs_from_buckets', k) for k in range(3)]


def lex(b, i, j):
    a = lambda k, t: z3.simplify(CL.T3.get(k, t))
    return lambda t: z3.Or(a(0, t) < b, z3.And(a(0, t) == b, z3.Or(a(1, t) < i, z3.And(a(1, t) == i, a(2, t) < j))))


def bk(S):
    g = S._E.args0raw['buckets']
    return (g.n, g.arr) if isinstance(g, Gen) else (S.arg('buckets').n, S.arg('buckets').arr)


def pfb_inv(level):
    def f(S):
        n, arr = bk(S)
        kb = S.ghost(('k', B0))
        i, j = z3.IntVal(0), z3.IntVal(0)
        if level >= 1: i = S.ghost(('k', B1))
        if level >= 2: j = i + 1 + S.ghost(('k', B2))
        return CL.bucket_facts(S.bag, n, arr, S.ghost('wh'), lex(kb, i, j))
    return f


def pfb_yield(S, v):
    if not isinstance(v, Tup) or len(v.items) != 2: raise Stale('not a pair')
    q = S._E.embed(S._st, v, PAIR)
    kb, i, j = S.ghost(('k', B0)), S.i, S.j
    return [], {'wh': z3.Store(S.ghost('wh'), q, CL.T3.mk(kb, i, j))}


def cfb_post(S):
    c = CL.stream(S)
    n, arr = S._st.ghost['buckets']
    sim = S._E.args0raw['similarity']
    ok = (lambda a, b: z3.BoolVal(True)) if sim is None else (lambda a, b: similar(a, b))
    t = CL.T3.mk(CL.ib, CL.ii, CL.ij)
    pr = CL.bucket_pair(arr, t)
    a, b = [z3.simplify(PAIR.get(k, pr)) for k in (0, 1)]
    pp = CL.pp
    w = z3.Const('w!', CL.T3.sort())
    return [forall([CL.ib, CL.ii, CL.ij], implies(z3.And(CL.valid_pos(n, arr, t), ok(a, b)), c.bag[pr] > 0), CL.cells(arr)),
            forall([pp], implies(c.bag[pp] > 0, z3.And(ok(PAIR.get(0, pp), PAIR.get(1, pp)), z3.Exists([w], z3.And(CL.valid_pos(n, arr, w), CL.bucket_pair(arr, w) == pp)))), c.bag[pp])]


similar = z3.Function('similar', IS, IS, BOOLS)
SIM = TFn([ITEM, ITEM], BOOL, similar)


def bounds(S):
    a = S._E.args0raw
    return CL.passed(S, min_size=a['min_size'], max_size=a['max_size'], mode=a['mode'], fuzzy=a['fuzzy'])


BUCKETS = [Case('%s%s' % (w, k), {'buckets': t, 'min_size': INT, 'max_size': TExt(), 'mode': STR, 'similarity': s, 'fuzzy': True})
           for w, t in (('a list of lists', TList(TList(ITEM))), ('a stream of lists', TStream(TList(ITEM)))) for k, s in (('', None), (', with a similarity', SIM))]

CONTRACTS = [
    Contract('fog/clustering/utils.py:pairs_from_buckets', [Case('a list', {'buckets': TList(TList(ITEM))}), Case('a stream', {'buckets': TStream(TList(ITEM))})],
             yields=PAIR, ghost={'wh': lambda S: z3.Const('wh0', CL.WH)}, on_yield=pfb_yield,
             loops={k: Loop([('the pairs so far', pfb_inv(l))]) for l, k in enumerate((B0, B1, B2))},
             post=[('the pairs are those of two distinct positions of a bucket', lambda S: CL.bucket_facts(S.bag, bk(S)[0], bk(S)[1], S.ghost('wh')))]),
    Contract('fog/clustering/utils.py:clusters_from_buckets', BUCKETS, summaries={'pairs_from_buckets': CL.pairs_from_buckets, 'clusters_from_pairs': CL.clusters_from_pairs()},
             post=[('the pairs of the buckets that are similar are merged', cfb_post), ('bounds, mode and fuzziness are handed over', bounds)]),
    Contract('fog/clustering/utils.py:clusters_from_pairs',
             [case('connected_components', False), case('connected_components', True), case('fuzzy_clusters', False), case('fuzzy_clusters', True), case('nope', False, raises='TypeError')],
             yields=TList(ITEM), ghost={'cntK': z3.IntVal(0), 'Y': TY.empty_set(IS), 'N': TY.empty_set(IS), 'L': z3.Const('L0', z3.ArraySort(IS, IS))}, on_yield=on_yield,
             loops={READ: Loop([('graph so far', read_inv)], use=lambda S: [appear_at(S, S.k)] + (appear(S, fa(x)) if isfuzzymode(S) else []), exit_hint=hints),
                    FUZZY: Loop([('the graph', lambda S: graph_facts(S) + fz_use(S)), ('fuzzy clusters so far', fz_inv)], index=True),
                    OUTER: Loop([('the graph', graph_facts), ('components so far', cc_outer)]),
                    WHILE: Loop([('the graph', graph_facts), ('component so far', cc_while), ('seen', cc_seen)], dec=cc_dec, exit_hint=cc_exit, top=cc_top, hint=cc_hint)},
             post=[('each admissible component is yielded exactly once', cc_post), ('every admissible item leads a cluster or is a neighbour in an earlier one', fz_post)]),
]
COMPLETE = True
