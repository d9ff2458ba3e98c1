"""Component sizes and sparsification.  The networkx graph is seen through its nodes and the edges of each node (assumed)."""
from contracts.common import *
from pv.engine import S as SView

IS = ITEM.sort()
BOOLS = z3.BoolSort()
SS = z3.ArraySort(IS, BOOLS)
ATTR = TSort('Attr')
x, y = z3.Consts('x! y!', IS)
Z_ = z3.Const('Z!', SS)
p, q, j = z3.Ints('p! q! j!')

NODES = z3.Const('nodes', SS)
degree = z3.Function('degree', IS, z3.IntSort())
nbs = z3.Function('neighbours', IS, z3.ArraySort(z3.IntSort(), IS))      # in the order of g.edges(x)
attr = z3.Function('attr', IS, IS, ATTR.sort())
accept = z3.Function('accept', IS, IS, ATTR.sort(), BOOLS)
FILTER = TFn([ITEM, ITEM, ATTR], BOOL, accept)
adj = z3.Function('adj', IS, IS, BOOLS)                                  # linked by an accepted edge
at = z3.Function('adj_at', IS, IS, z3.IntSort())
isclosed = z3.Function('closed', SS, BOOLS)
cx, cy = z3.Function('cx', SS, IS), z3.Function('cy', SS, IS)
Z = z3.Const('Z', SS)                                                    # any set closed under links
K = z3.Const('K', SS)                                                    # any connected component
k0 = z3.Const('k0', IS)


def ok(S, u, v):
    return z3.BoolVal(True) if S._E.args0raw['edge_filter'] is None else accept(u, v, attr(u, v))


def graph_defs(S):
    cell = nbs(x)[p]
    rng = z3.And(NODES[x], 0 <= p, p < degree(x))
    return [forall([x], degree(x) >= 0, degree(x)), forall([x, p], implies(rng, NODES[cell]), cell),
            forall([x, p], implies(z3.And(rng, ok(S, x, cell)), adj(x, cell)), cell),
            forall([x, y], implies(adj(x, y), z3.And(NODES[x], NODES[y], 0 <= at(x, y), at(x, y) < degree(x), nbs(x)[at(x, y)] == y, ok(S, x, y), adj(y, x))), adj(x, y)),
            forall([Z_], implies(isclosed(Z_), forall([x, y], implies(z3.And(adj(x, y), Z_[x]), Z_[y]), adj(x, y))), isclosed(Z_)),
            forall([Z_], z3.Or(isclosed(Z_), z3.And(adj(cx(Z_), cy(Z_)), Z_[cx(Z_)], z3.Not(Z_[cy(Z_)]))), isclosed(Z_)),
            forall([x, y], implies(adj(x, y), z3.And(Z[x] == Z[y], K[x] == K[y])), adj(x, y)),
            K[k0], NODES[k0],
            forall([Z_], implies(z3.And(isclosed(Z_), Z_[k0]), TY.subset(K, Z_)), isclosed(Z_))]


def iter_nodes(E, st, it): return dict(kind='set', set=NODES, t=ITEM, get=lambda st, v: v, what=it)


def edges_of(E, st, args, kw, node):
    """g.edges(x, data=True): one triple (x, neighbour, attributes) for each edge of x"""
    if len(args) != 1 or set(kw) != {'data'} or kw['data'] is not True: raise Unsupported('edges')
    u = E.embed(st, args[0], ITEM)
    E.oblige(st, 'it is a node', NODES[u], node, 'call')
    return [(st, Opaque('EdgesOf', of=u))]


def iter_edges_of(E, st, it):
    u = it.of
    return dict(kind='index', n=degree(u), get=lambda st, k: Tup([u, nbs(u)[k], attr(u, nbs(u)[k])]), what=it)


GRAPH = {'iter:G.nodes': iter_nodes, 'iter:G': iter_nodes, 'G.edges': edges_of, 'iter:EdgesOf': iter_edges_of}

# ------------------------------------------------------------------------------------------- component_sizes
OUTER, WHILE, INNER = [('component_sizes', k) for k in range(3)]


def vset(S):
    v = S['seen']
    return v.c.arr if v.c.t is not None else TY.empty_set(IS)


def stackset(S):
    s = S.stack
    return TY.elems(s.n, s.arr) if s.c.t is not None else TY.empty_set(IS)


def outer(S):
    V = vset(S)
    return [forall([x], implies(S.seen[x], V[x]), S.seen[x]), forall([x], implies(V[x], NODES[x]), V[x]),
            forall([x, y], implies(z3.And(adj(x, y), V[x]), V[y]), adj(x, y)),
            S.ghost('V0') == V, S.ghost('cntK') == z3.If(V[k0], 1, 0), S.ghost('total') == TY.card(V), S.stack.len == 0]


def comp(S): return TY.diff(vset(S), S.ghost('V0'))


def while_(S):
    V, V0, ins = vset(S), S.ghost('V0'), stackset(S)
    item = S.node
    f = [forall([x], implies(V[x], NODES[x]), V[x]), forall([x], implies(V0[x], V[x]), V0[x], V[x]), z3.Not(V0[item]), NODES[item],
         S.c + TY.card(V0) == TY.card(V),
         forall([x], implies(z3.And(V[x], z3.Not(V0[x])), z3.And(Z[x] == Z[item], K[x] == K[item])), V[x]),
         forall([x, y], implies(z3.And(adj(x, y), V0[x]), V0[y]), adj(x, y)),
         forall([x, y], implies(z3.And(adj(x, y), V[x], z3.Not(V0[x])), z3.Or(V[y], ins[y])), adj(x, y)),
         forall([x], implies(ins[x], z3.And(NODES[x], Z[x] == Z[item], K[x] == K[item])), ins[x]),
         z3.Or(V[item], ins[item]),
         S.ghost('cntK') == z3.If(V0[k0], 1, 0), S.ghost('total') == TY.card(V0)]
    sn = S.ghost(('seen', OUTER))
    return f + [forall([x], implies(sn[x], V0[x]), sn[x])]


def top(S):
    st = S.stack
    if st.c.t is None: return []
    last = st.arr[st.n - 1]
    return [('the next node is on the stack', implies(st.n > 0, TY.elems(st.n, st.arr)[last])), ('and is a node', implies(st.n > 0, NODES[last]))]


def step(S):
    o, st = S.pre.stack, S.stack
    if o.c.t is None or st.c.t is None: return []
    last = o.arr[o.n - 1]
    A, E1, B = TY.elems(o.n, o.arr), TY.elems(o.n - 1, o.arr), TY.elems(st.n, st.arr)
    V0, V = vset(S.pre), vset(S)
    return [('popped', forall([x], implies(A[x], z3.Or(E1[x], x == last)), A[x])), ('popped', forall([x], implies(E1[x], A[x]), E1[x])),
            ('kept', forall([x], implies(E1[x], B[x]), E1[x])), ('added', forall([x], implies(B[x], z3.Or(E1[x], adj(last, x))), B[x])),
            ('visited', z3.And(forall([x], V[x] == z3.Or(V0[x], x == last), V[x]), forall([x], implies(V0[x], V[x]), V0[x]), V[last])),
            ('its neighbours are on the stack', implies(z3.Not(V0[last]), forall([x], implies(adj(last, x), B[x]), adj(last, x))))]


def inner(S):
    """the stack holds what it held after the node was popped, and the accepted neighbours so far"""
    st = S.stack
    if st.c.t is None: return []
    n1 = S.n1
    B = stackset(S)
    b = S.it().get('stack0')
    return [NODES[n1], *([] if b is None else [forall([x], implies(b[x], B[x]), b[x]), forall([x], implies(B[x], z3.Or(b[x], adj(n1, x))), B[x])]),
            forall([p], implies(z3.And(0 <= p, p < S.k, ok(S, n1, nbs(n1)[p])), B[nbs(n1)[p]]), nbs(n1)[p])]


def inner_entry(S):
    """ghost: the stack before the neighbours"""
    S.it()['stack0'] = stackset(S)
    return []


def dec(S): return [TY.card(TY.diff(NODES, vset(S))), S.stack.len]


def whole(S):
    C = comp(S)
    return [('what was visited since is closed', isclosed(C)),
            ('it is the new part', TY.card(C) == S.c),
            ('if it meets K it is K', implies(C[k0], z3.And(TY.subset(K, C), TY.subset(C, K), C == K))),
            ('else it is not', implies(z3.Not(C[k0]), C != K)),
            ('V is closed', forall([x, y], implies(z3.And(adj(x, y), vset(S)[x]), vset(S)[y]), adj(x, y)))]


def on_yield(S, v):
    C = comp(S)
    item = S.node
    return ([('the size of a set of nodes', S._E.num(v) == TY.card(C)), ('that is closed under the accepted edges', isclosed(C)),
             ('and connected', z3.And(C[item], forall([x], implies(C[x], Z[x] == Z[item]), C[x])))],
            {'cntK': S.ghost('cntK') + z3.If(C == K, 1, 0), 'total': S.ghost('total') + S._E.num(v), 'V0': vset(S)})


def post(S):
    return [S.ghost('cntK') == 1, S.ghost('total') == TY.card(NODES)]


SIZES = [Case('any filter', {'g': Opaque('G'), 'edge_filter': FILTER}, pre=graph_defs), Case('no filter', {'g': Opaque('G'), 'edge_filter': None}, pre=graph_defs)]

# ------------------------------------------------------------------------------------------- second_largest_component_size
NCOMP, SECOND, FIRST = z3.Ints('number_of_components second_largest largest')


def sizes_summary(E, st, env, node):
    a = E.args0raw
    if env['g'] is not a['g'] or env['edge_filter'] is not a['edge_filter']: raise Stale('sizes of something else')
    return [(st, Gen(opaque='sizes', depth=E.loopdepth))]


def nlargest(E, st, args, kw, node):
    """heapq.nlargest(n, sizes): the n largest, in decreasing order"""
    if len(args) != 2 or kw or not isinstance(args[1], Gen) or args[1].__dict__.get('opaque') != 'sizes' or not isinstance(args[0], int): raise Unsupported('nlargest')
    E.consume(st, args[1])
    n = args[0]
    r = E.fresh('top', z3.ArraySort(z3.IntSort(), z3.IntSort()))
    if n >= 1: st.assume(implies(NCOMP >= 1, r[0] == FIRST))
    if n >= 2: st.assume(implies(NCOMP >= 2, r[1] == SECOND))
    return [(st, E.new_cell(st, Lst(z3.If(NCOMP < n, NCOMP, z3.IntVal(n)), r, INT)))]


def second_post(S):
    if S.rawresult is None: return NCOMP < 2
    return z3.And(NCOMP >= 2, S._E.num(S.rawresult) == SECOND)


# ------------------------------------------------------------------------------------------- floatsam_sparsification
ET = TTup(ITEM, ITEM, REAL)
NE = z3.Int('number_of_edges')
EDGES = z3.Const('edges', z3.ArraySort(z3.IntSort(), ET.sort()))
eidx = z3.Function('edge_index', IS, IS, z3.IntSort())
weight_of = z3.Function('weight_of', ATTR.sort(), z3.RealSort())
none_at, value_at = z3.Function('no_second', z3.RealSort(), BOOLS), z3.Function('second_at', z3.RealSort(), z3.IntSort())
log = z3.Function('log', z3.RealSort(), z3.RealSort())
START, RATE, MAXW = z3.Reals('start rate max_weight')
ENOUGH = z3.Int('enough')
P0 = z3.Int('an_edge')
PAIR = TTup(ITEM, ITEM)
GRAPHV = Opaque('G')


thr = z3.Function('threshold_of_try', z3.IntSort(), z3.RealSort())       # starting threshold, increased by the rate at every try


def edge(k): return [z3.simplify(ET.get(i, EDGES[k])) for i in range(3)]


def fl_pre(S):
    e = edge(p)
    return [S.arg('starting_treshold') == START, S.arg('learning_rate') == RATE, RATE > 0, NE >= 0, TY.card(NODES) >= 0, implies(NE > 0, TY.card(NODES) >= 1),
            # edges are listed once each
            forall([p], implies(z3.And(0 <= p, p < NE), z3.And(eidx(e[0], e[1]) == p, e[2] <= MAXW, weight_of(attr(e[0], e[1])) == e[2])), EDGES[p]),
            implies(NE > 0, z3.And(0 <= z3.Int('heaviest'), z3.Int('heaviest') < NE, edge(z3.Int('heaviest'))[2] == MAXW)),
            thr(0) == START, forall([j], implies(j >= 0, thr(j + 1) == thr(j) + RATE), thr(j + 1)),
            # Archimedes
            ENOUGH >= 0, thr(ENOUGH) > MAXW]


def increasing():
    def goals():
        a, b = z3.Ints('a b')
        d = [RATE > 0, forall([j], implies(j >= 0, thr(j + 1) == thr(j) + RATE), thr(j + 1))]
        return [('base', d + [a >= 0], thr(a) <= thr(a)), ('step', d + [a >= 0, b >= a, thr(a) <= thr(b)], thr(a) <= thr(b + 1))]
    return Lemma('INCREASING: thresholds increase from try to try (induction)', goals)


def all_edges(E, st, args, kw, node):
    """graph.edges(data=weight): (u, v, weight) for every edge"""
    if args or set(kw) != {'data'} or kw['data'] is not E.args0raw['weight']: raise Unsupported('edges')
    if st.ghost['removed_any'] is not False: raise Unsupported('edges after a removal')
    return [(st, Gen(n=NE, arr=EDGES, t=ET, bag=None, depth=E.loopdepth))]


def max_(E, st, args, kw, node):
    g = args[0]
    if len(args) != 1 or kw or not isinstance(g, Gen): return None
    E.consume(st, g)
    m = E.fresh('max', z3.RealSort())
    w = E.fresh('argmax', z3.IntSort())
    E.oblige(st, 'max of a non-empty sequence', g.n > 0, node, 'no-raise')
    st.assume(0 <= w, w < g.n, g.arr[w] == m, forall([p], implies(z3.And(0 <= p, p < g.n), g.arr[p] <= m), g.arr[p]))
    h = z3.Int('heaviest')
    st.assume(implies(z3.And(0 <= h, h < g.n), g.arr[h] <= m))       # an instance
    return [(st, m)]


def index_attr(E, st, base, idx, node):
    if idx is not E.args0raw['weight']: raise Stale('another attribute')
    return [(st, weight_of(base))]


def second_summary(E, st, env, node):
    """callee contract: the second largest component size of the graph restricted to the accepted edges.  The filter must accept exactly the edges of at least the threshold of this try"""
    if env['g'] is not E.args0raw['graph']: raise Stale('another graph')
    f = env['edge_filter']
    if not isinstance(f, Fn): raise Stale('no filter')
    k = st.ghost['tries'] + 1
    u, v = E.fresh('u', IS), E.fresh('v', IS)
    r = E.call(f, [u, v, attr(u, v)], {}, st.copy(), Frame('F', E.contract.qual, E.module), node)
    if len(r) != 1: raise Unsupported('the filter forks')
    t = E.truth(r[0][0], r[0][1])
    E.oblige(st, 'the filter keeps exactly the edges that reach the threshold of this try', t == (weight_of(attr(u, v)) >= thr(k)), node, 'call')
    st.ghost = dict(st.ghost)
    st.ghost['tries'] = k
    E.used.add('fog/graph/utils.py:second_largest_component_size (by contract)')
    a, b = st.copy().assume(none_at(thr(k))), st.assume(z3.Not(none_at(thr(k))))
    return [(a, None), (b, value_at(thr(k)))]


def remove_edge(E, st, args, kw, node):
    if len(args) != 2 or kw: raise Unsupported('remove_edge')
    q = PAIR.mk(*[E.embed(st, a, ITEM) for a in args])
    R = st.ghost['removed']
    u, v = PAIR.get(0, q), PAIR.get(1, q)
    i = eidx(u, v)
    E.oblige(st, 'the edge is there', z3.And(0 <= i, i < NE, edge(i)[0] == u, edge(i)[1] == v, z3.Not(R[i])), node, 'no-raise')
    st.ghost = dict(st.ghost)
    st.ghost['removed'] = z3.Store(R, i, z3.BoolVal(True))
    return [(st, None)]


def drifter(S):
    m = S._E.args0raw['max_drifter_size']
    if m is not None: return m
    l = log(z3.ToReal(TY.card(NODES)))
    return z3.If(l >= 0, z3.ToInt(l), -z3.ToInt(-l))


def stop(S, k):
    """tries end at this one"""
    return z3.Or(z3.And(z3.Not(none_at(thr(k))), value_at(thr(k)) >= drifter(S)), thr(k) > MAXW)


LOOP, COLLECT, REMOVE = [('floatsam_sparsification', k) for k in range(3)]


def tries(S):
    t = S.ghost('tries')
    return [S.threshold == thr(t), t >= 0, t <= ENOUGH, NE > 0, forall([j], implies(z3.And(1 <= j, j <= t), z3.Not(stop(S, j))), none_at(thr(j)))]


def tries_hint(S):
    t = S.ghost('tries')
    return [('not the last try', z3.Not(stop(S, t))),
            ('tries are limited', t < ENOUGH, [implies(t >= ENOUGH, thr(ENOUGH) <= thr(t))])]


def light(S, k): return edge(k)[2] < S.best_threshold


def listed(S):
    l = S.to_remove
    return l, lambda w: eidx(PAIR.get(0, l.arr[w]), PAIR.get(1, l.arr[w])), lambda k: TY.elems(l.n, l.arr)[PAIR.mk(edge(k)[0], edge(k)[1])]


def collect(S, k=None):
    if S.to_remove.c.t is None: return []
    l, i, has = listed(S)
    k = S.k if k is None else k
    return [forall([p], implies(z3.And(0 <= p, p < l.n), z3.And(0 <= i(p), i(p) < k, edge(i(p))[0] == PAIR.get(0, l.arr[p]), edge(i(p))[1] == PAIR.get(1, l.arr[p]), light(S, i(p)))), l.arr[p]),
            forall([p, q], implies(z3.And(0 <= p, p < q, q < l.n), i(p) < i(q)), z3.MultiPattern(l.arr[p], l.arr[q])),
            implies(z3.And(0 <= P0, P0 < k, light(S, P0)), has(P0))]


def removing(S):
    if S.to_remove.c.t is None: return []
    l, i, has = listed(S)
    R = S.ghost('removed')
    return collect(S, NE) + [forall([p], implies(z3.And(0 <= p, p < l.n), R[i(p)] == (p < S.k)), l.arr[p]),
                             forall([q], implies(R[q], z3.And(0 <= q, q < NE, light(S, q))), R[q])]


def fl_post(S):
    r = real(S._E.num(S.rawresult))
    t = S.ghost('tries')
    return [implies(NE == 0, r == START),
            implies(NE > 0, z3.And(t >= 1, r == thr(t - 1), stop(S, t), forall([j], implies(z3.And(1 <= j, j < t), z3.Not(stop(S, j))), none_at(thr(j)))))]


def fl_removed(S):
    R = S.ghost('removed')
    r = real(S._E.num(S.rawresult))
    if S._E.args0raw['remove_edges'] is False: return z3.Not(R[P0])
    return implies(z3.And(0 <= P0, P0 < NE), R[P0] == (edge(P0)[2] < r))


FL = [Case('%s, %s' % (a, b), {'graph': GRAPHV, 'starting_treshold': REAL, 'learning_rate': REAL, 'max_drifter_size': m, 'weight': STR, 'remove_edges': r}, pre=fl_pre)
      for a, m in (('default drifter size', None), ('any drifter size', INT)) for b, r in (('edges kept', False), ('edges removed', True))]


CONTRACTS = [
    Contract('fog/graph/utils.py:component_sizes', SIZES, yields=False, on_yield=on_yield, externals=GRAPH,
             ghost={'V0': TY.empty_set(IS), 'cntK': z3.IntVal(0), 'total': z3.IntVal(0)},
             loops={OUTER: Loop([('components so far', outer)]), WHILE: Loop([('component so far', while_)], dec=dec, top=top, hint=step, exit_hint=whole),
                    INNER: Loop([('the stack', inner)], entry=inner_entry)},
             post=[('each component once; the sizes add up to the number of nodes', post)]),
    Contract('fog/graph/utils.py:second_largest_component_size', [Case('any filter', {'g': GRAPHV, 'edge_filter': FILTER}, pre=lambda S: [NCOMP >= 0]), Case('no filter', {'g': GRAPHV, 'edge_filter': None}, pre=lambda S: [NCOMP >= 0])],
             summaries={'component_sizes': sizes_summary}, externals={'heapq.nlargest': nlargest},
             post=[('the second of the sizes, or None', second_post)]),
    Contract('fog/graph/sparsification.py:floatsam_sparsification', FL, summaries={'second_largest_component_size': second_summary},
             externals={'G.edges': all_edges, 'G.size': lambda E, st, args, kw, node: [(st, NE)], 'len:G': lambda E, st, *a: [(st, TY.card(NODES))], 'builtin:max': max_, 'index:Attr': index_attr, 'G.remove_edge': remove_edge,
                        'math.log': lambda E, st, args, kw, node: (E.oblige(st, 'log of a positive number', E.num(args[0]) > 0, node, 'no-raise'), [(st, log(real(E.num(args[0]))))])[1]},
             ghost={'tries': z3.IntVal(0), 'removed': z3.K(z3.IntSort(), z3.BoolVal(False)), 'removed_any': False},
             loops={LOOP: Loop([('tries so far', tries)], hint=tries_hint, dec=lambda S: [ENOUGH - S.ghost('tries')]), COLLECT: Loop([('light edges so far', collect)]), REMOVE: Loop([('removed so far', removing)])},
             post=[('the last threshold before the stop', fl_post), ('exactly the lighter edges are removed', fl_removed)]),
]
LEMMAS = [increasing()]
COMPLETE = True
ASSUMPTIONS = ['networkx: g.nodes, g.edges(x, data=True), graph.edges(data=weight), graph.size(), remove_edge behave as documented for an undirected simple graph; every edge has the weight attribute',
               'heapq.nlargest(2, sizes) gives the two largest in decreasing order', 'the filter accepts an edge whichever end it is seen from', 'real arithmetic: a positive rate ends by exceeding any weight (Archimedes); float rounding is not modelled']

