"""Monopartite projection.  The networkx graphs are seen through their nodes, attributes, neighbourhoods and edge weights (assumed);
the projection under construction is a ghost: its node set, the attributes of its nodes and the edge between two arbitrary nodes A0 and B0."""
from contracts.common import *
from contracts import c01, c02
from pv.methods import sqrt_term

IS = ITEM.sort()
BOOLS = z3.BoolSort()
SS = z3.ArraySort(IS, BOOLS)
ATTR, NAME, PART = TSort('Attr'), TSort('Name'), TSort('Part')
VEC = TDict(ITEM, REAL)
VS = VEC.sort()
x, y, u, v = z3.Consts('x! y! u! v!', IS)
p, q = z3.Ints('p! q!')
S_ = z3.Const('S!', SS)
d1, d2 = z3.Consts('d1! d2!', VS)

NODES = z3.Const('nodes', SS)
NB = z3.Function('neighbours', IS, SS)
wt = z3.Function('weight_of', NAME.sort(), IS, IS, z3.RealSort())        # the attribute, or 1 where it is missing
attr = z3.Function('attr', IS, ATTR.sort())
aval = z3.Function('attr_value', ATTR.sort(), NAME.sort(), PART.sort())
NE = z3.Const('edge_count', z3.IntSort())
eu, ev = z3.Function('edge_u', z3.IntSort(), IS), z3.Function('edge_v', z3.IntSort(), IS)
# specification
DOTF = z3.Function('dot', VS, VS, z3.RealSort())                          # dot product of two dictionaries (C02: sum over both domains)
DOT = z3.Function('dot_nodes', IS, IS, z3.RealSort())                     # the same for the weights of two nodes
isvec = z3.Function('is_vector_of', VS, IS, BOOLS)
SQ = z3.Function('squares', IS, SS, z3.RealSort())                        # sum of the squared weights of a node over a set of neighbours
common = z3.Function('common', IS, IS, IS)
A0, B0 = z3.Consts('A0 B0', IS)
P0, Q0 = z3.Consts('P0 Q0', PART.sort())
METRICS = [None, 'jaccard', 'dice', 'overlap', 'binary_cosine', 'cosine']


def metric(S): return S._E.args0raw['metric']
def weight(S): return S.arg('weight')
def partof(S, n): return aval(attr(n), S.arg('part'))
def projected(S, n): return z3.And(NODES[n], partof(S, n) == S.arg('project'))
def lt(a, b): return TY.total_order(IS)(a, b)
def LO(): return z3.If(lt(A0, B0), A0, B0)
def HI(): return z3.If(lt(A0, B0), B0, A0)


# ------------------------------------------------------------------------------------------- compute_metric
def value(m, w, n1, n2):
    """the metric, from the size of the intersection (or the dot product) and the two norms"""
    w, n1, n2 = real(w), real(n1), real(n2)
    if m == 'cosine': r = w / (n1 * n2)
    elif m == 'jaccard': r = w / (n1 + n2 - w)
    elif m == 'dice': r = 2 * w / (n1 + n2)
    elif m == 'overlap': r = w / z3.If(n1 <= n2, n1, n2)
    elif m == 'binary_cosine': r = w / sqrt_term(n1 * n2)
    else: r = w
    return z3.If(w == 0, z3.RealVal(0), r)


def isize(E, st, env, node):
    """C01: the number of common elements"""
    a, b = [E.read(st, env[n]).arr for n in 'AB']
    return [(st, TY.card(TY.inter(a, b)))]


def dotp(E, st, env, node):
    """C02: the dot product"""
    return [(st, DOTF(E.embed(st, env['A'], VEC), E.embed(st, env['B'], VEC)))]


def cm_pre(S):
    a, b = S.arg('norm1'), S.arg('norm2')
    if metric(S) == 'cosine': return [a > 0, b > 0]
    return [a == TY.card(S.arg('vector1').set), b == TY.card(S.arg('vector2').set), a > 0, b > 0]


def raw(S):
    if metric(S) == 'cosine': return DOTF(S._E.to_term(S.arg('vector1').c), S._E.to_term(S.arg('vector2').c))
    return TY.card(TY.inter(S.arg('vector1').set, S.arg('vector2').set))


def cm_post(S): return real(S._E.num(S.rawresult)) == value(metric(S), raw(S), S.arg('norm1'), S.arg('norm2'))


def cm_cases():
    out = []
    for m in METRICS:
        t, n = (VEC, REAL) if m == 'cosine' else (TSet(ITEM), INT)
        out.append(Case(m or 'no metric', {'metric': TConst(m), 'vector1': t, 'vector2': t, 'norm1': n, 'norm2': n}, pre=cm_pre))
    return out


# ------------------------------------------------------------------------------------------- monopartite_projection
def card(n): return TY.card(NB(n))
def squares(n): return SQ(n, NB(n))


NORM = z3.Function('norm', IS, z3.RealSort())                             # for cosine: the square root of squares(n)


def norm(S, n): return NORM(n) if metric(S) == 'cosine' else card(n)
def rawmv(S, a, b): return DOT(a, b) if metric(S) == 'cosine' else TY.card(TY.inter(NB(a), NB(b)))


# the value of the metric in use, of which the projection only needs what the lemma VALUE says
VAL = z3.Function('value', z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.RealSort())
w_, n1_, n2_ = z3.Reals('w! n1! n2!')


def value_facts(f, m):
    ok = [n1_ > 0, n2_ > 0] + ([] if m == 'cosine' else [w_ >= 0, w_ <= n1_, w_ <= n2_])
    return ok, [f(w_, n1_, n2_) == f(w_, n2_, n1_), (f(w_, n1_, n2_) == 0) == (w_ == 0), implies(w_ > 0, f(w_, n1_, n2_) > 0)]


def value_lemma():
    out = []
    for m in METRICS:
        f = lambda a, b, c: value(m, a, b, c)
        ok, facts = value_facts(f, m)
        sq = [sqrt_term(n1_ * n2_) > 0, sqrt_term(n1_ * n2_) == sqrt_term(n2_ * n1_)] if m == 'binary_cosine' else []
        if sq: out.append(('the root of a positive product', [n1_ > 0, n2_ > 0, n1_ * n2_ > 0], z3.And(*sq)))
        out += [('%s: %s' % (m, n), ok + sq, g) for n, g in zip(('symmetric', 'null only when', 'positive'), facts)]
    return out


def mv(S, a, b): return VAL(real(rawmv(S, a, b)), real(norm(S, a)), real(norm(S, b)))


def hasvec(S, n): return squares(n) > 0 if metric(S) == 'cosine' else card(n) > 0


def good(S, a, b):
    """the specification of an edge"""
    t = S._E.args0raw['threshold']
    return z3.And(a != b, projected(S, a), projected(S, b), rawmv(S, a, b) != 0, *([] if t is None else [mv(S, a, b) >= t]))


def defs(S):
    W = weight(S)
    cell = NB(x)[y]
    f = [forall([x, y], implies(cell, z3.And(NODES[x], NODES[y], NB(y)[x])), cell),
         forall([x, y], wt(W, x, y) == wt(W, y, x), wt(W, x, y)),
         NE >= 0, forall([p], implies(z3.And(0 <= p, p < NE), z3.And(NODES[eu(p)], NODES[ev(p)], NB(eu(p))[ev(p)])), eu(p)),
         A0 != B0,
         # sum of squares, by recursion on the set
         forall([u], SQ(u, TY.empty_set(IS)) == 0, SQ(u, TY.empty_set(IS))),
         forall([u, S_, v], SQ(u, z3.Store(S_, v, z3.BoolVal(True))) == SQ(u, S_) + z3.If(S_[v], 0, wt(W, u, v) * wt(W, u, v)), SQ(u, z3.Store(S_, v, z3.BoolVal(True)))),
         # a dictionary holding the weights of a node
         forall([d1, u], isvec(d1, u) == z3.And(VEC.dom(d1) == NB(u), forall([y], implies(NB(u)[y], VEC.val(d1)[y] == wt(W, u, y)), VEC.val(d1)[y])), isvec(d1, u)),
         # lemmas DOT, SQUARES
         forall([d1, d2, u, v], implies(z3.And(isvec(d1, u), isvec(d2, v)), DOTF(d1, d2) == DOT(u, v)), z3.MultiPattern(DOTF(d1, d2), isvec(d1, u), isvec(d2, v))),
         forall([u, v], z3.And(DOT(u, v) == DOT(v, u), implies(DOT(u, v) != 0, z3.And(NB(u)[common(u, v)], NB(v)[common(u, v)], squares(u) > 0, squares(v) > 0))), DOT(u, v)),
         forall([u, S_], SQ(u, S_) >= 0, SQ(u, S_)),
         # the square root of a positive number is positive
         forall([u], implies(squares(u) > 0, NORM(u) > 0), NORM(u))]
    i = TY.inter(NB(u), NB(v))
    # the witness of a non-empty intersection (choice)
    if metric(S) != 'cosine': f.append(forall([u, v], implies(TY.card(i) > 0, z3.And(NB(u)[common(u, v)], NB(v)[common(u, v)])), TY.card(i)))
    ok, facts = value_facts(VAL, metric(S))
    f.append(forall([w_, n1_, n2_], implies(z3.And(*ok), z3.And(*facts)), VAL(w_, n1_, n2_)))
    f.append(G0 == good(S, A0, B0))
    if S._E.case.consts.get('bipartite'):
        f.append(forall([p], implies(z3.And(0 <= p, p < NE), z3.And(partof(S, eu(p)) != partof(S, ev(p)), z3.Or(partof(S, eu(p)) == P0, partof(S, eu(p)) == Q0),
                                                                    z3.Or(partof(S, ev(p)) == P0, partof(S, ev(p)) == Q0))), eu(p)))
    return f


# the graphs
def g_nodes_index(E, st, base, idx, node):
    n = E.embed(st, idx, ITEM)
    E.oblige(st, 'it is a node', NODES[n], node, 'call')
    return [(st, attr(n))]


def attr_index(E, st, base, idx, node):
    return [(st, aval(base, E.embed(st, idx, NAME)))]


def g_nodes_call(E, st, args, kw, node):
    if args or set(kw) != {'data'} or kw['data'] is not True: raise Unsupported('nodes')
    return [(st, Opaque('NodesData'))]


def g_edges_call(E, st, args, kw, node):
    if len(args) != 1 or set(kw) != {'data', 'default'} or kw['default'] != 1 or not isinstance(kw['data'], z3.ExprRef): raise Unsupported('edges')
    n = E.embed(st, args[0], ITEM)
    E.oblige(st, 'it is a node', NODES[n], node, 'call')
    return [(st, Opaque('EdgesOf', of=n, key=kw['data']))]


def g_neighbors(E, st, args, kw, node):
    n = E.embed(st, args[0], ITEM)
    E.oblige(st, 'it is a node', NODES[n], node, 'call')
    return [(st, Opaque('Neighbors', of=n))]


def setg(st, **kw): st.ghost = dict(st.ghost, **kw)


def new_graph(E, st, args, kw, node):
    if args or kw or st.ghost['made']: raise Unsupported('graph')
    setg(st, made=True)
    return [(st, Opaque('M'))]


def m_add_node(E, st, args, kw, node):
    if len(args) != 1 or set(kw) != {'**'} or not isinstance(kw['**'], z3.ExprRef): raise Unsupported('add_node')
    n = E.embed(st, args[0], ITEM)
    setg(st, mn=z3.Store(st.ghost['mn'], n, z3.BoolVal(True)), ma=z3.Store(st.ghost['ma'], n, kw['**']))
    return [(st, None)]


def isab(a, b): return z3.Or(z3.And(a == A0, b == B0), z3.And(a == B0, b == A0))


def m_has_edge(E, st, args, kw, node):
    a, b = [E.embed(st, n, ITEM) for n in args]
    return [(st, z3.If(isab(a, b), st.ghost['edge'], E.fresh('other_edge', BOOLS)))]


def m_add_edge(E, st, args, kw, node):
    if len(args) != 2 or set(kw) != {'**'} or not isinstance(kw['**'], list) or len(kw['**']) != 1: raise Unsupported('add_edge')
    a, b = [E.embed(st, n, ITEM) for n in args]
    k, w = kw['**'][0]
    E.oblige(st, 'links distinct nodes of the projection', z3.And(a != b, st.ghost['mn'][a], st.ghost['mn'][b]), node, 'call')
    E.oblige(st, 'the value is stored as the weight', k == E.P['weight'] if 'weight' in E.P else k == E.args0raw['weight'], node, 'call')
    setg(st, edge=z3.Or(st.ghost['edge'], isab(a, b)), mw=z3.If(isab(a, b), real(E.num(w)), st.ghost['mw']))
    return [(st, None)]


def it_set(f):
    return lambda E, st, it: dict(kind='set', t=ITEM, what=it, **f(st, it))


def edges_of(st, it):
    n, k = it.of, it.key
    return dict(set=NB(n), get=lambda st, m: Tup([n, m, wt(k, n, m)]))


EXT = {'index:G.nodes': g_nodes_index, 'index:Attr': attr_index, 'G.nodes': g_nodes_call, 'G.edges': g_edges_call, 'G.neighbors': g_neighbors,
       'iter:G.edges': lambda E, st, it: dict(kind='index', n=NE, get=lambda st, k: Tup([eu(k), ev(k)]), what=it),
       'iter:NodesData': it_set(lambda st, it: dict(set=NODES, get=lambda st, n: Tup([n, attr(n)]))),
       'iter:EdgesOf': it_set(edges_of),
       'iter:Neighbors': it_set(lambda st, it: dict(set=NB(it.of), get=lambda st, n: n)),
       'iter:M.nodes': it_set(lambda st, it: dict(set=st.ghost['mn'], get=lambda st, n: n)),
       'networkx.Graph': new_graph, 'M.add_node': m_add_node, 'M.add_edge': m_add_edge, 'M.has_edge': m_has_edge}


def metric_of(E, st, env, node):
    """the contract of compute_metric"""
    m = env['metric']
    if m != E.args0raw['metric']: raise Unsupported('another metric')
    n1, n2 = E.num(env['norm1']), E.num(env['norm2'])
    E.oblige(st, 'norms are positive', z3.And(n1 > 0, n2 > 0), node, 'call')
    if m == 'cosine': w = DOTF(E.embed(st, env['vector1'], VEC), E.embed(st, env['vector2'], VEC))
    else:
        a, b = [E.read(st, env[k]).arr for k in ('vector1', 'vector2')]
        E.oblige(st, 'norms are the sizes of the vectors', z3.And(n1 == TY.card(a), n2 == TY.card(b)), node, 'call')
        w = TY.card(TY.inter(a, b))
    return [(st, VAL(real(w), real(n1), real(n2)))]


CHECK, INIT, ACC, ROW, TOP, MID, IN, QI, QJ = [('monopartite_projection', k) for k in range(9)]


def parts_inv(S):
    P = S.parts
    if P.c.t is None: return [S.k == 0]
    f = [forall([p], implies(z3.And(0 <= p, p < S.k), z3.And(partof(S, eu(p)) != partof(S, ev(p)), P.set[partof(S, eu(p))], P.set[partof(S, ev(p))])), eu(p)),
         TY.card(P.set) <= 2]
    if S._E.case.consts.get('bipartite'):
        f.append(TY.subset(P.set, two()))
    return f


def two():
    return z3.Store(z3.Store(TY.empty_set(PART.sort()), P0, z3.BoolVal(True)), Q0, z3.BoolVal(True))


def parts_hint(S):
    P = S.parts
    if P.c.t is None or not S._E.case.consts.get('bipartite'): return []
    return [('still within the two parts', TY.subset(P.set, two()))]


def nodes_ok(S, seen=None):
    mn, ma = S.ghost('mn'), S.ghost('ma')
    s = NODES if seen is None else seen
    return [forall([x], mn[x] == z3.And(s[x], projected(S, x)), mn[x]), forall([x], implies(mn[x], ma[x] == attr(x)), ma[x], mn[x]), z3.Not(S.ghost('edge')) if seen is not None else z3.BoolVal(True)]


def entry(S, cell, n):
    """the entry of a node: its norm and its vector"""
    t = S.vectors.c.vt
    if metric(S) == 'cosine': return [t.get(0, cell) == norm(S, n), isvec(t.get(1, cell), n)]
    return [t.get(0, cell) == norm(S, n), t.get(1, cell) == NB(n)]


def vectors_ok(S, seen=None):
    V = S.vectors
    if V.c.vt is None: return []
    s = S.ghost('mn') if seen is None else seen
    return [forall([x], V.dom[x] == z3.And(s[x], hasvec(S, x)), V.dom[x], s[x]), forall([x], implies(V.dom[x], z3.And(*entry(S, V.val[x], x))), V.val[x])]


def acc(S): return nodes_ok(S) + vectors_ok(S, S.seen) + [z3.Not(S.ghost('edge')), forall([x], implies(S.seen[x], S.ghost('mn')[x]), S.seen[x])]


def row(S):
    n, N = S.node, S.neighbors
    if N.c.kind == 'set':
        return [z3.BoolVal(True)] if N.c.t is None else [N.set == S.seen, S.s == TY.card(S.seen)]
    if N.c.vt is None: return []
    return [N.dom == S.seen, forall([y], implies(S.seen[y], N.val[y] == wt(weight(S), n, y)), N.val[y]), real(S.s) == SQ(n, S.seen)]


def acc_hint(S):
    V, N = S.vectors, S.neighbors
    if V.c.vt is None: return []
    n = S.node
    f = []
    if metric(S) == 'cosine':
        f.append(('the vector of the node', isvec(S._E.to_term(N.c), n)))
    else: f.append(('the neighbours of the node', N.set == NB(n)))
    f.append(('its entry', implies(V.dom[n], z3.And(*entry(S, V.val[n], n))), [NORM(n) == sqrt_term(squares(n))] if metric(S) == 'cosine' else []))
    f.append(('it has an entry', V.dom[n] == hasvec(S, n)))
    return f


def sound(S):
    """an edge between A0 and B0 is good, and has the right weight"""
    e = S.ghost('edge')
    return [implies(e, good(S, A0, B0)), implies(e, S.ghost('mw') == mv(S, A0, B0))]


def top(S):
    return nodes_ok(S) + vectors_ok(S) + sound(S) + [implies(z3.And(S.seen[LO()], good(S, A0, B0)), S.ghost('edge'))]


def mid(S):
    s = S.ghost(('seen', TOP))
    return nodes_ok(S) + vectors_ok(S) + sound(S) + [implies(z3.And(s[LO()], good(S, A0, B0)), S.ghost('edge')),
                                                     implies(z3.And(S.n1 == LO(), S.seen[common(A0, B0)], good(S, A0, B0)), S.ghost('edge'))]


def inn(S):
    s, m = S.ghost(('seen', TOP)), S.ghost(('seen', MID))
    g = good(S, A0, B0)
    return nodes_ok(S) + vectors_ok(S) + sound(S) + [implies(z3.And(s[LO()], g), S.ghost('edge')), implies(z3.And(S.n1 == LO(), m[common(A0, B0)], g), S.ghost('edge')),
                                                     implies(z3.And(S.n1 == LO(), S.np == common(A0, B0), S.seen[HI()], g), S.ghost('edge'))]


G0 = z3.Const('A0_B0_is_good', BOOLS)                                     # names good(A0, B0)


def quad(S, i=None, j=None):
    nodes = S.nodes
    if nodes.c.t is None: return []
    t = nodes.c.t
    a = lambda k: t.get(0, nodes.arr[k])
    i = S.k if i is None else i
    done = z3.Or(p < i, z3.And(p == i, q <= j)) if j is not None else p < i
    return nodes_ok(S) + vectors_ok(S) + sound(S) + [
        forall([p, q], implies(z3.And(0 <= p, p < q, q < nodes.n, done, isab(a(p), a(q)), G0), S.ghost('edge')), z3.MultiPattern(nodes.arr[p], nodes.arr[q])),
        forall([p], implies(z3.And(0 <= p, p < nodes.n), z3.And(S.vectors.dom[a(p)], t.get(1, nodes.arr[p]) == S.vectors.val[a(p)])), nodes.arr[p]),
        forall([p, q], implies(z3.And(0 <= p, p < q, q < nodes.n), a(p) != a(q)), z3.MultiPattern(nodes.arr[p], nodes.arr[q])),
        forall([x], implies(S.vectors.dom[x], z3.Exists([p], z3.And(0 <= p, p < nodes.n, a(p) == x), patterns=[nodes.arr[p]])), S.vectors.dom[x])]


def quad2(S):
    i = S.ghost(('k', QI))
    return quad(S, i, i + S.k)


def pair_hint(S):
    """the pair just compared"""
    if S.vectors.c.vt is None or not S.has('w'): return []
    n1, n2, w = S.n1, S.n2, real(S._E.num(S.raw('w')))
    return [('both have vectors', z3.And(S.vectors.dom[n1], S.vectors.dom[n2])), ('its value', w == mv(S, n1, n2)),
            ('whichever the order', implies(isab(n1, n2), z3.And(w == mv(S, A0, B0), (w == 0) == (rawmv(S, A0, B0) == 0)))),
            ('the edge is there if it has to', implies(z3.And(isab(n1, n2), G0), S.ghost('edge')))]


def final(S):
    f = [('the raw value is symmetric', rawmv(S, A0, B0) == rawmv(S, B0, A0))]
    g = good(S, A0, B0)
    if S.has('vectors') and S.vectors.c.vt is not None:
        f += [('they have vectors', implies(g, z3.And(S.vectors.dom[A0], S.vectors.dom[B0])))]
        if S.has('nodes'):
            t, n, arr = S.nodes.c.t, S.nodes.n, S.nodes.arr
            for m in (A0, B0): f.append(('its position', implies(g, z3.Exists([p], z3.And(0 <= p, p < n, t.get(0, arr[p]) == m), patterns=[arr[p]]))))
    return f


def post_nodes(S): return z3.And(*nodes_ok(S))
def post_edge(S): return S.ghost('edge') == good(S, A0, B0)
def post_weight(S): return implies(S.ghost('edge'), S.ghost('mw') == mv(S, A0, B0))


def post_value(S):
    """the value is zero exactly when the neighbourhoods do not intersect"""
    i = rawmv(S, A0, B0)
    if metric(S) == 'cosine': return z3.BoolVal(True)
    return z3.And((i != 0) == (TY.inter(NB(A0), NB(B0)) != TY.empty_set(IS)), implies(i != 0, mv(S, A0, B0) > 0))


def post_bip(S):
    if S._E.args0raw['bipartition_check'] is not True: return z3.BoolVal(True)
    return forall([p], implies(z3.And(0 <= p, p < NE), partof(S, eu(p)) != partof(S, ev(p))), eu(p))


def mp_cases():
    out = []
    for m in METRICS:
        for t in (None, REAL):
            for topo in (True, False):
                base = {'bipartite': Opaque('G'), 'project': PART, 'part': NAME, 'weight': NAME, 'metric': TConst(m), 'threshold': TConst(None) if t is None else t, 'use_topology': TConst(topo)}
                out.append(Case('%s%s, %s' % (m or 'no metric', '' if t is None else ', a threshold', 'traversal' if topo else 'all pairs'),
                                dict(base, bipartition_check=TConst(False)), pre=defs))
    base = {'bipartite': Opaque('G'), 'project': PART, 'part': NAME, 'weight': NAME, 'metric': TConst(None), 'threshold': TConst(None), 'use_topology': TConst(True), 'bipartition_check': TConst(True)}
    out.append(Case('a bipartite graph, checked', base, pre=defs, consts={'bipartite': True}))
    out.append(Case('any graph, checked', base, pre=defs, consts={'maybe': True}))
    out.append(Case('unknown metric', dict(base, metric=TConst('unknown')), pre=lambda S: [], consts={'raises': 'TypeError'}))
    return out


CONTRACTS = [
    Contract('fog/graph/projection.py:compute_metric', cm_cases(), post=[('is the value of the metric', cm_post)], summaries={'intersection_size': isize, 'sparse_dot_product': dotp}),
    Contract('fog/graph/projection.py:monopartite_projection', mp_cases(), externals=EXT, summaries={'compute_metric': metric_of},
             ghost={'made': False, 'mn': TY.empty_set(IS), 'ma': z3.Const('noattr', z3.ArraySort(IS, ATTR.sort())),
                    'edge': z3.BoolVal(False), 'mw': z3.RealVal(0)},
             raises={'TypeError': lambda S: z3.BoolVal(bool(S._E.case.consts.get('maybe')))},
             post=[('exactly the nodes of the part, with their attributes', post_nodes), ('an edge exactly when the value reaches the threshold', post_edge), ('with the value as weight', post_weight),
                   ('the value is null exactly without a common neighbour', post_value), ('the check accepts bipartite graphs only', post_bip)],
             final=final,
             loops={CHECK: Loop([('ends in different parts', parts_inv)]),
                    INIT: Loop([('nodes so far', lambda S: nodes_ok(S, S.seen))]),
                    ACC: Loop([('vectors so far', acc)], hint=acc_hint),
                    ROW: Loop([('vector and norm so far', row)]),
                    TOP: Loop([('edges so far', top)]), MID: Loop([('edges so far', mid)]), IN: Loop([('edges so far', inn)]),
                    QI: Loop([('edges so far', quad)]), QJ: Loop([('edges so far', quad2)], hint=pair_hint)}),
]
CONTRACTS += [c for c in c01.CONTRACTS if c.target.endswith(':intersection_size')] + [c for c in c02.CONTRACTS if c.target.endswith(':sparse_dot_product')]

# ------------------------------------------------------------------------------------------- lemmas, by induction over a finite set T of neighbours
def sums(name, term): return sum_fn(name, IS, term)


def dot_lemma():
    """the dot product of two dictionaries holding the weights of two nodes is that of their weights; it is symmetric"""
    a, b = z3.Function('a', IS, z3.RealSort()), z3.Function('b', IS, z3.RealSort())      # coordinates of two dictionaries
    c, d = z3.Function('c', IS, z3.RealSort()), z3.Function('d', IS, z3.RealSort())      # weights of two nodes
    T_ = z3.Const('T', SS); e = z3.Const('e', IS)
    ab, cd, ba = sums('lab', lambda k: a(k) * b(k)), sums('lcd', lambda k: c(k) * d(k)), sums('lba', lambda k: b(k) * a(k))
    same = [forall([y], a(y) == c(y), a(y)), forall([y], b(y) == d(y), b(y))]
    E0, T1 = TY.empty_set(IS), z3.Store(T_, e, z3.BoolVal(True))
    return [('base', same, z3.And(ab(E0) == cd(E0), ab(E0) == ba(E0))), ('equal coordinates: step', same + [a(e) == c(e), b(e) == d(e), ab(T_) == cd(T_)], ab(T1) == cd(T1)),
            ('symmetry: step', [ab(T_) == ba(T_)], ab(T1) == ba(T1))]


def zero_dot():
    """a dot product that is not null has a term that is not null: with no such term the sum is null"""
    a, b = z3.Function('a', IS, z3.RealSort()), z3.Function('b', IS, z3.RealSort())
    T_ = z3.Const('T', SS); e = z3.Const('e', IS)
    f = sums('zab', lambda k: a(k) * b(k))
    null = forall([y], z3.Or(a(y) == 0, b(y) == 0), a(y))
    E0, T1 = TY.empty_set(IS), z3.Store(T_, e, z3.BoolVal(True))
    return [('base', [null], f(E0) == 0), ('step', [null, z3.Or(a(e) == 0, b(e) == 0), f(T_) == 0], f(T1) == 0)]


def squares_lemma():
    """a sum of squares is at least each of them, so it is positive when a weight is not null"""
    w = z3.Function('w', IS, z3.RealSort())
    T_ = z3.Const('T', SS); e, g = z3.Consts('e g', IS)
    f = sums('sqw', lambda k: w(k) * w(k))
    E0, T1 = TY.empty_set(IS), z3.Store(T_, e, z3.BoolVal(True))
    ih = [f(T_) >= 0, implies(T_[g], f(T_) >= w(g) * w(g)), w(e) * w(e) >= 0, w(g) * w(g) >= 0]
    return [('base', [], f(E0) == 0), ('step', ih, z3.And(f(T1) >= 0, implies(T1[g], f(T1) >= w(g) * w(g)))), ('positive', [f(T_) >= w(g) * w(g), w(g) != 0], f(T_) > 0)]


LEMMAS = [Lemma('VALUE: each metric is symmetric, null exactly when the intersection (dot product) is, and positive with it', value_lemma), zero_lemma(), Lemma('DOT: the dot product depends on the coordinates only and is symmetric (induction)', dot_lemma),
          Lemma('DOT-ZERO: without a common non-null coordinate the dot product is null (induction)', zero_dot), Lemma('SQUARES: a sum of squares is not negative, and positive with a non-null weight (induction)', squares_lemma)]
COMPLETE = True
ASSUMPTIONS = ['the graphs behave as undirected networkx graphs: nodes, attributes, neighbourhoods and weights; nodes are totally ordered', 'floating-point arithmetic as exact real arithmetic']
