from contracts.common import *
from contracts import clusters as CL
from pv.engine import S as SView

IS = ITEM.sort()
BOOLS = z3.BoolSort()
IP = TTup(INT, INT)
PS = z3.ArraySort(z3.IntSort(), BOOLS)
i, j, p, q, t = z3.Ints('i! j! p! q! t!')
u, v = z3.Consts('u! v!', IS)
simf = z3.Function('similarity_of', IS, IS, z3.RealSort())
distf = z3.Function('distance_of', IS, IS, z3.RealSort())
simb = z3.Function('similar', IS, IS, BOOLS)
distb = z3.Function('distant', IS, IS, BOOLS)
SIMR, DISTR = TFn([ITEM, ITEM], REAL, simf), TFn([ITEM, ITEM], REAL, distf)
SIM, DIST = TFn([ITEM, ITEM], BOOL, simb), TFn([ITEM, ITEM], BOOL, distb)


# ------------------------------------------------------------------------------------------- make_similarity_function
def msf_post(kind):
    def f(S):
        E, st = S._E, S._st
        a, b = z3.Consts('A B', IS)
        g = S._result
        if not isinstance(g, Fn): raise Stale('no function is returned')
        r = E.call(g, [a, b], {}, st, S._fr, None)
        if len(r) != 1: raise Unsupported('the similarity forks')
        got = E.truth(r[0][0], r[0][1])
        rad = S.arg('radius')
        want = {'similarity and radius': lambda: simf(a, b) >= rad, 'distance and radius': lambda: distf(a, b) <= rad, 'similarity': lambda: simb(a, b), 'distance': lambda: z3.Not(distb(a, b)),
                'both and radius': lambda: simf(a, b) >= rad, 'both': lambda: simb(a, b)}[kind]()
        return got == want
    return f


def MSF(kind, s, d, r):
    return Case(kind, {'similarity': s, 'distance': d, 'radius': r}, post=[('it answers as specified', msf_post(kind))])


MSFS = [MSF('similarity and radius', SIMR, None, REAL), MSF('distance and radius', None, DISTR, REAL), MSF('similarity', SIM, None, None), MSF('distance', None, DIST, None),
        MSF('both and radius', SIMR, DISTR, REAL), MSF('both', SIM, DIST, None), Case('neither', {'similarity': None, 'distance': None, 'radius': None}, consts={'raises': 'TypeError'}),
        Case('neither but a radius', {'similarity': None, 'distance': None, 'radius': REAL}, consts={'raises': 'TypeError'})]


def make_similarity(E, st, env, node):
    """callee contract: a pure predicate on two items"""
    return [(st, Fn('u', f=simb, args=(ITEM, ITEM), res=BOOL, name='similar'))]


# ------------------------------------------------------------------------------------------- chunks
P0, Q0, PC, QC = z3.Ints('p q p_chunk q_chunk')     # an arbitrary pair of positions and the chunks they fall in
OUT, IN = ('upper_triangular_matrix_chunk_iter', 0), ('upper_triangular_matrix_chunk_iter', 1)
LI = TList(ITEM)


def chunk_pre(S):
    n, c = S.arg('data').n, S.arg('chunk_size')
    return [c >= 1, 0 <= P0, P0 < Q0, Q0 < n, PC * c <= P0, P0 < PC * c + c, QC * c <= Q0, Q0 < QC * c + c, 0 <= PC, PC <= QC]


def inside(S, k, x, X):
    """position x lies in chunk k only when k is X (proved as lemma CHUNK)"""
    c = S.arg('chunk_size')
    return z3.And(k * c <= x, x < k * c + c) == (k == X)


def chunk_lemma():
    def goals():
        c, x, X, k = z3.Ints('c x X k')
        h = [c >= 1, X * c <= x, x < X * c + c]
        return [('to', h + [k * c <= x, x < k * c + c, k < X, k + 1 <= X, (X - k - 1) * c >= 0], z3.BoolVal(False)), ('to', h + [k * c <= x, x < k * c + c, k > X, (k - X - 1) * c >= 0], z3.BoolVal(False)),
                ('monotone', [c >= 1, x >= 0], x * c >= 0), ('from', h + [k == X], z3.And(k * c <= x, x < k * c + c))]
    return Lemma('CHUNK: a position lies in exactly one chunk', goals)


def covers(n, c, io, jo, li, lj):
    """does the worker compare P0 with Q0 in a chunk of li rows at io and lj columns at jo (none on the diagonal)?"""
    return z3.And(io <= P0, P0 < io + li, z3.If(io == jo, z3.And(io <= Q0, Q0 < io + li), z3.And(jo <= Q0, Q0 < jo + lj)))


def chunk_yield(S, w):
    if not isinstance(w, Tup) or len(w.items) != 4: raise Stale('not a chunk')
    E, st = S._E, S._st
    I, J = E.read(st, w.items[0]), E.read(st, w.items[1])
    io, jo = E.num(w.items[2]), E.num(w.items[3])
    d = S.arg('data'); n, c = d.n, S.arg('chunk_size')
    lj = J.n
    ob = [('rows are data[i_offset:i_offset + size]', z3.And(0 <= io, I.n >= 0, io + I.n <= n, I.n <= c, forall([t], implies(z3.And(0 <= t, t < I.n), I.arr[t] == d.arr[io + t]), I.arr[t])))]
    if J.t is not None:
        ob.append(('columns are data[j_offset:j_offset + size]', z3.Or(io == jo, z3.And(0 <= jo, J.n >= 0, jo + J.n <= n, J.n <= c, forall([t], implies(z3.And(0 <= t, t < J.n), J.arr[t] == d.arr[jo + t]), J.arr[t])))))
    ob.append(('rows come before columns', z3.Or(io == jo, io + I.n <= jo)))
    return ob, {'cnt': S.ghost('cnt') + z3.If(covers(n, c, io, jo, I.n, lj), 1, 0)}


def chunk_inv(level):
    def f(S):
        kj = S.ghost(('k', OUT))
        base = z3.If(QC < kj, 1, 0)
        if level:
            ki = S.ghost(('k', IN))
            base = base + z3.If(z3.And(kj == QC, PC < ki), 1, 0)
        return S.ghost('cnt') == base
    return f


def nlfacts(S):
    """instances of lemma CHUNK and of the monotony of multiplication"""
    c = S.arg('chunk_size'); n = S.arg('data').n
    kj = S.ghost(('k', OUT))
    fs = [inside(S, kj, Q0, QC), inside(S, kj, P0, PC), kj * c >= 0]
    if ('k', IN) in S._st.ghost:
        ki = S.ghost(('k', IN))
        fs += [inside(S, ki, P0, PC), inside(S, ki, Q0, QC), ki * c >= 0, z3.Implies(ki < kj, ki * c + c <= kj * c), (ki * c == kj * c) == (ki == kj)]
    return fs


# ------------------------------------------------------------------------------------------- pairwise_worker
def worker_payload(diag):
    def f(E, st):
        io, jo = E.fresh('offset_i', z3.IntSort()), E.fresh('offset_j', z3.IntSort())
        st.assume(io == jo if diag else io != jo)
        return Tup([Opaque('pickle'), E.fresh_of(st, 'I', LI), E.fresh_of(st, 'J', LI), io, jo])
    return f


def W(S):
    a = S._E.args0raw['payload'].items
    E, st = S._E, S._st
    I, J = E.read(E.P['st0'], a[1]) if False else E.spec(st, a[1]), E.spec(st, a[2])
    return I, J, a[3], a[4]


def worker_spec(bag, I, J, io, jo, diag, before=None):
    """(i, j) is reported exactly once when its items are compared and similar"""
    X = I if diag else J
    b = before(i, j) if before else z3.BoolVal(True)
    want = z3.And(0 <= i, i < I.n, (i + 1 if diag else 0) <= j, j < X.n, simb(I.arr[i], X.arr[j]), b)
    return [forall([i, j], bag[IP.mk(io + i, jo + j)] == z3.If(want, 1, 0), bag[IP.mk(io + i, jo + j)]),]


def bagpat(E, st, lst):
    """multiplicity of each value in a list, introduced once"""
    return TY.bag_of_list(lst.n, lst.arr)


def worker_bag(S, L):
    if L.c.t is None: return z3.K(IP.sort(), z3.IntVal(0))
    return TY.bag_of_list(L.n, L.arr)


ix = z3.Const('ix!', IP.sort())


def worker_facts(S, L, before=None):
    I, J, io, jo = W(S)
    diag = S._E.case.name == 'diagonal'
    bag = worker_bag(S, L)
    X = I if diag else J
    a, b = IP.get(0, ix) - io, IP.get(1, ix) - jo
    want = z3.And(0 <= a, a < I.n, (a + 1 if diag else z3.IntVal(0)) <= b, b < X.n, simb(I.arr[a], X.arr[b]), before(a, b) if before else z3.BoolVal(True))
    return forall([ix], bag[ix] == z3.If(want, 1, 0), bag[ix])


WO, WI = ('pairwise_worker', 0), ('pairwise_worker', 1)


def w_inv(level):
    def f(S):
        ki = S.ghost(('k', WO))
        if level == 0: return worker_facts(S, S.pairs, lambda a, b: a < ki)
        diag = S._E.case.name == 'diagonal'
        kj = S.ghost(('k', WI)) + (ki + 1 if diag else 0)
        return worker_facts(S, S.pairs, lambda a, b: z3.Or(a < ki, z3.And(a == ki, b < kj)))
    return f


def loads(E, st, args, kw, node):
    E.trusted.add('dill.loads(dill.dumps(f)) behaves as f')
    return [(st, Fn('u', f=simb, args=(ITEM, ITEM), res=BOOL, name='similar'))]


# ------------------------------------------------------------------------------------------- pairwise_leader
claimed = z3.Function('claimed', z3.IntSort(), PS)
mem = z3.Function('members', z3.IntSort(), PS)
LO, LIN = ('pairwise_leader', 0), ('pairwise_leader', 1)
I0 = z3.Int('i0')        # an arbitrary item


def D(S):
    g = S._E.args0raw['data']
    return (g.n, g.arr) if isinstance(g, Gen) else (S.arg('data').n, S.arg('data').arr)


def leader_defs(S):
    """the leader algorithm: which items are claimed before item i, which items item i gathers"""
    n, arr = D(S)
    M = S._E.args0raw['max_size']
    fits = z3.Or(M.inf, TY.card(mem(i)) + 1 <= M.val)
    return [claimed(0) == TY.empty_set(z3.IntSort()),
            forall([i, j], mem(i)[j] == z3.And(i < j, j < n, z3.Not(claimed(i)[j]), simb(arr[i], arr[j])), mem(i)[j]),
            forall([i, j], implies(i >= 0, claimed(i + 1)[j] == z3.Or(claimed(i)[j], z3.And(z3.Not(claimed(i)[i]), fits, mem(i)[j]))), claimed(i + 1)[j])]


def yields_at(S, i):
    M = S._E.args0raw['max_size']
    m = TY.card(mem(i))
    return z3.And(z3.Not(claimed(i)[i]), m >= 1, S.arg('min_size') <= m + 1, z3.Or(M.inf, m + 1 <= M.val))


def vis(S): return S.visited.set if S.visited.c.t is not None else TY.empty_set(z3.IntSort())


def lead_outer(S):
    k = S.k
    V = vis(S)
    return [forall([j], V[j] == claimed(k)[j], V[j], claimed(k)[j]), S.ghost('cnt') == z3.If(z3.And(I0 < k, yields_at(S, I0)), 1, 0)]


def memset(S): return S.members.set if S.members.c.t is not None else TY.empty_set(z3.IntSort())


def lead_inner(S):
    n, arr = D(S)
    ki = S.ghost(('k', LO))
    jj = ki + 1 + S.k
    V, m = vis(S), memset(S)
    f = [forall([j], m[j] == z3.And(mem(ki)[j], j < jj), m[j], mem(ki)[j]),
         forall([j], V[j] == z3.Or(claimed(ki)[j], m[j]), V[j]),
         z3.Not(claimed(ki)[ki]), S.A == arr[ki], S.members.len >= 0, S.members.len == TY.card(m), TY.subset(m, mem(ki))]
    C = S.raw('cluster')
    M = S._E.args0raw['max_size']
    if C is None:
        f.append(S.members.len == 0)
    else:
        c = S.cluster
        f += [c.n == S.members.len + 1, c.n >= 2, c.arr[0] == arr[ki], z3.Or(M.inf, c.n <= M.val),
              forall([t], implies(z3.And(0 <= t, t < S.members.len), z3.And(c.arr[t + 1] == arr[S.members.arr[t]], ki < S.members.arr[t], S.members.arr[t] < jj)), S.members.arr[t])]
        f.append(forall([t, p], implies(z3.And(0 <= t, t < p, p < S.members.len), S.members.arr[t] < S.members.arr[p]), z3.MultiPattern(S.members.arr[t], S.members.arr[p])))
    return f


def lead_yield(S, w):
    n, arr = D(S)
    k = S.ghost(('k', LO))
    m = S.members
    ms = memset(S)
    return ([('the leader is an unclaimed item', z3.And(z3.Not(claimed(k)[k]), w.n >= 1, w.arr[0] == arr[k])),
             ('it gathers the later unclaimed items similar to it', z3.And(w.n == TY.card(mem(k)) + 1, ms == mem(k), forall([t], implies(z3.And(0 <= t, t < m.len), w.arr[t + 1] == arr[m.arr[t]]), m.arr[t]))),
             ('in order', forall([t, p], implies(z3.And(0 <= t, t < p, p < m.len), m.arr[t] < m.arr[p]), z3.MultiPattern(m.arr[t], m.arr[p]))),
             ('the size is admissible', yields_at(S, k))],
            {'cnt': S.ghost('cnt') + z3.If(k == I0, 1, 0)})


def lead_exit(S):
    """at the end of the inner loop the members are those of the specification"""
    ki = S.ghost(('k', LO))
    ms = memset(S)
    return [('all members', z3.And(TY.subset(mem(ki), ms), ms == mem(ki)))]


def lead_pre(S): return leader_defs(S) + [0 <= I0, I0 < D(S)[0]]


LEAD = [Case(k, {'data': ty, 'similarity': SIM, 'distance': None, 'radius': None, 'min_size': INT, 'max_size': TExt()}, pre=lead_pre) for k, ty in (('a list', TList(ITEM)), ('a stream', TStream(ITEM)))]


# ------------------------------------------------------------------------------------------- pairwise_fuzzy_clusters
x, y = z3.Ints('x! y!')
adj = z3.Function('similar_positions', z3.IntSort(), z3.IntSort(), BOOLS)
has = z3.Function('has_similar', z3.IntSort(), BOOLS)
nb = z3.Function('first_similar', z3.IntSort(), z3.IntSort())
deg = z3.Function('similar_to', z3.IntSort(), PS)
keyf = z3.Function('key_of', IS, IS)
F0, F1, F2, F3 = [('pairwise_fuzzy_clusters', a) for a in range(4)]


def mn(a, b): return z3.If(a < b, a, b)
def mx(a, b): return z3.If(a < b, b, a)
def keyed(S, v): return v if S._E.args0raw['key'] is None else keyf(v)


def graph_defs(S):
    """the graph of the similar positions (the first one is the left operand)"""
    n, arr = D(S)
    k = lambda a: keyed(S, arr[a])
    return [forall([x, y], adj(x, y) == z3.And(0 <= x, x < n, 0 <= y, y < n, x != y, z3.If(x < y, simb(k(x), k(y)), simb(k(y), k(x)))), adj(x, y)),
            forall([x, y], implies(adj(x, y), z3.And(has(x), nb(x) <= y, adj(y, x))), adj(x, y)), forall([x], implies(has(x), adj(x, nb(x))), has(x)),
            forall([x], lead(x) == mn(x, nb(x)), lead(x)), forall([x, y], deg(x)[y] == adj(x, y), deg(x)[y]), S.arg('min_size') >= 0]


def before(S, level):
    k = S.ghost(('k', F0))
    if level == 0: return lambda a, b: mn(a, b) < k
    kj = k + 1 + S.ghost(('k', F1))
    return lambda a, b: z3.Or(mn(a, b) < k, z3.And(mn(a, b) == k, mx(a, b) < kj))


lead = z3.Function('first_link', z3.IntSort(), z3.IntSort())
def earlier(a, b): return z3.Or(lead(a) < lead(b), z3.And(lead(a) == lead(b), a < b))


def gset(G, v):
    t = G.c.vt
    return TY.elems(t.len(G.val[v]), t.arr(G.val[v]))


def glen(G, v): return G.c.vt.len(G.val[v])


def fz_build(S, bf):
    G = S.graph
    if G.c.dom is None: return [forall([x], z3.Not(z3.And(has(x), bf(x, nb(x)))), has(x))]
    return [forall([x], G.dom[x] == z3.And(has(x), bf(x, nb(x))), G.dom[x], has(x)),
            forall([x, y], implies(G.dom[x], gset(G, x)[y] == z3.And(adj(x, y), bf(x, y))), gset(G, x)[y]),
            forall([x, y], implies(z3.And(adj(x, y), bf(x, y)), z3.And(G.dom[x], gset(G, x)[y])), adj(x, y)),
            forall([x], implies(G.dom[x], z3.And(glen(G, x) >= 0, glen(G, x) == TY.card(gset(G, x)))), G.val[x]),
            forall([x, y], implies(z3.And(G.dom[x], G.dom[y], earlier(x, y)), G.rank[x] < G.rank[y]), z3.MultiPattern(G.rank[x], G.rank[y])),
            forall([x], implies(G.dom[x], G.rank[x] < G.nextrank), G.rank[x])]


def fz_link(S):
    return [('the link is the similarity', z3.And(adj(S.i, S.j) == simb(S.A, S.B), adj(S.j, S.i) == simb(S.A, S.B)))] + fz_keys(S)


def fz_keys(S):
    a, b = S.i, S.j
    G0, G = S.pre.graph, S.graph
    h = []
    if G.c.dom is not None:
        dom0 = G0.dom if G0.c.dom is not None else TY.empty_set(z3.IntSort())
        h = [('new keys come last', implies(adj(a, b), z3.And(implies(z3.Not(dom0[a]), forall([x], implies(dom0[x], earlier(x, a)), dom0[x])),
                                                              implies(z3.Not(dom0[b]), z3.And(earlier(a, b), forall([x], implies(dom0[x], earlier(x, b)), dom0[x])))))),]
        if G0.c.dom is not None:
            h += [('old keys keep their place', z3.And(forall([x], implies(dom0[x], G.rank[x] == G0.rank[x]), G.rank[x]), implies(z3.And(adj(a, b), z3.Not(dom0[b])), G.rank[b] > G.rank[a]), implies(z3.And(adj(a, b), z3.Not(dom0[a])), G.rank[a] >= G0.nextrank), implies(z3.And(adj(a, b), z3.Not(dom0[b])), G.rank[b] >= G0.nextrank)))]
    return h


def fz_graph(S):
    G = S.graph
    if G.c.dom is None: return [forall([x], z3.Not(has(x)), has(x))]
    return [forall([x], G.dom[x] == has(x), G.dom[x], has(x)),
            forall([x], implies(G.dom[x], z3.And(glen(G, x) >= 0, glen(G, x) == TY.card(deg(x)), deg(x) == gset(G, x))), G.val[x], deg(x)),
            forall([x, y], implies(z3.And(G.dom[x], G.dom[y]), earlier(x, y) == (G.rank[x] < G.rank[y])), z3.MultiPattern(G.rank[x], G.rank[y]))]


def fz_done(S):
    G = S.graph
    if G.c.dom is None: return [('no pair', fz_graph(S)[0])]
    return [('the neighbours as a set', forall([x], implies(G.dom[x], z3.And(TY.subset(deg(x), gset(G, x)), TY.subset(gset(G, x), deg(x)))), G.dom[x])),
            ('the graph is complete', z3.And(*fz_graph(S)))]


def within(S, n):
    M = S._E.args0raw['max_size']
    return z3.And(S.arg('min_size') <= n, z3.Or(M.inf, n <= M.val))


def fz_yield(S, v):
    if v.c.kind != 'list': raise Stale('a cluster is not a list')
    n, arr = D(S)
    item = S.ghost(('arr', F3))[S.ghost(('k', F3))] if False else S.i
    ns = S.neighbors
    Y, N, L = S.ghost('Y'), S.ghost('N'), S.ghost('L')
    N1, L1 = S._E.fresh('N', N.sort()), S._E.fresh('L', L.sort())
    S._st.assume(forall([x], N1[x] == z3.Or(N[x], adj(item, x)), N1[x]), forall([x], L1[x] == z3.If(z3.And(adj(item, x), z3.Not(N[x])), item, L[x]), L1[x]))
    C = TY.elems(ns.n, ns.arr)
    return ([('the first item was not a neighbour in an earlier cluster', z3.And(0 <= item, item < n, v.n > 0, v.arr[0] == arr[item], forall([x], implies(Y[x], z3.Not(adj(x, item))), Y[x]))),
             ('the others are its neighbours', z3.And(v.n == ns.n + 1, forall([x], C[x] == adj(item, x), C[x], adj(item, x)), forall([t], implies(z3.And(0 <= t, t < ns.n), v.arr[t + 1] == arr[ns.arr[t]]), ns.arr[t]))),
             ('no repeated member', v.n == TY.card(deg(item)) + 1),
             ('the size is admissible', within(S, v.n)),
             ('clusters come in order of first appearance', forall([x], implies(Y[x], earlier(x, item)), Y[x])),
             ('an item is not repeated', z3.Not(Y[item]))],
            {'Y': z3.Store(Y, item, z3.BoolVal(True)), 'N': N1, 'L': L1})


def skipped(Y, L, a): return z3.And(Y[L[a]], adj(L[a], a), earlier(L[a], a))
def adm(S, a): return within(S, TY.card(deg(a)) + 1)


def fz_inv(S):
    V = vis(S)
    Y, N, L = S.ghost('Y'), S.ghost('N'), S.ghost('L')
    itx = S.it()
    arr, pos = itx['arr'], itx['pos']
    k = S.k
    return [forall([x], implies(Y[x], z3.And(has(x), pos(x) < k)), Y[x]),
            forall([x], V[x] == N[x], V[x], N[x]),
            forall([x], implies(N[x], z3.And(Y[L[x]], adj(L[x], x))), N[x]),
            forall([x, y], implies(z3.And(Y[x], adj(x, y)), N[y]), z3.MultiPattern(Y[x], adj(x, y))),
            forall([p], implies(z3.And(0 <= p, p < k), z3.Or(Y[arr[p]], z3.Not(adm(S, arr[p])), z3.And(N[arr[p]], skipped(Y, L, arr[p])))), arr[p])]


def fz_top(S):
    N, L = S.ghost('N'), S.ghost('L')
    a = S.it()['arr'][S.k]
    return [('a neighbour of a yielded item comes after it', implies(z3.And(S.k < S.it()['n'], N[a]), earlier(L[a], a)))] if 'n' in S.it() else []


def fz_post(S):
    Y, L = S.ghost('Y'), S.ghost('L')
    return forall([x], implies(has(x), z3.Or(Y[x], z3.Not(adm(S, x)), skipped(Y, L, x))), has(x))


# ------------------------------------------------------------------------------------------- parallel comparisons
PK = TSort('Pickle')
CH, PAY = TTup(LI, LI, INT, INT), TTup(PK, LI, LI, INT, INT)
RES = TList(IP)
chunk_of = z3.Function('chunk_of', z3.IntSort(), z3.IntSort(), z3.IntSort())
cc = z3.Int('c!')


def rectangle(pay, k):
    """rows, columns and offsets of a chunk (k: first component)"""
    T_ = PAY if k else CH
    return [z3.simplify(T_.get(d + k, pay)) for d in range(4)]


def covered(pay, k, a, b):
    I, J, io, jo = rectangle(pay, k)
    return z3.And(io <= a, a < io + LI.len(I), z3.If(io == jo, z3.And(io <= b, b < io + LI.len(I)), z3.And(jo <= b, b < jo + LI.len(J))))


def chunk_iter(E, st, env, node):
    """callee contract of upper_triangular_matrix_chunk_iter"""
    l = E.read(st, env['data'])
    if l.kind != 'list' or l.t != ITEM: raise Stale('chunks of something else')
    E.oblige(st, 'precondition chunk_size >= 1 of upper_triangular_matrix_chunk_iter', E.num(env['chunk_size']) >= 1, node, 'call')
    n, d = l.n, l.arr
    m, arr = E.fresh('chunks', z3.IntSort()), E.fresh('chunk', z3.ArraySort(z3.IntSort(), CH.sort()))
    I, J, io, jo = rectangle(arr[cc], 0)
    rng = z3.And(0 <= cc, cc < m)
    at = arr[chunk_of(x, y)]
    pr = z3.And(0 <= x, x < y, y < n)
    st.assume(m >= 0,
              forall([cc], implies(rng, z3.And(0 <= io, LI.len(I) >= 0, io + LI.len(I) <= n, z3.Or(io == jo, z3.And(0 <= jo, LI.len(J) >= 0, jo + LI.len(J) <= n, io + LI.len(I) <= jo)))), arr[cc]),
              forall([cc, t], implies(z3.And(rng, 0 <= t, t < LI.len(I)), LI.arr(I)[t] == d[io + t]), LI.arr(I)[t]),
              forall([cc, t], implies(z3.And(rng, io != jo, 0 <= t, t < LI.len(J)), LI.arr(J)[t] == d[jo + t]), LI.arr(J)[t]),
              forall([x, y], implies(pr, z3.And(0 <= chunk_of(x, y), chunk_of(x, y) < m, covered(at, 0, x, y))), chunk_of(x, y)),
              forall([x, y, cc], implies(z3.And(pr, rng, covered(arr[cc], 0, x, y)), cc == chunk_of(x, y)), z3.MultiPattern(arr[cc], chunk_of(x, y))))
    st.ghost = dict(st.ghost); st.ghost['chunks'] = (n, d, m, arr)
    return [(st, Gen(n=m, arr=arr, t=CH, bag=None, depth=E.loopdepth))]


def dumps(E, st, args, kw, node):
    E.trusted.add('dill.loads(dill.dumps(f)) behaves as f')
    if not isinstance(args[0], Fn) or args[0].kind != 'u' or args[0].f is not simb: raise Stale('something else is pickled')
    return [(st, z3.Const('pickled_similarity', PK.sort()))]


def pool(E, st, args, kw, node): return [(st, Opaque('pool'))]


def resbag(r): return TY.bag_of_list(RES.len(r), RES.arr(r))


def imap(ordered):
    def f(E, st, args, kw, node):
        """each payload is handed once to the worker, whose contract (proved above) gives its matches"""
        E.trusted.add('multiprocessing.Pool.imap(_unordered) applies the worker once to every payload')
        w, g = args[0], args[1]
        if not isinstance(w, Fn) or w.kind != 'repo' or w.name != 'pairwise_worker': raise Stale('another worker')
        E.used.add('fog/clustering/pairwise.py:pairwise_worker (by contract)')
        if not isinstance(g, Gen) or g.t != PAY: raise Stale('other payloads')
        E.consume(st, g)
        m, pay = g.n, g.arr
        E.oblige(st, 'precondition the payload holds the similarity of pairwise_worker', forall([cc], implies(z3.And(0 <= cc, cc < m), PAY.get(0, pay[cc]) == z3.Const('pickled_similarity', PK.sort())), pay[cc]), node, 'call')
        res = E.fresh('matches', z3.ArraySort(z3.IntSort(), RES.sort()))
        perm, inv = (lambda c: c), (lambda c: c)
        if not ordered:
            perm, inv = z3.Function('arrival', z3.IntSort(), z3.IntSort()), z3.Function('arrival_of', z3.IntSort(), z3.IntSort())
            st.assume(forall([cc], implies(z3.And(0 <= cc, cc < m), z3.And(0 <= perm(cc), perm(cc) < m, inv(perm(cc)) == cc)), perm(cc)), forall([cc], implies(z3.And(0 <= cc, cc < m), z3.And(0 <= inv(cc), inv(cc) < m, perm(inv(cc)) == cc)), inv(cc)))
        I, J, io, jo = rectangle(pay[perm(cc)], 1)
        a, b = IP.get(0, ix) - io, IP.get(1, ix) - jo
        diag = io == jo
        want = z3.And(0 <= a, a < LI.len(I), z3.If(diag, a + 1, 0) <= b, b < z3.If(diag, LI.len(I), LI.len(J)), simb(LI.arr(I)[a], z3.If(diag, LI.arr(I)[b], LI.arr(J)[b])))
        rb = resbag(res[cc])
        st.assume(forall([cc, ix], implies(z3.And(0 <= cc, cc < m), rb[ix] == z3.If(want, 1, 0)), rb[ix]), forall([cc], implies(z3.And(0 <= cc, cc < m), RES.len(res[cc]) >= 0), res[cc]))
        # what the contracts of the worker and of the chunks give together
        n, d, m0, arr = st.ghost['chunks']
        P_, Q_ = IP.get(0, ix), IP.get(1, ix)
        E.oblige(st, 'hint the payloads are the chunks', z3.And(m == m0, forall([cc], implies(z3.And(0 <= cc, cc < m), z3.And(*[rectangle(pay[cc], 1)[d_] == rectangle(arr[cc], 0)[d_] for d_ in range(4)])), pay[cc])), node, 'hint')
        E.oblige(st, 'hint matches of a chunk', forall([cc, ix], implies(z3.And(0 <= cc, cc < m, rb[ix] > 0), z3.And(rb[ix] == 1, P_ < Q_, adj(P_, Q_), cc == inv(chunk_of(P_, Q_)))), rb[ix]), node, 'hint')
        ra = resbag(res[inv(chunk_of(x, y))])
        E.oblige(st, 'hint every similar pair is matched', forall([x, y], implies(z3.And(adj(x, y), x < y), z3.And(0 <= inv(chunk_of(x, y)), inv(chunk_of(x, y)) < m, ra[IP.mk(x, y)] == 1)), adj(x, y)), node, 'hint')
        st.ghost = dict(st.ghost); st.ghost['results'] = (m, res, inv)
        return [(st, Gen(n=m, arr=res, t=RES, bag=None, depth=E.loopdepth))]
    return f


def flatten(E, st, args, kw, node):
    """chain.from_iterable: multiplicities add up"""
    g = args[0]
    if not isinstance(g, Gen) or g.t != RES: raise Stale('something else is chained')
    E.consume(st, g)
    m, res = g.n, g.arr
    bag = E.fresh('chained', z3.ArraySort(IP.sort(), z3.IntSort()))
    fw = z3.Function('chained_from', IP.sort(), z3.IntSort())
    ow = z3.Function('chained_too', z3.IntSort(), IP.sort(), z3.IntSort())
    rng = lambda c: z3.And(0 <= c, c < m)
    b = lambda c: resbag(res[c])[ix]
    E.trusted.add('itertools.chain.from_iterable: a sum of multiplicities is positive only if a term is, and exceeds a term only if another one is positive')
    st.assume(forall([ix], z3.And(bag[ix] >= 0, implies(bag[ix] > 0, z3.And(rng(fw(ix)), b(fw(ix)) > 0))), bag[ix]),
              forall([cc, ix], implies(rng(cc), z3.And(bag[ix] >= b(cc), implies(bag[ix] > b(cc), z3.And(rng(ow(cc, ix)), ow(cc, ix) != cc, b(ow(cc, ix)) > 0)))), b(cc)))
    P_, Q_ = IP.get(0, ix), IP.get(1, ix)
    E.oblige(st, 'hint at most once', forall([ix], implies(bag[ix] > 0, z3.And(bag[ix] == 1, P_ < Q_, adj(P_, Q_))), bag[ix]), node, 'hint')
    E.oblige(st, 'hint every similar pair', forall([x, y], implies(z3.And(adj(x, y), x < y), bag[IP.mk(x, y)] == 1), adj(x, y)), node, 'hint')
    k = E.fresh('nmatches', z3.IntSort()); st.assume(k >= 0)
    return [(st, Gen(n=k, arr=E.fresh('match', z3.ArraySort(z3.IntSort(), IP.sort())), t=IP, bag=bag, depth=E.loopdepth))]


# ------------------------------------------------------------------------------------------- after sorting the matches
def SL(S): return S._st.ghost['sortedlist']


pos2 = z3.Function('position_of_match', z3.IntSort(), z3.IntSort(), z3.IntSort())


def at_(S, a, b): return pos2(a, b)


def pos2_def(S):
    """pos2(x, y): where the pair {x, y} stands in the sorted matches"""
    m, L = SL(S)
    TY.elems(m, L)
    w = TY.fn('elems_%s_at' % IP.sort().name(), z3.IntSort(), L.sort(), IP.sort(), z3.IntSort())
    return forall([x, y], z3.And(implies(x < y, pos2(x, y) == w(m, L, IP.mk(x, y))), pos2(x, y) == pos2(y, x)), pos2(x, y))


def lexlt(a, b, c, d): return z3.Or(a < c, z3.And(a == c, b < d))


def dup(S):
    """instance of lemma DUP"""
    m, L = SL(S)
    b = TY.bag_of_list(m, L)
    return forall([p, q], implies(z3.And(0 <= p, p < q, q < m, L[p] == L[q]), b[L[p]] >= 2), z3.MultiPattern(L[p], L[q]))


def dup_lemma():
    def goals():
        L = z3.Const('L', z3.ArraySort(z3.IntSort(), IP.sort())); m, a, b = z3.Ints('m a b')
        f = lambda k: TY.bag_of_list(k, L)
        h = forall([p, q], implies(z3.And(0 <= p, p < q, q < m, L[p] == L[q]), f(m)[L[p]] >= 2), z3.MultiPattern(L[p], L[q]))
        TY.elems(m, L)
        return [('base', [], z3.Implies(z3.And(0 <= a, a < b, b < 0), False)),
                ('step', [m >= 0, h, 0 <= a, a < b, b < m + 1, L[a] == L[b], f(m + 1) == z3.Store(f(m), L[m], f(m)[L[m]] + 1), TY.elems(m, L)[L[a]] == (f(m)[L[a]] > 0), z3.Implies(a < m, TY.elems(m, L)[L[a]])], f(m + 1)[L[a]] >= 2)]
    return Lemma('DUP: a value found at two positions has multiplicity two', goals)


def sorted_facts(S):
    m, L = SL(S)
    a, b = IP.get(0, L[p]), IP.get(1, L[p])
    a2, b2 = IP.get(0, L[q]), IP.get(1, L[q])
    return [forall([p], implies(z3.And(0 <= p, p < m), z3.And(a < b, adj(a, b), at_(S, a, b) == p)), L[p]),
            forall([x, y], pos2(x, y) == pos2(y, x), pos2(x, y)),
            forall([x, y], implies(adj(x, y), z3.And(0 <= pos2(x, y), pos2(x, y) < m, implies(x < y, L[pos2(x, y)] == IP.mk(x, y)), implies(y < x, L[pos2(x, y)] == IP.mk(y, x)))), adj(x, y)),
            forall([p, q], implies(z3.And(0 <= p, p < q, q < m), lexlt(a, b, a2, b2)), z3.MultiPattern(L[p], L[q]))]


def sorted_entry(E, st, args, kw, node): pass


def fz_before2(S):
    k = S.ghost(('k', F2))
    return lambda a, b: at_(S, a, b) < k


def fz_top2(S):
    m, L = SL(S)
    k = S.ghost(('k', F2))
    i_, j_ = IP.get(0, L[k]), IP.get(1, L[k])
    return [('matches before this one come before it in lexicographic order', implies(k < m, z3.And(adj(i_, j_), at_(S, i_, j_) == k, forall([x, y], implies(adj(x, y), (at_(S, x, y) < k) == lexlt(mn(x, y), mx(x, y), i_, j_)), adj(x, y)))))]


DROP = ('chunk', 'matches!', 'chained', 'match!', 'marr', 'perm!', 'permi!', 'bagof')


def fz_entry2(S):
    m, L = SL(S)
    b = TY.bag_of_list(m, L)
    a, c = IP.get(0, L[p]), IP.get(1, L[p])
    S._st.assume(pos2_def(S))
    return [('the matches are similar pairs', forall([p], implies(z3.And(0 <= p, p < m), z3.And(b[L[p]] > 0, b[L[p]] == 1, a < c, adj(a, c))), L[p])),
            ('no match is repeated', forall([p, q], implies(z3.And(0 <= p, p < q, q < m), L[p] != L[q]), z3.MultiPattern(L[p], L[q])), [dup(S)]),
            ('every similar pair is a match', forall([x, y], implies(z3.And(adj(x, y), x < y), z3.And(b[IP.mk(x, y)] > 0, TY.elems(m, L)[IP.mk(x, y)])), adj(x, y)))]


def fz_link2(S):
    k = S.ghost(('k', F2))
    a, b = S.i, S.j
    k = S.pre.ghost(('k', F2))
    G0, G = S.pre.graph, S.graph
    h = []
    if G.c.dom is not None:
        old = lambda v: z3.If(G0.dom[v], gset(G0, v)[y], False) if G0.c.dom is not None else z3.BoolVal(False)
        h = [('one neighbour more', z3.And(forall([y], gset(G, a)[y] == z3.Or(old(a), y == b), gset(G, a)[y]), forall([y], gset(G, b)[y] == z3.Or(old(b), y == a), gset(G, b)[y])))]
        if G0.c.dom is not None:
            nw = lambda v: forall([y], gset(G, v)[y] == z3.And(adj(v, y), at_(S, v, y) < k + 1), gset(G, v)[y])
            h.append(('the neighbours of the first', nw(a))); h.append(('the neighbours of the second', nw(b)))
            h.append(('the others are kept', forall([x], implies(z3.And(x != a, x != b), z3.And(G.val[x] == G0.val[x], G.dom[x] == G0.dom[x])), G.val[x])))
    return [('the link', z3.And(adj(a, b), adj(b, a), a < b)), ('one match more', forall([x, y], implies(adj(x, y), (at_(S, x, y) < k + 1) == z3.Or(at_(S, x, y) < k, z3.And(x == a, y == b), z3.And(x == b, y == a))), adj(x, y)))] + h + fz_keys(S)


# ------------------------------------------------------------------------------------------- pairwise_connected_components
Zi, Ki = z3.Const('Z', PS), z3.Const('K', PS)      # any set closed under similarity, any component
ki0 = z3.Int('k0')
AI = z3.ArraySort(z3.IntSort(), z3.IntSort())
C0, C1, C2, C3, C4 = [('pairwise_connected_components', a) for a in range(5)]
cls = z3.Function('class_of', AI, z3.IntSort(), PS)


def comp_defs(S):
    n, arr = D(S)
    r = z3.Const('r!', AI)
    S_ = z3.Const('S!', PS)
    return graph_defs(S) + [forall([x, y], implies(adj(x, y), z3.And(Zi[x] == Zi[y], Ki[x] == Ki[y])), adj(x, y)), Ki[ki0], 0 <= ki0, ki0 < n, forall([x], implies(Ki[x], z3.And(0 <= x, x < n)), Ki[x]),
                            forall([r, y, x], cls(r, y)[x] == z3.And(0 <= x, x < n, r[x] == r[y]), cls(r, y)[x])]


def least(S, C):
    """K is the least closed set that holds k0 (instance of its definition for C)"""
    return implies(z3.And(C[ki0], forall([x, y], implies(z3.And(adj(x, y), C[x]), C[y]), adj(x, y))), TY.subset(Ki, C))


def uf_new(E, st, args, kw, node):
    E.trusted.add('phylactery.UnionFind: union merges two classes, connected compares classes, components lists the classes of admissible size once each, without repetition')
    st.ghost = dict(st.ghost)
    st.ghost['uf'] = z3.Const('identity', AI)
    E.oblige(st, 'the union-find has one class per item', E.num(args[0]) == D(SView(E, st, None))[0], node, 'call')
    st.assume(forall([x], z3.Const('identity', AI)[x] == x, z3.Const('identity', AI)[x]))
    return [(st, Opaque('UF'))]


def inrange(E, st, a, node):
    n = D(SView(E, st, None))[0]
    E.oblige(st, 'position in range', z3.And(0 <= a, a < n), node, 'no-raise')


def uf_union(E, st, args, kw, node):
    a, b = E.num(args[0]), E.num(args[1])
    inrange(E, st, a, node); inrange(E, st, b, node)
    r = st.ghost['uf']
    r1 = E.fresh('uf', AI)
    st.assume(forall([x], r1[x] == z3.If(r[x] == r[b], r[a], r[x]), r1[x]))
    st.ghost = dict(st.ghost); st.ghost['uf'] = r1
    return [(st, None)]


def uf_connected(E, st, args, kw, node):
    a, b = E.num(args[0]), E.num(args[1])
    inrange(E, st, a, node); inrange(E, st, b, node)
    r = st.ghost['uf']
    return [(st, r[a] == r[b])]


def uf_components(E, st, args, kw, node):
    r = st.ghost['uf']
    lo, hi = kw.get('min_size', args[0] if args else None), kw.get('max_size', args[1] if len(args) > 1 else None)
    if lo is None or not isinstance(hi, Ext): raise Stale('components of any size')
    lo = E.num(lo)
    ok = lambda k: z3.And(lo <= k, z3.Or(hi.inf, k <= hi.val))
    T_ = TList(INT)
    m, arr = E.fresh('ncomponents', z3.IntSort()), E.fresh('component', z3.ArraySort(z3.IntSort(), T_.sort()))
    c, ln = T_.arr(arr[cc]), T_.len(arr[cc])
    idx = z3.Function('component_of', z3.IntSort(), z3.IntSort())
    n = D(SView(E, st, None))[0]
    st.assume(m >= 0, forall([cc], implies(z3.And(0 <= cc, cc < m), z3.And(ln >= 1, 0 <= c[0], c[0] < n, TY.elems(ln, c) == cls(r, c[0]), ln == TY.card(cls(r, c[0])), ok(ln), idx(c[0]) == cc)), arr[cc]),
              forall([x], implies(z3.And(0 <= x, x < n, ok(TY.card(cls(r, x)))), z3.And(0 <= idx(x), idx(x) < m, r[T_.arr(arr[idx(x)])[0]] == r[x])), idx(x)),
              forall([x, y], implies(r[x] == r[y], idx(x) == idx(y)), z3.MultiPattern(idx(x), idx(y))))
    # what the classes are once every similar pair was merged
    C = cls(r, ki0)
    E.oblige(st, 'hint similar positions are in one class', forall([x, y], implies(adj(x, y), r[x] == r[y]), adj(x, y)), node, 'hint')
    E.oblige(st, 'hint the class of k0', implies(z3.And(C[ki0], forall([x, y], implies(z3.And(adj(x, y), C[x]), C[y]), adj(x, y))), z3.And(C[ki0], forall([x, y], implies(z3.And(adj(x, y), C[x]), C[y]), adj(x, y)))), node, 'hint')
    E.oblige(st, 'hint the class of k0 is closed', z3.And(C[ki0], forall([x, y], implies(z3.And(adj(x, y), C[x]), C[y]), adj(x, y))), node, 'hint')
    st.assume(least(None, C))
    E.oblige(st, 'hint the class of k0 is K', z3.And(TY.subset(C, Ki), C == Ki), node, 'hint')
    st.ghost = dict(st.ghost); st.ghost['comps'] = (m, arr, idx, r)
    return [(st, Gen(n=m, arr=arr, t=T_, bag=None, depth=E.loopdepth))]


def uf_inv(S, bf):
    r = S.ghost('uf')
    return [forall([x, y], implies(r[x] == r[y], z3.And(Zi[x] == Zi[y], Ki[x] == Ki[y])), z3.MultiPattern(r[x], r[y])),
            forall([x, y], implies(z3.And(adj(x, y), bf(x, y)), r[x] == r[y]), adj(x, y))]


def cc_before(S, level):
    k = S.ghost(('k', C0))
    if level == 0: return lambda a, b: mn(a, b) < k
    kj = k + 1 + S.ghost(('k', C1))
    return lambda a, b: z3.Or(mn(a, b) < k, z3.And(mn(a, b) == k, mx(a, b) < kj))


def cc_before2(S, level):
    m, res, inv = S._st.ghost['results']
    k = S.ghost(('k', C2))
    c = lambda a, b: inv(chunk_of(mn(a, b), mx(a, b)))
    if level == 0: return lambda a, b: c(a, b) < k
    R = res[k]
    kj = S.ghost(('k', C3))
    w = lambda a, b: TY.fn('elems_%s_at' % IP.sort().name(), z3.IntSort(), RES.arr(R).sort(), IP.sort(), z3.IntSort())(RES.len(R), RES.arr(R), IP.mk(mn(a, b), mx(a, b)))
    return lambda a, b: z3.Or(c(a, b) < k, z3.And(c(a, b) == k, w(a, b) < kj))


def cc_top3(S):
    m, res, inv = S._st.ghost['results']
    R = res[S.ghost(('k', C2))]
    kj = S.ghost(('k', C3))
    e = RES.arr(R)[kj]
    a, b = IP.get(0, e), IP.get(1, e)
    return [('the match is in the result', implies(kj < RES.len(R), z3.And(TY.elems(RES.len(R), RES.arr(R))[e], resbag(R)[e] > 0))), ('the match is a similar pair', implies(kj < RES.len(R), z3.And(a < b, adj(a, b))))]


def cc_yield(S, v):
    if v.c.kind != 'list': raise Stale('a cluster is not a list')
    n, arr = D(S)
    ns = S.component
    C = TY.elems(ns.n, ns.arr)
    item = ns.arr[0]
    return ([('the cluster is made of the items at the positions of a class', z3.And(v.n == ns.n, ns.n >= 1, forall([t], implies(z3.And(0 <= t, t < ns.n), v.arr[t] == arr[ns.arr[t]]), v.arr[t]))),
             ('no position is repeated', ns.n == TY.card(C)),
             ('the cluster is closed under similarity', forall([x, y], implies(z3.And(adj(x, y), C[x]), C[y]), adj(x, y))),
             ('the cluster is connected', z3.And(0 <= item, item < n, C[item], forall([x], implies(C[x], Zi[x] == Zi[item]), C[x]))),
             ('the size is admissible', within(S, v.n))],
            {'cntK': S.ghost('cntK') + z3.If(C == Ki, 1, 0)})


def cc_out(S):
    m, arr, idx, r = S._st.ghost['comps']
    return S.ghost('cntK') == z3.If(z3.And(within(S, TY.card(Ki)), idx(ki0) < S.k), 1, 0)


def cc_out_hint(S):
    m, arr, idx, r = S._st.ghost['comps']
    ns = S.component
    C = TY.elems(ns.n, ns.arr)
    a = ns.arr[0]
    return [('the class', z3.And(C == cls(r, a), cls(r, a)[a] == z3.BoolVal(True))), ('a class that meets K is K', implies(r[a] == r[ki0], z3.And(TY.subset(C, Ki), TY.subset(Ki, C), C == Ki))), ('a class that does not is not', implies(r[a] != r[ki0], z3.And(z3.Not(C[ki0]), C != Ki)))]


EXT = {'dill.dumps': dumps, 'multiprocessing.Pool': pool, 'pool.imap': imap(True), 'pool.imap_unordered': imap(False), 'itertools.chain.from_iterable': flatten,
       'phylactery.UnionFind': uf_new, 'UF.union': uf_union, 'UF.connected': uf_connected, 'UF.components': uf_components}

KEYF = TFn([ITEM], ITEM, keyf)


def par(pre): return lambda S: pre(S) + [S.arg('chunk_size') >= 1]


def many(E, st):
    v = E.fresh('processes', z3.IntSort())
    st.assume(v >= 2)
    return v


def cases(pre):
    a = lambda ty, kf, pr: {'data': ty, 'similarity': SIM, 'distance': None, 'radius': None, 'min_size': INT, 'max_size': TExt(), 'key': kf, 'processes': pr, 'chunk_size': INT}
    r = [Case('%s%s, one process' % (k, w), a(ty, kf, 1), pre=pre) for k, ty in (('a list', TList(ITEM)), ('a stream', TStream(ITEM))) for w, kf in (('', None), (' with a key', KEYF))]
    return r + [Case('%s%s, several processes' % (k, w), a(ty, kf, many), pre=par(pre)) for k, ty in (('a list', TList(ITEM)), ) for w, kf in (('', None), (' with a key', KEYF))]


FZ, CC = cases(graph_defs), cases(comp_defs)

# ------------------------------------------------------------------------------------------- pairwise
def dispatched(name):
    def f(E, st, env, node): return [(st, Gen(opaque=(name, env), depth=E.loopdepth))]
    return f


def dispatch_post(name):
    def f(S):
        r = S._result
        if not isinstance(r, Gen) or not isinstance(r.__dict__.get('opaque'), tuple): raise Stale('something else is returned')
        n, env = r.opaque
        return z3.BoolVal(n == name and set(env) == {'data', '**'} and env['data'] is S._E.args0raw['data'])
    return f


MODES = {'leader': 'pairwise_leader', 'fuzzy_clusters': 'pairwise_fuzzy_clusters', 'connected_components': 'pairwise_connected_components'}
DISPATCH = [Case('mode ' + m, {'data': TList(ITEM), 'mode': m}, post=[('the clusters are those of %s with the same arguments' % f, dispatch_post(f))]) for m, f in MODES.items()]
DISPATCH += [Case('default mode', {'data': TList(ITEM)}, post=[('the clusters are those of the connected components', dispatch_post('pairwise_connected_components'))]),
             Case('unknown mode', {'data': TList(ITEM), 'mode': 'nope'}, consts={'raises': 'TypeError'})]

CONTRACTS = [
    Contract('fog/clustering/pairwise.py:pairwise', DISPATCH, summaries={'**' + f: dispatched(f) for f in MODES.values()}),
    Contract('fog/clustering/utils.py:make_similarity_function', MSFS),
    Contract('fog/clustering/utils.py:upper_triangular_matrix_chunk_iter', [Case('', {'data': LI, 'chunk_size': INT}, pre=chunk_pre)], ghost={'cnt': z3.IntVal(0)}, yields=False, on_yield=chunk_yield,
             loops={OUT: Loop([('pairs covered so far', chunk_inv(0))], use=nlfacts), IN: Loop([('pairs covered so far', chunk_inv(1))], use=nlfacts)},
             post=[('every pair of positions is covered by exactly one chunk', lambda S: S.ghost('cnt') == 1)]),
    Contract('fog/clustering/pairwise.py:pairwise_worker', [Case('diagonal', {'payload': worker_payload(True)}), Case('off the diagonal', {'payload': worker_payload(False)})],
             externals={'dill.loads': loads},
             loops={WO: Loop([('pairs so far', w_inv(0))]), WI: Loop([('pairs so far', w_inv(1))])},
             post=[('every similar pair of the chunk, once', lambda S: worker_facts(S, S.result))]),
    Contract('fog/clustering/pairwise.py:pairwise_leader', LEAD, summaries={'make_similarity_function': make_similarity}, yields=TList(ITEM), ghost={'cnt': z3.IntVal(0)}, on_yield=lead_yield,
             loops={LO: Loop([('claimed so far', lead_outer)]), LIN: Loop([('gathered so far', lead_inner)], exit_hint=lead_exit)},
             post=[('every item leads exactly when it should', lambda S: S.ghost('cnt') == z3.If(yields_at(S, I0), 1, 0))]),
    Contract('fog/clustering/pairwise.py:pairwise_fuzzy_clusters', FZ, summaries={'make_similarity_function': make_similarity, 'upper_triangular_matrix_chunk_iter': chunk_iter}, externals=EXT, yields=TList(ITEM), on_yield=fz_yield,
             ghost={'Y': TY.empty_set(z3.IntSort()), 'N': TY.empty_set(z3.IntSort()), 'L': z3.Const('L0', z3.ArraySort(z3.IntSort(), z3.IntSort()))},
             loops={F0: Loop([('graph so far', lambda S: fz_build(S, before(S, 0)))], exit_hint=fz_done), F1: Loop([('graph so far', lambda S: fz_build(S, before(S, 1)))], hint=fz_link),
                    F2: Loop([('the matches are the similar pairs, in order', sorted_facts), ('graph so far', lambda S: fz_build(S, fz_before2(S)))], top=fz_top2, hint=fz_link2, exit_hint=fz_done, entry=fz_entry2, drop=DROP),
                    F3: Loop([('the graph', fz_graph), ('clusters so far', fz_inv)], index=True, top=fz_top, drop=DROP + ('sorted', 'elems_Tup'))},
             post=[('every admissible item leads a cluster or is a neighbour in an earlier one', fz_post)]),
    Contract('fog/clustering/pairwise.py:pairwise_connected_components', CC, summaries={'make_similarity_function': make_similarity, 'upper_triangular_matrix_chunk_iter': chunk_iter}, externals=EXT,
             yields=TList(ITEM), on_yield=cc_yield, ghost={'cntK': z3.IntVal(0)},
             loops={C0: Loop([('merged so far', lambda S: uf_inv(S, cc_before(S, 0)))]), C1: Loop([('merged so far', lambda S: uf_inv(S, cc_before(S, 1)))], hint=lambda S: [('the link is the similarity', z3.And(adj(S.i, S.j) == simb(S.A, S.B), adj(S.j, S.i) == adj(S.i, S.j)))]),
                    C2: Loop([('merged so far', lambda S: uf_inv(S, cc_before2(S, 0)))]), C3: Loop([('merged so far', lambda S: uf_inv(S, cc_before2(S, 1)))], top=cc_top3),
                    C4: Loop([('components so far', cc_out)])},
             post=[('each admissible component is yielded exactly once', lambda S: S.ghost('cntK') == z3.If(within(S, TY.card(Ki)), 1, 0))]),
]
LEMMAS = [chunk_lemma(), dup_lemma()]
COMPLETE = True
