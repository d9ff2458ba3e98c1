"""Best matching F1; the online mean"""
from contracts.common import *

IS = ITEM.sort()
SS = z3.ArraySort(IS, z3.BoolSort())
LL = TList(ITEM)
x = z3.Const('x!', IS)
p, q, t, c, w = z3.Ints('p! q! t! c! w!')
RA = z3.ArraySort(z3.IntSort(), z3.RealSort())

TI = z3.Const('truth_items', SS)
ix = z3.Function('predicted_of', IS, z3.IntSort())          # the predicted cluster an item is found in
PS = z3.Function('relevant', z3.IntSort(), z3.IntSort(), SS)             # items of a predicted cluster that count, among its first ones
TP = z3.Function('common', z3.IntSort(), z3.IntSort(), z3.IntSort(), SS)  # items of a truth cluster found in a predicted one, among its first ones
tp = z3.Function('true_positives', z3.IntSort(), z3.IntSort(), z3.IntSort())
T0, C0 = z3.Ints('a_truth_cluster a_predicted_cluster')
tpos = z3.Function('position_in', z3.IntSort(), IS, z3.IntSort())
PREC, REC, F1 = [z3.Function(n, z3.IntSort(), z3.IntSort(), z3.RealSort()) for n in ('precision', 'recall', 'f1')]
C1, P1, C2, P2 = z3.Ints('c1 p1 c2 p2')
place = z3.Function('place', z3.IntSort(), z3.IntSort(), IS, z3.IntSort())
total = z3.Function('total', z3.IntSort(), RA, z3.RealSort())


def clusters(S, which):
    a = S.arg(which)
    return a.n, (lambda i: LL.len(a.arr[i])), (lambda i, k: LL.arr(a.arr[i])[k]), a.arr


def allow(S): return S._E.args0raw['allow_additional_items']


def defs(S):
    nt, tl, tc, ta = clusters(S, 'truth')
    np, pl, pc, pa = clusters(S, 'predicted')
    item = tc(t, p)
    T = z3.BoolVal(True)
    return [nt >= 0, np >= 0, forall([t], tl(t) >= 0, ta[t]), forall([t], pl(t) >= 0, pa[t]),
            # the items of the truth
            forall([t, p], implies(z3.And(0 <= t, t < nt, 0 <= p, p < tl(t)), TI[item]), item),
            forall([x], implies(TI[x], z3.Exists([t, p], z3.And(0 <= t, t < nt, 0 <= p, p < tl(t), item == x), patterns=[item])), TI[x]),
            # a cluster has no repeated item
            forall([t, p], implies(z3.And(0 <= t, t < nt, 0 <= p, p < tl(t)), tpos(t, item) == p), item),
            # sets of items
            forall([c], PS(c, 0) == TY.empty_set(IS), PS(c, 0)),
            forall([c, p], implies(p >= 0, PS(c, p + 1) == z3.If(TI[pc(c, p)], z3.Store(PS(c, p), pc(c, p), T), PS(c, p))), PS(c, p + 1)),
            forall([t, c], TP(t, c, 0) == TY.empty_set(IS), TP(t, c, 0)),
            forall([t, c, p], implies(p >= 0, TP(t, c, p + 1) == z3.If(ix(item) == c, z3.Store(TP(t, c, p), item, T), TP(t, c, p))), TP(t, c, p + 1)),
            forall([t, c], tp(t, c) == TY.card(TP(t, c, tl(t))), tp(t, c)),
            # the (first) predicted cluster that has an item
            forall([c, x], implies(z3.And(0 <= c, c < np, PS(c, pl(c))[x]), z3.And(0 <= ix(x), ix(x) <= c, PS(ix(x), pl(ix(x)))[x])), PS(c, pl(c))[x]),
            # where an item of PS is, see lemma PLACE
            forall([c, p, x], implies(z3.And(p >= 0, PS(c, p)[x]), z3.And(0 <= place(c, p, x), place(c, p, x) < p, pc(c, place(c, p, x)) == x, TI[x])), PS(c, p)[x]),
            # scores
            forall([t, c], z3.And(PREC(t, c) == z3.ToReal(tp(t, c)) / z3.ToReal(size(S, c)), REC(t, c) == z3.ToReal(tp(t, c)) / z3.ToReal(tl(t)), F1(t, c) == 2 * PREC(t, c) * REC(t, c) / (PREC(t, c) + REC(t, c))), tp(t, c))]


def bounds_fact(a, b, c, P, R, F):
    return implies(z3.And(1 <= a, a <= b, a <= c, P == z3.ToReal(a) / z3.ToReal(b), R == z3.ToReal(a) / z3.ToReal(c), F == 2 * P * R / (P + R)), z3.And(0 < P, P <= 1, 0 < R, R <= 1, 0 < F, F <= 1))


def bounds_lemma():
    def goals():
        a, b, c = z3.Ints('a b c')
        u, v, w, P, R, F = z3.Reals('u v w P R F')
        h = [u >= 1, u <= v, u <= w, P * v == u, R * w == u]
        k = [0 < P, P <= 1, 0 < R, R <= 1, F * (P + R) == 2 * P * R]
        return [('precision', [u >= 1, u <= v, P * v == u], z3.And(0 < P, P <= 1)),
                ('positive', [0 < P, 0 < R, F * (P + R) == 2 * P * R], F > 0),
                ('harmonic', k, (1 - F) * (P + R) >= 0), ('bounded', [0 < P, 0 < R, (1 - F) * (P + R) >= 0], F <= 1)]
    return Lemma('BOUNDS: precision, recall and F1 lie in (0, 1]', goals)


def place_lemma():
    def goals():
        pc = z3.Function('item_at', z3.IntSort(), z3.IntSort(), IS)
        cc, n = z3.Ints('cc n'); y = z3.Const('y', IS)
        d = [forall([c], PS(c, 0) == TY.empty_set(IS), PS(c, 0)), forall([c, p], implies(p >= 0, PS(c, p + 1) == z3.If(TI[pc(c, p)], z3.Store(PS(c, p), pc(c, p), z3.BoolVal(True)), PS(c, p))), PS(c, p + 1)),
             forall([c, p, x], implies(p >= 0, place(c, p + 1, x) == z3.If(pc(c, p) == x, p, place(c, p, x))), place(c, p + 1, x))]
        claim = lambda m: implies(PS(cc, m)[y], z3.And(0 <= place(cc, m, y), place(cc, m, y) < m, pc(cc, place(cc, m, y)) == y, TI[y]))
        return [('base', d, claim(z3.IntVal(0))), ('step', d + [n >= 0, claim(n)], claim(n + 1))]
    return Lemma('PLACE: an item of a predicted cluster that counts is at some position of it (induction)', goals)


def total_lemma():
    def goals():
        n = z3.Int('n'); a, b = z3.Consts('a b', RA)
        d = total_defs()
        return [('base', d, z3.And(0 <= total(0, a), total(0, a) <= 0)),
                ('step', d + [n >= 0, 0 <= a[n], a[n] <= 1, 0 <= total(n, a), total(n, a) <= z3.ToReal(n)], z3.And(0 <= total(n + 1, a), total(n + 1, a) <= z3.ToReal(n) + 1)),
                ('mean', [n >= 1, 0 <= total(n, a), total(n, a) <= z3.ToReal(n)], z3.And(0 <= total(n, a) / z3.ToReal(n), total(n, a) / z3.ToReal(n) <= 1))]
    return Lemma('TOTAL: the mean of values of [0, 1] is in [0, 1] (induction)', goals)


def total_defs():
    n = z3.Int('n!'); a = z3.Const('a!', RA)
    return [forall([a], total(0, a) == 0, total(0, a)), forall([n, a], implies(n >= 0, total(n + 1, a) == total(n, a) + a[n]), total(n + 1, a))]


def size(S, c): return TY.card(PS(c, clusters(S, 'predicted')[1](c)))


def tsize(S, t): return clusters(S, 'truth')[1](t)


# ------------------------------------------------------------------------------------------- OnlineMean, by contract
def mean_new(E, st, args, kw, node):
    if args or kw: raise PyRaise('TypeError')
    E.used.add('fog/utils.py:OnlineMean (by contract)')
    return [(st, E.new_cell(st, Obj(E.global_value(st, E.module, 'OnlineMean'), {'count': z3.IntVal(0), 'values': E.fresh('values', RA)})))]


def mean_add(E, st, env, node):
    """the value joins the history"""
    o = E.read(st, env['self'])
    v = real(E.num(env['x']))
    E.write(st, env['self'], Obj(o.cls, {'count': o.fields['count'] + 1, 'values': z3.Store(o.fields['values'], o.fields['count'], v)}))
    return [(st, None)]


def mean_float(E, st, args, kw, node):
    v = args[0]
    if not isinstance(v, (Ref, View)): return None
    o = E.read(st, v)
    if o.kind != 'obj': return None
    E.oblige(st, 'the mean of at least one value', o.fields['count'] >= 1, node, 'no-raise')
    return [(st, total(o.fields['count'], o.fields['values']) / z3.ToReal(o.fields['count']))]


# ------------------------------------------------------------------------------------------- the function
Q = 'best_matching_macro_average'
L = [(Q, k) for k in range(7)]
L_T, L_TI, L_P, L_PI, L_M, L_MI, L_C = L


def tset(S):
    v = S.truth_items
    return v.c.arr if v.c.t is not None else None


def items_inv(S):
    V = tset(S)
    nt, tl, tc, ta = clusters(S, 'truth')
    if V is None: return []
    k = S.ghost(('k', L_T))
    return [forall([x], implies(V[x], TI[x]), V[x]), forall([t, p], implies(z3.And(0 <= t, t < k, 0 <= p, p < tl(t)), V[tc(t, p)]), tc(t, p))]


def items_inner(S):
    V = tset(S)
    nt, tl, tc, ta = clusters(S, 'truth')
    if V is None: return []
    k = S.ghost(('k', L_T))
    return items_inv(S) + [forall([p], implies(z3.And(0 <= p, p < S.k), V[tc(k, p)]), tc(k, p))]


def items_known(S):
    V = tset(S)
    if V is None: return []
    return [forall([x], V[x] == TI[x], V[x], TI[x])]


def done(c_, p_, i, k):
    """this position of the predicted clusters was processed"""
    return z3.Or(c_ < i, z3.And(c_ == i, p_ < k)) if k is not None else c_ < i


def index_inv(S, i=None, k=None):
    D, Z = S.index, S.predicted_cluster_sizes
    np, pl, pc, pa = clusters(S, 'predicted')
    i = S.k if i is None else i
    if D.c.dom is None or tset(S) is None: return []
    inside = lambda c_: z3.And(0 <= c_, c_ < i) if k is None else z3.And(0 <= c_, c_ <= i)
    top = lambda c_: pl(c_) if k is None else z3.If(c_ == i, k, pl(c_))
    pos = lambda a, b: z3.And(0 <= a, a < np, 0 <= b, b < pl(a), done(a, b, i, k))
    f = items_known(S) + [
        forall([x], implies(D.dom[x], z3.And(TI[x], inside(D.val[x]), PS(D.val[x], top(D.val[x]))[x])), D.dom[x]),
        forall([c, x], implies(z3.And(0 <= c, c < i, PS(c, pl(c))[x]), z3.And(D.dom[x], D.val[x] == c)), PS(c, pl(c))[x]),
        # nothing was wrong so far
        implies(z3.And(0 <= C1, C1 < i), pl(C1) > 0),
        implies(z3.And(pos(C1, P1), pos(C2, P2), TI[pc(C1, P1)], pc(C1, P1) == pc(C2, P2)), z3.And(C1 == C2, P1 == P2)),
        *[implies(z3.And(pos(a, b), TI[pc(a, b)]), z3.And(D.dom[pc(a, b)], D.val[pc(a, b)] == a)) for a, b in ((C1, P1), (C2, P2))]]
    if not allow(S): f.append(implies(pos(C1, P1), TI[pc(C1, P1)]))
    if k is not None:
        f += [forall([x], implies(PS(i, k)[x], z3.And(D.dom[x], D.val[x] == i)), PS(i, k)[x])]
    if Z.c.dom is not None:
        f += [forall([c], Z.dom[c] == z3.And(0 <= c, c < i), Z.dom[c]), forall([c], implies(z3.And(0 <= c, c < i), Z.val[c] == size(S, c)), Z.val[c])]
    return f


def index_inner(S):
    i, k = S.ghost(('k', L_P)), S.k
    if S.index.c.dom is None: return []
    return index_inv(S, i, k) + [S.l == TY.card(PS(i, k)), clusters(S, 'predicted')[1](i) > 0]


def index_use(S):
    i = S.ghost(('k', L_P))
    return [PS(i, 0) == TY.empty_set(IS)]


def index_known(S):
    D, Z = S.index, S.predicted_cluster_sizes
    if D.c.dom is None or Z.c.dom is None: return []
    np, pl, pc, pa = clusters(S, 'predicted')
    return [forall([x], implies(D.dom[x], z3.And(TI[x], D.val[x] == ix(x), 0 <= ix(x), ix(x) < np, PS(ix(x), pl(ix(x)))[x])), D.dom[x]),
            forall([c], Z.dom[c] == z3.And(0 <= c, c < np), Z.dom[c]), forall([c], implies(z3.And(0 <= c, c < np), Z.val[c] == size(S, c)), Z.val[c])]


def res(S, t_, P, R, F):
    np = clusters(S, 'predicted')[0]
    return z3.And(z3.Exists([c], z3.And(0 <= c, c < np, tp(t_, c) > 0, P == PREC(t_, c), R == REC(t_, c), F == F1(t_, c)), patterns=[tp(t_, c)]))


def match_inv(S):
    P, R, F = S.P, S.R, S.F
    np = clusters(S, 'predicted')[0]
    k = S.k
    nt, tl, tc, ta = clusters(S, 'truth')
    item = tc(T0, P1)
    return [P.count == k, R.count == k, F.count == k,
            implies(z3.And(0 <= T0, T0 < k), z3.And(res(S, T0, P.values[T0], R.values[T0], F.values[T0]), implies(z3.And(0 <= C0, C0 < np, tp(T0, C0) > 0), F1(T0, C0) <= F.values[T0]), tl(T0) > 0,
                                                   implies(z3.And(0 <= P1, P1 < tl(T0)), z3.And(0 <= ix(item), ix(item) < np, PS(ix(item), clusters(S, 'predicted')[1](ix(item)))[item])))),
            *[forall([t], implies(z3.And(0 <= t, t < k), z3.And(0 <= V.values[t], V.values[t] <= 1)), V.values[t]) for V in (P, R, F)]]


def cand_inv(S, j=None):
    C, D = S.candidates, S.index
    k = S.ghost(('k', L_M)); j = S.k if j is None else j
    nt, tl, tc, ta = clusters(S, 'truth')
    if C.c.dom is None or D.c.dom is None: return []
    return [S.cluster_size == j, forall([c], implies(C.dom[c], C.val[c] == TY.card(TP(k, c, j))), C.val[c]), forall([c], C.dom[c] == (TY.card(TP(k, c, j)) > 0), C.dom[c], TP(k, c, j)),
            forall([c, x], implies(TP(k, c, j)[x], z3.And(0 <= tpos(k, x), tpos(k, x) < j, tc(k, tpos(k, x)) == x, ix(x) == c)), TP(k, c, j)[x]),
            forall([c], TY.card(TP(k, c, j)) <= j, TP(k, c, j)),
            forall([p], implies(z3.And(0 <= p, p < j), z3.And(D.dom[tc(k, p)], TP(k, ix(tc(k, p)), j)[tc(k, p)])), tc(k, p))]


def cand_exit(S):
    C, D = S.candidates, S.index
    if C.c.dom is None or D.c.dom is None: return []
    k = S.ghost(('k', L_M))
    nt, tl, tc, ta = clusters(S, 'truth')
    np, pl, pc, pa = clusters(S, 'predicted')
    full = TP(k, c, tl(k))
    first = ix(tc(k, 0))
    return [('the first item is found somewhere', z3.And(D.dom[tc(k, 0)], full_has(k, first, tl(k), tc(k, 0)), TY.card(TP(k, first, tl(k))) > 0, C.dom[first])),
            ('common items are items of the predicted cluster', forall([c, x], implies(full[x], z3.And(0 <= c, c < np, PS(c, pl(c))[x])), full[x])),
            ('a candidate has common items', forall([c], implies(C.dom[c], z3.And(tp(k, c) == C.val[c], tp(k, c) >= 1)), C.dom[c])),
            ('some item witnesses it', forall([c], implies(tp(k, c) >= 1, z3.And(0 <= c, c < np)), tp(k, c))),
            ('and every cluster that has some is a candidate', forall([c], implies(tp(k, c) >= 1, C.dom[c]), tp(k, c))),
            ('inclusion', forall([c], TY.subset(full, PS(c, pl(c))), tp(k, c))),
            ('not more than its size', forall([c], z3.And(tp(k, c) <= size(S, c), tp(k, c) <= tl(k)), tp(k, c)))]


def full_has(k, c_, n, item): return TP(k, c_, n)[item]


def choose_hint(S):
    k = S.ghost(('k', L_M))
    m = S.matching_cluster_index
    nt, tl, tc, ta = clusters(S, 'truth')
    P, R, F = real(S.precision), real(S.recall), real(S.f1)
    return [('counts', z3.And(S.true_positives == tp(k, m), S.matching_cluster_size == size(S, m), S.cluster_size == tl(k), tp(k, m) >= 1, 0 <= m, m < clusters(S, 'predicted')[0])),
            ('scores', z3.And(P == PREC(k, m), R == REC(k, m))), ('f1', F == F1(k, m), [F1(k, m) == 2 * P * R / (P + R)]),
            ('bounds', z3.And(0 < P, P <= 1, 0 < R, R <= 1, 0 < F, F <= 1), [bounds_fact(tp(k, m), size(S, m), tl(k), PREC(k, m), REC(k, m), F1(k, m))])]


def choose_inv(S):
    k = S.ghost(('k', L_M))
    b = S.raw('best')
    np = clusters(S, 'predicted')[0]
    if b is None: return [forall([c], z3.Not(S.seen[c]), S.seen[c]), real(S.best_f1) == -1]
    if not isinstance(b, Tup): raise Stale('best')
    P, R, F = [real(S._E.num(v)) for v in b.items]
    return [real(S.best_f1) == F, res(S, k, P, R, F), 0 <= P, P <= 1, 0 <= R, R <= 1, 0 <= F, F <= 1, forall([c], implies(S.seen[c], F1(k, c) <= F), S.seen[c])]


def bad(S):
    """what makes the input invalid"""
    nt, tl, tc, ta = clusters(S, 'truth')
    np, pl, pc, pa = clusters(S, 'predicted')
    c2, p2 = z3.Ints('c2! p2!')
    ppos = lambda a, b: z3.And(0 <= a, a < np, 0 <= b, b < pl(a))
    return z3.Or(nt == 0, np == 0, z3.Exists([c], z3.And(0 <= c, c < np, pl(c) == 0), patterns=[pa[c]]), z3.Exists([t], z3.And(0 <= t, t < nt, tl(t) == 0), patterns=[ta[t]]),
                 z3.And(not allow(S), z3.Exists([c, p], z3.And(ppos(c, p), z3.Not(TI[pc(c, p)])), patterns=[pc(c, p)])),
                 z3.Exists([c, p, c2, p2], z3.And(ppos(c, p), ppos(c2, p2), z3.Or(c != c2, p != p2), TI[pc(c, p)], pc(c, p) == pc(c2, p2)), patterns=[z3.MultiPattern(pc(c, p), pc(c2, p2))]),
                 z3.Exists([t, p], z3.And(0 <= t, t < nt, 0 <= p, p < tl(t), forall([c], implies(z3.And(0 <= c, c < np), z3.Not(PS(c, pl(c))[tc(t, p)])), PS(c, pl(c))[tc(t, p)])), patterns=[tc(t, p)]))


def valid(S):
    """results are only given for valid input: no exception of bad(S) at arbitrary positions"""
    nt, tl, tc, ta = clusters(S, 'truth')
    np, pl, pc, pa = clusters(S, 'predicted')
    ppos = lambda a, b: z3.And(0 <= a, a < np, 0 <= b, b < pl(a))
    item = tc(T0, P1)
    return [nt > 0, np > 0, implies(z3.And(0 <= C1, C1 < np), pl(C1) > 0), implies(z3.And(0 <= T0, T0 < nt), tl(T0) > 0),
            implies(z3.And(not allow(S), ppos(C1, P1)), TI[pc(C1, P1)]),
            implies(z3.And(ppos(C1, P1), ppos(C2, P2), TI[pc(C1, P1)], pc(C1, P1) == pc(C2, P2)), z3.And(C1 == C2, P1 == P2)),
            implies(z3.And(0 <= T0, T0 < nt, 0 <= P1, P1 < tl(T0)), z3.And(0 <= ix(item), ix(item) < np, PS(ix(item), pl(ix(item)))[item]))]


def best(S):
    """for an arbitrary truth cluster: the values averaged are those of a predicted cluster, and no predicted cluster has a better F1"""
    nt = clusters(S, 'truth')[0]
    np = clusters(S, 'predicted')[0]
    P, R, F = [o.values[T0] for o in (S.P, S.R, S.F)]
    return implies(z3.And(0 <= T0, T0 < nt), z3.And(res(S, T0, P, R, F), implies(z3.And(0 <= C0, C0 < np, tp(T0, C0) > 0), F1(T0, C0) <= F)))


def mean_bounds(S):
    nt = clusters(S, 'truth')[0]
    out = []
    for o in (S.P, S.R, S.F):
        m = total(nt, o.values) / z3.ToReal(nt)
        lemma = implies(z3.And(nt >= 1, forall([t], implies(z3.And(0 <= t, t < nt), z3.And(0 <= o.values[t], o.values[t] <= 1)), o.values[t])), z3.And(0 <= m, m <= 1))
        out.append(('a mean of values of [0, 1]', z3.And(0 <= m, m <= 1), [lemma]))
    return out


def unit(S): return [z3.And(0 <= v, v <= 1) for v in S.rawresult.items]


def post(S):
    r = S.rawresult
    nt = clusters(S, 'truth')[0]
    if not isinstance(r, Tup) or len(r.items) != 3: return z3.BoolVal(False)
    f = []
    for v, o in zip(r.items, (S.P, S.R, S.F)):
        f += [o.count == nt, v == total(nt, o.values) / z3.ToReal(nt)]
    return f


CASES = [Case('additional items allowed' if a else 'no additional items', {'truth': TList(LL), 'predicted': TList(LL), 'allow_additional_items': a}, pre=defs) for a in (False, True)]
CONTRACTS = [
    Contract('fog/evaluation/best_matching.py:' + Q, CASES, externals={'class:OnlineMean': mean_new, 'builtin:float': mean_float}, summaries={'add': mean_add},
             raises={'TypeError': bad},
             loops={L_T: Loop([('items so far', items_inv)]), L_TI: Loop([('items so far', items_inner)]), L_P: Loop([('index so far', index_inv)]), L_PI: Loop([('index so far', index_inner)], use=index_use),
                    L_M: Loop([('index', index_known), ('scores so far', match_inv)]), L_MI: Loop([('candidates so far', cand_inv)], exit_hint=cand_exit), L_C: Loop([('best so far', choose_inv)], hint=choose_hint)},
             final=mean_bounds, post=[('the means of the values', post), ('valid input', valid), ('the values are those of a best match', best), ('in [0, 1]', unit)]),
]

# ------------------------------------------------------------------------------------------- OnlineMean
SUM, SUM2 = z3.Reals('added_minus_subtracted other_sum')
CNT, CNT2 = z3.Ints('count other_count')


def mean_obj(s, n):
    def f(E, st):
        return E.new_cell(st, Obj(E.global_value(st, E.module, 'OnlineMean'), {'_sum': s, '_n': n}))
    return f


def is_mean(S, r, s, n):
    if not isinstance(r, (Ref, View)): return z3.BoolVal(False)
    o = S._E.read(S._st, r)
    if o.kind != 'obj' or o.cls.name != 'OnlineMean': return z3.BoolVal(False)
    return z3.And(real(S._E.num(o.fields['_sum'])) == s, S._E.num(o.fields['_n']) == n)


SELF = {'self': mean_obj(SUM, CNT)}
OTHER = dict(SELF, other=mean_obj(SUM2, CNT2))
XV = z3.Real('x')
me = lambda S: S._E.args0raw['self']
CL_ = 'fog/utils.py:OnlineMean.'
nonneg = lambda S: [CNT >= 0, CNT2 >= 0]


def stat(S): return CNT == 0


CONTRACTS += [
    Contract(CL_ + '__init__', [Case('', {'self': lambda E, st: E.new_cell(st, Obj(E.global_value(st, E.module, 'OnlineMean'), {}))})], mutates=('self',), post=[('nothing yet', lambda S: is_mean(S, me(S), 0, 0))]),
    Contract(CL_ + 'add', [Case('', dict(SELF, x=XV), pre=nonneg)], mutates=('self',), post=[('one more value', lambda S: is_mean(S, me(S), SUM + XV, CNT + 1))]),
    Contract(CL_ + 'subtract', [Case('', dict(SELF, x=XV), pre=lambda S: [CNT >= 1])], mutates=('self',), post=[('one value less', lambda S: is_mean(S, me(S), SUM - XV, CNT - 1))]),
    Contract(CL_ + '__iadd__', [Case('', OTHER, pre=nonneg), Case('something else', dict(SELF, other=XV), consts={'raises': 'TypeError'}, pre=nonneg)], mutates=('self',),
             post=[('both histories', lambda S: [is_mean(S, me(S), SUM + SUM2, CNT + CNT2), is_mean(S, S._E.args0raw['other'], SUM2, CNT2), is_mean(S, S.rawresult, SUM + SUM2, CNT + CNT2)])]),
    Contract(CL_ + '__add__', [Case('', OTHER, pre=nonneg)],
             post=[('both histories, in a new object', lambda S: [is_mean(S, S.rawresult, SUM + SUM2, CNT + CNT2), is_mean(S, me(S), SUM, CNT), is_mean(S, S._E.args0raw['other'], SUM2, CNT2)])]),
    Contract(CL_ + '__len__', [Case('', SELF, pre=nonneg)], post=[('the count', lambda S: S._E.num(S.rawresult) == CNT)]),
    Contract(CL_ + 'peek', [Case('', SELF, pre=nonneg)], raises={'StatisticsError': stat}, post=[('the mean', lambda S: [CNT > 0, S.rawresult == SUM / z3.ToReal(CNT)])]),
    Contract(CL_ + '__float__', [Case('', SELF, pre=lambda S: [CNT >= 1])], post=[('the mean', lambda S: S.rawresult == SUM / z3.ToReal(CNT))]),
]
LEMMAS = [place_lemma(), bounds_lemma(), total_lemma()]
COMPLETE = True
ASSUMPTIONS = ['a cluster does not repeat an item', 'real arithmetic stands for floats', 'total(n, values) is the sum of the history of an OnlineMean, as the contracts of its methods say']
