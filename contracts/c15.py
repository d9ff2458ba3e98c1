"""QuickJoin: whatever the pivots drawn, every pair within the radius is joined in some block, and only these pairs are."""
from contracts.common import *
from contracts import clusters as CL
from pv.engine import S as SV, Frame
from contracts.c28 import randint
from contracts.c09 import pool, PK

I, RS = z3.IntSort(), z3.RealSort()
IS = ITEM.sort()
PAIR, pair, pp = CL.PAIR, CL.pair, CL.pp
LL = TList(ITEM)
OL = TOpt(LL)
ENT = TTup(LL, OL)
DIST = z3.Function('distance', IS, IS, RS)
X0, Y0 = z3.Consts('an_item another_item', IS)          # an arbitrary pair within the radius
p, q, w = z3.Ints('p! q! w!')
x, y, z = z3.Consts('x! y! z!', IS)
la, lb = z3.Consts('la! lb!', LL.sort())
ea, ev_ = z3.Const('ea!', z3.ArraySort(I, ENT.sort())), z3.Const('ev!', ENT.sort())
PATH = 'fog/clustering/quickjoin.py:'


def mem(l): return TY.elems(LL.len(l), LL.arr(l))


def none(o): return OL.dt().recognizer(0)(o)
def got(o): return OL.dt().accessor(1, 0)(o)


NODUP = z3.Function('no_item_twice', LL.sort(), z3.BoolSort())
NA, NB = z3.Function('twice_at', LL.sort(), I), z3.Function('twice_again_at', LL.sort(), I)
DISJ = z3.Function('disjoint', LL.sort(), LL.sort(), z3.BoolSort())
DZ = z3.Function('common', LL.sort(), LL.sort(), IS)
COVER = z3.Function('some_block_has_the_pair', I, ea.sort(), z3.BoolSort())


DATA = z3.Function('is_an_item', IS, z3.BoolSort())
SUB = z3.Function('of_items', LL.sort(), z3.BoolSort())
SZ = z3.Function('not_an_item', LL.sort(), IS)


def cov(e):
    """does the block join the pair?"""
    a, b = ENT.get(0, e), ENT.get(1, e)
    A, B = mem(a), mem(got(b))
    return z3.If(none(b), z3.And(A[X0], A[Y0]), z3.Or(z3.And(A[X0], B[Y0]), z3.And(A[Y0], B[X0])))


def fine(e):
    a, b = ENT.get(0, e), ENT.get(1, e)
    return z3.And(LL.len(a) >= 0, NODUP(a), SUB(a), z3.Or(none(b), z3.And(LL.len(got(b)) >= 0, NODUP(got(b)), SUB(got(b)), DISJ(a, got(b)))))


def theory():
    """definitions (NODUP, DISJ), and COVER by recursion on the number of blocks with its frame"""
    a, b = LL.arr(la), LL.arr(lb)
    return [forall([la], z3.Or(NODUP(la), z3.And(0 <= NA(la), NA(la) < NB(la), NB(la) < LL.len(la), a[NA(la)] == a[NB(la)])), NODUP(la)),
            forall([la, p, q], implies(z3.And(NODUP(la), 0 <= p, p < q, q < LL.len(la)), a[p] != a[q]), z3.MultiPattern(NODUP(la), a[p], a[q])),
            forall([la, lb], z3.Or(DISJ(la, lb), z3.And(mem(la)[DZ(la, lb)], mem(lb)[DZ(la, lb)])), DISJ(la, lb)),
            forall([la, lb, z], implies(z3.And(DISJ(la, lb), mem(la)[z]), z3.Not(mem(lb)[z])), z3.MultiPattern(DISJ(la, lb), mem(la)[z]), z3.MultiPattern(DISJ(la, lb), mem(lb)[z])),
            forall([la], z3.Or(SUB(la), z3.And(mem(la)[SZ(la)], z3.Not(DATA(SZ(la))))), SUB(la)), forall([la, z], implies(z3.And(SUB(la), mem(la)[z]), DATA(z)), z3.MultiPattern(SUB(la), mem(la)[z])),
            forall([ea], z3.Not(COVER(0, ea)), COVER(0, ea)),
            forall([ea, p, q, ev_], implies(z3.And(p >= 0, q == p + 1), COVER(q, z3.Store(ea, p, ev_)) == z3.Or(COVER(p, ea), cov(ev_))), COVER(q, z3.Store(ea, p, ev_)))]


def unfold(n, arr): return implies(n >= 1, COVER(n, arr) == z3.Or(COVER(n - 1, arr), cov(arr[n - 1])))


def metric(r):
    return [forall([x, y], z3.And(DIST(x, y) == DIST(y, x), DIST(x, y) >= 0), DIST(x, y)), forall([x, y], (DIST(x, y) == 0) == (x == y), DIST(x, y)),
            forall([x], z3.And(DIST(x, X0) - DIST(x, Y0) <= DIST(X0, Y0), DIST(x, Y0) - DIST(x, X0) <= DIST(X0, Y0)), DIST(x, X0), DIST(x, Y0)), X0 != Y0, DIST(X0, Y0) <= r]


def same_distance(E, st, fn, node):
    a, b = z3.Consts('A B', IS)
    if not isinstance(fn, Fn): raise Stale('another distance')
    r = E.call(fn, [a, b], {}, st.copy(), Frame(None, '<spec>', E.module), node)
    if len(r) != 1: raise Unsupported('the distance forks')
    E.oblige(st, 'the distance is handed over', E.num(r[0][1]) == DIST(a, b), node, 'call')


# ------------------------------------------------------------------------------------------- partition
def parts(S, seen, d, r, rho, Ls):
    """membership of the four lists in terms of membership in what was split"""
    L, G, Lw, Gw = Ls
    return [forall([z], L[z] == z3.And(seen[z], d(z) < rho), L[z]), forall([z], G[z] == z3.And(seen[z], d(z) >= rho), G[z]),
            forall([z], Lw[z] == z3.And(seen[z], d(z) < rho, d(z) >= rho - r), Lw[z]), forall([z], Gw[z] == z3.And(seen[z], d(z) >= rho, d(z) <= rho + r), Gw[z])]


def views(S): return [S.L, S.G, S.Lw, S.Gw]


def part_inv(S):
    vs = views(S)
    if any(v.c.t is None for v in vs): return []
    s = S.arg('S')
    seen = TY.elems(S.k, s.arr)
    terms = [LL.mk(v.n, v.arr) for v in vs]
    return parts(S, seen, lambda t: DIST(S.arg('p'), t), S.arg('radius'), S.arg('rho'), [TY.elems(v.n, v.arr) for v in vs]) + [z3.And(v.n >= 0) for v in vs] + \
        [forall([p, q], implies(z3.And(0 <= p, p < q, q < v.n), v.arr[p] != v.arr[q]), z3.MultiPattern(v.arr[p], v.arr[q])) for v in vs] + [vs[0].n + vs[1].n == S.k]


def snoc(S):
    s = S.arg('S'); k = S.pre.k
    return [('what was seen', forall([z], TY.elems(k + 1, s.arr)[z] == z3.Or(TY.elems(k, s.arr)[z], z == s.arr[k]), TY.elems(k + 1, s.arr)[z]), ()),
            ('the item was not', z3.Not(TY.elems(k, s.arr)[s.arr[k]]), ())]


def part_pre(S):
    s = S.arg('S')
    return [s.n >= 0, forall([p, q], implies(z3.And(0 <= p, p < q, q < s.n), s.arr[p] != s.arr[q]), z3.MultiPattern(s.arr[p], s.arr[q])), S.arg('radius') >= 0]


def part_post(S):
    vs = [S._E.spec(S._st, v) for v in S.rawresult.items]
    s = S.arg('S')
    if any(v.c.t is None for v in vs): return [s.n == 0]
    return parts(S, TY.elems(s.n, s.arr), lambda t: DIST(S.arg('p'), t), S.arg('radius'), S.arg('rho'), [TY.elems(v.n, v.arr) for v in vs]) + [vs[0].n + vs[1].n == s.n] + \
        [forall([p, q], implies(z3.And(0 <= p, p < q, q < v.n), v.arr[p] != v.arr[q]), z3.MultiPattern(v.arr[p], v.arr[q])) for v in vs]


def partition(E, st, env, node):
    """contract of partition"""
    same_distance(E, st, env['distance'], node)
    S = SV(E, st, None)
    s = E.to_term(E.read(st, env['S']))
    pv = env['p']; r, rho = E.num(env['radius']), E.num(env['rho'])
    E.oblige(st, 'precondition no item twice of partition', z3.And(NODUP(s), LL.len(s) >= 0, r >= 0), node, 'call')
    ls = [E.fresh(n, LL.sort()) for n in ('L', 'G', 'Lw', 'Gw')]
    st.assume(*parts(S, mem(s), lambda t: DIST(pv, t), r, rho, [mem(l) for l in ls]))
    st.assume(*[z3.And(NODUP(l), LL.len(l) >= 0) for l in ls])
    st.assume(LL.len(ls[0]) + LL.len(ls[1]) == LL.len(s))
    return [(st, Tup([E.new_cell(st, E.from_term(l, LL)) for l in ls]))]


# ------------------------------------------------------------------------------------------- block solvers
def solved(bag, A, B, r, both=False):
    """only pairs of an item of each within the radius, every one of them"""
    a, b = PAIR.get(0, pp), PAIR.get(1, pp)
    m = z3.And(A[a], B[b]) if not both else z3.Or(z3.And(A[a], B[b]), z3.And(A[b], B[a]))
    return [forall([pp], z3.And(bag[pp] >= 0, implies(bag[pp] > 0, z3.And(m, a != b, DIST(a, b) <= r))), bag[pp])]


def found(bag): return z3.Or(bag[pair(X0, Y0)] > 0, bag[pair(Y0, X0)] > 0)


def solver(two):
    def f(E, st, env, node):
        """contract of the block solvers"""
        same_distance(E, st, env['distance'], node)
        r = E.num(env['radius'])
        S = SV(E, st, None)
        a = E.to_term(E.read(st, env['S1' if two else 'S']))
        b = E.to_term(E.read(st, env['S2'])) if two else a
        E.oblige(st, 'precondition of the block solver', z3.And(r == level(S), z3.And(LL.len(a) >= 1, LL.len(b) >= 1, DISJ(a, b), NODUP(b)) if two else LL.len(a) >= 0, NODUP(a)), node, 'call')
        n, arr = E.fresh('njoined', I), E.fresh('joined_arr', z3.ArraySort(I, PAIR.sort()))
        bag = TY.bag_of_list(n, arr)
        st.assume(*solved(bag, mem(a), mem(b), r, True))
        A, B = mem(a), mem(b)
        st.assume(implies(z3.Or(z3.And(A[X0], B[Y0]), z3.And(A[Y0], B[X0])), found(bag)))
        st.assume(n >= 0)
        return [(st, Gen(n=n, arr=arr, t=PAIR, bag=bag, depth=E.loopdepth))]
    return f


def level(S):
    if 'payload' in S._E.args0raw: return R0
    r = S.arg('radius')
    return 1 - r if S._E.args0raw.get('similarity') is not None else r

P1, P2, Q1, Q2 = z3.Ints('first_in_1 second_in_1 first_in_2 second_in_2')


def at(v, x, P): return implies(TY.elems(v.n, v.arr)[x], z3.And(0 <= P, P < v.n, v.arr[P] == x))


def isin(v, x): return TY.elems(v.n, v.arr)[x]


def distinct(v): return forall([p, q], implies(z3.And(0 <= p, p < q, q < v.n), v.arr[p] != v.arr[q]), z3.MultiPattern(v.arr[p], v.arr[q]))


def two_pre(S):
    a, b = S.arg('S1'), S.arg('S2')
    return metric(S.arg('radius')) + [a.n >= 1, b.n >= 1, S.arg('radius') >= 0, distinct(a), distinct(b), forall([p, q], implies(z3.And(0 <= p, p < a.n, 0 <= q, q < b.n), a.arr[p] != b.arr[q]), z3.MultiPattern(a.arr[p], b.arr[q])),
                                      at(a, X0, P1), at(a, Y0, P2), at(b, X0, Q1), at(b, Y0, Q2)]


def one_pre(S):
    a = S.arg('S')
    return metric(S.arg('radius')) + [a.n >= 0, S.arg('radius') >= 0, distinct(a), at(a, X0, P1), at(a, Y0, P2)]


def sound2(S, bag):
    if bag is None: return []
    return solved(bag, TY.elems(S.arg('S1').n, S.arg('S1').arr), TY.elems(S.arg('S2').n, S.arg('S2').arr), S.arg('radius'), True)


def sound1(S, bag):
    if bag is None: return []
    A = TY.elems(S.arg('S').n, S.arg('S').arr)
    return solved(bag, A, A, S.arg('radius'), True)


BF, SBF, VT, SVT = [[('quickjoin_' + n, k) for k in range(4)] for n in ('bruteforce', 'self_bruteforce', 'vptree', 'self_vptree')]


def crossed(S): return [z3.And(isin(S.arg('S1'), X0), isin(S.arg('S2'), Y0)), z3.And(isin(S.arg('S1'), Y0), isin(S.arg('S2'), X0))]


def bf_inv(inner):
    def f(S):
        bag = S.bag
        if bag is None: return []
        i = S.loop(BF[0]).k
        c = crossed(S)
        out = sound2(S, bag)
        for cond, P, Q, pr in ((c[0], P1, Q2, pair(X0, Y0)), (c[1], P2, Q1, pair(Y0, X0))):
            done = P < i
            if inner: done = z3.Or(done, z3.And(P == i, Q < S.k))
            out.append(implies(z3.And(cond, done), bag[pr] > 0))
        return out
    return f


def sbf_inv(inner):
    def f(S):
        bag = S.bag
        if bag is None: return []
        i = S.loop(SBF[0]).k
        both = z3.And(isin(S.arg('S'), X0), isin(S.arg('S'), Y0))
        out = sound1(S, bag)
        for P, Q, pr in ((P1, P2, pair(X0, Y0)), (P2, P1, pair(Y0, X0))):
            done = P < i
            if inner: done = z3.Or(done, z3.And(P == i, Q < i + 1 + S.k))
            out.append(implies(z3.And(both, P < Q, done), bag[pr] > 0))
        return out
    return f


def two_post(S):
    bag = S.bag
    if bag is None: return z3.Not(z3.Or(*crossed(S)))
    return sound2(S, bag) + [implies(z3.Or(*crossed(S)), found(bag))]


def one_post(S):
    bag = S.bag
    both = z3.And(isin(S.arg('S'), X0), isin(S.arg('S'), Y0))
    if bag is None: return z3.Not(both)
    return sound1(S, bag) + [implies(both, found(bag))]


NBT = TTup(ITEM, REAL)


def vptree(E, st, args, kw, node):
    c = E.read(st, args[0])
    same_distance(E, st, args[1], node)
    E.oblige(st, 'the tree is not empty', c.n >= 1, node, 'no-raise')
    st.ghost = dict(st.ghost); st.ghost['tree'] = E.to_term(c)
    return [(st, Opaque('vptree'))]


def in_radius(E, st, args, kw, node):
    u = E.lift(args[0]); r = E.num(args[1])
    T_ = mem(st.ghost['tree'])
    arr, n = E.fresh('found', z3.ArraySort(I, NBT.sort())), E.fresh('nfound', I)
    f = z3.Function('found_at!%d' % next(E.counter), IS, I)
    it = lambda i: NBT.get(0, arr[i])
    st.assume(n >= 0, forall([p], implies(z3.And(0 <= p, p < n), z3.And(T_[it(p)], DIST(u, it(p)) <= r, NBT.get(1, arr[p]) == DIST(u, it(p)))), arr[p]),
              forall([z], implies(z3.And(T_[z], DIST(u, z) <= r), z3.And(0 <= f(z), f(z) < n, it(f(z)) == z)), f(z)), *[z3.Or(f(c_) >= 0, f(c_) < 0) for c_ in (X0, Y0)])
    st.ghost = dict(st.ghost); st.ghost['found_at'] = f
    return [(st, E.new_cell(st, Lst(n, arr, NBT)))]


IDF = z3.Function('id_of', IS, I)


def ident(E, st, args, kw, node):
    return [(st, IDF(args[0]))]


def ids(S): return [forall([x, y], implies(x != y, IDF(x) != IDF(y)), z3.MultiPattern(IDF(x), IDF(y)))]


def where(v, u):
    TY.elems(v.n, v.arr)
    return TY.fn('elems_Item_at', I, z3.ArraySort(I, IS), IS, I)(v.n, v.arr, u)


def vt_inv(k):
    """queried so far: the items before the current one, and the current one with what was found so far"""
    def f(S):
        bag = S.bag
        if bag is None: return []
        out = sound2(S, bag)
        i = S.loop(VT[0 if k == 0 else 1]).k
        for u, v in ((X0, Y0), (Y0, X0)):
            done = where(S.S2, u) < i
            if k == 2: done = z3.Or(done, z3.And(where(S.S2, u) == i, S._st.ghost['found_at'](v) < S.k))
            out.append(implies(z3.And(isin(S.S2, u), isin(S.S1, v), done), bag[pair(u, v)] > 0))
        return out
    return f


def svt_inv(k):
    def f(S):
        bag = S.bag
        if bag is None: return []
        out = sound1(S, bag)
        i = S.loop(SVT[0]).k
        v_ = S.arg('S')
        for u, v in ((X0, Y0), (Y0, X0)):
            done = where(v_, u) < i
            if k == 1: done = z3.Or(done, z3.And(where(v_, u) == i, S._st.ghost['found_at'](v) < S.k))
            out.append(implies(z3.And(isin(v_, u), isin(v_, v), IDF(u) < IDF(v), done), bag[pair(u, v)] > 0))
        return out
    return f


VEXT = {'phylactery.VPTree': vptree, 'vptree.neighbors_in_radius': in_radius, 'builtin:id': ident}
D2 = TFn([ITEM, ITEM], REAL, DIST)


def solver_case(two):
    return [Case('', {'S1': LL, 'S2': LL, 'distance': D2, 'radius': REAL}, pre=two_pre)] if two else [Case('', {'S': LL, 'distance': D2, 'radius': REAL}, pre=lambda S: one_pre(S) + ids(S))]


# ------------------------------------------------------------------------------------------- quickjoin
def src(S):
    g = S._E.args0raw['data']
    return (g.n, g.arr) if isinstance(g, Gen) else (S.arg('data').n, S.arg('data').arr)


def q_pre(S):
    n, d = src(S)
    l = LL.mk(n, d)
    r = level(S)
    return theory() + metric(r) + [n >= 0, r >= 0, NODUP(l), mem(l)[X0], mem(l)[Y0], S.arg('block_size') >= 1, forall([z], DATA(z) == mem(l)[z], DATA(z), mem(l)[z])]


def entries(S):
    """blocks waiting, blocks handed out"""
    st = S._st
    return S.stack, st.ghost['outlen'], st.ghost['out']


def sites_known(S): return S.stack.c.t == ENT and S._st.ghost['bag'] is not None and S._st.ghost['outty'] == ENT


def b_inv(S):
    if not sites_known(S): return []
    s, n, out = entries(S)
    return [s.n >= 0, n >= 0, forall([p], implies(z3.And(0 <= p, p < s.n), fine(s.arr[p])), s.arr[p]), forall([p], implies(z3.And(0 <= p, p < n), z3.And(fine(out[p]), z3.Or(none(ENT.get(1, out[p])), z3.And(LL.len(ENT.get(0, out[p])) >= 1, LL.len(got(ENT.get(1, out[p]))) >= 1)))), out[p]),
            z3.Or(COVER(s.n, s.arr), COVER(n, out))]


def b_top(S):
    if not sites_known(S): return []
    s, n, out = entries(S)
    return [unfold(s.n, s.arr)]


def drawn(S):
    if S.raw('p2') is None: return []
    return [0 <= S.p2, S.p2 < S.N]


def c_inv(S):
    bag = S.bag
    g = S.it()['what']
    if bag is None or not isinstance(g, Gen) or g.t != ENT: return []
    arr = g.arr
    a, b = PAIR.get(0, pp), PAIR.get(1, pp)
    return [forall([pp], z3.And(bag[pp] >= 0, implies(bag[pp] > 0, z3.And(a != b, DIST(a, b) <= level(S), DATA(a), DATA(b)))), bag[pp]), implies(COVER(S.k, arr), found(bag))]


def c_top(S):
    g = S.it()['what']
    if not isinstance(g, Gen) or g.t != ENT: return []
    return [unfold(S.k + 1, g.arr)]


def q_post(S):
    c = CL.stream(S)
    a, b = PAIR.get(0, pp), PAIR.get(1, pp)
    return [forall([pp], implies(c.bag[pp] > 0, z3.And(a != b, DIST(a, b) <= level(S), DATA(a), DATA(b))), c.bag[pp])]


def q_found(S): return found(CL.stream(S).bag)


def q_passed(S):
    r = S._E.args0raw
    if CL.stream(S).env['fuzzy'] is not True: return z3.BoolVal(False)     # a pair may come twice
    return CL.passed(S, min_size=r['min_size'], max_size=r['max_size'], mode=r['mode'])


# ------------------------------------------------------------------------------------------- several processes
PAY, RES = TTup(PK, REAL, LL, OL, BOOL), TList(PAIR)
PICKLED = z3.Const('pickled_distance', PK.sort())
CWIT = z3.Function('a_block_with_the_pair', I, ea.sort(), I)
cc = z3.Int('c!')


def dumps(E, st, args, kw, node):
    E.trusted.add('dill.loads(dill.dumps(f)) behaves as f')
    same_distance(E, st, args[0], node)
    return [(st, PICKLED)]


def loads(E, st, args, kw, node):
    E.oblige(st, 'the pickled distance is loaded', E.lift(args[0]) == PICKLED, node, 'call')
    return [(st, Fn('u', f=DIST, args=(ITEM, ITEM), res=REAL, name='distance'))]


def payload_ok(r, e):
    return z3.And(PAY.get(0, e) == PICKLED, PAY.get(1, e) == r, fine(entry(e)), z3.Or(none(PAY.get(3, e)), z3.And(LL.len(PAY.get(2, e)) >= 1, LL.len(got(PAY.get(3, e))) >= 1)))


def entry(e): return ENT.mk(PAY.get(2, e), PAY.get(3, e))


def payload(S):
    v = S._E.args0raw['payload']
    return v if isinstance(v, z3.ExprRef) else PAY.mk(*[S._E.embed(S._st, x_, t_) for x_, t_ in zip(v.items, PAY.ts)])


R0 = z3.Real('the_radius')


def w_pre(S): return theory() + metric(R0) + [R0 >= 0, payload_ok(R0, payload(S))]


def joins(rb, e, r):
    a, b = PAIR.get(0, pp), PAIR.get(1, pp)
    return [forall([pp], z3.And(rb[pp] >= 0, implies(rb[pp] > 0, z3.And(a != b, DIST(a, b) <= r, DATA(a), DATA(b)))), rb[pp]), implies(cov(entry(e)), found(rb))]


def w_post(S):
    R = S.result
    if R.c.kind != 'list': raise Stale('not a list')
    return joins(TY.bag_of_list(R.n, R.arr), payload(S), R0)


def imap(E, st, args, kw, node):
    """each payload is handed once to the worker, whose contract gives its pairs; results come in any order"""
    E.trusted.add('multiprocessing.Pool.imap_unordered applies the worker once to every payload')
    wk, g = args[0], args[1]
    if not isinstance(wk, Fn) or wk.kind != 'repo' or wk.name != 'worker': raise Stale('another worker')
    E.used.add('fog/clustering/quickjoin.py:worker (by contract)')
    if not isinstance(g, Gen) or g.t != PAY or g.__dict__.get('source') is None: raise Stale('other payloads')
    E.consume(st, g)
    S = SV(E, st, None)
    m, pay, r = g.n, g.arr, level(S)
    blocks = g.source
    rng = lambda c: z3.And(0 <= c, c < m)
    E.oblige(st, 'precondition of the worker', forall([cc], implies(rng(cc), payload_ok(r, pay[cc])), pay[cc]), node, 'call')
    res = E.fresh('found', z3.ArraySort(I, RES.sort()))
    perm, inv = z3.Function('arrival', I, I), z3.Function('arrival_of', I, I)
    st.assume(forall([cc], implies(rng(cc), z3.And(0 <= perm(cc), perm(cc) < m, inv(perm(cc)) == cc)), perm(cc)), forall([cc], implies(rng(cc), z3.And(0 <= inv(cc), inv(cc) < m, perm(inv(cc)) == cc)), inv(cc)))
    rb = TY.bag_of_list(RES.len(res[cc]), RES.arr(res[cc]))
    st.assume(forall([cc], implies(rng(cc), z3.And(RES.len(res[cc]) >= 0, *joins(rb, pay[perm(cc)], r))), res[cc]))
    w_ = CWIT(blocks.n, blocks.arr)
    # the definition of COVER: some block has the pair
    st.assume(implies(COVER(blocks.n, blocks.arr), z3.And(0 <= w_, w_ < blocks.n, cov(blocks.arr[w_]))))
    E.oblige(st, 'hint some block has the pair', z3.And(0 <= w_, w_ < m, cov(entry(pay[w_])), 0 <= inv(w_), inv(w_) < m, perm(inv(w_)) == w_), node, 'hint')
    st.ghost = dict(st.ghost); st.ghost['arrives'] = inv(w_)
    return [(st, Gen(n=m, arr=res, t=RES, bag=None, depth=E.loopdepth))]


def p_inv(S):
    bag = S.bag
    if bag is None: return []
    a, b = PAIR.get(0, pp), PAIR.get(1, pp)
    return [forall([pp], z3.And(bag[pp] >= 0, implies(bag[pp] > 0, z3.And(a != b, DIST(a, b) <= level(S), DATA(a), DATA(b)))), bag[pp]), implies(S._st.ghost['arrives'] < S.k, found(bag))]


def many(E, st):
    v = E.fresh('processes', I)
    st.assume(v >= 2)
    return v


def cover_lemma():
    def goals():
        B = z3.Function('any_block_predicate', I, z3.BoolSort())
        A = z3.ArraySort(I, I)
        a = z3.Const('a', A); n, m, e = z3.Ints('n m e'); v = z3.Int('v')
        C = lambda n_, a_: z3.Exists([e], z3.And(0 <= e, e < n_, B(a_[e])))
        w1 = z3.Int('w1')
        return [('none', [], z3.Not(C(z3.IntVal(0), a))),
                ('push, from', [m >= 0, 0 <= w1, w1 < m + 1, B(z3.Store(a, m, v)[w1])], z3.Or(z3.And(w1 < m, B(a[w1])), B(v))),
                ('push, to', [m >= 0, 0 <= w1, w1 < m, B(a[w1])], z3.And(0 <= w1, w1 < m + 1, B(z3.Store(a, m, v)[w1]))), ('push, new', [m >= 0, B(v)], B(z3.Store(a, m, v)[m])),
                ('pop, from', [n >= 1, 0 <= w1, w1 < n, B(a[w1])], z3.Or(B(a[n - 1]), z3.And(w1 < n - 1, B(a[w1]))))]
    return Lemma('COVER: the facts used of "some block before n" hold of that definition', goals)


LEMMAS = [cover_lemma()]
QEXT = dict(VEXT, **{'random.Random': lambda E, st, args, kw, node: [(st, Opaque('rng'))], 'rng.randint': randint, 'dill.dumps': dumps, 'multiprocessing.Pool': pool, 'pool.imap_unordered': imap})
SUMS = {'partition': partition, 'quickjoin_bruteforce': solver(True), 'quickjoin_vptree': solver(True), 'quickjoin_self_bruteforce': solver(False), 'quickjoin_self_vptree': solver(False), 'clusters_from_pairs': CL.clusters_from_pairs()}
SIM = TFn([ITEM, ITEM], REAL, lambda u, v: 1 - DIST(u, v))


def q_cases():
    out = []
    for nm, t in (('a list', LL), ('a stream', TStream(ITEM))):
        for fn, d, s in (('distance', D2, None), ('similarity', None, SIM)):
            for vn, v in (('', False), (', vp trees', True)):
                out.append(Case('%s, %s%s' % (nm, fn, vn), {'data': t, 'radius': REAL, 'distance': d, 'similarity': s, 'block_size': INT, 'min_size': INT, 'max_size': TExt(), 'mode': STR, 'seed': None, 'processes': 1, 'beta': REAL, 'vp_tree': v}, pre=q_pre))
    c = out[0]
    for nm, t, fn, d, s, v in (('a list', LL, 'distance', D2, None, False), ('a stream', TStream(ITEM), 'similarity', None, SIM, True)):
        out.append(Case('%s, %s%s, several processes' % (nm, fn, ', vp trees' if v else ''), dict(c.params, data=t, distance=d, similarity=s, vp_tree=v, processes=many), pre=q_pre))
    return out


CONTRACTS = [
    Contract(PATH + 'partition', [Case('', {'S': LL, 'distance': TFn([ITEM, ITEM], REAL, DIST), 'p': ITEM, 'radius': REAL, 'rho': REAL}, pre=part_pre)],
             loops={('partition', 0): Loop([('members', part_inv)], hint=snoc)}, post=[('the four parts', part_post)]),
    Contract(PATH + 'quickjoin_bruteforce', solver_case(True), yields=PAIR, loops={BF[0]: Loop([('joined', bf_inv(False))]), BF[1]: Loop([('joined', bf_inv(True))])}, post=[('the pairs within the radius', two_post)]),
    Contract(PATH + 'quickjoin_self_bruteforce', solver_case(False), yields=PAIR, loops={SBF[0]: Loop([('joined', sbf_inv(False))]), SBF[1]: Loop([('joined', sbf_inv(True))])}, post=[('the pairs within the radius', one_post)]),
    Contract(PATH + 'quickjoin_vptree', solver_case(True), yields=PAIR, externals=VEXT, loops={VT[k]: Loop([('joined', vt_inv(k))]) for k in range(3)}, post=[('the pairs within the radius', two_post)]),
    Contract(PATH + 'quickjoin_self_vptree', solver_case(False), yields=PAIR, externals=VEXT, loops={SVT[k]: Loop([('joined', svt_inv(k))]) for k in range(2)}, post=[('the pairs within the radius', one_post)]),
    Contract(PATH + 'worker', [Case('', {'payload': PAY}, pre=w_pre)], externals={'dill.loads': loads}, summaries=SUMS, post=[('the pairs of the block within the radius', w_post)]),
    Contract(PATH + 'quickjoin', q_cases(), yields=False, externals=QEXT, summaries=SUMS,
             loops={('blocks', 0): Loop([('blocks', b_inv)], use=b_top), ('blocks', 1): Loop([('drawn', drawn)]), ('blocks', 2): Loop([('drawn', drawn)]), ('clustering', 0): Loop([('joined', c_inv)], use=c_top), ('clustering_parallel', 0): Loop([('joined', p_inv)])},
             post=[('only pairs within the radius', q_post), ('every pair within the radius', q_found), ('bounds and mode are handed over', q_passed)]),
]
COMPLETE = False
BOUNDED = ['termination of the partitioning (bounded: runs under a time limit)']
ASSUMPTIONS = ['the distance is a metric (symmetric, zero exactly between equal items, triangle inequality), evaluated on mathematical reals', 'the items are distinct (as the property says)', 'random.Random.randint returns some integer within its bounds (any one)',
               'phylactery.VPTree.neighbors_in_radius returns exactly the (item, distance) pairs within the radius', 'id() of different items differ', 'dill.loads(dill.dumps(f)) behaves as f', 'multiprocessing.Pool.imap_unordered applies the worker once to every payload, in any order',
               'clusters_from_pairs is used by its contract (proved in C08)']
