"""Contracts shared by every function that hands pairs over to clusters_from_pairs (whose own contract is in c08)."""
from contracts.common import *

IS = ITEM.sort()
PAIR = TTup(ITEM, ITEM)
LL = TList(ITEM)
T3 = TTup(INT, INT, INT)
tt = z3.Const('t!', T3.sort())
pp = z3.Const('pr!', PAIR.sort())


def pair(a, b): return PAIR.mk(a, b)


def bucket_pair(arr, t):
    """the pair at (bucket, i, j)"""
    b, i, j = [z3.simplify(T3.get(k, t)) for k in range(3)]
    row = LL.arr(arr[b])
    return pair(row[i], row[j])


def valid_pos(n, arr, t):
    b, i, j = [z3.simplify(T3.get(k, t)) for k in range(3)]
    return z3.And(0 <= b, b < n, 0 <= i, i < j, j < LL.len(arr[b]))


ib, ii, ij = z3.Ints('b! i! j!')


def cells(arr):
    row = LL.arr(arr[ib])
    return z3.MultiPattern(row[ii], row[ij])


def bucket_facts(bag, n, arr, wh, before=lambda t: z3.BoolVal(True)):
    """the pairs are those of two distinct positions of a bucket"""
    t = T3.mk(ib, ii, ij)
    return [forall([ib, ii, ij], implies(z3.And(valid_pos(n, arr, t), before(t)), bag[bucket_pair(arr, t)] > 0), cells(arr)),
            forall([pp], z3.And(bag[pp] >= 0, implies(bag[pp] > 0, z3.And(valid_pos(n, arr, wh[pp]), before(wh[pp]), bucket_pair(arr, wh[pp]) == pp))), bag[pp])]


WH = z3.ArraySort(PAIR.sort(), T3.sort())


def pairs_from_buckets(E, st, env, node):
    """callee contract of pairs_from_buckets (proved in c08)"""
    v = env['buckets']
    if isinstance(v, Gen): E.consume(st, v); n, arr, t = v.n, v.arr, v.t
    else:
        l = E.to_list(st, v, node)
        c = E.read(st, l); n, arr, t = c.n, c.arr, c.t
    if t != LL: raise Stale('buckets of %r' % (t,))
    bag = E.fresh('pairs_bag', z3.ArraySort(PAIR.sort(), z3.IntSort()))
    wh = E.fresh('pairs_from', WH)
    st.assume(*bucket_facts(bag, n, arr, wh))
    m = E.fresh('npairs', z3.IntSort())
    st.assume(m >= 0)
    g = Gen(n=m, arr=E.fresh('pairs_arr', z3.ArraySort(z3.IntSort(), PAIR.sort())), t=PAIR, bag=bag, depth=E.loopdepth, wh=wh, bn=n, barr=arr)
    st.ghost = dict(st.ghost); st.ghost['buckets'] = (n, arr)
    return [(st, g)]


class Clusters(object):
    """what clusters_from_pairs was asked for"""
    def __init__(self, E, st, env):
        self.env = env
        p = env['pairs']
        if isinstance(p, Gen):
            E.consume(st, p)
            self.gen = p
            self.bag = p.bag if p.__dict__.get('bag') is not None else TY.bag_of_list(p.n, p.arr)
        else:
            c = E.read(st, p) if isinstance(p, (Ref, View)) else None
            if c is None: raise Unsupported('pairs')
            if c.kind == 'set':
                x = z3.Const('x!b', c.t.sort())
                self.bag = E.fresh('bagset', z3.ArraySort(c.t.sort(), z3.IntSort()))
                st.assume(z3.ForAll([x], self.bag[x] == z3.If(c.arr[x], 1, 0), patterns=[self.bag[x]]))
            elif c.kind == 'list': self.bag = TY.bag_of_list(c.n, c.arr)
            else: raise Unsupported('pairs')


def clusters_from_pairs(need_simple=True):
    """callee contract of clusters_from_pairs: the clusters are a function of the pairs, the bounds and the mode;
    unless fuzzy is set no pair may come twice, in either direction"""
    def summary(E, st, env, node):
        c = Clusters(E, st, env)
        if env['fuzzy'] is not True:
            if env['fuzzy'] is not False: raise Unsupported('fuzzy')
            P_ = TY.ty_of_sort(c.bag.sort().domain())
            pr = z3.Const('pr!', P_.sort())
            a, b = P_.get(0, pr), P_.get(1, pr)
            E.oblige(st, 'precondition no pair comes twice of clusters_from_pairs', forall([pr], implies(c.bag[pr] > 0, z3.And(c.bag[pr] == 1, a != b, c.bag[P_.mk(b, a)] <= 0)), c.bag[pr]), node, 'call')
        return [(st, Gen(opaque=c, depth=E.loopdepth))]
    return summary


def stream(S):
    g = S._st.ghost.get('stream')
    r = S._result
    if isinstance(r, Gen): g = r
    if g is None or not isinstance(g.opaque, Clusters): raise Stale('no clusters are yielded')
    return g.opaque


def passed(S, **names):
    """bounds and mode are handed over unchanged"""
    c = stream(S)
    fs = []
    for k, want in names.items():
        got = c.env[k]
        if isinstance(want, Ext):
            if not isinstance(got, Ext): return z3.BoolVal(False)
            fs.append(z3.And(got.inf == want.inf, z3.Or(want.inf, got.val == want.val)))
        elif isinstance(want, z3.ExprRef):
            fs.append(S._E.lift(got) == want)
        elif isinstance(got, z3.ExprRef): fs.append(got == S._E.lift(want))
        else: fs.append(z3.BoolVal(got == want and type(got) == type(want)))
    return z3.And(*fs)
