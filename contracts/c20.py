from contracts.common import *

LAB = TSort('Label')
LS = LAB.sort()
p, q, c = z3.Ints('p! q! c!')
l, m = z3.Consts('l! m!', LS)
LID = ('labels_to_clusters', 0)


class Src(object):
    """the sequence of (item, label) that the function reads"""
    def __init__(self, S):
        a = S._E.args0raw['labels']
        if isinstance(a, Gen):
            t = a.t
            self.n = a.n; self.item = lambda i: t.get(0, a.arr[i]); self.label = lambda i: t.get(1, a.arr[i]); self.it = ITEM; self.trig = lambda i: a.arr[i]
        else:
            d = S.arg('labels')
            if d.c.kind == 'list':
                self.n = d.n; self.item = lambda i: i; self.label = lambda i: d.arr[i]; self.it = INT; self.trig = lambda i: d.arr[i]
            else:
                itx = S.ghost(('it', LID))
                arr = itx['arr']
                self.n = TY.card(d.dom); self.item = lambda i: arr[i]; self.label = lambda i: d.val[arr[i]]; self.it = ITEM; self.trig = lambda i: arr[i]
                self.rank = d.rank


def theory(S):
    """count of a label before a position, first position of a label: recursive definitions"""
    s = Src(S)
    cnt = TY.fn('cnt', LS, z3.IntSort(), z3.IntSort()); first = TY.fn('first', LS, z3.IntSort())
    S._E.P['cnt'] = cnt
    return s, cnt, first


def defs(S):
    s, cnt, first = theory(S)
    return [forall([l], cnt(l, 0) == 0, cnt(l, 0)),
            forall([l, p], implies(z3.And(0 <= p, p < s.n), cnt(l, p + 1) == cnt(l, p) + z3.If(s.label(p) == l, 1, 0)), z3.MultiPattern(cnt(l, p), s.trig(p))),
            forall([p], implies(z3.And(0 <= p, p < s.n), z3.And(0 <= first(s.label(p)), first(s.label(p)) <= p, s.label(first(s.label(p))) == s.label(p))), s.trig(p))]


LI = None


def inv(S):
    s, cnt, first = theory(S)
    C = S.clusters
    k = S.k
    if C.c.dom is None: return [k == 0]
    L = C.c.vt
    S._st.assume(*defs(S))
    return [
        forall([p], implies(z3.And(0 <= p, p < k), C.dom[s.label(p)]), s.trig(p)),
        forall([l], implies(C.dom[l], z3.And(0 <= first(l), first(l) < k, s.label(first(l)) == l, first(s.label(first(l))) == first(l))), C.dom[l]),
        forall([l], implies(C.dom[l], L.len(C.val[l]) == cnt(l, k)), C.dom[l], C.val[l]),
        forall([l], implies(z3.Not(C.dom[l]), cnt(l, k) == 0), C.dom[l]),
        forall([p], implies(z3.And(0 <= p, p < k), z3.And(0 <= cnt(s.label(p), p), cnt(s.label(p), p) < cnt(s.label(p), k), L.arr(C.val[s.label(p)])[cnt(s.label(p), p)] == s.item(p))), s.trig(p)),
        forall([l, m], implies(z3.And(C.dom[l], C.dom[m], first(l) < first(m)), C.rank[l] < C.rank[m]), z3.MultiPattern(C.rank[l], C.rank[m])),
        forall([l], implies(C.dom[l], z3.And(C.rank[l] < C.nextrank)), C.rank[l]),
    ]


def post(S):
    s, cnt, first = theory(S)
    R = S.result
    if R.c.t is None: return s.n == 0
    keys, pos = R.c.keys_arr, R.c.keys_pos
    L = R.c.t
    return [
        # cluster number c is that of the label keys[c]; pos is the inverse
        forall([c], implies(z3.And(0 <= c, c < R.n), z3.And(pos(keys[c]) == c, L.len(R.arr[c]) == cnt(keys[c], s.n), L.len(R.arr[c]) >= 1)), R.arr[c]),
        forall([p], implies(z3.And(0 <= p, p < s.n), z3.And(0 <= pos(s.label(p)), pos(s.label(p)) < R.n, keys[pos(s.label(p))] == s.label(p),
                                                             L.arr(R.arr[pos(s.label(p))])[cnt(s.label(p), p)] == s.item(p))), s.trig(p)),
        # order of appearance of the clusters
        forall([p, q], implies(z3.And(0 <= p, p < s.n, 0 <= q, q < s.n, first(s.label(p)) < first(s.label(q))), pos(s.label(p)) < pos(s.label(q))), z3.MultiPattern(s.trig(p), s.trig(q))),
    ]


def inorder(S):
    """a mapping is read in its insertion order"""
    if not hasattr(Src(S), 'rank'): return None
    s = Src(S)
    return forall([p, q], implies(z3.And(0 <= p, p < q, q < s.n), s.rank[s.item(p)] < s.rank[s.item(q)]), z3.MultiPattern(s.trig(p), s.trig(q)))


def nonempty_hint(S):
    s, cnt, first = theory(S)
    C = S.clusters
    if C.c.dom is None: return []
    S._st.assume(*defs(S))
    return [('clusters are not empty', forall([l], implies(C.dom[l], cnt(l, s.n) >= 1), C.dom[l]))]


CL = [Case('a sequence of labels', {'labels': TList(LAB)}), Case('pairs', {'labels': TStream(TTup(ITEM, LAB))}), Case('a mapping', {'labels': TDict(ITEM, LAB)})]

# ------------------------------------------------------------------------------------------- clusters_to_labels
LL = TList(TList(ITEM))
CT = TList(ITEM)
x = z3.Const('x!', ITEM.sort())
keyf = z3.Function('key_of', ITEM.sort(), KEY.sort())


def isflat(S): return S._E.args0raw['flat'] is True


def kof(S):
    f = S._E.args0raw['key']
    return (lambda t: t) if f is None else (lambda t: f.f(t))


def at(S, i, j):
    A = S.arg('clusters')
    return A.c.t.arr(A.arr[i])[j]


def ln(S, i):
    A = S.arg('clusters')
    return A.c.t.len(A.arr[i])


def partition(S):
    """no key appears twice (clusters are disjoint and without repetition)"""
    A = S.arg('clusters')
    cl = TY.fn('cluster_of', S_ksort(S), z3.IntSort()); ix = TY.fn('index_in', S_ksort(S), z3.IntSort())
    k = kof(S)
    f = [forall([p], implies(z3.And(0 <= p, p < A.n), ln(S, p) >= 0), A.arr[p]),
         forall([p, q], implies(z3.And(0 <= p, p < A.n, 0 <= q, q < ln(S, p)), z3.And(cl(k(at(S, p, q))) == p, ix(k(at(S, p, q))) == q)), at(S, p, q))]
    return f


def S_ksort(S):
    f = S._E.args0raw['key']
    if f is None: return S.arg('clusters').c.t.t.sort()
    return f.res.sort()


def labinv(S, inner):
    D = S.labels
    A = S.arg('clusters')
    ki = S.ghost(('k', ('clusters_to_labels', 0)))
    kj = S.ghost(('k', ('clusters_to_labels', 1))) if inner else z3.IntVal(0)
    k = kof(S)
    before = lambda i, j: z3.Or(z3.And(0 <= i, i < ki, 0 <= j, j < ln(S, i)), z3.And(i == ki, 0 <= j, j < kj))
    if D.c.dom is None:
        return forall([p, q], z3.Not(before(p, q)), at(S, p, q))
    ks = S_ksort(S)
    y = z3.Const('y!', ks)
    cl = TY.fn('cluster_of', ks, z3.IntSort()); ix = TY.fn('index_in', ks, z3.IntSort())
    return [forall([p, q], implies(before(p, q), z3.And(D.dom[k(at(S, p, q))], D.val[k(at(S, p, q))] == p)), at(S, p, q)),
            forall([y], implies(D.dom[y], z3.And(before(cl(y), ix(y)), k(at(S, cl(y), ix(y))) == y, D.val[y] == cl(y))), D.dom[y])]


def lab_post(S):
    A = S.arg('clusters')
    k = kof(S)
    D = S.result
    ins = lambda i, j: z3.And(0 <= i, i < A.n, 0 <= j, j < ln(S, i))
    ks = S_ksort(S)
    y = z3.Const('y!', ks)
    cl = TY.fn('cluster_of', ks, z3.IntSort()); ix = TY.fn('index_in', ks, z3.IntSort())
    if isflat(S):
        return [forall([p, q], implies(ins(p, q), z3.And(k(at(S, p, q)) < D.n, D.arr[k(at(S, p, q))] == p)), at(S, p, q)),
                forall([p], implies(z3.And(0 <= p, p < D.n), z3.And(ins(cl(p), ix(p)), k(at(S, cl(p), ix(p))) == p, D.arr[p] == cl(p))), D.arr[p])]
    if D.c.dom is None:
        return forall([p, q], z3.Not(ins(p, q)), at(S, p, q))
    return [forall([p, q], implies(ins(p, q), z3.And(D.dom[k(at(S, p, q))], D.val[k(at(S, p, q))] == p)), at(S, p, q)),
            forall([y], implies(D.dom[y], z3.And(ins(cl(y), ix(y)), k(at(S, cl(y), ix(y))) == y)), D.dom[y])]


def flat_pre(S):
    """flat labels: the keys are the integers 0..N-1"""
    A = S.arg('clusters')
    k = kof(S)
    N = z3.Int('N!flat')
    cl = TY.fn('cluster_of', z3.IntSort(), z3.IntSort()); ix = TY.fn('index_in', z3.IntSort(), z3.IntSort())
    ins = lambda i, j: z3.And(0 <= i, i < A.n, 0 <= j, j < ln(S, i))
    rng = TY.fn('upto', z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.BoolSort()))
    return partition(S) + [N >= 0, forall([p, q], implies(ins(p, q), z3.And(0 <= k(at(S, p, q)), k(at(S, p, q)) < N)), at(S, p, q)),
                           forall([p], implies(z3.And(0 <= p, p < N), z3.And(ins(cl(p), ix(p)), k(at(S, cl(p), ix(p))) == p)), cl(p), rng(N)[p]),
                           forall([p], rng(N)[p] == z3.And(0 <= p, p < N), rng(N)[p]), TY.card(rng(N)) == N]


def flat_inv(S):
    F = S.flat_labels
    D = S.labels
    N = z3.Int('N!flat')
    return [F.n == N, forall([p], implies(S.seen[p], F.arr[p] == D.val[p]), S.seen[p], F.arr[p])]


def flat_hint(S):
    """{0..N-1} is the domain of the labels"""
    if not isflat(S): return []
    N = z3.Int('N!flat')
    D = S.labels
    rng = TY.fn('upto', z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.BoolSort()))
    if D.c.dom is None: return []
    cl = TY.fn('cluster_of', z3.IntSort(), z3.IntSort())
    A = S.arg('clusters')
    ix = TY.fn('index_in', z3.IntSort(), z3.IntSort())
    k = kof(S)
    return [('every integer below N is labelled', forall([p], implies(z3.And(0 <= p, p < N), z3.And(cl(p) >= 0, k(at(S, cl(p), ix(p))) == p)), cl(p))),
            ('every integer below N is a key', forall([p], implies(z3.And(0 <= p, p < N), D.dom[p]), rng(N)[p])),
            ('the keys are the integers below N', z3.And(TY.subset(D.dom, rng(N)), TY.subset(rng(N), D.dom))), ('as many as N', TY.card(D.dom) == N)]


LABELS = [
    Case('items', {'clusters': LL, 'key': None, 'flat': False}, pre=partition),
    Case('keys', {'clusters': LL, 'key': TFn([ITEM], KEY, keyf), 'flat': False}, pre=partition),
    Case('flat items', {'clusters': TList(TList(INT)), 'key': None, 'flat': True}, pre=flat_pre),
    Case('flat keys', {'clusters': LL, 'key': TFn([ITEM], INT, z3.Function('intkey_of', ITEM.sort(), z3.IntSort())), 'flat': True}, pre=flat_pre),
]

CONTRACTS = [
    Contract('fog/evaluation/utils.py:labels_to_clusters', CL, loops={LID: Loop([('clusters so far', inv), ('insertion order', inorder)], index=True, exit_hint=nonempty_hint)},
             post=[('same cluster exactly for the same label, in order of appearance', post), ('read in order', inorder)]),
    Contract('fog/evaluation/utils.py:clusters_to_labels', LABELS, loops={
        ('clusters_to_labels', 0): Loop([('labels so far', lambda S: labinv(S, False))], exit_hint=flat_hint),
        ('clusters_to_labels', 1): Loop([('labels so far', lambda S: labinv(S, True))]),
        ('clusters_to_labels', 2): Loop([('flat labels so far', flat_inv)])},
        post=[('each item has the index of its cluster, and nothing else is labelled', lab_post)]),
]
COMPLETE = True
ASSUMPTIONS = ['clusters_to_labels is specified on disjoint clusters without repetition; flat labels on keys that are exactly 0..N-1',
               'dictionaries iterate in insertion order (Python 3.7+)', 'the key function is pure; items and labels are hashable']
