"""PPJoin: the join hands over each pair that reaches the threshold exactly once, and no other; the bounds of each metric keep every pair that reaches the threshold, the overlap is exact, the suffix filter never exceeds a distance within its bound."""
from contracts.common import *
from pv.engine import S as SV, Frame

I, RS = z3.IntSort(), z3.RealSort()
IA, IS = z3.ArraySort(I, I), z3.ArraySort(I, z3.BoolSort())
LI = TList(INT)
p, q, m = z3.Ints('p! q! m!')
PATH = 'fog/clustering/ppjoin.py:'
XA, YA = z3.Consts('x_arr y_arr', IA)
CM = z3.Function('common', I, I, I, I, I)            # how many tokens x[a:b] and y[c:d] have in common


# ------------------------------------------------------------------------------------------- metrics
O0, LX, LY = z3.Ints('an_overlap a_length a_greater_length')
SQ, THR = z3.Reals('sqrt_of_product the_threshold')
similar = {'JaccardHelper': lambda t: O0 * (1 + t) >= t * (LX + LY), 'DiceHelper': lambda t: 2 * O0 >= t * (LX + LY), 'BinaryCosineHelper': lambda t: O0 >= t * SQ}


def helper(cls, any_overlap=False):
    def f(E, st):
        t = THR
        st.assume(t > 0, t <= 1, 1 <= LX, LX <= LY, 0 <= O0, O0 <= LX, SQ >= 0, SQ * SQ == z3.ToReal(LX * LY), SQ >= LX, SQ <= LY, z3.BoolVal(True) if any_overlap else similar[cls](t))
        return E.new_cell(st, Obj(E.global_value(st, E.module, cls), {'threshold': t}))
    return f


def sqrt(E, st, args, kw, node):
    v = E.num(args[0])
    E.oblige(st, 'the root of the product of the lengths', v == LX * LY, node, 'call')
    return [(st, SQ)]


EPS = z3.RealVal('1/500000')      # twice the documented tolerance


def value(cls, o):
    return {'JaccardHelper': lambda: o / z3.ToReal(LX + LY - O0), 'DiceHelper': lambda: 2 * o / z3.ToReal(LX + LY), 'BinaryCosineHelper': lambda: o / SQ}[cls]()


def m_post(what, cls):
    def f(S):
        r = S._E.num(S.rawresult)
        if what == 'index_length': return [r >= 1, r >= LX - O0 + 1]
        if what == 'probe_length': return [r >= 1, r >= LY - O0 + 1]
        if what == 'require_overlap': return [r <= O0]
        if what == 'min_possible_length': return [r <= LX]
        if what == 'max_possible_length': return [r >= LY]
        v = value(cls, z3.ToReal(O0))
        return [r >= v, r <= v + EPS]
    return f


def m_params(what):
    if what == 'require_overlap': return [{'l1': lambda E, st: LY, 'l2': lambda E, st: LX}]
    if what == 'compute_similarity': return [{'l1': lambda E, st: LY, 'l2': lambda E, st: LX, 'overlap': lambda E, st: O0}]
    return [{'l': lambda E, st: LX if what in ('index_length', 'max_possible_length') else LY}]


def prefix(cls, t):
    """a length (less one) that the indexed prefix does not exceed and the probed prefix reaches"""
    return {'JaccardHelper': (1 - t) * LX / (1 + t), 'DiceHelper': (1 - t) * LX, 'BinaryCosineHelper': (1 - t) * LX}[cls]


def any_post(what, cls):
    """whatever the records: what the join assumes of the lengths"""
    def f(S):
        r, t = S._E.num(S.rawresult), THR
        top = prefix(cls, t) + 1 + EPS / 2
        return {'index_length': [r >= 1, r <= top], 'probe_length': [r >= 1, r + 1 > top], 'min_possible_length': [r >= 0]}[what]
    return f


ANY = [Contract(PATH + '%s.%s' % (c, w), [Case('any record', {'self': helper(c, True), 'l': lambda E, st: LX})], post=[('a length within the record is asked for', any_post(w, c))])
       for c in ('JaccardHelper', 'DiceHelper', 'BinaryCosineHelper') for w in ('index_length', 'probe_length', 'min_possible_length')]
METRICS = [Contract(PATH + '%s.%s' % (c, w), [Case('', dict({'self': helper(c, w == 'compute_similarity')}, **ps)) for ps in m_params(w)], externals={'math.sqrt': sqrt}, post=[('the bound keeps similar pairs', m_post(w, c))])
           for c in ('JaccardHelper', 'DiceHelper', 'BinaryCosineHelper') for w in ('index_length', 'probe_length', 'require_overlap', 'min_possible_length', 'max_possible_length', 'compute_similarity')]


# ------------------------------------------------------------------------------------------- common tokens of two sorted records
def increasing(n, a): return forall([p, q], implies(z3.And(0 <= p, p < q, q < n), a[p] < a[q]), z3.MultiPattern(a[p], a[q]))


def slice_of(arr, a, b, name):
    """the set of the tokens of a slice, by its definition"""
    s = z3.Const(name, IS)
    w = z3.Function('at_' + name, I, I)
    return s, [forall([q], implies(z3.And(a <= q, q < b), s[arr[q]]), arr[q]), forall([p], implies(s[p], z3.And(a <= w(p), w(p) < b, arr[w(p)] == p)), s[p])]


def same(A, B):
    return z3.Implies(forall([p], A[p] == B[p], A[p], B[p]), A == B)


def common_lemma():
    """CM(a, b, c, d) is the number of common tokens of x[a:b] and y[c:d]"""
    a, b, c, d, n1, n2, mid, pos, z, w = z3.Ints('a b c d n1 n2 mid pos z w')
    inc = [increasing(n1, XA), increasing(n2, YA), 0 <= a, a <= b, b <= n1, 0 <= c, c <= d, d <= n2]
    A, fA = slice_of(XA, a, b, 'A'); B, fB = slice_of(YA, c, d, 'B')
    out = []
    # size of a slice: one more token at the end
    A1, fA1 = slice_of(XA, a, b + 1, 'A1')
    out.append(('size, next', inc + fA + fA1 + [b < n1], z3.And(z3.Not(A[XA[b]]), implies(A1[z], z3.Or(A[z], z == XA[b])), implies(A[z], A1[z]), A1[XA[b]])))
    cut = z3.And(a <= mid, mid < b, c <= pos, pos <= d, z3.Or(pos == c, YA[pos - 1] < XA[mid]), z3.Or(pos == d, YA[pos] >= XA[mid]))
    L, fL = slice_of(XA, a, mid, 'L'); R, fR = slice_of(XA, mid + 1, b, 'R')
    U, fU = slice_of(YA, c, pos, 'U')
    for eq in (True, False):
        V, fV = slice_of(YA, pos + 1 if eq else pos, d, 'V')
        here = z3.And(pos < d, YA[pos] == XA[mid])
        h = inc + fA + fB + fL + fR + fU + fV + [cut, here if eq else z3.Not(here)]
        t = XA[mid]
        whole, parts = z3.And(A[z], B[z]), z3.Or(z3.And(L[z], U[z]), z3.And(R[z], V[z]), *([z == t] if eq else []))
        out.append(('cut%s, nothing lost' % (', shared' if eq else ''), h + [whole, z3.Or(XA[0] == XA[0], z == t)], parts))
        out.append(('cut%s, nothing added' % (', shared' if eq else ''), h + [parts], whole))
        out.append(('cut%s, no overlap' % (', shared' if eq else ''), h, z3.And(z3.Not(z3.And(L[z], R[z])), *([z3.Not(z3.And(L[t], U[t])), z3.Not(z3.And(R[t], V[t]))] if eq else []))))
    A2, fA2 = slice_of(XA, a + 1, b, 'A2'); B2, fB2 = slice_of(YA, c + 1, d, 'B2')
    h = inc + fA + fB + fA2 + fB2 + [a < b, c < d]
    both = z3.And(A[z], B[z])
    out += [('step, equal', h + [XA[a] == YA[c]], z3.And(both == z3.Or(z3.And(A2[z], B2[z]), z == XA[a]), z3.Not(A2[XA[a]]))), ('step, smaller', h + [XA[a] < YA[c]], both == z3.And(A2[z], B[z])), ('step, greater', h + [XA[a] > YA[c]], both == z3.And(A[z], B2[z]))]
    # cardinals of the sets described above
    P_, Q_ = z3.Consts('P Q', IS)
    W = z3.Const('W', IS)
    u = TY.union(P_, Q_)
    out += [('cardinal of two disjoint parts', [forall([p], z3.Not(z3.And(P_[p], Q_[p])), P_[p], Q_[p]), same(TY.inter(P_, Q_), TY.empty_set(I)), TY.card(TY.inter(P_, Q_)) >= 0], TY.card(u) == TY.card(P_) + TY.card(Q_)),
            ('cardinal with one more', [z3.Not(u[z])], TY.card(z3.Store(u, z, z3.BoolVal(True))) == TY.card(u) + 1),
            ('cardinal of a common part', [], z3.And(TY.card(TY.inter(P_, Q_)) <= TY.card(P_), TY.card(TY.inter(P_, Q_)) <= TY.card(Q_), TY.card(TY.inter(P_, Q_)) >= 0))]
    return out


def CM_bounds():
    a, b, c, d = z3.Ints('a! b! c! d!')
    return forall([a, b, c, d], implies(z3.And(a <= b, c <= d), z3.And(0 <= CM(a, b, c, d), CM(a, b, c, d) <= b - a, CM(a, b, c, d) <= d - c)), CM(a, b, c, d))


def CM_step(n1, n2):
    """lemma COMMON, step"""
    a, c = z3.Ints('a! c!')
    x, y = XA[a], YA[c]
    return forall([a, c], implies(z3.And(0 <= a, a < n1, 0 <= c, c < n2), CM(a, n1, c, n2) == z3.If(x == y, 1 + CM(a + 1, n1, c + 1, n2), z3.If(x < y, CM(a + 1, n1, c, n2), CM(a, n1, c + 1, n2)))), CM(a, n1, c, n2))


def args(S): return S.arg('x'), S.arg('y')


def records(S):
    x, y = args(S)
    return [x.arr == XA, y.arr == YA, increasing(x.n, XA), increasing(y.n, YA), x.n >= 0, y.n >= 0, CM_bounds()]


def ov_pre(S):
    x, y = args(S)
    return records(S) + [CM_step(x.n, y.n)]


def OV(S): return CM(0, args(S)[0].n, 0, args(S)[1].n)


def ov_inv(S):
    x, y = args(S)
    i, j, c = S.posx, S.posy, S.current_overlap
    return [0 <= i, i <= x.n, 0 <= j, j <= y.n, c >= 0, c + CM(i, x.n, j, y.n) == OV(S)]


def ov_post(S):
    r = S._E.num(S.rawresult)
    return [z3.Or(r == OV(S), z3.And(r == -1, OV(S) < S.arg('require_overlap')))]


# ------------------------------------------------------------------------------------------- suffix filter
NAMES = ('x_start', 'x_end', 'y_start', 'y_end')


def HD(a, b, c, d): return (b - a) + (d - c) - 2 * CM(a, b, c, d)


def gap(a, b, c, d): return z3.If((b - a) >= (d - c), (b - a) - (d - c), (d - c) - (b - a))


def bounds_ok(nx, ny, a, b, c, d, hd):
    g = gap(a, b, c, d)
    return z3.And(0 <= a, a <= b, b <= nx, 0 <= c, c <= d, d <= ny, hd >= 0, z3.Or(hd >= g, (hd - g) % 2 == 0))


def at(S): return [S.arg(n) for n in NAMES]


def sf_pre(S):
    x, y = args(S)
    return records(S) + [bounds_ok(x.n, y.n, *(at(S) + [S.arg('hd')])), cut_at(at(S), TP(m))]


TP = z3.Function('place_of_token', I, I)       # where the token x[m] comes in y[c:d]


def cut_at(v, pos, given=None):
    """lemma COMMON, cut (there is such a place: the number of smaller tokens)"""
    a, b, c, d = v
    place = z3.And(c <= pos, pos <= d, z3.Or(pos == c, YA[pos - 1] < XA[m]), z3.Or(pos == d, YA[pos] >= XA[m]))
    here = z3.And(pos < d, YA[pos] == XA[m])
    sums = CM(a, b, c, d) == z3.If(here, 1 + CM(a, m, c, pos) + CM(m + 1, b, pos + 1, d), CM(a, m, c, pos) + CM(m + 1, b, pos, d))
    inside = z3.And(a <= m, m < b)
    return forall([m], implies(inside, z3.And(place, sums)) if given is None else implies(z3.And(inside, place), sums), XA[m])


def sf_post(S):
    r = S._E.num(S.rawresult)
    return [implies(HD(*at(S)) <= S.arg('hd'), r <= HD(*at(S)))]


def bisect(E, st, args_, kw, node):
    """the first position of a slice of y whose token is not smaller"""
    y = E.read(st, args_[0]); t, lo, hi = [E.num(v) for v in args_[1:4]]
    S = SV(E, st, None)
    E.oblige(st, 'bisect in the sorted record', z3.And(y.arr == YA, 0 <= lo, lo <= hi, hi <= y.n), node, 'call')
    pos = E.fresh('pos', I)
    st.assume(lo <= pos, pos <= hi, z3.Or(pos == lo, YA[pos - 1] < t), z3.Or(pos == hi, YA[pos] >= t))
    st.assume(cut_at([E.num(E.args0raw[n]) for n in NAMES], pos, True))
    return [(st, pos)]


def again(E, st, env, node):
    x, y = [E.read(st, env[n]) for n in ('x', 'y')]
    v = [E.num(env[n]) for n in NAMES] + [E.num(env['hd'])]
    E.oblige(st, 'precondition of suffix_filter', z3.And(x.arr == XA, y.arr == YA, bounds_ok(x.n, y.n, *v)), node, 'call')
    r = E.fresh('bound', I)
    st.assume(implies(HD(*v[:4]) <= v[4], r <= HD(*v[:4])))
    return [(st, r)]


# ------------------------------------------------------------------------------------------- ppjoin
ENT = TTup(INT, INT)                                     # an indexed record and a position in it
LE = TList(ENT)
LR, LIT = TList(LI), TList(ITEM)
R = z3.Const('tokenized', z3.ArraySort(I, LI.sort()))
AS, RK = z3.Const('argsort', IA), z3.Function('rank_of', I, I)
NR = z3.Int('number_of_records')
PX, PY = z3.Ints('a_record another_record')              # an arbitrary pair, PX is handled first
SIMB = z3.Bool('the_pair_is_similar')
RIDX = z3.Function('record_index', ITEM.sort(), I)
OVL = z3.Function('overlap', LI.sort(), LI.sort(), I)
MINL, PROBE, INDEX = [z3.Function(n, I, I) for n in ('min_possible_length', 'probe_length', 'index_length')]
REQ = z3.Function('require_overlap', I, I, I)
SIMV = z3.Function('compute_similarity', I, I, I, RS)
XPOS = z3.Function('position_in_x', I, I)
T0, C0 = z3.Ints('first_common_in_y first_common_in_x')
c, z, u, v = z3.Ints('c! z! u! v!')
PPJ = [('ppjoin', a) for a in range(6)]
X, Y = R[PX], R[PY]
lx, ly = LI.len(X), LI.len(Y)
xa, ya = LI.arr(X), LI.arr(Y)


def least(a, b): return z3.If(a <= b, a, b)


IDX, PR = least(lx, INDEX(lx)), least(ly, PROBE(ly))


def D(t): return CM(0, IDX, 0, t)


def INX(t): return z3.And(0 <= XPOS(t), XPOS(t) < IDX, xa[XPOS(t)] == ya[t])


def tok(c_, q_): return LI.arr(R[c_])[q_]


def rng(e): return z3.And(0 <= e, e < NR)


def facts(t):
    """sorted records; the common tokens of the pair (lemma COMMON); the bounds of the metric (their contracts)"""
    return [forall([c], implies(rng(c), LI.len(R[c]) >= 0), R[c]), forall([c, p, q], implies(z3.And(rng(c), 0 <= p, p < q, q < LI.len(R[c])), tok(c, p) < tok(c, q)), z3.MultiPattern(tok(c, p), tok(c, q))),
            forall([p], implies(rng(p), z3.And(rng(AS[p]), RK(AS[p]) == p)), AS[p]), forall([c], implies(rng(c), z3.And(rng(RK(c)), AS[RK(c)] == c)), RK(c)),
            forall([p, q], implies(z3.And(0 <= p, p < q, q < NR), LI.len(R[AS[p]]) <= LI.len(R[AS[q]])), z3.MultiPattern(AS[p], AS[q])),
            rng(PX), rng(PY), RK(PX) < RK(PY), lx >= 1, lx <= ly, O0 == CM(0, lx, 0, ly), OVL(Y, X) == O0, OVL(X, Y) == O0, NR >= 0, CM_bounds(),
            # lemma PAIR
            D(0) == 0, forall([q], implies(z3.And(0 <= q, q < ly), D(q + 1) == D(q) + z3.If(INX(q), 1, 0)), D(q + 1), XPOS(q)),
            forall([p, q], implies(z3.And(0 <= p, p < IDX, 0 <= q, q < ly, xa[p] == ya[q]), z3.And(XPOS(q) == p, D(q) == CM(0, p, 0, q), O0 == CM(0, p, 0, q) + CM(p, lx, q, ly))), z3.MultiPattern(xa[p], ya[q])),
            implies(xa[IDX - 1] < ya[PR - 1], O0 <= D(PR) + lx - IDX), implies(xa[IDX - 1] >= ya[PR - 1], O0 <= D(PR) + ly - PR),
            implies(O0 >= 1, z3.And(0 <= T0, T0 < ly, 0 <= C0, C0 < lx, xa[C0] == ya[T0], T0 <= ly - O0, C0 <= lx - O0)),
            # the contracts of the metric
            forall([p], implies(p >= 1, MINL(p) >= 0), MINL(p)), forall([p], implies(p >= 1, PROBE(p) >= 1), PROBE(p)), forall([p], implies(p >= 1, z3.And(INDEX(p) >= 1, INDEX(p) <= PROBE(p))), INDEX(p)),
            implies(SIMB, z3.And(O0 >= 1, forall([p], implies(z3.And(lx <= p, p <= ly), MINL(p) <= lx), MINL(p)), PROBE(ly) >= ly - O0 + 1, INDEX(lx) >= lx - O0 + 1, REQ(ly, lx) <= O0, SIMV(ly, lx, O0) >= t))]


def src(S):
    g = S._E.args0raw['records']
    return (g.n, g.arr) if isinstance(g, Gen) else (S.arg('records').n, S.arg('records').arr)


def pp_pre(S):
    n, a = src(S)
    return [n == NR, NR >= 0, S.arg('threshold') > 0, S.arg('threshold') <= 1, forall([p], implies(rng(p), RIDX(a[p]) == p), a[p])]


def preprocess(E, st, env, node):
    S = SV(E, st, None)
    n0, a0 = src(S)
    l = E.read(st, env['records'])
    E.oblige(st, 'the records are handed over', z3.And(l.n == n0, l.arr == a0), node, 'call')
    E.oblige(st, 'the tokenizer and the ordering are handed over', z3.BoolVal(env['tokenizer'] is E.args0raw['tokenizer'] and env['token_ordering'] == E.args0raw['token_ordering']), node, 'call')
    st.assume(*facts(S.arg('threshold')))
    return [(st, Tup([E.new_cell(st, Lst(NR, R, LI)), E.new_cell(st, Lst(NR, AS, INT))]))]


CLS = {'jaccard': 'JaccardHelper', 'dice': 'DiceHelper', 'binary_cosine': 'BinaryCosineHelper'}


def new_helper(cls):
    def f(E, st, args_, kw, node):
        E.used.add(PATH + cls + ' (by contract)')
        E.oblige(st, 'the metric asked for', z3.BoolVal(CLS.get(E.args0raw['metric']) == cls), node, 'call')
        t = args_[0] if args_ else kw['threshold']
        E.oblige(st, 'the threshold is handed over', real(E.num(t)) == SV(E, st, None).arg('threshold'), node, 'call')
        return [(st, Opaque('helper'))]
    return f


def bound_fn(F):
    def f(E, st, args_, kw, node):
        return [(st, F(*[E.num(a) for a in args_]))]
    return f


def new_index(E, st, args_, kw, node):
    """the inverted index: for each token the position and the entries of its InvertedIndexItem"""
    f = args_[0]
    if not isinstance(f, Fn) or f.kind != 'class' or f.name != 'InvertedIndexItem': raise Stale('another index')
    E.used.add(PATH + 'InvertedIndexItem')
    ps = E.new_cell(st, Dct(TY.empty_set(I), z3.K(I, z3.IntVal(0)), INT, INT, factory=INT, pyt='defaultdict'))
    es = E.new_cell(st, Dct(TY.empty_set(I), E.fresh('noids', z3.ArraySort(I, LE.sort())), INT, LE, factory=LE, pyt='defaultdict'))
    st.ghost = dict(st.ghost); st.ghost['index'] = (ps, es)
    return [(st, Opaque('index', ps=ps, es=es))]


def entry(E, st, base, idx, node): return [(st, Opaque('entry', ps=base.ps, es=base.es, token=E.num(idx)))]


def get_ids(E, st, b): return E.subscript(st, b.es, b.token, None)[0][1]


def get_pos(E, st, b):
    d = E.read(st, b.ps)
    return z3.If(d.dom[b.token], d.val[b.token], 0)


def set_pos(E, st, b, val): E.store(st, b.ps, b.token, val, None)


def overlap(E, st, env, node):
    x, y = [E.to_term(E.read(st, env[n])) for n in ('x', 'y')]
    r = E.fresh('overlap', I)
    st.assume(z3.Or(r == OVL(x, y), z3.And(r == -1, OVL(x, y) < E.num(env['require_overlap']))), OVL(x, y) >= 0)
    return [(st, r)]


def suffix(E, st, env, node):
    x, y = [E.to_term(E.read(st, env[n])) for n in ('x', 'y')]
    w = [E.num(env[n]) for n in NAMES] + [E.num(env['hd'])]
    E.oblige(st, 'precondition of suffix_filter', bounds_ok(LI.len(x), LI.len(y), *w), node, 'call')
    r = E.fresh('bound', I)
    st.assume(implies(z3.And(x == X, y == Y, HD(*w[:4]) <= w[4]), r <= HD(*w[:4])))
    return [(st, r)]


def index(S):
    ps, es = S._st.ghost['index']
    return S._E.read(S._st, ps), S._E.read(S._st, es)


def indexed(S, idx, t=None):
    """entries of the records before idx (and of its first t tokens)"""
    ps, es = index(S)
    E_ = es.val[z]
    n, a = LE.len(E_), LE.arr(E_)
    e, o = ENT.get(0, a[u]), ENT.get(1, a[u])
    pos = z3.If(ps.dom[z], ps.val[z], 0)
    own = z3.BoolVal(False) if t is None else z3.And(RK(e) == idx, o < t)
    done = RK(PX) < idx if t is None else z3.Or(RK(PX) < idx, z3.And(RK(PX) == idx, c < t))
    Xt = es.val[xa[c]]
    f = [forall([z], implies(es.dom[z], n >= 0), E_), forall([z], implies(ps.dom[z], ps.val[z] >= 0), ps.val[z]),
         forall([z], implies(z3.Not(es.dom[z]), pos == 0), es.dom[z], ps.dom[z]), forall([z], implies(es.dom[z], z3.And(0 <= pos, pos <= n)), es.dom[z], ps.val[z]),
         forall([z, u], implies(z3.And(es.dom[z], 0 <= u, u < n), z3.And(rng(e), z3.Or(RK(e) < idx, own), 0 <= o, o < LI.len(R[e]), o < INDEX(LI.len(R[e])), tok(e, o) == z)), a[u]),
         forall([z, u, v], implies(z3.And(es.dom[z], 0 <= u, u < v, v < n), z3.Not(z3.And(ENT.get(0, a[u]) == PX, ENT.get(0, a[v]) == PX))), z3.MultiPattern(a[u], a[v])),
         forall([c], implies(z3.And(done, 0 <= c, c < IDX), z3.And(es.dom[xa[c]], TY.elems(LE.len(Xt), LE.arr(Xt))[ENT.mk(PX, c)])), xa[c]),
         implies(z3.And(SIMB, idx <= RK(PY)), forall([z, u], implies(z3.And(es.dom[z], 0 <= u, u < pos), e != PX), a[u]))]
    return f


def yc(S): return S.ghost('yc')


def yielded(S, idx, seen=None):
    done = RK(PY) < idx if seen is None else z3.Or(RK(PY) < idx, z3.And(RK(PY) == idx, seen))
    return [z3.And(0 <= yc(S), yc(S) <= z3.If(done, 1, 0)), implies(z3.And(SIMB, done), yc(S) == 1)]


def occ(S, idx, t, more=None):
    """the candidates of the record, and what was counted for PX"""
    O = S.occurances
    if O.c.dom is None: return []
    d = D(t) if more is None else D(t) + z3.If(more, 1, 0)
    return [forall([c], implies(O.dom[c], z3.And(rng(c), RK(c) < idx, LI.len(R[c]) >= 1)), O.dom[c]),
            implies(z3.And(SIMB, idx == RK(PY)), z3.And(d >= 0, O.dom[PX] == (d >= 1), implies(d >= 1, O.val[PX] == d)))]


def outer(S): return S.loop(PPJ[0]).k


def cur(S): return S._E.num(S.it()['get'](S._st, S.k))


def i0(S): return indexed(S, S.k) + yielded(S, S.k)


def reqs(S, upto=None):
    L = S.require_overlaps
    k = AS[outer(S)]
    n = LI.len(R[k])
    return [L.n == n + 1, forall([q], implies(z3.And(MINL(n) <= q, q <= n if upto is None else q < upto), L.arr[q] == REQ(n, q)), L.arr[q])]


def i1(S): return indexed(S, outer(S)) + yielded(S, outer(S)) + reqs(S, cur(S))


def i2(S): return indexed(S, outer(S), S.k) + yielded(S, outer(S)) + reqs(S) + occ(S, outer(S), S.k) + [implies(z3.And(SIMB, outer(S) == RK(PY), T0 < S.k), D(S.k) >= 1)]


def i3(S):
    t = S.loop(PPJ[2]).k
    return indexed(S, outer(S), t) + yielded(S, outer(S)) + reqs(S) + occ(S, outer(S), t)


def i4(S):
    t = S.loop(PPJ[2]).k
    ps, es = index(S)
    Et = es.val[tok(AS[outer(S)], t)]
    at_ = TY.fn('elems_%s_at' % ENT.sort().name(), I, z3.ArraySort(I, ENT.sort()), ENT.sort(), I)(LE.len(Et), LE.arr(Et), ENT.mk(PX, XPOS(t)))
    return indexed(S, outer(S), t) + yielded(S, outer(S)) + reqs(S) + occ(S, outer(S), t, z3.And(INX(t), at_ < cur(S)))


def i5(S):
    return indexed(S, outer(S) + 1) + yielded(S, outer(S), S.seen[PX]) + reqs(S) + occ(S, outer(S), PR)


def pp_yield(S, val):
    if not isinstance(val, Tup) or len(val.items) != 2: raise Stale('not a pair')
    a, b = [RIDX(S._E.lift(x)) for x in val.items]
    t = S.arg('threshold')
    ok = lambda i, j: SIMV(LI.len(R[i]), LI.len(R[j]), OVL(R[i], R[j])) >= t
    return [('two different records that reach the threshold', z3.And(rng(a), rng(b), a != b, LI.len(R[a]) >= 1, LI.len(R[b]) >= 1, z3.Or(ok(a, b), ok(b, a))))], {'yc': yc(S) + z3.If(z3.Or(z3.And(a == PX, b == PY), z3.And(a == PY, b == PX)), 1, 0)}


def pp_post(S): return [yc(S) <= 1, implies(SIMB, yc(S) == 1)]


def pp_cases():
    out = []
    for nm, t, mt, ap, pl in (('jaccard', LIT, 'jaccard', False, False), ('dice, stream', TStream(ITEM), 'dice', False, False), ('cosine', LIT, 'binary_cosine', False, False), ('all pairs', LIT, 'jaccard', True, False), ('plus', LIT, 'jaccard', False, True)):
        out.append(Case(nm, {'records': t, 'threshold': REAL, 'metric': mt, 'tokenizer': None, 'all_pairs': ap, 'plus': pl, 'token_ordering': 'freq'}, pre=pp_pre))
    return out


PEXT = {'collections.defaultdict': new_index, 'index:index': entry, 'attr:entry.ids': get_ids, 'attr:entry.pos': get_pos, 'setattr:entry.pos': set_pos,
        'helper.min_possible_length': bound_fn(MINL), 'helper.probe_length': bound_fn(PROBE), 'helper.index_length': bound_fn(INDEX), 'helper.require_overlap': bound_fn(REQ), 'helper.compute_similarity': bound_fn(SIMV)}
PEXT.update({'class:' + n: new_helper(n) for n in CLS.values()})
JOIN = Opaque('join')


def asked(**flags):
    def f(E, st, env, node):
        a = E.args0raw
        E.oblige(st, 'the same join is asked for', z3.And(*[z3.BoolVal(env[n] is a[n]) for n in a]), node, 'call')
        E.oblige(st, 'the filters asked for', z3.BoolVal(env['all_pairs'] is flags.get('all_pairs', False) and env['plus'] is flags.get('plus', False)), node, 'call')
        return [(st, JOIN)]
    return f


def the_join(S): return [z3.BoolVal(S.rawresult is JOIN)]


def wrapper(name, **flags):
    return Contract(PATH + name, [Case('', {'records': LIT, 'threshold': REAL, 'metric': 'dice', 'tokenizer': Opaque('tokenizer'), 'token_ordering': 'crc32'})], summaries={'ppjoin': asked(**flags)}, post=[('the join', the_join)])


CONTRACTS = METRICS + ANY + [
    Contract(PATH + 'compute_overlap', [Case('', {'x': LI, 'y': LI, 'require_overlap': INT}, pre=ov_pre)], loops={('compute_overlap', 0): Loop([('counted', ov_inv)])}, post=[('the overlap, or less than required', ov_post)]),
    Contract(PATH + 'suffix_filter', [Case('', dict({'x': LI, 'y': LI, 'hd': INT, 'depth': INT}, **{n: INT for n in NAMES}), pre=sf_pre)], externals={'bisect.bisect_left': bisect}, summaries={'suffix_filter': again}, post=[('no more than a distance within the bound', sf_post)]),
    Contract(PATH + 'ppjoin', pp_cases(), prune=150000, yields=False, ghost={'yc': z3.IntVal(0)}, on_yield=pp_yield, externals=PEXT, summaries={'preprocess': preprocess, 'compute_overlap': overlap, 'suffix_filter': suffix},
             loops={PPJ[a]: Loop([('state', f)]) for a, f in enumerate((i0, i1, i2, i3, i4, i5))}, post=[('the pair exactly once', pp_post)]),
    wrapper('all_pairs', all_pairs=True), wrapper('ppjoin_plus', plus=True),
]
def pair_lemma():
    """the facts used of an arbitrary pair of records, for x[0:k] and y[0:w] with 1 <= k <= n1, 1 <= w <= n2"""
    n1, n2, k, w, a, b, e, f = z3.Ints('n1 n2 k w a b e f')
    h0 = [increasing(n1, XA), increasing(n2, YA), 1 <= k, k <= n1, 1 <= w, w <= n2]
    Xk, fXk = slice_of(XA, z3.IntVal(0), k, 'Xk'); Xn, fXn = slice_of(XA, z3.IntVal(0), n1, 'Xn'); Yn, fYn = slice_of(YA, z3.IntVal(0), n2, 'Yn'); Yw, fYw = slice_of(YA, z3.IntVal(0), w, 'Yw')
    def y(lo, hi, name): return slice_of(YA, lo, hi, name)
    def x(lo, hi, name): return slice_of(XA, lo, hi, name)
    out = []
    Y0, fY0 = y(z3.IntVal(0), z3.IntVal(0), 'Y0')
    out.append(('nothing in common with no token', h0 + fXk + fY0, z3.Not(z3.And(Xk[e], Y0[e]))))
    Yq, fYq = y(z3.IntVal(0), b, 'Yq'); Yr, fYr = y(z3.IntVal(0), b + 1, 'Yr')
    place = z3.Function('xpos', I, I)
    inx = z3.And(0 <= place(b), place(b) < k, XA[place(b)] == YA[b])
    there = forall([p], implies(z3.And(0 <= p, p < k, XA[p] == YA[b]), inx), XA[p])          # the position is chosen so
    h = h0 + fXk + fYq + fYr + [0 <= b, b < n2, there]
    out += [('one more token of y', h, z3.And(Xk[e], Yr[e]) == z3.Or(z3.And(Xk[e], Yq[e]), z3.And(inx, e == YA[b]))), ('it was not there', h, z3.Not(Yq[YA[b]]))]
    h = h + [0 <= a, a < k, XA[a] == YA[b]]
    Xa, fXa = x(z3.IntVal(0), a, 'Xa')
    out += [('where a common token is', h, place(b) == a), ('the tokens before it', h + fXa, z3.And(Xk[e], Yq[e]) == z3.And(Xa[e], Yq[e]))]
    Xs, fXs = x(a, n1, 'Xs'); Ys, fYs = y(b, n2, 'Ys')
    h = h + fXa + fXs + fYs + fXn + fYn
    whole, before, after = z3.And(Xn[e], Yn[e]), z3.And(Xa[e], Yq[e]), z3.And(Xs[e], Ys[e])
    out += [('before and from a common token', h + [whole], z3.Or(before, after)), ('before and from, nothing added', h + [z3.Or(before, after)], whole), ('before and from, apart', h, z3.Not(z3.And(before, after)))]
    Xe, fXe = x(k, n1, 'Xe'); Ye, fYe = y(w, n2, 'Ye')
    h = h0 + fXk + fXn + fYn + fYw
    out += [('beyond the index', h + fXe + [XA[k - 1] < YA[w - 1], z3.And(Xn[e], Yn[e])], z3.Or(z3.And(Xk[e], Yw[e]), Xe[e])), ('beyond the probe', h + fYe + [XA[k - 1] >= YA[w - 1], z3.And(Xn[e], Yn[e])], z3.Or(z3.And(Xk[e], Yw[e]), Ye[e]))]
    # the first common token, x[a] == y[b]
    h = h0 + fXn + fYn + fXs + fYs + [0 <= a, a < n1, 0 <= b, b < n2, XA[a] == YA[b], forall([q], implies(z3.And(0 <= q, q < b), z3.Not(Xn[YA[q]])), YA[q])]
    out += [('none before the first common token', h + [z3.And(Xn[e], Yn[e])], z3.And(Xs[e], Ys[e]))]
    P_, Q_, W = z3.Consts('P Q W', IS)
    u_ = TY.union(P_, Q_)
    out += [('cardinal of a covered part', [forall([p], implies(W[p], u_[p]), W[p]), same(TY.inter(W, u_), W)], TY.card(W) <= TY.card(P_) + TY.card(Q_)),
            ('cardinal of nothing', [forall([p], z3.Not(W[p]), W[p]), same(W, TY.empty_set(I))], TY.card(W) == 0), ('something in common', [TY.card(W) >= 1, implies(forall([p], z3.Not(W[p]), W[p]), W == TY.empty_set(I)), forall([p], z3.Not(W[p]), W[p])], z3.BoolVal(False))]
    return out


LEMMAS = [Lemma('PAIR: what the join uses of the common tokens of two sorted records', pair_lemma), Lemma('COMMON: the recursions used of the number of common tokens hold of sorted records', common_lemma)]
COMPLETE = False
BOUNDED = ['preprocess (token sets, orderings, argsort): its result is assumed by ppjoin to be sorted records without duplicates, with the same common tokens, and the records by increasing length; brute force stands in']
ASSUMPTIONS = ['floats are read as reals; math.sqrt(v) is the root of v', 'bisect.bisect_left returns the first position of the slice that is not smaller', 'crc32 has no collision among the tokens of a run', 'a pair whose similarity is within 1e-6 of the threshold may go either way (documented tolerance)',
               'the inverted index is read as two maps (position and entries of each InvertedIndexItem), as its constructor sets them', 'the number of common tokens is a cardinal: the recursions used of it are proved as goals on sets (lemmas COMMON and PAIR); that a non-empty set of positions has a least one is used']
