"""MinHash clustering.  Signatures by the contract of MinHash.create_signature (C16), similarities by that of jaccard_similarity (C01),
clusters by that of clusters_from_buckets (C08)."""
from contracts.common import *
from contracts import clusters as CL, c08

PAIR, LL, pair, pp = CL.PAIR, CL.LL, CL.pair, CL.pp
IS, KS = ITEM.sort(), KEY.sort()
SS = z3.ArraySort(TOK.sort(), z3.BoolSort())
x, y = z3.Consts('x! y!', IS)
p, q = z3.Ints('p! q!')

thr = z3.Function('threshold_of', z3.IntSort(), z3.IntSort(), z3.RealSort())
keyf = z3.Function('key', IS, KS)
tokI, tokK = z3.Function('tokens_of_item', IS, SS), z3.Function('tokens_of_key', KS, SS)
SIG = z3.Function('signature', SS, z3.ArraySort(z3.IntSort(), z3.IntSort()))
strof = z3.Function('decimal', z3.IntSort(), STR.sort())
JAC = z3.Function('jaccard', IS, IS, z3.RealSort())
P0, Q0 = z3.Ints('P0 Q0')                       # any two positions of items with the same tokens
K0 = z3.Const('K0', z3.ArraySort(z3.IntSort(), STR.sort()))
PP = z3.Const('PP', PAIR.sort())
A_, B_ = z3.Consts('A_ B_', IS)
BK = TTup(INT, STR)


# ------------------------------------------------------------------------------------------- guess_bands, similarity_threshold
def power(a, b): return TY.fn('pow_Real', z3.RealSort(), z3.RealSort(), z3.RealSort())(a, b)


def st_post(S):
    h, b = real(S.arg('h')), real(S.arg('bands'))
    return S.result == power(1 / b, 1 / (h / b))


def gb_inv(S):
    b, h, t = S.bands, S.arg('h'), S.arg('threshold')
    return [b >= 1, b <= h, forall([p], implies(z3.And(1 <= p, p < b), thr(h, p) > t), thr(h, p))]


def gb_post(S):
    b, h, t = S.result, S.arg('h'), S.arg('threshold')
    return [b >= 1, b <= h, implies(b < h, thr(h, b) <= t), forall([p], implies(z3.And(1 <= p, p < b), thr(h, p) > t), thr(h, p))]


def threshold_of(E, st, env, node):
    E.oblige(st, 'precondition of similarity_threshold', z3.And(env['h'] > 0, env['bands'] > 0), node, 'call')
    return [(st, thr(env['h'], env['bands']))]


# ------------------------------------------------------------------------------------------- minhash
def keyed(S): return S._E.args0raw['key'] is not None
def tok(S, i): return tokK(keyf(i)) if keyed(S) else tokI(i)


def src(S):
    d = S._E.args0raw['data']
    return (d.n, d.arr) if isinstance(d, Gen) else (S.arg('data').n, S.arg('data').arr)


def defs(S):
    n, arr = src(S)
    h = S.arg('h')
    a, b = tok(S, x), tok(S, y)
    i, u = real(TY.card(TY.inter(a, b))), real(TY.card(TY.union(a, b)))
    f = [h >= 1, 0 <= P0, P0 < Q0, Q0 < n, tok(S, arr[P0]) == tok(S, arr[Q0]), TY.card(tok(S, arr[P0])) > 0,
         forall([p], K0[p] == strof(SIG(tok(S, arr[P0]))[p]), K0[p]),
         S.arg('radius') <= 1,
         # C01: the similarity, |A∩B|/|A∪B| for non-empty sets
         forall([x, y], implies(z3.And(TY.card(a) > 0, TY.card(b) > 0), z3.And(u > 0, JAC(x, y) * u == i)), JAC(x, y)),
         # idempotence of the set operations
         TY.inter(tok(S, arr[P0]), tok(S, arr[Q0])) == tok(S, arr[P0]), TY.union(tok(S, arr[P0]), tok(S, arr[Q0])) == tok(S, arr[P0])]
    if S._E.args0raw['bands'] is not None: f += [1 <= S.arg('bands'), S.arg('bands') <= h]
    return f


def bands_of(E, st, env, node):
    """the contract of guess_bands"""
    h = env['h']
    E.oblige(st, 'precondition of guess_bands', z3.And(h >= 1, env['threshold'] == E.args0raw['radius']), node, 'call')
    b = E.fresh('bands', z3.IntSort())
    st.assume(1 <= b, b <= h)
    return [(st, b)]


def new_minhash(E, st, args, kw, node):
    if len(args) != 1 or set(kw) != {'use_numpy', 'seed'}: raise Unsupported('MinHash')
    return [(st, Opaque('mh', h=E.num(args[0])))]


def create_signature(E, st, args, kw, node, f):
    """C16: a list of h integers that depends on the set of tokens only"""
    k = args[0]
    t = tokK(k) if k.sort() == KS else tokI(k)
    return [(st, E.new_cell(st, Lst(f.base.h, SIG(t), INT)))]


create_signature.wants_fn = True


def jaccard(E, st, env, node):
    a, b = env['A'], env['B']
    if a.sort() == KS:
        # key(A), key(B)
        if not (z3.is_app_of(a, keyf.decl().kind() if hasattr(keyf, 'decl') else a.decl().kind()) and a.decl().eq(keyf) and b.decl().eq(keyf)): raise Stale('the keys compared')
        a, b = a.arg(0), b.arg(0)
        if E.args0raw['key'] is None: raise Stale('keys')
    elif E.args0raw['key'] is not None: raise Stale('items are compared')
    return [(st, JAC(a, b))]


def cfb(E, st, env, node):
    """C08: the pairs of two distinct positions of a bucket that the similarity accepts are merged"""
    sim = env['similarity']
    if not isinstance(sim, Fn): raise Stale('no similarity')
    r = E.call(sim, [A_, B_], {}, st, Frame('F', E.contract.qual, E.module), node)
    if len(r) != 1: raise Unsupported('the similarity has several paths')
    st, ok = r[0]
    ok = E.truth(st, ok)
    okf = lambda a, b: z3.substitute(ok, (A_, a), (B_, b))
    v = env['buckets']
    st, g = CL.pairs_from_buckets(E, st, {'buckets': E.to_list(st, v, node)}, node)[0]
    bag = E.fresh('kept', z3.ArraySort(PAIR.sort(), z3.IntSort()))
    a, b = PAIR.get(0, pp), PAIR.get(1, pp)
    st.assume(forall([pp], z3.And(bag[pp] >= 0, (bag[pp] > 0) == z3.And(g.bag[pp] > 0, okf(a, b))), bag[pp]))
    E.used.add('fog/clustering/utils.py:clusters_from_buckets (by contract)')
    c = CL.Clusters(E, st, dict(env, pairs=Gen(n=g.n, arr=None, t=PAIR, bag=bag, depth=E.loopdepth)))
    c.barr, c.bn = g.barr, g.bn
    return [(st, Gen(opaque=c, depth=E.loopdepth))]


OUTER, BAND = ('minhash', 0), ('minhash', 1)


def key0(S):
    n, arr = src(S)
    return BK.mk(z3.IntVal(0), TY.join_fn(S._E.lift('%'), S.rows, K0))


def members(S):
    B = S.buckets
    return B, (lambda k: LL.len(B.val[k])), (lambda k, i: LL.arr(B.val[k])[i])


kk = z3.Const('bk!', BK.sort())


def held(S, k):
    """what the buckets hold once the first k items were added"""
    B = S.buckets
    if B.c.kt is None or unknown_(B): return []
    n, arr = src(S)
    _, ln, at = members(S)
    D = TY.elems(n, arr)
    K = key0(S)
    return [forall([kk, p], implies(z3.And(B.dom[kk], 0 <= p, p < ln(kk)), D[at(kk, p)]), at(kk, p)), forall([kk], implies(B.dom[kk], ln(kk) >= 0), B.val[kk]),
            implies(k > P0, z3.And(B.dom[K], exists([p], z3.And(0 <= p, p < ln(K), at(K, p) == arr[P0]), at(K, p)))),
            implies(k > Q0, exists([p, q], z3.And(0 <= p, p < q, q < ln(K), at(K, p) == arr[P0], at(K, q) == arr[Q0]), z3.MultiPattern(at(K, p), at(K, q))))]


def unknown_(B): return B.c.dom is None or B.c.vt is None


def facts(S): return [S.rows >= 1, S.rows <= S.arg('h'), S.h_upper_bound == S.bands * S.rows, S.bands >= 1]


def outer(S): return facts(S) + held(S, S.k)


def band(S):
    k = S.ghost(('k', OUTER))
    return facts(S) + held(S, k + z3.If(S.k > 0, 1, 0))


def band_hint(S):
    B = S.buckets
    if B.c.kt is None or unknown_(B) or S.pre.buckets.c.dom is None: return []
    n, arr = src(S)
    j, k = S.pre.ghost(('k', BAND)), S.ghost(('k', OUTER))
    _, ln, at = members(S)
    O = S.pre.buckets
    K = key0(S)
    f = []
    for P in (P0, Q0):
        f += [('the first band of such an item', implies(z3.And(j == 0, k == P), z3.And(B.dom[K], ln(K) >= 1, at(K, ln(K) - 1) == arr[P])))]
    f.append(('buckets only grow', implies(O.dom[K], z3.And(B.dom[K], ln(K) >= LL.len(O.val[K]), forall([p], implies(z3.And(0 <= p, p < LL.len(O.val[K])), at(K, p) == LL.arr(O.val[K])[p]), LL.arr(O.val[K])[p])))))
    f.append(('the last one added is after', implies(z3.And(j == 0, k == Q0, O.dom[K]), ln(K) == LL.len(O.val[K]) + 1)))
    return f


def mh_post(S):
    c = CL.stream(S)
    n, arr = src(S)
    D = TY.elems(n, arr)
    a, b = PAIR.get(0, PP), PAIR.get(1, PP)
    return [implies(c.bag[PP] > 0, z3.And(JAC(a, b) >= S.arg('radius'), D[a], D[b])), c.bag[pair(arr[P0], arr[Q0])] > 0]


def mh_final(S):
    n, arr = src(S)
    return [('equal token sets have similarity one', JAC(arr[P0], arr[Q0]) == 1)]


def mh_bounds(S):
    c = CL.stream(S)
    return z3.BoolVal(c.env['min_size'] == 2 and isinstance(c.env['max_size'], float) and c.env['max_size'] == float('inf') and c.env['mode'] == 'connected_components' and c.env['fuzzy'] is False) if not isinstance(c.env['max_size'], Ext) else \
        z3.And(z3.BoolVal(c.env['min_size'] == 2 and c.env['mode'] == 'connected_components'), c.env['max_size'].inf)


def mcase(name, data, key, bands):
    return Case(name, {'data': data, 'h': INT, 'key': key, 'radius': REAL, 'bands': bands, 'use_numpy': TConst(False), 'seed': TConst(None)}, pre=defs)


KF = TFn([ITEM], KEY, keyf)
CONTRACTS = [
    Contract('fog/clustering/minhash.py:similarity_threshold', [Case('any bands', {'h': INT, 'bands': INT}, pre=lambda S: [S.arg('h') > 0, S.arg('bands') > 0])], post=[('is (1/b)^(1/(h/b))', st_post)]),
    Contract('fog/clustering/minhash.py:guess_bands', [Case('any threshold', {'h': INT, 'threshold': REAL}, pre=lambda S: [S.arg('h') >= 1])], summaries={'similarity_threshold': threshold_of},
             loops={('guess_bands', 0): Loop([('fewer bands have a threshold over the radius', gb_inv)], dec=lambda S: [S.arg('h') - S.bands])},
             post=[('the smallest number of bands under the radius, at most h', gb_post)]),
    Contract('fog/clustering/minhash.py:minhash', [mcase('a list, bands guessed', TList(ITEM), None, None), mcase('a stream with a key, bands guessed', TStream(ITEM), KF, None), mcase('a list with a key, given bands', TList(ITEM), KF, INT), mcase('a stream, given bands', TStream(ITEM), None, INT)],
             yields=False, summaries={'guess_bands': bands_of, 'jaccard_similarity': jaccard, 'clusters_from_buckets': cfb},
             externals={'class:MinHash': new_minhash, 'mh.create_signature': create_signature, 'builtin:str': lambda E, st, args, kw, node: [(st, strof(E.num(args[0])))]},
             loops={OUTER: Loop([('buckets so far', outer)]), BAND: Loop([('buckets so far', band)], hint=band_hint)}, final=mh_final,
             post=[('pairs merged are similar items of the data; items with the same tokens are', mh_post), ('clusters of two items or more, components', mh_bounds)]),
]
CONTRACTS += [c for c in c08.CONTRACTS if c.target.endswith(':clusters_from_buckets') or c.target.endswith(':pairs_from_buckets')]
COMPLETE = True
ASSUMPTIONS = ['the power function is uninterpreted (float rounding is not modelled)', 'with numpy the signature is also a function of the token set', 'str of an integer is a function of it']
