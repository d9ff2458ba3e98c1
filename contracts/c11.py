"""Sorted neighbourhood: the pairs handed over are those of the window (or adaptive block), in every pass"""
from contracts.common import *
from contracts import clusters as CL
from contracts.c09 import make_similarity, simb, SIM

IS = ITEM.sort()
IA = z3.ArraySort(z3.IntSort(), IS)
KF = TSort('SortKey')
PAIR, pair, pp = CL.PAIR, CL.pair, CL.pp
p, q, c, w = z3.Ints('p! q! c! w!')
f = z3.Const('f!', KF.sort())
order = z3.Function('sorted_by', KF.sort(), IA)       # the data sorted by a key
nokey = z3.Const('no_key', KF.sort())
pos = z3.Function('rank_of', IS, z3.IntSort())        # rank of an item in the only pass, when items are distinct
BT = TTup(INT, INT)


def sorted_(E, st, args, kw, node):
    v = args[0]
    k = kw.get('key')
    if k is None: k = nokey
    if not isinstance(k, z3.ExprRef) or k.sort() != KF.sort(): raise Unsupported('sort key')
    if set(kw) - {'key'}: raise Unsupported('sorted')
    n, arr = E.P['data']
    cl = E.read(st, E.to_list(st, v, node))
    if cl.t != ITEM: raise Stale('what is sorted is not the data')
    E.oblige(st, 'the data is what is sorted', z3.And(cl.n == n, forall([p], implies(z3.And(0 <= p, p < n), cl.arr[p] == arr[p]), cl.arr[p])), node, 'call')
    E.trusted.add('sorted(data, key) is a permutation of the data determined by the key')
    return [(st, E.new_cell(st, Lst(n, order(k), ITEM)))]


def src(S):
    g = S._E.args0raw['data']
    return (g.n, g.arr) if isinstance(g, Gen) else (S.arg('data').n, S.arg('data').arr)


def passes(S):
    """(number of passes, key of pass)"""
    a = S._E.args0raw
    if a['keys'] is None:
        k = nokey if a['key'] is None else a['key']
        return z3.IntVal(1), lambda i: k
    g = a['keys']
    n, arr = (g.n, g.arr) if isinstance(g, Gen) else (S.arg('keys').n, S.arg('keys').arr)
    return n, lambda i: arr[i]


def distinct(S): return S._E.case.consts.get('distinct', False)


def pre(S):
    n, arr = src(S)
    S._E.P['data'] = (n, arr)
    fs = [n >= 0, S.arg('window') >= 2]
    if distinct(S):
        k = passes(S)[1](0)
        fs.append(forall([p], implies(z3.And(0 <= p, p < n), pos(order(k)[p]) == p), order(k)[p]))
    return fs


def compared(S, kf, i, j):
    """are the items of these ranks compared in the pass of key kf?"""
    n = src(S)[0]
    if S._E.contract.qual == 'sorted_neighborhood':
        return z3.And(0 <= i, i < j, j < n, j < i + S.arg('window'))
    o = order(kf)
    return z3.And(0 <= i, i < j, j < n, blk(o, i) == blk(o, j))


def facts(S, bag, before):
    """the pairs are those of similar items compared so far"""
    if bag is None: return []
    n = src(S)[0]
    m, key = passes(S)
    if distinct(S):
        o = order(key(0))
        x, y = PAIR.get(0, pp), PAIR.get(1, pp)
        i, j = pos(x), pos(y)
        return [forall([pp], bag[pp] == z3.If(z3.And(compared(S, key(0), i, j), o[i] == x, o[j] == y, simb(x, y), before(0, i, j)), 1, 0), bag[pp])]
    # completeness for an arbitrary pass and two arbitrary ranks; soundness for an arbitrary pair
    ok = lambda cc, i, j: z3.And(0 <= cc, cc < m, compared(S, key(cc), i, j), simb(order(key(cc))[i], order(key(cc))[j]), before(cc, i, j))
    many = S._E.args0raw['keys'] is not None
    cc = c if many else z3.IntVal(0)
    o0, o = order(key(C0)), order(key(cc))
    x, y = PAIR.get(0, PP), PAIR.get(1, PP)
    return [implies(ok(C0, P0, Q0), bag[pair(o0[P0], o0[Q0])] > 0), bag[pair(o0[P0], o0[Q0])] >= 0,
            bag[PP] >= 0, implies(bag[PP] > 0, z3.Exists([c, p, q] if many else [p, q], z3.And(ok(cc, p, q), o[p] == x, o[q] == y), patterns=[z3.MultiPattern(o[p], o[q])]))]


C0, P0, Q0 = z3.Ints('a_pass a_rank another_rank')
PP = z3.Const('a_pair', PAIR.sort())


def kpass(S):
    return S.ghost(('k', ('clustering', 0))) if S._E.args0raw['keys'] is not None else z3.IntVal(0)


L0, L1, L2 = [('clustering', k) for k in range(3)]


def lex(*ks):
    """lexicographically before"""
    def g(*xs):
        r = z3.BoolVal(False)
        for x, k in reversed(list(zip(xs, ks))):
            r = z3.Or(x < k, z3.And(x == k, r))
        return r
    return g


def inv(level):
    def g(S):
        kp = kpass(S)
        if level == 0: return facts(S, S.bag, lambda cc, i, j: cc < kp)
        i0 = S.ghost(('k', L1))
        if level == 1: return facts(S, S.bag, lambda cc, i, j: lex(kp, i0)(cc, i))
        j0 = i0 + 1 + S.ghost(('k', L2))
        return facts(S, S.bag, lambda cc, i, j: lex(kp, i0, j0)(cc, i, j))
    return g


def clusters(E, st, env, node):
    cl = CL.Clusters(E, st, env)
    fz = env['fuzzy']
    if isinstance(fz, z3.ExprRef): fz = z3.is_true(z3.simplify(fz)) if z3.is_true(z3.simplify(fz)) or z3.is_false(z3.simplify(fz)) else fz
    if fz not in (True, False): raise Unsupported('fuzzy')
    if not fz and not (isinstance(env['mode'], str) and env['mode'] == 'connected_components'):
        x, y = PAIR.get(0, pp), PAIR.get(1, pp)
        E.oblige(st, 'precondition no pair comes twice of clusters_from_pairs', forall([pp], implies(cl.bag[pp] > 0, z3.And(cl.bag[pp] == 1, x != y, cl.bag[pair(y, x)] <= 0)), cl.bag[pp]), node, 'call')
    return [(st, Gen(opaque=cl, depth=E.loopdepth))]


def post_pairs(S): return facts(S, CL.stream(S).bag, lambda *a: z3.BoolVal(True))


def bounds(S):
    a = S._E.args0raw
    return CL.passed(S, min_size=a['min_size'], max_size=a['max_size'], mode=a['mode'])


# ------------------------------------------------------------------------------------------- adaptive blocks
blk = z3.Function('block_of', IA, z3.IntSort(), z3.IntSort())
first = z3.Function('block_first', IA, z3.IntSort(), z3.IntSort())
last = z3.Function('block_last', IA, z3.IntSort(), z3.IntSort())
AW, AE, AR = [('full_AA_SNM', k) for k in range(3)]


def tiling(n, m, lo, hi, own, top):
    """the m blocks [lo(k), hi(k)] tile the ranks before `top`; own(p) is the block of rank p"""
    return [m >= 0, forall([c], implies(z3.And(0 <= c, c < m), z3.And(0 <= lo(c), lo(c) <= hi(c), hi(c) < top)), lo(c), hi(c)),
            forall([p], implies(z3.And(0 <= p, p < top), z3.And(0 <= own(p), own(p) < m, lo(own(p)) <= p, p <= hi(own(p)))), own(p)),
            forall([c, p], implies(z3.And(0 <= c, c < m, lo(c) <= p, p <= hi(c)), own(p) == c), z3.MultiPattern(own(p), lo(c)))]


def aa_tiles(S, top):
    own = S.ghost('own')
    if S.out is None: return z3.And(top == 0, S.ghost('count') == 0)
    return tiling(S.arg('sorted_records').n, S.outlen, lambda k: BT.get(0, S.out[k]), lambda k: BT.get(1, S.out[k]), lambda r: own[r], top)


def aa_yield(S, v):
    if not isinstance(v, Tup) or len(v.items) != 2: raise Stale('not a block')
    own, k = S.ghost('own'), S.ghost('count')
    own1 = S._E.fresh('own', own.sort())
    lo, hi = S._E.num(v.items[0]), S._E.num(v.items[1])
    S._st.assume(forall([p], own1[p] == z3.If(z3.And(lo <= p, p <= hi), k, own[p]), own1[p]))
    return [('a block holds at least one rank', z3.And(0 <= lo, lo <= hi, hi < S.arg('sorted_records').n)), ('blocks follow each other', lo == S.ghost('next'))], {'own': own1, 'count': k + 1, 'next': hi + 1}


def aa_inv(S):
    return aa_common(S) + [S.first == S.ghost('next'), S.last == S.first + S.arg('window') - 1, S.first >= 0, S.w == S.arg('window'), S.step == S.arg('window') - 1, S.n == S.arg('sorted_records').n, S.ghost('next') <= S.n]


def aa_common(S):
    t = aa_tiles(S, S.ghost('next'))
    return (t if isinstance(t, list) else [t]) + ([S.ghost('count') == S.outlen] if S.out is not None else [])


def aa_enl(S):
    return aa_common(S) + [S.f == S.ghost('next'), S.f <= S.first, S.first < S.n, S.first < S.last, S.last >= S.f + S.arg('window') - 1, S.w == S.last - S.first + 1, S.w >= 2]


def aa_ret(S):
    return aa_common(S) + [S.f == S.ghost('next'), S.f <= S.last, S.last < S.n, S.w == S.last - S.f + 1, S.last >= S.f + z3.If(S.arg('window') - 1 < S.n - 1 - S.f, S.arg('window') - 1, S.n - 1 - S.f)]


AA = Contract('fog/clustering/sorted_neighborhood.py:full_AA_SNM', [Case('', {'sorted_records': TList(ITEM), 'similarity': SIM, 'window': INT}, pre=lambda S: [S.arg('window') >= 2])],
              yields=BT, ghost={'own': z3.Const('own0', z3.ArraySort(z3.IntSort(), z3.IntSort())), 'count': z3.IntVal(0), 'next': z3.IntVal(0)}, on_yield=aa_yield,
              loops={AW: Loop([('blocks so far', aa_inv)], dec=lambda S: S.n - S.first),
                     AE: Loop([('the window grows', aa_enl)], dec=lambda S: S.n - S.first),
                     AR: Loop([('the window shrinks', aa_ret)], dec=lambda S: S.w)},
              post=[('the blocks cover the records', lambda S: S.ghost('next') == S.arg('sorted_records').n), ('without gap or overlap', lambda S: aa_common(S))])


def aa_summary(E, st, env, node):
    """callee contract of full_AA_SNM: its blocks tile the records"""
    cl = E.read(st, env['sorted_records'])
    if cl.t != ITEM: raise Stale('records')
    wd = E.num(env['window'])
    E.oblige(st, 'precondition window >= 2 of full_AA_SNM', wd >= 2, node, 'call')
    fn = env['similarity']
    if not (isinstance(fn, Fn) and fn.kind == 'u' and fn.f.eq(simb)): raise Stale('another similarity')
    o = cl.arr
    m = E.fresh('nblocks', z3.IntSort())
    arr = E.fresh('blocks', z3.ArraySort(z3.IntSort(), BT.sort()))
    st.assume(*tiling(cl.n, m, lambda k: BT.get(0, arr[k]), lambda k: BT.get(1, arr[k]), lambda r: blk(o, r), cl.n))
    return [(st, Gen(n=m, arr=arr, t=BT, depth=E.loopdepth))]


A0, A1, A2, A3 = [('clustering', k) for k in range(4)]


def ainv(level):
    def g(S):
        kp = kpass(S)
        if level == 0: return facts(S, S.bag, lambda cc, i, j: cc < kp)
        n, key = passes(S)
        kb = S.ghost(('k', A1))
        b = lambda cc, i: blk(order(key(cc)), i)
        if level == 1: return facts(S, S.bag, lambda cc, i, j: lex(kp, kb)(cc, b(cc, i)))
        i0 = S.start + S.ghost(('k', A2))
        if level == 2: return facts(S, S.bag, lambda cc, i, j: lex(kp, kb, i0)(cc, b(cc, i), i))
        j0 = i0 + 1 + S.ghost(('k', A3))
        return facts(S, S.bag, lambda cc, i, j: lex(kp, kb, i0, j0)(cc, b(cc, i), i, j))
    return g


LD = TList(ITEM)


def case(name, data, key, keys, mode, dist):
    return Case(name, {'data': data, 'key': key, 'keys': keys, 'similarity': SIM, 'distance': None, 'radius': None, 'window': INT, 'min_size': INT, 'max_size': TExt(), 'mode': mode}, pre=pre, consts={'distinct': dist} if dist else None)


CASES = [case('one pass over distinct items', LD, KF, None, STR, True), case('one pass, no key, lazy data of distinct items', TStream(ITEM), None, None, STR, True),
         case('one pass, components', LD, KF, None, 'connected_components', False),
         case('several passes', TStream(ITEM), None, TList(KF), STR, False)]

MS = {'make_similarity_function': make_similarity, 'clusters_from_pairs': clusters}
CONTRACTS = [AA,
    Contract('fog/clustering/sorted_neighborhood.py:sorted_neighborhood', CASES, externals={'builtin:sorted': sorted_}, summaries=MS, yields=False,
             loops={k: Loop([('pairs so far', inv(l))]) for l, k in enumerate((L0, L1, L2))},
             post=[('the pairs are those of the windows', post_pairs), ('bounds and mode are handed over', bounds)]),
    Contract('fog/clustering/sorted_neighborhood.py:adaptive_sorted_neighborhood', CASES, externals={'builtin:sorted': sorted_}, summaries=dict(MS, full_AA_SNM=aa_summary), yields=False,
             loops={k: Loop([('pairs so far', ainv(l))]) for l, k in enumerate((A0, A1, A2, A3))},
             post=[('the pairs are those of the blocks', post_pairs), ('bounds and mode are handed over', bounds)]),
]
COMPLETE = True
