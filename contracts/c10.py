"""Key collision and blocking: buckets hold exactly the items that have the key, in order; the pairs handed over are those of a bucket"""
from contracts.common import *
from contracts import clusters as CL
from pv.engine import S as SView
from contracts.c09 import make_similarity, simb, SIM, dumps, loads, pool, PK

IS, KS = ITEM.sort(), KEY.sort()
LK = TList(KEY)
PAIR, pair, pp = CL.PAIR, CL.pair, CL.pp
LP = TList(PAIR)
LL = TList(ITEM)
p, q, w, c = z3.Ints('p! q! w! c!')
k = z3.Const('k!', KS)
x = z3.Const('x!', IS)
keyf = z3.Function('key_of', IS, KS)
keysf = z3.Function('keys_of', IS, LK.sort())
truthy = TY.fn('truthy_Key', KS, z3.BoolSort())
has = z3.Function('has', z3.IntSort(), KS, z3.BoolSort())            # the item at a position has a key that counts
cnt = z3.Function('holders_before', KS, z3.IntSort(), z3.IntSort())  # how many earlier positions have it
sel = z3.Function('holder', KS, z3.IntSort(), z3.IntSort())          # the holder of a given number
idx = z3.Function('position_of', IS, z3.IntSort())
K0 = z3.Const('a_key', KS)
P0, Q0 = z3.Ints('a_position another_position')
PP = z3.Const('a_pair', PAIR.sort())


def src(S):
    g = S._E.args0raw['data']
    return (g.n, g.arr) if isinstance(g, Gen) else (S.arg('data').n, S.arg('data').arr)


def names(S): return ('key', 'keys') if S._E.contract.qual == 'key_collision' else ('block', 'blocks')


def several(S): return S._E.args0raw[names(S)[1]] is not None and (S._E.args0raw[names(S)[0]] is None or S._E.contract.qual == 'blocking')


def nothing(S): return all(S._E.args0raw[a] is None for a in names(S))


def keyset(S, i):
    r = keysf(src(S)[1][i])
    return TY.elems(LK.len(r), LK.arr(r))


def defs(S):
    n, arr = src(S)
    t = (lambda y: truthy(y)) if S._E.contract.qual == 'key_collision' else (lambda y: z3.BoolVal(True))
    d = z3.BoolVal(False) if nothing(S) else z3.And(keyset(S, p)[k], t(k)) if several(S) else z3.And(keyf(arr[p]) == k, t(k))
    fs = [n >= 0, forall([p, k], has(p, k) == d, has(p, k)),
          forall([k], cnt(k, 0) == 0, cnt(k, 0)), forall([p, k], implies(p >= 0, cnt(k, p + 1) == cnt(k, p) + z3.If(has(p, k), 1, 0)), cnt(k, p + 1)),
          # lemma MONO makes this a definition
          forall([p, k], implies(z3.And(0 <= p, has(p, k)), sel(k, cnt(k, p)) == p), z3.MultiPattern(has(p, k), cnt(k, p)))]
    if several(S): fs.append(forall([x], LK.len(keysf(x)) >= 0, keysf(x)))
    if S._E.contract.qual == 'blocking' or S._E.args0raw['merge'] is True: fs.append(forall([p], implies(z3.And(0 <= p, p < n), idx(arr[p]) == p), arr[p]))
    return fs


def mono():
    def goals():
        a, b = z3.Ints('a b'); kk = z3.Const('kk', KS)
        d = [forall([p, k], implies(p >= 0, cnt(k, p + 1) == cnt(k, p) + z3.If(has(p, k), 1, 0)), cnt(k, p + 1))]
        return [('base', d + [a >= 0, has(a, kk)], cnt(kk, a) < cnt(kk, a + 1)), ('step', d + [a >= 0, b > a, cnt(kk, a) < cnt(kk, b)], cnt(kk, a) < cnt(kk, b + 1)),
                ('injective', [forall([p, q, k], implies(z3.And(0 <= p, p < q, has(p, k)), cnt(k, p) < cnt(k, q)), z3.MultiPattern(cnt(k, p), cnt(k, q))), a >= 0, b >= 0, has(a, kk), has(b, kk), cnt(kk, a) == cnt(kk, b)], a == b)]
    return Lemma('MONO: two holders of a key have different numbers', goals)


def held(i, seen):
    if seen is None: return lambda y, r: z3.And(0 <= r, r < i, has(r, y))
    return lambda y, r: z3.And(0 <= r, has(r, y), z3.Or(r < i, z3.And(r == i, seen[y])))


def buckets(S, i, seen=None):
    """after the items before i (and the keys `seen` of item i)"""
    B = S.buckets
    if B.c.dom is None or B.c.vt is None or B.c.vt.t is None: return []      # types still being inferred
    arr = src(S)[1]
    h = held(i, seen)
    L = B.c.vt
    extra = (lambda y: z3.If(z3.And(seen[y], has(i, y)), 1, 0)) if seen is not None else (lambda y: 0)
    cell = lambda y, u: L.arr(B.val[y])[u]
    return [forall([k, p], implies(h(k, p), z3.And(B.dom[k], 0 <= cnt(k, p), cnt(k, p) < L.len(B.val[k]), cell(k, cnt(k, p)) == arr[p])), has(p, k)),
            forall([k, w], implies(z3.And(B.dom[k], 0 <= w, w < L.len(B.val[k])), z3.And(h(k, sel(k, w)), cnt(k, sel(k, w)) == w, cell(k, w) == arr[sel(k, w)])), cell(k, w)),
            forall([k], cnt(k, i) >= 0, cnt(k, i)),
            forall([k], implies(B.dom[k], z3.And(L.len(B.val[k]) == cnt(k, i) + extra(k), cnt(k, i) + extra(k) >= 1)), B.dom[k], B.val[k]),
            forall([k], implies(z3.Not(B.dom[k]), cnt(k, i) + extra(k) == 0), B.dom[k])]


def at_end(S): return buckets(S, src(S)[0])


def inner(outer):
    def f(S):
        i = S.ghost(('k', outer))
        sn = S.seen
        return buckets(S, i, sn)
    return f


# ------------------------------------------------------------------------------------------- key_collision
KC = [('key_collision', a) for a in range(4)]


def kc_hint(S):
    i = S.pre.ghost(('k', KC[0])); key = keyf(src(S)[1][i])
    return [('the item has its key', has(i, key) == truthy(key)), ('and is its next holder', implies(has(i, key), sel(key, cnt(key, i)) == i))]


def within(S, size):
    a = S._E.args0raw
    m = a['max_size']
    return z3.And(a['min_size'] <= size, z3.Or(m.inf, size <= m.val))


def kc_yield(S, v):
    if v.c.kind != 'list': raise Stale('a cluster is not a list')
    it = S._st.ghost[('it', KC[3])]
    key = it['arr'][S.ghost(('k', KC[3]))]
    n, arr = src(S)
    return [('one member for each item that has the key', z3.And(v.n == cnt(key, n), v.n >= 1)),
            ('the members are these items, in order', forall([p], implies(z3.And(0 <= p, p < n, has(p, key)), z3.And(0 <= cnt(key, p), cnt(key, p) < v.n, v.arr[cnt(key, p)] == arr[p])), has(p, key))),
            ('the size is admissible', within(S, v.n))], {'yK0': S.ghost('yK0') + z3.If(key == K0, 1, 0)}


def kc_out(S):
    it = S.it()
    B = S.buckets
    if B.c.dom is None: return []
    return S.ghost('yK0') == z3.If(z3.And(B.dom[K0], it['pos'](K0) < S.k, within(S, cnt(K0, src(S)[0]))), 1, 0)


def merged(S): return S._E.args0raw['merge'] is True and S._E.args0raw['key'] is None


def kc_post(S):
    if merged(S): return None
    m = cnt(K0, src(S)[0])
    return S.ghost('yK0') == z3.If(z3.And(m >= 1, within(S, m)), 1, 0)


def clusters_from_buckets(E, st, env, node):
    """callee contract of clusters_from_buckets (proved in c08), without a similarity"""
    if env['similarity'] is not None or not (isinstance(env['mode'], str) and env['mode'] == 'connected_components'): raise Stale('other clusters')
    v = env['buckets']
    cell = E.read(st, v.ref if isinstance(v, DView) else v)
    if cell.kind == 'dict' and cell.dom is None:
        g = Gen(n=z3.IntVal(0), arr=None, t=PAIR, bag=z3.K(PAIR.sort(), z3.IntVal(0)), depth=E.loopdepth)
    else:
        l = E.to_list(st, v, node)
        cc = E.read(st, l)
        if getattr(cc, 'keys_arr', None) is None: raise Stale('buckets are not the values of a dictionary')
        E.P['valuesmap'] = (lambda b: cc.keys_arr[b], cc.keys_pos)
        st, g = CL.pairs_from_buckets(E, st, {'buckets': l}, node)[0]
    cl = CL.Clusters(E, st, dict(env, pairs=g))
    cl.wh = g.__dict__.get('wh'); cl.bn = g.__dict__.get('bn'); cl.barr = g.__dict__.get('barr')
    return [(st, Gen(opaque=cl, depth=E.loopdepth))]


def colliding(S, bag, ok):
    """completeness for an arbitrary key and two arbitrary holders; soundness for an arbitrary pair"""
    n, arr = src(S)
    a, b = PAIR.get(0, PP), PAIR.get(1, PP)
    return [implies(z3.And(0 <= P0, P0 < Q0, Q0 < n, has(P0, K0), has(Q0, K0), ok(arr[P0], arr[Q0])), bag[pair(arr[P0], arr[Q0])] > 0),
            implies(bag[PP] > 0, z3.And(ok(a, b), z3.Exists([k], z3.And(0 <= idx(a), idx(a) < idx(b), idx(b) < n, arr[idx(a)] == a, arr[idx(b)] == b, has(idx(a), k), has(idx(b), k)), patterns=[z3.MultiPattern(has(idx(a), k), has(idx(b), k))])))]


def kc_merged(S):
    if not merged(S): return None
    return colliding(S, CL.stream(S).bag, lambda a, b: z3.BoolVal(True))


def kc_bounds(S):
    if not merged(S): return None
    a = S._E.args0raw
    return CL.passed(S, min_size=a['min_size'], max_size=a['max_size'])


def kc_final(S):
    """where the pairs come from"""
    if not merged(S): return []
    cl = CL.stream(S)
    if cl.wh is None: return []
    B = S.buckets
    n, arr = src(S)
    src_, pos_ = keymap(S)
    L = CL.LL
    num = lambda y: pos_(y)
    t = cl.wh[PP]
    b, i, j = [z3.simplify(CL.T3.get(d, t)) for d in range(3)]
    row = L.arr(cl.barr[b])
    kk = src_(b)
    return [('the bucket of the key', implies(B.dom[K0], z3.And(0 <= num(K0), num(K0) < cl.bn, cl.barr[num(K0)] == B.val[K0]))),
            ('the cells', implies(z3.And(0 <= P0, P0 < Q0, Q0 < n, has(P0, K0), has(Q0, K0)), z3.And(cnt(K0, P0) < cnt(K0, Q0), L.arr(cl.barr[num(K0)])[cnt(K0, P0)] == arr[P0], L.arr(cl.barr[num(K0)])[cnt(K0, Q0)] == arr[Q0])), monouse(K0, P0, Q0)),
            ('the pair comes from a bucket', implies(cl.bag[PP] > 0, z3.And(0 <= b, b < cl.bn, B.dom[kk], cl.barr[b] == B.val[kk], 0 <= i, i < j, j < L.len(B.val[kk]), row[i] == PAIR.get(0, PP), row[j] == PAIR.get(1, PP)))),
            ('of two holders', implies(cl.bag[PP] > 0, z3.And(has(sel(kk, i), kk), has(sel(kk, j), kk), sel(kk, i) < sel(kk, j), idx(row[i]) == sel(kk, i), idx(row[j]) == sel(kk, j))), monouse(kk, sel(kk, j), sel(kk, i)))]


def monouse(key, a, b):
    return [implies(z3.And(0 <= a, a < b, has(a, key)), cnt(key, a) < cnt(key, b))]


def keymap(S):
    cl = CL.stream(S)
    m = S._E.P.get('valuesmap')
    if m is None: raise Stale('buckets are not the values of a dictionary')
    return m


# ------------------------------------------------------------------------------------------- block_worker
num = z3.Function('number_in_block', IS, z3.IntSort())     # items are numbered within the block: they are distinct
BW0, BW1 = ('block_worker', 0), ('block_worker', 1)


def payload(serialized, graph):
    def f(E, st):
        g = None
        if graph: g = E.new_cell(st, Dct(TY.empty_set(IS), z3.Const('nograph', z3.ArraySort(IS, TSet(ITEM).sort())), ITEM, TSet(ITEM), factory=TSet(ITEM), pyt='defaultdict'))
        return Tup([Opaque('pickle') if serialized else Fn('u', f=simb, args=(ITEM, ITEM), res=BOOL, name='similar'), E.fresh_of(st, 'block', LL), serialized, g])
    return f


def block(S):
    c_ = S._E.spec(S._st, S._E.args0raw['payload'].items[1])
    return c_.n, c_.arr


def bw_pre(S):
    n, arr = block(S)
    return [forall([p], implies(z3.And(0 <= p, p < n), num(arr[p]) == p), arr[p])]


def bw_bag(bag, n, arr, num, before=lambda i, j: z3.BoolVal(True)):
    a, b = PAIR.get(0, pp), PAIR.get(1, pp)
    return forall([pp], bag[pp] == z3.If(z3.And(0 <= num(a), num(a) < num(b), num(b) < n, arr[num(a)] == a, arr[num(b)] == b, simb(a, b), before(num(a), num(b))), 1, 0), bag[pp])


def lbag(L):
    if L.c.t is None: return z3.K(PAIR.sort(), z3.IntVal(0))
    return TY.bag_of_list(L.n, L.arr)


def bw_inv(level):
    def f(S):
        n, arr = block(S)
        i0 = S.ghost(('k', BW0))
        if level == 0: return bw_bag(lbag(S.pairs), n, arr, num, lambda i, j: i < i0)
        j0 = i0 + 1 + S.ghost(('k', BW1))
        return bw_bag(lbag(S.pairs), n, arr, num, lambda i, j: z3.Or(i < i0, z3.And(i == i0, j < j0)))
    return f


# ------------------------------------------------------------------------------------------- blocking
PAY = TTup(PK, LL, BOOL, NONE)
BL0, BL1 = ('blocking', 0), ('blocking', 1)
CS, CP = ('clustering', 0), ('clustering', 1)


def mono_all(key):
    return forall([p, q], implies(z3.And(0 <= p, p < q, has(p, key)), cnt(key, p) < cnt(key, q)), z3.MultiPattern(cnt(key, p), cnt(key, q)))


def both(S, a, b, key):
    n, arr = src(S)
    return z3.And(0 <= idx(a), idx(a) < idx(b), idx(b) < n, arr[idx(a)] == a, arr[idx(b)] == b, has(idx(a), key), has(idx(b), key))


def view(E, st): return SView(E, st, None)


def number(key): return lambda y: cnt(key, idx(y))


def by_position(E, st, bag, key, node, quant=()):
    """what the worker reports for the bucket of a key, in terms of positions"""
    a, b = PAIR.get(0, pp), PAIR.get(1, pp)
    return forall(list(quant) + [pp], bag[pp] == z3.If(z3.And(both(view(E, st), a, b, key), simb(a, b)), 1, 0), bag[pp])


def block_worker(E, st, env, node):
    """callee contract of block_worker"""
    v = env['payload']
    if not isinstance(v, Tup) or len(v.items) != 4: raise Stale('payload')
    fn, bl, ser, graph = v.items
    if not (isinstance(fn, Fn) and fn.kind == 'u' and fn.f.eq(simb)) or ser is not False: raise Stale('another similarity')
    if graph is not None and E.read(st, graph).dom is not None: E.oblige(st, 'precondition the graph is empty of block_worker', E.read(st, graph).dom == TY.empty_set(IS), node, 'call')
    cell = E.read(st, bl)
    key = st.ghost[('it', CS)]['arr'][st.ghost[('k', CS)]]
    E.oblige(st, 'precondition the items of the block are distinct of block_worker', forall([p], implies(z3.And(0 <= p, p < cell.n), number(key)(cell.arr[p]) == p), cell.arr[p]), node, 'call')
    n, arr = E.fresh('npairs', z3.IntSort()), E.fresh('pairs', z3.ArraySort(z3.IntSort(), PAIR.sort()))
    bag = TY.bag_of_list(n, arr)
    st.assume(n >= 0, bw_bag(bag, cell.n, cell.arr, number(key)))
    E.oblige(st, 'hint the pairs of the bucket', by_position(E, st, bag, key, node), node, 'hint', [mono_all(key)])
    return [(st, E.new_cell(st, Lst(n, arr, PAIR)))]


def imap(E, st, args, kw, node):
    """each payload is handed once to the worker, whose contract gives its pairs; results come in any order"""
    E.trusted.add('multiprocessing.Pool.imap_unordered applies the worker once to every payload')
    wk, g = args[0], args[1]
    if not isinstance(wk, Fn) or wk.kind != 'repo' or wk.name != 'block_worker': raise Stale('another worker')
    E.used.add('fog/clustering/blocking.py:block_worker (by contract)')
    if not isinstance(g, Gen) or g.t != PAY: raise Stale('other payloads')
    E.consume(st, g)
    m, pay = g.n, g.arr
    maps = list(E.P.get('comps', {}).values())
    if len(maps) != 1: raise Stale('payloads')
    key_of, num_of = maps[0]
    bl = lambda r: PAY.get(1, pay[r])
    rng = lambda r: z3.And(0 <= r, r < m)
    E.oblige(st, 'precondition the payload holds the similarity of block_worker', forall([c], implies(rng(c), z3.And(PAY.get(0, pay[c]) == z3.Const('pickled_similarity', PK.sort()), PAY.get(2, pay[c]))), pay[c]), node, 'call')
    E.oblige(st, 'precondition the items of the block are distinct of block_worker', forall([c, p], implies(z3.And(rng(c), 0 <= p, p < LL.len(bl(c))), number(key_of(c))(LL.arr(bl(c))[p]) == p), LL.arr(bl(c))[p]), node, 'call')
    res = E.fresh('found', z3.ArraySort(z3.IntSort(), LP.sort()))
    perm, inv = z3.Function('arrival', z3.IntSort(), z3.IntSort()), z3.Function('arrival_of', z3.IntSort(), z3.IntSort())
    st.assume(forall([c], implies(rng(c), z3.And(0 <= perm(c), perm(c) < m, inv(perm(c)) == c)), perm(c)), forall([c], implies(rng(c), z3.And(0 <= inv(c), inv(c) < m, perm(inv(c)) == c)), inv(c)))
    rb = TY.bag_of_list(LP.len(res[c]), LP.arr(res[c]))
    a, b = PAIR.get(0, pp), PAIR.get(1, pp)
    B = lambda y: bl(perm(c))
    nm = number(key_of(perm(c)))
    arr_ = LL.arr(bl(perm(c)))
    st.assume(forall([c, pp], implies(rng(c), rb[pp] == z3.If(z3.And(0 <= nm(a), nm(a) < nm(b), nm(b) < LL.len(bl(perm(c))), arr_[nm(a)] == a, arr_[nm(b)] == b, simb(a, b)), 1, 0)), rb[pp]),
              forall([c], implies(rng(c), LP.len(res[c]) >= 0), res[c]))
    mono_ = forall([k, p, q], implies(z3.And(0 <= p, p < q, has(p, k)), cnt(k, p) < cnt(k, q)), z3.MultiPattern(cnt(k, p), cnt(k, q)))
    E.oblige(st, 'hint the pairs of a bucket', forall([c, pp], implies(rng(c), rb[pp] == z3.If(z3.And(both(view(E, st), a, b, key_of(perm(c))), simb(a, b)), 1, 0)), rb[pp]), node, 'hint', [mono_])
    st.ghost = dict(st.ghost); st.ghost['found'] = (m, key_of, num_of, perm, inv)
    return [(st, Gen(n=m, arr=res, t=LP, bag=None, depth=E.loopdepth))]


def found(S, bag, done):
    """the pairs found once the buckets of the keys `done` were compared"""
    if bag is None: return []
    a, b = PAIR.get(0, pp), PAIR.get(1, pp)
    if not several(S):
        return [forall([pp], bag[pp] == z3.If(z3.And(both(S, a, b, keyf(a)), simb(a, b), done(keyf(a))), 1, 0), bag[pp])]
    a, b = PAIR.get(0, PP), PAIR.get(1, PP)
    n, arr = src(S)
    Y = pair(arr[P0], arr[Q0])
    return [implies(z3.And(0 <= P0, P0 < Q0, Q0 < n, has(P0, K0), has(Q0, K0), simb(arr[P0], arr[Q0]), done(K0)), bag[Y] > 0), bag[Y] >= 0, bag[PP] >= 0,
            implies(bag[PP] > 0, z3.And(simb(a, b), z3.Exists([k], z3.And(both(S, a, b, k), done(k)), patterns=[z3.MultiPattern(has(idx(a), k), has(idx(b), k))])))]


def serial_inv(S):
    it = S.it()
    B = S.buckets
    return found(S, S.bag, lambda key: z3.And(B.dom[key], it['pos'](key) < S.k))


def serial_hint(S):
    """a bucket of one item has no pair; keys are numbered"""
    it = S._st.ghost[('it', CS)]
    kk = S.pre.ghost(('k', CS))
    key = it['arr'][kk]
    B = S.buckets
    L = B.c.vt
    a, b = PAIR.get(0, pp), PAIR.get(1, pp)
    return [('the number of the key', z3.And(it['pos'](key) == kk, B.dom[key])),
            ('two holders make two items', forall([pp], implies(both(S, a, b, key), L.len(B.val[key]) >= 2), has(idx(a), key)), [mono_all(key)]),
            ('two holders make two items', implies(z3.And(0 <= P0, P0 < Q0, Q0 < src(S)[0], has(P0, key), has(Q0, key)), z3.And(L.len(B.val[key]) >= 2, both(S, src(S)[1][P0], src(S)[1][Q0], key))), [mono_all(key)])]


def par_inv(S):
    m, key_of, num_of, perm, inv = S._st.ghost['found']
    B = S.buckets
    return found(S, S.bag, lambda key: z3.And(B.dom[key], B.c.vt.len(B.val[key]) > 1, inv(num_of(key)) < S.k))


def par_hint(S):
    m, key_of, num_of, perm, inv = S._st.ghost['found']
    kk = S.pre.ghost(('k', CP))
    key = key_of(perm(kk))
    B = S.buckets
    n, arr = src(S)
    return [('the number of the key', z3.And(inv(num_of(key)) == kk, B.dom[key], B.c.vt.len(B.val[key]) > 1)), ('by positions', implies(z3.And(0 <= P0, P0 < Q0, Q0 < n, has(P0, key), has(Q0, key)), both(S, arr[P0], arr[Q0], key)))]


def bl_clusters(E, st, env, node):
    cl = CL.Clusters(E, st, env)
    fz = env['fuzzy']
    if isinstance(fz, z3.ExprRef):
        fz = z3.simplify(fz)
        fz = True if z3.is_true(fz) else False if z3.is_false(fz) else None
    if fz is None: raise Unsupported('fuzzy')
    if not fz:
        x_, y_ = PAIR.get(0, pp), PAIR.get(1, pp)
        E.oblige(st, 'precondition no pair comes twice of clusters_from_pairs', forall([pp], implies(cl.bag[pp] > 0, z3.And(cl.bag[pp] == 1, x_ != y_, cl.bag[pair(y_, x_)] <= 0)), cl.bag[pp]), node, 'call')
    return [(st, Gen(opaque=cl, depth=E.loopdepth))]


def bl_post(S):
    bag = CL.stream(S).bag
    return found(S, bag, lambda key: z3.BoolVal(True))


def bl_final(S):
    """two holders of a key are in a bucket that is compared"""
    B = S.buckets
    if B.c.dom is None: return []
    L = B.c.vt
    a, b = PAIR.get(0, pp), PAIR.get(1, pp)
    n, arr = src(S)
    f = []
    if not several(S):
        f.append(('items of a block', forall([pp], implies(both(S, a, b, keyf(a)), z3.And(B.dom[keyf(a)], L.len(B.val[keyf(a)]) > 1)), has(idx(a), keyf(a))), [forall([k, p, q], implies(z3.And(0 <= p, p < q, has(p, k)), cnt(k, p) < cnt(k, q)), z3.MultiPattern(cnt(k, p), cnt(k, q)))]))
    f.append(('holders of a key', implies(z3.And(0 <= P0, P0 < Q0, Q0 < n, has(P0, K0), has(Q0, K0)), z3.And(B.dom[K0], L.len(B.val[K0]) > 1)), monouse(K0, P0, Q0)))
    return f


def bl_bounds(S):
    a = S._E.args0raw
    return CL.passed(S, min_size=a['min_size'], max_size=a['max_size'], mode=a['mode'])


def many(E, st):
    v = E.fresh('processes', z3.IntSort())
    st.assume(v >= 2)
    return v


def bl_hint(S):
    if several(S): return []
    i = S.pre.ghost(('k', BL0)); key = keyf(src(S)[1][i])
    return [('the item has its key', has(i, key)), ('and is its next holder', sel(key, cnt(key, i)) == i)]


def bcase(name, data, b1, bn, procs):
    return Case(name, {'data': data, 'block': b1, 'blocks': bn, 'similarity': SIM, 'distance': None, 'radius': None, 'min_size': INT, 'max_size': TExt(), 'processes': procs, 'mode': STR}, pre=defs)


MS = TStream(ITEM)
K1, KN = TFn([ITEM], KEY, keyf), TFn([ITEM], LK, keysf)


def kcase(name, data, key, keys, merge):
    return Case(name, {'data': data, 'key': key, 'keys': keys, 'min_size': INT, 'max_size': TExt(), 'merge': merge}, pre=defs)


KCASES = [kcase('one key', TList(ITEM), K1, None, True), kcase('one key, lazy data, no merging', MS, K1, None, False), kcase('several keys, no merging', MS, None, KN, False), kcase('both functions', TList(ITEM), K1, KN, True),
          kcase('several keys, merged', MS, None, KN, True)]

BCASES = [bcase('one block, one process', TList(ITEM), K1, None, 1), bcase('one block, several processes', MS, K1, None, many), bcase('several blocks, one process', MS, None, KN, 1), bcase('several blocks, several processes', TList(ITEM), None, KN, many)]

CONTRACTS = [
    Contract('fog/clustering/key_collision.py:key_collision', KCASES, yields=LL, on_yield=kc_yield, ghost={'yK0': z3.IntVal(0)},
             summaries={'clusters_from_buckets': clusters_from_buckets}, final=kc_final,
             loops={KC[0]: Loop([('buckets so far', lambda S: buckets(S, S.k))], hint=kc_hint), KC[1]: Loop([('buckets so far', lambda S: buckets(S, S.k))]), KC[2]: Loop([('buckets so far', inner(KC[1]))]),
                    KC[3]: Loop([('the buckets', at_end), ('clusters so far', kc_out)], index=True)},
             post=[('each admissible key has its cluster, once', kc_post), ('the pairs merged are those of items that share a key', kc_merged), ('the bounds are handed over', kc_bounds)]),
]
CONTRACTS += [
    Contract('fog/clustering/blocking.py:block_worker', [Case('as is', {'payload': payload(False, False)}, pre=bw_pre), Case('with an empty graph', {'payload': payload(False, True)}, pre=bw_pre), Case('pickled', {'payload': payload(True, False)}, pre=bw_pre)],
             externals={'dill.loads': loads}, loops={BW0: Loop([('pairs so far', bw_inv(0))]), BW1: Loop([('pairs so far', bw_inv(1))])},
             post=[('every similar pair of the block, once', lambda S: bw_bag(lbag(S.result), *block(S), num))]),
    Contract('fog/clustering/blocking.py:blocking', BCASES, yields=False, externals={'dill.dumps': dumps, 'multiprocessing.Pool': pool, 'pool.imap_unordered': imap}, final=bl_final,
             summaries={'make_similarity_function': make_similarity, 'block_worker': block_worker, 'clusters_from_pairs': bl_clusters},
             loops={BL0: Loop([('buckets so far', lambda S: buckets(S, S.k))], hint=bl_hint), BL1: Loop([('buckets so far', inner(BL0))]),
                    CS: Loop([('the buckets', at_end), ('pairs so far', serial_inv)], index=True, hint=serial_hint), CP: Loop([('the buckets', at_end), ('pairs so far', par_inv)], hint=par_hint)},
             post=[('the pairs are those of similar items that share a block', bl_post), ('bounds and mode are handed over', bl_bounds)]),
]
LEMMAS = [mono()]
COMPLETE = True
