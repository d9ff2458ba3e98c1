"""PassJoin: the segments tile, the selected substrings contain every position an alignment of cost k may reach, and passjoin joins every pair within k and no other."""
from contracts.common import *
from contracts import clusters as CL
from pv.engine import S as SV, Frame

I, SS = z3.IntSort(), STR.sort()
slen, sat, ssub = TY.slen, TY.sat, TY.ssub
TRI = TTup(INT, INT, INT)
SEG = TTup(INT, STR)
PAIR = TTup(STR, STR)
LS = TList(STR)
p, q = z3.Ints('p! q!')
pp = z3.Const('pr!', PAIR.sort())
PATH = 'fog/clustering/passjoin.py:'
ST = z3.Function('segment_start', I, I, I, I)        # threshold, length, segment


# ------------------------------------------------------------------------------------------- partition
def tri(a, t): return [TRI.get(j, a[t]) for j in range(3)]


def tiled(n, out, done=None):
    """segment numbers, and each segment begins where the one before it ends"""
    i, s, l = tri(out, p)
    i2, s2, l2 = tri(out, p + 1)
    f = [n >= 0, forall([p], implies(z3.And(0 <= p, p < n), z3.And(i == p, s >= 0, l >= 0)), out[p]), implies(n >= 1, tri(out, 0)[1] == 0),
         forall([p], implies(z3.And(0 <= p, p + 1 < n), s2 == s + l), out[p], out[p + 1])]
    return f


def outof(S): return S._st.ghost['outlen'], S._st.ghost['out'], S._st.ghost['outty'] == TRI


def end(n, out): return z3.If(n >= 1, tri(out, n - 1)[1] + tri(out, n - 1)[2], 0)


def part_inv(which):
    def f(S):
        n, out, ok = outof(S)
        if not ok: return [n == 0]
        m = S.arg('k') + 1
        a = S.arg('l') / m
        small = m - (S.arg('l') - a * m)
        return tiled(n, out) + ([n == S.k, end(n, out) == S.k * a] if which == 0 else [n == small + S.k, end(n, out) == small * a + S.k * (a + 1)])
    return f


def part_pre(S): return [S.arg('k') >= 0, S.arg('l') >= 0]


def part_post(S):
    n, out, ok = outof(S)
    if not ok: return [z3.BoolVal(False)]
    return tiled(n, out) + [n == S.arg('k') + 1, end(n, out) == S.arg('l')]



def ST_facts(k, l):
    """what the contract of partition says of the segments, as a function of the threshold and the length"""
    return z3.And(ST(k, l, 0) == 0, ST(k, l, k + 1) == l, forall([p], implies(z3.And(0 <= p, p <= k), z3.And(0 <= ST(k, l, p), ST(k, l, p) <= ST(k, l, p + 1), ST(k, l, p + 1) <= l)), ST(k, l, p)))


def mono_lemma():
    def goals():
        n, k, l, t = z3.Ints('n k l t')
        arr = z3.Const('segs', z3.ArraySort(I, TRI.sort()))
        e = lambda m: tri(arr, m)[1] + tri(arr, m)[2]
        base = tiled(n, arr) + [n == k + 1, end(n, arr) == l, k >= 0]
        return [('last', base, e(k) == l), ('from the last downwards', base + [0 <= t, t < k, e(t + 1) <= l], z3.And(e(t) <= l, tri(arr, t)[1] <= e(t), tri(arr, t + 1)[1] == e(t)))]
    return Lemma('TILE: segments that tile lie within the string (induction from the last)', goals)


def partition(E, st, env, node):
    """contract of partition: a pure function, so its segments are a function of the arguments"""
    k, l = E.num(env['k']), E.num(env['l'])
    E.oblige(st, 'precondition of partition', z3.And(k >= 0, l >= 0), node, 'call')
    arr = E.fresh('segments', z3.ArraySort(I, TRI.sort()))
    st.assume(ST_facts(k, l), forall([p], implies(z3.And(0 <= p, p <= k), arr[p] == TRI.mk(p, ST(k, l, p), ST(k, l, p + 1) - ST(k, l, p))), arr[p]))
    return [(st, Gen(n=k + 1, arr=arr, t=TRI, bag=None, depth=E.loopdepth))]


# ------------------------------------------------------------------------------------------- segments
def seg(k, s, t): return SEG.mk(t, ssub(s, ST(k, slen(s), t), ST(k, slen(s), t + 1)))


def seg_inv(S):
    n, out = S._st.ghost['outlen'], S._st.ghost['out']
    if S._st.ghost['outty'] != SEG: return [n == 0]
    return [n == S.k, forall([p], implies(z3.And(0 <= p, p < n), out[p] == seg(S.arg('k'), S.arg('string'), p)), out[p])]


def seg_post(S):
    n, out = S._st.ghost['outlen'], S._st.ghost['out']
    if S._st.ghost['outty'] != SEG: return [z3.BoolVal(False)]
    return [n == S.arg('k') + 1, forall([p], implies(z3.And(0 <= p, p < n), out[p] == seg(S.arg('k'), S.arg('string'), p)), out[p])]


def segments(E, st, env, node):
    k, s = E.num(env['k']), E.lift(env['string'])
    E.oblige(st, 'precondition of segments', k >= 0, node, 'call')
    arr = E.fresh('segs', z3.ArraySort(I, SEG.sort()))
    st.assume(forall([p], implies(z3.And(0 <= p, p <= k), arr[p] == seg(k, s, p)), arr[p]))
    return [(st, Gen(n=k + 1, arr=arr, t=SEG, bag=None, depth=E.loopdepth))]


# ------------------------------------------------------------------------------------------- selected substrings
JJ = z3.Int('a_position')


def window(k, delta, i, s, pi, li, j):
    """positions a segment may be shifted to when i edits may come before it and k - i after it"""
    return z3.And(0 <= j, j <= s - li, pi - i <= j, j <= pi + i, pi + delta - (k - i) <= j, j <= pi + delta + (k - i))


def iv_post(S):
    a, b = [S._E.num(x) for x in S.rawresult.items]
    w = window(*[S.arg(n) for n in ('k', 'delta', 'i', 's', 'pi', 'li')], j=JJ)
    return [a >= 0, b <= S.arg('s') - S.arg('li'), implies(w, z3.And(a <= JJ, JJ <= b))]


def interval(E, st, env, node):
    a, b = E.fresh('start', I), E.fresh('stop', I)
    v = [E.num(env[n]) for n in ('k', 'delta', 'i', 's', 'pi', 'li')]
    st.assume(a >= 0, b <= v[3] - v[5], implies(window(*v, j=JJ), z3.And(a <= JJ, JJ <= b)))
    return [(st, Tup([a, b]))]


def sub_pre(S): return [S.arg('li') >= 0, window(S.arg('k'), slen(S.arg('string')) - S.arg('l'), S.arg('i'), slen(S.arg('string')), S.arg('pi'), S.arg('li'), JJ)]


def want(S): return ssub(S.arg('string'), JJ, JJ + S.arg('li'))


def sub_inv(S):
    n, out = S._st.ghost['outlen'], S._st.ghost['out']
    if S._st.ghost['outty'] != STR: return [n == 0]
    E = TY.elems(n, out)
    f = [n >= 0, implies(JJ < cur(S), E[want(S)])]
    return f + [E[c] for c in carried(S)]


def cur(S): return S._E.num(S.it()['get'](S._st, S.k))


def carried(S):
    """the strings the loop remembers"""
    return [v for n, v in S._st.envs[S._fr.eid].items() if n not in S._E.args0raw and isinstance(v, z3.ExprRef) and v.sort() == SS]


def sub_post(S):
    n, out = S._st.ghost['outlen'], S._st.ghost['out']
    if S._st.ghost['outty'] != STR: return [z3.BoolVal(False)]
    return [TY.elems(n, out)[want(S)]]



def substrings(E, st, env, node):
    v = {n: E.num(env[n]) for n in ('k', 'l', 'i', 'pi', 'li')}
    s = E.lift(env['string'])
    E.oblige(st, 'precondition of multi_match_aware_substrings', v['li'] >= 0, node, 'call')
    n, arr = E.fresh('nsub', I), E.fresh('substrings', z3.ArraySort(I, SS))
    st.assume(n >= 0, implies(window(v['k'], slen(s) - v['l'], v['i'], slen(s), v['pi'], v['li'], JJ), TY.elems(n, arr)[ssub(s, JJ, JJ + v['li'])]))
    st.ghost = dict(st.ghost); st.ghost['subs'] = (n, arr)
    return [(st, Gen(n=n, arr=arr, t=STR, bag=None, depth=E.loopdepth))]


# ------------------------------------------------------------------------------------------- the pigeonhole argument
def pigeon():
    """an alignment of X with Y of cost at most k: Q(t) is the position reached in Y after t characters of X, C(t) the cost so far"""
    X, Y = z3.Consts('X Y', SS)
    Q, C = z3.Function('reached', I, I), z3.Function('cost', I, I)
    k, l, s, t, u, n, i = z3.Ints('k l s t u n i')
    P = lambda e: ST(k, l, e)
    d = [k >= 0, l == slen(X), s == slen(Y), 0 <= Q(0), Q(0) <= C(0), Q(l) == s, C(l) <= k,
         forall([p], implies(z3.And(0 <= p, p < l), z3.And(Q(p) <= Q(p + 1), C(p) <= C(p + 1), Q(p + 1) - Q(p) - 1 <= C(p + 1) - C(p), 1 - (Q(p + 1) - Q(p)) <= C(p + 1) - C(p),
                                                           implies(C(p + 1) == C(p), sat(X, p) == sat(Y, Q(p))))), Q(p), C(p))]
    ab = lambda e: z3.If(e >= 0, e, -e)
    near = lambda e: z3.And(ab(Q(e) - e) <= C(e), Q(e) >= 0, C(e) >= 0)
    left = lambda e: z3.And(ab((s - Q(e)) - (l - e)) <= C(l) - C(e), Q(e) <= s, C(e) <= C(l))
    straight = lambda e, f: z3.And(Q(f) - Q(e) == f - e)
    rng = lambda e: z3.And(0 <= e, e <= l)
    allnear = forall([p], implies(rng(p), z3.And(near(p), left(p))), Q(p), C(p))
    mono = forall([p, q], implies(z3.And(0 <= p, p <= q, q <= l), C(p) <= C(q)), z3.MultiPattern(C(p), C(q)))
    line = forall([q], implies(z3.And(u <= q, q <= n), z3.And(Q(q) == Q(u) + q - u, implies(q < n, sat(X, q) == sat(Y, Q(u) + q - u)))), Q(q), sat(X, q))
    good = lambda e: z3.And(C(P(e)) >= e, C(P(e + 1)) <= e)
    seg_, sub_ = ssub(X, P(i), P(i + 1)), ssub(Y, Q(P(i)), Q(P(i)) + P(i + 1) - P(i))
    dd = TY._strfns()[5](sub_, seg_)
    return [('shift before, first', d, near(0)), ('shift before, next', d + [0 <= t, t < l, near(t)], near(t + 1)),
            ('shift after, last', d, left(l)), ('shift after, next downwards', d + [0 <= t, t < l, left(t + 1)], left(t)),
            ('the cost grows', d + [0 <= t, t <= u, u < l, C(t) <= C(u)], C(t) <= C(u + 1)),
            ('no cost, next', d + [mono, 0 <= u, u <= t, t < n, n <= l, C(u) == C(n), Q(t) == Q(u) + t - u], z3.And(Q(t + 1) == Q(u) + t + 1 - u, sat(X, t) == sat(Y, Q(u) + t - u))),
            ('some segment is free of edits, first', d + [ST_facts(k, l)], C(P(0)) >= 0),
            ('some segment is free of edits, next', d + [ST_facts(k, l), 0 <= t, t <= k, C(P(t)) >= t, z3.Not(good(t))], C(P(t + 1)) >= t + 1),
            ('some segment is free of edits, last', d + [ST_facts(k, l)], z3.Not(C(P(k + 1)) >= k + 1)),
            ('it is found in the window', d + [ST_facts(k, l), 0 <= i, i <= k, good(i), allnear, mono, u == P(i), n == P(i + 1), line],
             window(k, s - l, i, s, P(i), P(i + 1) - P(i), Q(P(i)))),
            ('and is the same string', d + [ST_facts(k, l), 0 <= i, i <= k, good(i), allnear, mono, u == P(i), n == P(i + 1), line, TY.seq_ext(sub_, seg_), sat(X, P(i) + dd) == sat(X, P(i) + dd)], sub_ == seg_)]


# ------------------------------------------------------------------------------------------- passjoin
LEV = z3.Function('levenshtein', SS, SS, I)
X0, Y0 = z3.Consts('a_string another_string', SS)      # an arbitrary pair within k, X0 comes first
PA, PB, I0 = z3.Ints('position_of_the_first position_of_the_second the_segment')
POS = z3.Function('position_of', SS, I)
DATA = z3.Function('is_an_item', SS, z3.BoolSort())
x, y = z3.Consts('x! y!', SS)
kk = z3.Const('key!', SEG.sort())
PJ = [('clustering', a) for a in range(6)]


def src(S):
    g = S._E.args0raw['data']
    return (g.n, g.arr) if isinstance(g, Gen) else (S.arg('data').n, S.arg('data').arr)


def seg0(S): return seg(S.arg('k'), X0, I0)


def in_order(n, D):
    return [n >= 0, 0 <= PA, PA < PB, PB < n, D[PA] == X0, D[PB] == Y0, forall([p], implies(z3.And(0 <= p, p < n), z3.And(POS(D[p]) == p, DATA(D[p]))), D[p])]


def pj_pre(S):
    n, D = src(S)
    k = S.arg('k')
    lx, ly = slen(X0), slen(Y0)
    P = lambda t: ST(k, lx, t)
    f = [k >= 0, n >= 0, X0 != Y0, LEV(X0, Y0) <= k, ST_facts(k, lx), forall([x, y], z3.And(LEV(x, y) == LEV(y, x), LEV(x, y) >= 0, LEV(x, y) <= z3.If(slen(x) >= slen(y), slen(x), slen(y)), slen(x) - slen(y) <= LEV(x, y)), LEV(x, y)),
         # lemma PIGEON
         0 <= I0, I0 <= k, window(k, ly - lx, I0, ly, P(I0), P(I0 + 1) - P(I0), JJ), ssub(Y0, JJ, JJ + P(I0 + 1) - P(I0)) == ssub(X0, P(I0), P(I0 + 1))]
    if S._E.args0raw['sort'] is False: f += in_order(n, D)
    return f


def do_sort(E, st, args, kw, node):
    """sorted: the same strings, by increasing keys; X0 is whichever of the two strings comes first"""
    v = args[0]
    if isinstance(v, Gen): E.consume(st, v); n, arr = v.n, v.arr
    else: c = E.read(st, v); n, arr = c.n, c.arr
    n0, arr0 = src(SV(E, st, None))
    E.oblige(st, 'the data is sorted', z3.And(n == n0, arr == arr0), node, 'call')
    if set(kw) - {'key', 'reverse'} or 'key' not in kw or kw.get('reverse', False) not in (True, False): raise Unsupported('another sort')
    s = z3.Const('s!sort', SS)
    r = E.call(kw['key'], [s], {}, st.copy(), Frame(None, '<spec>', E.module), node)
    if len(r) != 1: raise Unsupported('the key forks')
    key = r[0][1].items[0] if isinstance(r[0][1], Tup) else r[0][1]
    key = E.num(key)
    at = lambda t: z3.substitute(key, (s, t))
    D = E.fresh('sorted', z3.ArraySort(I, SS))
    a, b = D[p], D[q]
    if kw.get('reverse', False): a, b = b, a
    st.assume(*in_order(n, D))
    st.assume(forall([p, q], implies(z3.And(0 <= p, p < q, q < n), at(a) <= at(b)), z3.MultiPattern(D[p], D[q])))
    return [(st, E.new_cell(st, Lst(n, D, STR)))]


def defaultdict(E, st, args, kw, node):
    """an index of strings by segment, or of such indices by length"""
    f = args[0]
    if isinstance(f, Fn) and f.kind == 'builtin':
        if f.name != 'list': raise Stale('another index')
        return [(st, E.new_cell(st, Dct(TY.empty_set(SEG.sort()), E.fresh('nothing', z3.ArraySort(SEG.sort(), LS.sort())), SEG, LS, factory=LS, pyt='defaultdict')))]
    r = E.call(f, [], {}, st.copy(), Frame(None, '<spec>', E.module), node)
    if len(r) != 1 or not isinstance(r[0][1], Ref): raise Stale('another index')
    c = E.read(r[0][0], r[0][1])
    if c.kind != 'dict' or c.vt != LS or c.factory != LS: raise Stale('another index')
    T_ = TDefault(SEG, LS)
    return [(st, E.new_cell(st, Dct(TY.empty_set(I), E.fresh('nothing', z3.ArraySort(I, T_.sort())), INT, T_, factory=T_, pyt='defaultdict')))]


def cell(S):
    L = S.L
    c = L.c
    if c.dom is None or c.kt != INT or c.vt != TDefault(SEG, LS): return None
    return L


def members(L, l, key):
    d = L.val[l]
    v = z3.Select(L.c.vt.val(d), key)
    return LS.len(v), LS.arr(v)


def indexed(S, upto, j=None):
    """the index after the strings before `upto` (and the first j segments of that one)"""
    L = cell(S)
    if L is None: return []
    D = S.loop(PJ[0])
    l = z3.Int('l!')
    T_ = L.c.vt
    n, arr = members(L, l, kk)
    b = arr[p]
    has = z3.And(L.dom[l], T_.dom(L.val[l])[kk])
    nX, aX = members(L, slen(X0), seg0(S))
    before = POS(b) < upto if j is None else POS(b) <= upto
    done = PA < upto if j is None else z3.Or(PA < upto, z3.And(PA == upto, I0 < j))
    return [forall([l, kk], implies(has, n >= 0), n), forall([l, kk, p], implies(z3.And(has, 0 <= p, p < n), z3.And(slen(b) == l, 0 <= POS(b), before, DATA(b))), b),
            implies(done, z3.And(L.dom[slen(X0)], T_.dom(L.val[slen(X0)])[seg0(S)], TY.elems(nX, aX)[X0]))]


def appended(S):
    """what the body of the indexing loop does to the list of the segment of X0"""
    L, O = cell(S), cell(S.pre)
    if L is None or O is None: return []
    l, key = slen(X0), seg0(S)
    n, a = members(L, l, key)
    m, b = members(O, l, key)
    had = z3.And(O.dom[l], O.c.vt.dom(O.val[l])[key])
    here = z3.And(PA == S.pre.loop(PJ[0]).k, I0 == S.pre.loop(PJ[5]).k)
    w = TY.fn('elems_Str_at', I, z3.ArraySort(I, SS), SS, I)(m, b, X0)
    A = S._E.lift(S.pre.loop(PJ[0]).it()['get'](S.pre._st, S.pre.loop(PJ[0]).k))
    return [('this one', implies(here, z3.And(A == X0, seg(S.arg('k'), A, S.pre.loop(PJ[5]).k) == key))), ('counted', implies(had, m >= 0)),
            ('kept', implies(had, z3.And(L.dom[l], L.c.vt.dom(L.val[l])[key], n >= m, implies(z3.And(0 <= w, w < m), a[w] == b[w])))),
            ('added', implies(here, z3.And(L.dom[l], L.c.vt.dom(L.val[l])[key], n >= 1, a[n - 1] == X0)))]


def sound(S, bag):
    a, b = PAIR.get(0, pp), PAIR.get(1, pp)
    return [forall([pp], z3.And(bag[pp] >= 0, implies(bag[pp] > 0, z3.And(a != b, LEV(a, b) <= S.arg('k'), DATA(a), DATA(b)))), bag[pp])]


def found(bag): return z3.Or(bag[PAIR.mk(X0, Y0)] > 0, bag[PAIR.mk(Y0, X0)] > 0)


def joined(depth):
    def f(S):
        bag = S.bag
        if bag is None: return []
        idx = S.loop(PJ[0]).k
        done = PB < idx
        here = PB == idx
        if depth >= 1:
            l = cur(S.loop(PJ[1])); lx = slen(X0)
            done = z3.Or(done, z3.And(here, lx < l)); here = z3.And(here, lx == l)
        if depth >= 2:
            i = S.loop(PJ[2]).k
            done = z3.Or(done, z3.And(here, I0 < i)); here = z3.And(here, I0 == i)
        if depth >= 3:
            n, arr = S._st.ghost['subs']
            TY.elems(n, arr)
            w = TY.fn('elems_Str_at', I, z3.ArraySort(I, SS), SS, I)(n, arr, SEG.get(1, seg0(S)))
            done = z3.Or(done, z3.And(here, w < S.loop(PJ[3]).k)); here = z3.And(here, w == S.loop(PJ[3]).k)
        if depth >= 4:
            it = S.it()
            n, arr = it['n'], it.get('arr')
            L = cell(S)
            nX, aX = members(L, slen(X0), seg0(S))
            w = TY.fn('elems_Str_at', I, z3.ArraySort(I, SS), SS, I)(nX, aX, X0)
            done = z3.Or(done, z3.And(here, w < S.k))
        return sound(S, bag) + [implies(done, found(bag))]
    return f


def ix_inv(depth):
    def f(S):
        L = cell(S)
        if depth < 5 or L is None: return indexed(S, S.loop(PJ[0]).k)
        o = S.loop(PJ[0])
        return indexed(S, o.k, S.k) + [L.dom[slen(S._E.lift(o.it()['get'](S._st, o.k)))]]
    return f


def pj_post(S): return sound(S, CL.stream(S).bag)


def pj_found(S): return found(CL.stream(S).bag)


def pj_passed(S):
    r = S._E.args0raw
    if CL.stream(S).env['fuzzy'] is not True: return z3.BoolVal(False)     # a pair may come twice
    return CL.passed(S, min_size=r['min_size'], max_size=r['max_size'], mode=r['mode'])


CONTRACTS = [
    Contract(PATH + 'partition', [Case('', {'k': INT, 'l': INT}, pre=part_pre)], yields=TRI, loops={('partition', i): Loop([('tiled', part_inv(i))]) for i in range(2)}, post=[('k + 1 segments tile the string', part_post)]),
    Contract(PATH + 'segments', [Case('', {'k': INT, 'string': STR}, pre=lambda S: [S.arg('k') >= 0])], yields=SEG, summaries={'partition': partition}, loops={('segments', 0): Loop([('yielded', seg_inv)])}, post=[('each segment of the string', seg_post)]),
    Contract(PATH + 'multi_match_aware_interval', [Case('', {n: INT for n in ('k', 'delta', 'i', 's', 'pi', 'li')})], post=[('the interval holds every position of the window', iv_post)]),
    Contract(PATH + 'multi_match_aware_substrings', [Case('', {'k': INT, 'string': STR, 'l': INT, 'i': INT, 'pi': INT, 'li': INT}, pre=sub_pre)], yields=STR, summaries={'multi_match_aware_interval': interval},
             loops={('multi_match_aware_substrings', 0): Loop([('yielded', sub_inv)])}, post=[('the substring at every position of the window', sub_post)]),
    Contract(PATH + 'passjoin', [Case('%s, %s' % (nm, 'sorted' if so else 'as it comes'), {'data': t, 'k': INT, 'distance': TFn([STR, STR], INT, LEV), 'sort': so, 'min_size': INT, 'max_size': TExt(), 'mode': STR}, pre=pj_pre) for nm, t in (('a list', LS), ('a stream', TStream(STR))) for so in (True, False)],
             yields=False, externals={'builtin:sorted': do_sort, 'collections.defaultdict': defaultdict}, summaries={'partition': partition, 'segments': segments, 'multi_match_aware_substrings': substrings, 'clusters_from_pairs': CL.clusters_from_pairs()},
             loops={PJ[a]: Loop([('index', ix_inv(a)), ('pairs', joined(a if a < 5 else 0))], hint=appended if a == 5 else None) for a in range(6)},
             post=[('only pairs within the threshold', pj_post), ('every pair within the threshold', pj_found), ('bounds and mode are handed over', pj_passed)]),
]
LEMMAS = [mono_lemma(), Lemma('PIGEON: two strings within k edits share a segment within the window', pigeon)]
COMPLETE = True
ASSUMPTIONS = ['the distance is the Levenshtein distance: the least cost of an alignment of the two strings (symmetric, between the difference of the lengths and the greater length)', 'the strings are distinct (as the property says)',
               'sorted returns the same strings by increasing keys', 'partition is a function of its arguments (it reads nothing else)', 'clusters_from_pairs is used by its contract (proved in C08)', 'count_keys and count_substrings_l are not used by passjoin and have no contract']
