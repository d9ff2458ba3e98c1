from contracts.common import *

LT = TList(TOK)
LS = TList(STR)
STR_ = STR.sort()
i, j, t = z3.Ints('i! j! t!')


def windows(S, upto):
    """the first outlen yielded values are the windows at 0, 1, ..."""
    n, s = S.arg('n'), S.arg('tokens')
    o = S.out[i]
    if not isinstance(s, SpecC):
        return forall([i], implies(z3.And(0 <= i, i < upto), o == TY.ssub(s, i, i + n)), o)
    return z3.And(forall([i], implies(z3.And(0 <= i, i < upto), LT.len(o) == n), o),
                  forall([i, j], implies(z3.And(0 <= i, i < upto, 0 <= j, j < n), LT.arr(o)[j] == s.arr[i + j]), LT.arr(o)[j]))


def size(S):
    s = S.arg('tokens')
    return s.n if isinstance(s, SpecC) else TY.slen(s)


def grams_post(S):
    n, s = S.arg('n'), S.arg('tokens')
    l = size(S)
    o = S.out[0]
    if isinstance(s, SpecC): same = z3.And(LT.len(o) == l, forall([j], implies(z3.And(0 <= j, j < l), LT.arr(o)[j] == s.arr[j]), LT.arr(o)[j]))
    else: same = o == s
    return z3.And(implies(l < n, z3.And(S.outlen == 1, same)), implies(l >= n, z3.And(S.outlen == l - n + 1, windows(S, S.outlen))))


def inner_windows(S):
    """the loop of ngrams, also when it is run inside ngram_keys"""
    if S._st.ghost.get('gendepth', 0) == 0:
        return z3.And(S.outlen == z3.If(size(S) < S.arg('n'), 1, S.k), implies(size(S) >= S.arg('n'), windows(S, S.k)), implies(size(S) < S.arg('n'), S.k == 0),
                      grams_post(S) if False else z3.BoolVal(True), short(S))
    n, s = S.n, S.tokens
    return z3.And(S.outlen == z3.If(TY.slen(s) < n, 1, S.k), forall([i], implies(z3.And(0 <= i, i < S.k), S.out[i] == TY.ssub(s, i, i + n)), S.out[i]), implies(TY.slen(s) < n, S.out[0] == s))


def short(S):
    s = S.arg('tokens')
    l, n = size(S), S.arg('n')
    o = S.out[0]
    if isinstance(s, SpecC): return implies(l < n, z3.And(LT.len(o) == l, forall([j], implies(z3.And(0 <= j, j < l), LT.arr(o)[j] == s.arr[j]), LT.arr(o)[j])))
    return implies(l < n, o == s)


def tup(t):
    def mk(E, st):
        r = E.fresh_of(st, 'tokens', LT)
        st.heap[r.cid].pyt = t
        return r
    return mk


def positive(S): return [S.n >= 1]


# ---------------------------------------------------------------------------------------- join_ngrams
SRC = z3.Const('the_string', STR_)
N = z3.Int('the_n')


def grams_of(S):
    g = S.raw('grams')
    l = TY.slen(SRC)
    return [N >= 1, implies(l < N, z3.And(g.n == 1, g.arr[0] == SRC)),
            implies(l >= N, z3.And(g.n == l - N + 1, forall([i], implies(z3.And(0 <= i, i < g.n), g.arr[i] == TY.ssub(SRC, i, i + N)), g.arr[i])))]


def joined(n, arr): return TY.join_fn(TY.str_const(''), n, arr)


def prefix(S):
    return implies(TY.slen(SRC) >= N, z3.And(S.outlen == S.k + 1, joined(S.outlen, S.out) == TY.ssub(SRC, 0, N + S.k)))


def whole(S):
    return z3.And(S.outlen == S.k + 1, implies(TY.slen(SRC) < N, z3.And(S.k == 0, joined(1, S.out) == SRC)))


def ext(a, b): return [TY.seq_ext(a, b)]


def first_joined(S):
    e = joined(0, S.out)
    a = TY.scat(e, S.out[0])
    return [('the first gram alone', joined(1, S.out) == S.out[0], [TY.seq_ext(a, S.out[0])]),
            ('the first window', implies(TY.slen(SRC) >= N, S.out[0] == TY.ssub(SRC, 0, N)))]


def step(S):
    k = S.pre.k
    a, b = joined(S.outlen, S.out), TY.ssub(SRC, 0, N + k + 1)
    return [('the last letter', implies(TY.slen(SRC) >= N, S.out[S.outlen - 1] == TY.schr(TY.sat(SRC, N + k)))),
            ('unfolding', a == TY.scat(joined(S.outlen - 1, S.pre.out), S.out[S.outlen - 1])),
            ('one letter more', implies(TY.slen(SRC) >= N, a == b), [TY.seq_ext(a, b)])]


def rebuilt(S): return S.result == SRC


def rebuilt_hint(S):
    return [('whole', implies(TY.slen(SRC) >= N, TY.ssub(SRC, 0, TY.slen(SRC)) == SRC), [TY.seq_ext(TY.ssub(SRC, 0, TY.slen(SRC)), SRC)])]


# ---------------------------------------------------------------------------------------- ngram_keys
comb_n = z3.Function('comb_count', z3.IntSort(), z3.IntSort())                   # of the grams, by size
comb = z3.Function('comb_seq', z3.IntSort(), z3.ArraySort(z3.IntSort(), LS.sort()))
off = z3.Function('comb_before', z3.IntSort(), z3.IntSort())                     # how many keys come from combinations of at least this size


def b_iter(E, st, args, kw, node):
    c = E.read(st, args[0])
    if c.kind != 'list' or not (z3.is_int_value(c.n) and c.n.as_long() == 0): return None
    return [(st, E.new_cell(st, Lst(z3.IntVal(0), E.fresh('nothing', z3.ArraySort(z3.IntSort(), LS.sort())), LS)))]


def combinations(E, st, args, kw, node):
    """itertools.combinations(grams, size): a fixed sequence for each size"""
    g = E.read(st, args[0])
    s = E.num(args[1])
    want = st.ghost.get('grams')
    if want is None:
        st.ghost = dict(st.ghost); st.ghost['grams'] = (g.n, g.arr)
    elif not (z3.eq(want[0], g.n) and z3.eq(want[1], g.arr)): raise Stale('combinations of something else')
    E.oblige(st, 'the combinations are those of the grams', z3.And(*is_grams(E, g)), node, 'call')
    return [(st, E.new_cell(st, Lst(comb_n(s), comb(s), LS)))]


def is_grams(E, g):
    n, s = E.args0['n'], E.args0['string']
    l = TY.slen(s)
    return [implies(l >= n, z3.And(g.n == l - n + 1, forall([i], implies(z3.And(0 <= i, i < g.n), g.arr[i] == TY.ssub(s, i, i + n)), g.arr[i]))),
            implies(l < n, z3.And(g.n == 1, g.arr[0] == s))]


def chain(E, st, args, kw, node):
    a, b = [E.read(st, x) for x in args]
    return [(st, E.list_concat(st, a, b))]


def keys_setup(E, st):
    s = z3.Int('s!')
    st.assume(forall([s], comb_n(s) >= 0, comb_n(s)))


def keys_pre(S):
    k = TY.slen(S.string) - (S.n - 1)
    s = z3.Int('s!')
    S._st.ghost['kk'] = k
    return [S.n >= 1, off(k) == 0, forall([s], implies(s < k, off(s) == off(s + 1) + comb_n(s)), off(s))]


def laid(S, s, n, arr, f=lambda x: x, shift=0):
    k = TY.slen(S.arg('string')) - (S.arg('n') - 1)
    c = comb(t)[j]
    return z3.And(n == off(s) + shift, forall([t, j], implies(z3.And(s <= t, t < k, 0 <= j, j < comb_n(t)), z3.And(off(t + 1) >= 0, off(t + 1) + j < off(s), arr[off(t + 1) + j + shift] == f(c))), c))


def keys_inv(S):
    k = TY.slen(S.arg('string')) - (S.arg('n') - 1)
    return z3.And(S.s <= k, implies(k >= S.l, S.s >= S.l), implies(k < S.l, S.s == k), off(S.s) >= 0, laid(S, S.s, S.iterator.n, S.iterator.arr))


def out_inv(S):
    it = S.it()['what']
    c = S._E.read(S._st, it)
    o = S.out
    x = c.arr[i]
    return z3.And(S.outlen == 1 + S.k, o[0] == TY.join_fn(TY.str_const(''), S.grams.n, S.grams.arr),
                  forall([i], implies(z3.And(0 <= i, i < S.k), o[i + 1] == TY.join_fn(TY.str_const(''), LS.len(x), LS.arr(x))), x))


def floor_of(S):
    k = TY.slen(S.arg('string')) - (S.arg('n') - 1)
    f = z3.ToInt(z3.ToReal(k) * S.arg('threshold'))
    l = z3.If(f > 1, f, 1)
    return z3.If(l < k, l, k)


def keys_post(S):
    f = lambda x: TY.join_fn(TY.str_const(''), LS.len(x), LS.arr(x))
    g = S.grams
    return z3.And(S.out[0] == TY.join_fn(TY.str_const(''), g.n, g.arr), *(is_grams(S._E, g.c) + [laid(S, floor_of(S), S.outlen, S.out, f, 1)]))


CONTRACTS = [
    Contract('fog/tokenizers/ngrams.py:ngrams', [Case('string', {'n': INT, 'tokens': STR}, pre=positive)],
             post=[('every window in order, or the sequence itself when shorter', grams_post)], yields=STR,
             loops={('ngrams', 0): Loop([('windows so far', inner_windows)])}),
    Contract('fog/tokenizers/ngrams.py:ngrams', [Case('list', {'n': INT, 'tokens': tup('list')}, pre=positive), Case('tuple', {'n': INT, 'tokens': tup('tuple')}, pre=positive)],
             post=[('every window in order, or the sequence itself when shorter', grams_post)], yields=LT,
             loops={('ngrams', 0): Loop([('windows so far', inner_windows)])}),
    Contract('fog/tokenizers/ngrams.py:join_ngrams', [Case('the n-grams of a string', {'grams': TStream(STR)}, pre=grams_of)],
             post=[('the string the grams come from', rebuilt)], final=rebuilt_hint,
             loops={('join_grams_iter', 0): Loop([('whole', whole), ('prefix', prefix)], entry=first_joined, hint=step)}),
    Contract('fog/key/misc.py:ngram_keys', [Case('', {'n': INT, 'string': STR, 'threshold': REAL}, pre=keys_pre)],
             post=[('all grams first, then every combination of fewer grams down to the threshold', keys_post)], yields=STR, final=lambda S: [('the last size of combinations', S.s == floor_of(S))], setup=keys_setup,
             loops={('ngrams', 0): Loop([('windows so far', inner_windows)]), ('ngram_keys', 0): Loop([('combinations so far', keys_inv)], dec=lambda S: S.s - S.l), ('ngram_keys', 1): Loop([('keys so far', out_inv)])},
             externals={'builtin:iter': b_iter, 'itertools.combinations': combinations, 'itertools.chain': chain}),
]
COMPLETE = True
ASSUMPTIONS = ['itertools.combinations(grams, m) is the sequence of combinations of m grams, chain is concatenation', 'joining with an empty separator is concatenation',
               'k * threshold is taken as an exact real product']
