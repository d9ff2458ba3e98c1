from contracts.common import *

W = TDict(TOK, REAL)
x = z3.Const('x!', TOK.sort())
TS = TOK.sort()
POS = 'positive weights'


def positive(*names):
    def f(S):
        return [forall([x], z3.Implies(S.arg(n).dom[x], S.arg(n).val[x] > 0), S.arg(n).val[x]) for n in names]
    return f


def co(d):
    v = lambda k: real(d.val[k])
    return lambda k: z3.If(d.dom[k], v(k), z3.RealVal(0))


def mn(a, b): return z3.If(a <= b, a, b)
def mx(a, b): return z3.If(a >= b, a, b)


def sums(A, B):
    """the sums that define the measures, over a set of coordinates"""
    a, b = co(A), co(B)
    return dict(
        min=sum_fn('min', TS, lambda k: mn(a(k), b(k))), max=sum_fn('max', TS, lambda k: mx(a(k), b(k))),
        ab=sum_fn('ab', TS, lambda k: a(k) * b(k)), aa=sum_fn('aa', TS, lambda k: a(k) * a(k)), bb=sum_fn('bb', TS, lambda k: b(k) * b(k)))


def F(S): return sums(S.arg('A'), S.arg('B'))
def DOM(S): return TY.union(S.arg('A').dom, S.arg('B').dom)


TWO = [Case('two dicts', {'A': W, 'B': W}, pre=positive('A', 'B')), Case('the same dict', {'A': W, 'B': Alias('A')}, pre=positive('A'))]
INTS = [Case('integer weights', {'A': TDict(TOK, INT), 'B': TDict(TOK, INT)}, pre=positive('A', 'B'))]


def same(S): return S._E.args0raw['A'] is S._E.args0raw['B']


def wj_post(S):
    if same(S): return S.result == 1
    f = F(S)
    a, b = TY.card(S.arg('A').dom), TY.card(S.arg('B').dom)
    return z3.And(z3.Implies(z3.Or(a == 0, b == 0), S.result == 0),
                  z3.Implies(z3.And(a > 0, b > 0), z3.And(f['max'](DOM(S)) > 0, S.result * f['max'](DOM(S)) == f['min'](DOM(S)))))


def unit(S): return z3.And(S.result >= 0, S.result <= 1)


def wj0(S):
    f = F(S)
    return [S.I == f['min'](S.seen), S.U == f['max'](S.seen), S.I >= 0, S.I <= S.U, z3.Implies(TY.card(S.seen) > 0, S.U > 0)]


def wj0done(S):
    d = S.done
    inb = z3.And(S.seen[x], S.B.dom[x])
    if d.c.t is None:
        return z3.ForAll([x], z3.Not(inb))
    return forall([x], d.set[x] == inb, d.set[x])


def wj1(S):
    f = F(S)
    u = TY.union(S.A.dom, S.seen)
    return [S.I == f['min'](u), S.U == f['max'](u), S.I >= 0, S.I <= S.U, S.U > 0]


def cos0(S):
    f = F(S)
    first = z3.eq(S.A.dom, S.arg('A').dom)
    return [S.xx == (f['aa'] if first else f['bb'])(S.seen), S.xy == f['ab'](S.seen), S.xx >= 0, S.xy >= 0, z3.Implies(TY.card(S.seen) > 0, S.xx > 0)]


def cos1(S):
    f = F(S)
    first = z3.eq(S.A.dom, S.arg('A').dom)
    return [S.yy == (f['bb'] if first else f['aa'])(S.seen), S.yy >= 0, z3.Implies(TY.card(S.seen) > 0, S.yy > 0)]


def cos_use(S):
    """the lemmas ZERO and CAUCHY-SCHWARZ, instantiated on the two domains"""
    f = F(S)
    a, b = S.arg('A').dom, S.arg('B').dom
    u = DOM(S)
    return [f['aa'](u) == f['aa'](a), f['bb'](TY.union(b, a)) == f['bb'](b), f['ab'](u) == f['ab'](a), f['ab'](TY.union(b, a)) == f['ab'](b),
            TY.union(a, b) == TY.union(b, a), f['ab'](u) * f['ab'](u) <= f['aa'](u) * f['bb'](u)]


def cos_final(S):
    if same(S): return []
    f = F(S)
    a, b = S.arg('A').dom, S.arg('B').dom
    S._st.assume(*cos_use(S))
    u = DOM(S)
    return []


def cos_post(S):
    if same(S): return S.result == 1
    f = F(S)
    a, b = S.arg('A').dom, S.arg('B').dom
    return z3.And(z3.Implies(z3.Or(TY.card(a) == 0, TY.card(b) == 0), S.result == 0),
                  z3.Implies(z3.And(TY.card(a) > 0, TY.card(b) > 0), z3.And(
                      S.result >= 0, f['aa'](a) > 0, f['bb'](b) > 0,
                      S.result * z3_sqrt(f['aa'](a) * f['bb'](b)) == f['ab'](DOM(S)))))


def z3_sqrt(t):
    from pv.methods import sqrt_term
    return sqrt_term(t)


def cos_unit(S):
    if same(S): return S.result == 1
    return unit(S)


def dot_post(S):
    f = F(S)
    S._st.assume(*cos_use(S)[:5])
    return S.result == f['ab'](DOM(S))


def sumsq(S, A):
    d = A
    return S._E.sum_over(d.dom, x, d.val[x] * d.val[x])


def norm_post(S):
    q = sumsq(S, S.arg('A'))
    q = real(q)
    return z3.And(S.result >= 0, S.result * S.result == q)


def nonneg_sum(S):
    """lemma NONNEG: a sum of squares is not negative"""
    return [sumsq(S, S.arg('A')) >= 0]


def nz_post(S):
    A = S.arg('A')
    r = S.result
    q = z3_sqrt(real(sumsq(S, A)))
    if r.c.kind == 'dict' and r.c.dom is None:
        return q == 0
    return z3.And(z3.Implies(q == 0, TY.card(r.dom) == 0),
                  z3.Implies(q != 0, z3.And(r.dom == A.dom, forall([x], z3.Implies(A.dom[x], r.val[x] * q == real(A.val[x])), r.val[x]))))


def nz_inv(S):
    A = S.arg('A')
    if S.N.c.dom is None: return S.seen == TY.empty_set(TS)
    return z3.And(S.N.dom == S.seen, S.length != 0, forall([x], z3.Implies(S.seen[x], S.N.val[x] * S.length == real(A.val[x])), S.N.val[x]))


def zero_use(S):
    return cos_use(S)[:5]


COSLOOPS = {('sparse_cosine_similarity', 0): Loop([('sums of the scanned part', cos0)]),
            ('sparse_cosine_similarity', 1): Loop([('sum of the other side', cos1)])}


def seq_args(S):
    """count vectors of two sequences"""
    class D(object): pass
    out = []
    for n in 'AB':
        a = S.arg(n); d = D()
        d.dom, d.val = TY.elems(a.n, a.arr), TY.bag_of_list(a.n, a.arr)
        out.append(d)
    return out


def seqF(S): return sums(*seq_args(S))


def seq_cos0(S):
    f = seqF(S)
    a, b = seq_args(S)
    first = z3.eq(S.A.dom, a.dom)
    return [S.xx == (f['aa'] if first else f['bb'])(S.seen), S.xy == f['ab'](S.seen), S.xx >= 0, S.xy >= 0, z3.Implies(TY.card(S.seen) > 0, S.xx > 0)]


def seq_cos1(S):
    f = seqF(S)
    a, b = seq_args(S)
    first = z3.eq(S.A.dom, a.dom)
    return [S.yy == (f['bb'] if first else f['aa'])(S.seen), S.yy >= 0, z3.Implies(TY.card(S.seen) > 0, S.yy > 0)]


def seq_final(S):
    f = seqF(S); a, b = seq_args(S); a, b = a.dom, b.dom
    u = TY.union(a, b)
    S._st.assume(f['aa'](u) == f['aa'](a), f['bb'](TY.union(b, a)) == f['bb'](b), f['ab'](u) == f['ab'](a), f['ab'](TY.union(b, a)) == f['ab'](b),
                 u == TY.union(b, a), f['ab'](u) * f['ab'](u) <= f['aa'](u) * f['bb'](u))
    return []


def seq_post(S):
    f = seqF(S); a, b = seq_args(S); a, b = a.dom, b.dom
    return z3.And(z3.Implies(z3.Or(TY.card(a) == 0, TY.card(b) == 0), S.result == 0),
                  z3.Implies(z3.And(TY.card(a) > 0, TY.card(b) > 0), z3.And(
                      S.result >= 0, S.result * z3_sqrt(f['aa'](a) * f['bb'](b)) == f['ab'](TY.union(a, b)))))


CONTRACTS = [
    Contract('fog/metrics/jaccard.py:weighted_jaccard_similarity', TWO + INTS, post=[('is the sum of minima over the sum of maxima', wj_post), ('lies in [0, 1]', unit)],
             loops={('weighted_jaccard_similarity', 0): Loop([('sums of the scanned part', wj0), ('done', wj0done)]),
                    ('weighted_jaccard_similarity', 1): Loop([('sums over both domains', wj1)])}),
    Contract('fog/metrics/cosine.py:sparse_cosine_similarity', TWO + INTS, post=[('is the dot product over the norms', cos_post), ('lies in [0, 1]', cos_unit)],
             loops=COSLOOPS, final=cos_final),
    Contract('fog/metrics/cosine.py:sparse_dot_product', [Case('two dicts', {'A': W, 'B': W})],
             post=[('is the sum of the products', dot_post)],
             loops={('sparse_dot_product', 0): Loop([('sum of the scanned part', lambda S: S.product == F(S)['ab'](S.seen))])}),
    Contract('fog/metrics/cosine.py:sparse_norm', [Case('a dict', {'A': W}), Case('integer weights', {'A': TDict(TOK, INT)})], lemmas=nonneg_sum,
             post=[('is the Euclidean norm', norm_post)]),
    Contract('fog/metrics/cosine.py:sparse_normalize', [Case('a dict', {'A': W})], lemmas=nonneg_sum, post=[('is the unit vector', nz_post)],
             loops={('sparse_normalize', 0): Loop([('normalised part', nz_inv)])}),
    Contract('fog/metrics/cosine.py:cosine_similarity', [Case('two sequences', {'A': TList(TOK), 'B': TList(TOK)}), Case('two streams', {'A': TStream(TOK), 'B': TStream(TOK)})],
             post=[('is the cosine of the count vectors', seq_post), ('lies in [0, 1]', unit)], final=seq_final,
             loops={('sparse_cosine_similarity', 0): Loop([('sums of the scanned part', seq_cos0)]),
                    ('sparse_cosine_similarity', 1): Loop([('sum of the other side', seq_cos1)])}),
]


def cauchy():
    P, X, Y, a, b = z3.Reals('P X Y a b')
    # (Y a - ... )^2 >= 0 steps: with P^2 <= XY, 2Pab <= X b^2 + Y a^2
    s = z3.Real('s')
    return [('base', [], z3.RealVal(0) * 0 <= z3.RealVal(0) * 0),
            ('middle term, X = 0', [P * P <= X * Y, X == 0, Y >= 0], 2 * P * a * b <= X * b * b + Y * a * a),
            ('middle term, X > 0', [P * P <= X * Y, X > 0, Y >= 0, s == X * b - P * a, s * s >= 0, s * s == X * X * b * b - 2 * X * P * a * b + P * P * a * a,
                                    P * P * a * a <= X * Y * a * a], X * (2 * P * a * b) <= X * (X * b * b + Y * a * a)),
            ('step', [P * P <= X * Y, 2 * P * a * b <= X * b * b + Y * a * a], (P + a * b) * (P + a * b) <= (X + a * a) * (Y + b * b))]


def nonneg():
    q, w = z3.Reals('q w')
    return [('base', [], z3.RealVal(0) >= 0), ('step', [q >= 0], q + w * w >= 0)]


LEMMAS = [zero_lemma(), Lemma('CAUCHY-SCHWARZ: dot(S)^2 <= sq(S) * sq(S) (induction over finite sets)', cauchy), Lemma('NONNEG: sums of squares (induction)', nonneg)]
COMPLETE = True
ASSUMPTIONS = ['floating-point sums, products and square roots are taken as exact real operations', 'induction over finite sets is applied outside the solver: base and step are discharged']
