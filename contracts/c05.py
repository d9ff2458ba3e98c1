from contracts.common import *

SS = STR.sort()
slen, sat = TY.slen, TY.sat
p, q = z3.Ints('p! q!')
PATH = 'cfog/metrics/levenshtein.pyx'


def W(x):
    """marks the witnesses worth trying"""
    f = TY.fn('witness', z3.IntSort(), z3.BoolSort())
    TY.axiom('witness', TY.forall([p], f(p), [f(p)]))
    return f(x)


def same(a, b, lo, hi, shift=0):
    return forall([q], implies(z3.And(lo <= q, q < hi), sat(a, q) == sat(b, q + shift)), sat(a, q))


def equal(a, b): return z3.And(slen(a) == slen(b), same(a, b, 0, slen(a)))


def substituted(a, b):
    n = slen(a)
    return z3.And(n == slen(b), z3.Exists([p], z3.And(W(p), 0 <= p, p < n, same(a, b, 0, p), same(a, b, p + 1, n))))


def inserted(a, b):
    """b is a with one more character"""
    n = slen(a)
    return z3.And(slen(b) == n + 1, z3.Exists([p], z3.And(W(p), 0 <= p, p <= n, same(a, b, 0, p), same(a, b, p, n, 1))))


def swapped(a, b):
    n = slen(a)
    return z3.And(n == slen(b), z3.Exists([p], z3.And(W(p), 0 <= p, p + 1 < n, sat(a, p) == sat(b, p + 1), sat(a, p + 1) == sat(b, p), same(a, b, 0, p), same(a, b, p + 2, n))))


def near(a, b, damerau):
    l = [equal(a, b), substituted(a, b), inserted(a, b), inserted(b, a)]
    if damerau: l.append(swapped(a, b))
    return z3.Or(*l)


def truth(S):
    r = S._result
    return S._E.truth(S._st, r)


def exact(damerau):
    def post(S):
        a, b = S.arg('A'), S.arg('B')
        return truth(S) == near(a, b, damerau)
    return post


def bounds(S):
    return z3.And(0 <= S.i, S.i <= S.LA, S.LA == slen(S.A), S.LB == slen(S.B), S.j >= 0, z3.Or(S.cost == 0, S.cost == 1))


def addition(S):
    a, b, i = S.A, S.B, S.i
    return z3.And(S.LB == S.LA + 1, S.j == i + S.cost, implies(S.cost == 0, same(a, b, 0, i)),
                  implies(S.cost == 1, z3.Exists([p], z3.And(W(p), 0 <= p, p <= i, p < S.LA, same(a, b, 0, p), sat(a, p) != sat(b, p), same(a, b, p, i, 1)))))


def substitution(damerau):
    def inv(S):
        a, b, i = S.A, S.B, S.i
        one = z3.Exists([p], z3.And(W(p), 0 <= p, p < i, same(a, b, 0, p), sat(a, p) != sat(b, p), same(a, b, p + 1, i),
                                 z3.Not(z3.And(p + 1 < S.LA, sat(a, p + 1) == sat(b, p), sat(b, p + 1) == sat(a, p))) if damerau else z3.BoolVal(True)))
        two = z3.Exists([p], z3.And(W(p), 0 <= p, p + 1 < i, same(a, b, 0, p), sat(a, p) != sat(b, p), sat(a, p) == sat(b, p + 1), sat(a, p + 1) == sat(b, p), same(a, b, p + 2, i)))
        return z3.And(S.LB == S.LA, implies(S.cost == 0, same(a, b, 0, i)), implies(S.cost == 1, z3.Or(one, two) if damerau else one))
    return inv


def try_here(S): return [('try this position', W(S.i)), ('and the last', W(S.i - 1)), ('and the one before', W(S.i - 2))]


def try_end(S):
    n = slen(S.arg('A')); m = slen(S.arg('B'))
    return [('try the ends', z3.And(W(n), W(m), W(0), W(n - 1), W(m - 1)))]


def contract(name, damerau):
    return Contract(PATH + ':' + name, [Case('', {'A': STR, 'B': STR})], [('true exactly within one edit', exact(damerau))],
                    loops={(name, 0): Loop([('bounds', bounds), ('one addition', addition)], hint=try_here, top=try_here, dec=lambda S: 2 * (S.LA - S.i) + 1 - S.cost),
                           (name, 1): Loop([('bounds', bounds), ('one substitution', substitution(damerau))], hint=try_here, top=try_here, dec=lambda S: S.LA - S.i)},
                    final=try_end)


CONTRACTS = [contract('levenshtein_distance_lte1', False), contract('damerau_levenshtein_distance_lte1', True)]


def symmetric():
    a, b = z3.Consts('a b', SS)
    out = []
    W(z3.IntVal(0))
    shift = forall([q], sat(a, q) == sat(a, q), sat(a, q))
    for nm, f in (('equality', equal), ('substitution', substituted), ('swap', swapped)):
        pi = z3.Int('pw')
        out.append((nm, [f(a, b)], f(b, a)))
    return out


LEMMAS = [Lemma('the predicates are symmetric (insertion and deletion are each other\'s mirror image by definition)', symmetric)]
COMPLETE = True
ASSUMPTIONS = ['unsigned int holds every length (no wrap above 2**32 - 1); no wrap below zero is proved', 'C code generated by Cython implements the Python semantics of the .pyx text']
