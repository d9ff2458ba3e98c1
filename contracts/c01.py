from contracts.common import *

SETS = [
    Case('two sets', {'A': TSet(TOK), 'B': TSet(TOK)}),
    Case('two lists', {'A': TList(TOK), 'B': TList(TOK)}),
    Case('a list and a set', {'A': TList(TOK), 'B': TSet(TOK)}),
    Case('a set and a list', {'A': TSet(TOK), 'B': TList(TOK)}),
    Case('two lazy streams', {'A': TStream(TOK), 'B': TStream(TOK)}),
    Case('two dicts', {'A': TDict(TOK, INT), 'B': TDict(TOK, INT)}),
    Case('the same set', {'A': TSet(TOK), 'B': Alias('A')}),
    Case('the same list', {'A': TList(TOK), 'B': Alias('A')}),
]


def parts(S):
    a, b = spec_set(S.arg('A')), spec_set(S.arg('B'))
    i = TY.inter(a, b)
    return TY.card(a), TY.card(b), TY.card(i), a, b


def same(S): return S._E.args0raw['A'] is S._E.args0raw['B']


def counter(name):
    def f(S):
        A, B = spec_set(S.A), spec_set(S.B)
        v = S[name]
        c = TY.card(TY.inter(S.seen, B))
        return v == (real(c) if v.sort() == z3.RealSort() else c)
    return f


def jaccard(S):
    a, b, i, A, B = parts(S)
    r = S.result
    U = TY.card(TY.union(A, B))
    both = z3.And(a == 0, b == 0)
    zero = z3.RealVal(0)
    if same(S):
        return r == 1
    return z3.And(z3.Implies(z3.Or(a == 0, b == 0), r == 0), z3.Implies(z3.And(a > 0, b > 0), z3.And(U > 0, r * z3.ToReal(U) == z3.ToReal(i))))


def dice(S):
    a, b, i, A, B = parts(S)
    r = S.result
    if same(S): return r == 1
    return z3.And(z3.Implies(z3.And(a == 0, b == 0), r == 1), z3.Implies(a + b > 0, r * z3.ToReal(a + b) == 2 * z3.ToReal(i)))


def overlap(S):
    a, b, i, A, B = parts(S)
    r = S.result
    if same(S): return r == 1
    return z3.And(z3.Implies(z3.Or(a == 0, b == 0), r == 0), z3.Implies(z3.And(a > 0, b > 0), r * z3.ToReal(z3.If(a <= b, a, b)) == z3.ToReal(i)))


def bcos(S):
    a, b, i, A, B = parts(S)
    r = S.result
    if same(S) and S.arg('A').c.kind == 'set': return r == 1
    return z3.And(z3.Implies(z3.Or(a == 0, b == 0), r == 0),
                  z3.Implies(z3.And(a > 0, b > 0), z3.And(r >= 0, r * r * z3.ToReal(a) * z3.ToReal(b) == z3.ToReal(i) * z3.ToReal(i))))


def isize(S):
    a, b, i, A, B = parts(S)
    return S.result == i


def unit(S):
    r = S.result
    return z3.And(r >= 0, r <= 1)


CONTRACTS = [
    Contract('fog/metrics/jaccard.py:jaccard_similarity', SETS, post=[('is |A∩B|/|A∪B|', jaccard), ('lies in [0, 1]', unit)],
             loops={('jaccard_similarity', 0): Loop([('count', counter('I'))])}),
    Contract('fog/metrics/dice.py:dice_coefficient', SETS, post=[('is 2|A∩B|/(|A|+|B|)', dice), ('lies in [0, 1]', unit)],
             loops={('dice_coefficient', 0): Loop([('count', counter('I'))])}),
    Contract('fog/metrics/overlap.py:overlap_coefficient', SETS, post=[('is |A∩B|/min(|A|,|B|)', overlap), ('lies in [0, 1]', unit)],
             loops={('overlap_coefficient', 0): Loop([('count', counter('I'))])}),
    Contract('fog/metrics/utils.py:intersection_size', SETS, post=[('is |A∩B|', isize)],
             loops={('intersection_size', 0): Loop([('count', counter('i'))])}),
    Contract('fog/metrics/cosine.py:binary_cosine_similarity', SETS, post=[('is |A∩B|/sqrt(|A||B|)', bcos), ('lies in [0, 1]', unit)],
             loops={('sparse_binary_cosine_similarity', 0): Loop([('count', counter('xy')), ('size', lambda S: S.xx == z3.ToReal(TY.card(S.seen)))])}),
]

COMPLETE = True
ASSUMPTIONS = ['set cardinality laws (inclusion-exclusion, monotonicity) are axioms over finite sets', 'floating-point division and square root are taken as exact real operations',
               'elements are hashable values with a consistent equality']
