"""The edit distance by its recurrence, and the lemmas about it (proved in C03 by induction, used as instances elsewhere).

D(a, b, s, i, j): edit distance between the i characters of a from s and the j characters of b from s.
"""
from contracts.common import *

SS = STR.sort()
slen, sat = TY.slen, TY.sat
I = z3.IntSort()
PATH = 'cfog/metrics/levenshtein.pyx'


def D(a, b, s, i, j): return TY.fn('edit', SS, SS, I, I, I, I)(a, b, s, i, j)


def mn(*xs):
    r = xs[0]
    for x in xs[1:]: r = z3.If(r <= x, r, x)
    return r


def row0(a, b, s, j): return implies(j >= 0, D(a, b, s, 0, j) == j)
def col0(a, b, s, i): return implies(i >= 0, D(a, b, s, i, 0) == i)


def step(a, b, s, i, j):
    """definition of D at (i + 1, j + 1)"""
    return implies(z3.And(i >= 0, j >= 0), D(a, b, s, i + 1, j + 1) == mn(D(a, b, s, i, j + 1) + 1, D(a, b, s, i + 1, j) + 1, D(a, b, s, i, j) + z3.If(sat(a, s + i) == sat(b, s + j), 0, 1)))


def unfold(a, b, s, i, j):
    """the same at (i, j), for positive i and j"""
    return implies(z3.And(i >= 1, j >= 1), D(a, b, s, i, j) == mn(D(a, b, s, i - 1, j) + 1, D(a, b, s, i, j - 1) + 1, D(a, b, s, i - 1, j - 1) + z3.If(sat(a, s + i - 1) == sat(b, s + j - 1), 0, 1)))


def vert(a, b, s, i, j):
    """lemma: one more character of a changes the distance by at most one"""
    return implies(z3.And(i >= 0, j >= 0), z3.And(D(a, b, s, i, j) <= D(a, b, s, i + 1, j) + 1, D(a, b, s, i + 1, j) <= D(a, b, s, i, j) + 1))


def horiz(a, b, s, i, j):
    return implies(z3.And(i >= 0, j >= 0), z3.And(D(a, b, s, i, j) <= D(a, b, s, i, j + 1) + 1, D(a, b, s, i, j + 1) <= D(a, b, s, i, j) + 1))


def diag(a, b, s, i, j):
    """lemma: equal last characters can be matched"""
    return implies(z3.And(i >= 0, j >= 0, sat(a, s + i) == sat(b, s + j)), D(a, b, s, i + 1, j + 1) == D(a, b, s, i, j))


def grows(a, b, s, i, j):
    """lemma: along a diagonal the distance does not decrease"""
    return implies(z3.And(i >= 0, j >= 0), D(a, b, s, i + 1, j + 1) >= D(a, b, s, i, j))


def ndiag(a, b, s, i, j, n):
    return implies(z3.And(i >= 0, j >= 0, n >= 0), D(a, b, s, i + n, j + n) >= D(a, b, s, i, j))


def first(a, b, s, i, j):
    """lemma: equal first characters can be matched"""
    return implies(z3.And(i >= 0, j >= 0, s >= 0, sat(a, s) == sat(b, s)), D(a, b, s, i + 1, j + 1) == D(a, b, s + 1, i, j))


def swap(a, b, s, i, j): return implies(z3.And(i >= 0, j >= 0), D(a, b, s, i, j) == D(b, a, s, j, i))


def bound(a, b, s, i, j):
    """lemma: at least the difference of the lengths, at most the longest"""
    return implies(z3.And(i >= 0, j >= 0), z3.And(D(a, b, s, i, j) >= i - j, D(a, b, s, i, j) >= j - i, z3.Or(D(a, b, s, i, j) <= i, D(a, b, s, i, j) <= j), D(a, b, s, i, j) >= 0))


def zero(a, b, s, i):
    """lemma: distance 0 between equal lengths means that the first characters are equal"""
    return implies(z3.And(i >= 1, D(a, b, s, i, i) == 0), sat(a, s) == sat(b, s))


def eq0(a, b, s, i):
    """lemma: equal pieces are at distance 0 (q quantified)"""
    q = z3.Int('q!')
    return implies(z3.And(i >= 0, forall([q], implies(z3.And(s <= q, q < s + i), sat(a, q) == sat(b, q)), sat(a, q))), D(a, b, s, i, i) == 0)


def single(a, b, s, j):
    """lemma: the distance of one character to a piece"""
    q = z3.Int('q!'); w = z3.Int('w!')
    here = lambda q: z3.And(0 <= q, q < j, sat(b, s + q) == sat(a, s))
    return implies(j >= 1, z3.And(z3.Or(D(a, b, s, 1, j) == j - 1, D(a, b, s, 1, j) == j)))


def single_in(a, b, s, j, q):
    return implies(z3.And(0 <= q, q < j, sat(b, s + q) == sat(a, s)), D(a, b, s, 1, j) == j - 1)


def single_out(a, b, s, j):
    q = z3.Int('q!')
    return implies(z3.And(j >= 0, forall([q], implies(z3.And(s <= q, q < s + j), sat(b, q) != sat(a, s)), sat(b, q))), D(a, b, s, 1, j) == z3.If(j == 0, 1, j))


def lemmas():
    a, b = z3.Consts('a b', SS); s, i, j, n, q = z3.Ints('s i j n q')
    c = [s >= 0, i >= 0, j >= 0, n >= 0]
    A = (a, b, s)
    k = z3.Int('k')
    L = lambda name, goals: Lemma(name, lambda: goals)
    return [
        L('a longer first string changes the distance by at most 1 (induction on j)', [
            ('base', c + [col0(*A, i), col0(*A, i + 1)], vert(*A, i, 0)),
            ('step', c + [vert(*A, i, j), step(*A, i, j)] + [horizdef(*A, i, j), row0(*A, j), row0(*A, j + 1)], vert(*A, i, j + 1))]),
        L('a longer second string changes the distance by at most 1 (induction on i)', [
            ('base', c + [row0(*A, j), row0(*A, j + 1)], horiz(*A, 0, j)),
            ('step', c + [horiz(*A, i, j), step(*A, i, j), vertdef(*A, i, j), col0(*A, i), col0(*A, i + 1)], horiz(*A, i + 1, j))]),
        L('equal last characters can be matched', [('step', c + [step(*A, i, j), vert(*A, i, j), horiz(*A, i, j)], diag(*A, i, j))]),
        L('along a diagonal the distance does not decrease (induction)', [
            ('one step', c + [step(*A, i, j), vert(*A, i, j), horiz(*A, i, j)], grows(*A, i, j)),
            ('base', c, ndiag(*A, i, j, z3.IntVal(0))),
            ('step', c + [ndiag(*A, i, j, n), grows(*A, i + n, j + n)], implies(z3.BoolVal(True), D(*A, i + n + 1, j + n + 1) >= D(*A, i, j)))]),
        L('the distance is symmetric (induction on i + j)', [
            ('row', c + [row0(*A, j), col0(b, a, s, j)], swap(*A, 0, j)), ('column', c + [col0(*A, i), row0(b, a, s, i)], swap(*A, i, 0)),
            ('step', c + [swap(*A, i, j), swap(*A, i, j + 1), swap(*A, i + 1, j), step(*A, i, j), step(b, a, s, j, i)], swap(*A, i + 1, j + 1))]),
        L('bounds of the distance (induction on i + j)', [
            ('row', c + [row0(*A, j)], bound(*A, 0, j)), ('column', c + [col0(*A, i)], bound(*A, i, 0)),
            ('step', c + [bound(*A, i, j), bound(*A, i, j + 1), bound(*A, i + 1, j), step(*A, i, j)], bound(*A, i + 1, j + 1))]),
        L('equal first characters can be matched (induction on i + j)', [
            ('corner', c + [step(*A, 0, 0), row0(*A, 0), row0(*A, 1), col0(*A, 1), row0(a, b, s + 1, 0)], first(*A, 0, 0)),
            ('row', c + [first(*A, 0, j), step(*A, 0, j + 1), row0(*A, j + 1), row0(*A, j + 2), row0(a, b, s + 1, j), row0(a, b, s + 1, j + 1)], first(*A, 0, j + 1)),
            ('column', c + [first(*A, i, 0), step(*A, i + 1, 0), col0(*A, i + 1), col0(*A, i + 2), col0(a, b, s + 1, i), col0(a, b, s + 1, i + 1)], first(*A, i + 1, 0)),
            ('step', c + [first(*A, i, j), first(*A, i, j + 1), first(*A, i + 1, j), step(*A, i + 1, j + 1), step(a, b, s + 1, i, j)], first(*A, i + 1, j + 1))]),
        L('pieces of equal length at distance 0 begin alike (induction)', [
            ('base', c + [step(*A, 0, 0), row0(*A, 0), row0(*A, 1), col0(*A, 1)], zero(*A, 1)),
            ('step', c + [i >= 1, zero(*A, i), step(*A, i, i), bound(*A, i, i + 1), bound(*A, i + 1, i), bound(*A, i, i)], zero(*A, i + 1))]),
        L('equal pieces are at distance 0 (induction)', [
            ('base', c + [row0(*A, 0)], eq0(*A, z3.IntVal(0))),
            ('step', c + [eq0(*A, i), diag(*A, i, i)], eq0(*A, i + 1))]),
        L('distance of one character to a piece (induction on j)', [
            ('absent, base', c + [col0(*A, 1)], single_out(*A, z3.IntVal(0))),
            ('absent, step', c + [single_out(*A, j), step(*A, 0, j), row0(*A, j), row0(*A, j + 1), z3.BoolVal(True)], single_out(*A, j + 1)),
            ('present, found last', c + [step(*A, 0, j), row0(*A, j), row0(*A, j + 1), bound(*A, 1, j), bound(*A, 1, j + 1)], single_in(*A, j + 1, j)),
            ('present, step', c + [single_in(*A, j, q), q < j, step(*A, 0, j), row0(*A, j), row0(*A, j + 1), bound(*A, 1, j + 1)], single_in(*A, j + 1, q))]),
    ]


def horizdef(a, b, s, i, j):
    """the definition of D at (i, j + 1) and of row 0"""
    return z3.And(row0(a, b, s, j), row0(a, b, s, j + 1), implies(i >= 1, unfold(a, b, s, i, j + 1)))


def vertdef(a, b, s, i, j):
    return z3.And(col0(a, b, s, i), col0(a, b, s, i + 1), implies(j >= 1, unfold(a, b, s, i + 1, j)))
