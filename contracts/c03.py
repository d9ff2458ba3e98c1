from contracts.edit import *

LI = TList(INT)
q, u = z3.Ints('q! u!')


def malloc(E, st, args, kw, node):
    n = E.num(args[0])
    E.oblige(st, 'malloc of a non-negative size', n >= 0, node, 'no-raise')
    return [(st, E.new_cell(st, Lst(n, E.fresh('block', z3.ArraySort(z3.IntSort(), z3.IntSort())), INT)))]


def the(S): return S.arg('A'), S.arg('B')


def target(S):
    a, b = the(S)
    return D(a, b, 0, slen(a), slen(b))


def swapped(S):
    """the local names hold the arguments, the shorter first"""
    a, b = the(S)
    return z3.And(z3.Or(z3.And(S.A == a, S.B == b), z3.And(S.A == b, S.B == a)), slen(S.A) <= slen(S.B))


def suffix(S):
    return z3.And(swapped(S), 0 <= S.LA, S.LA <= S.LB, S.LA <= slen(S.A), S.LB <= slen(S.B), S.LB - S.LA == slen(S.B) - slen(S.A), D(S.A, S.B, 0, S.LA, S.LB) == target(S))


def prefix(S):
    return z3.And(swapped(S), 0 <= S.start, S.start <= S.LA, S.LA <= S.LB, S.LB <= slen(S.B), S.LA <= slen(S.A), D(S.A, S.B, S.start, S.LA - S.start, S.LB - S.start) == target(S))


def trimmed(S):
    return z3.And(swapped(S), 0 <= S.start, 0 <= S.LA, S.LA <= S.LB, S.start + S.LB <= slen(S.B), S.start + S.LA <= slen(S.A), D(S.A, S.B, S.start, S.LA, S.LB) == target(S))


def codes(S, upto): return forall([q], implies(z3.And(0 <= q, q < upto), S.codes.arr[q] == sat(S.B, S.start + q)), S.codes.arr[q])


def sizes(S): return z3.And(S.codes.n == S.LB, S.vector.n == S.LB)


def d(S, i, j): return D(S.A, S.B, S.start, i, j)


def init(S):
    return z3.And(trimmed(S), sizes(S), 0 <= S.i, S.i <= S.LB, codes(S, S.i), forall([q], implies(z3.And(0 <= q, q < S.i), S.vector.arr[q] == q + 1), S.vector.arr[q]))


def line(S, i, lo, hi): return forall([q], implies(z3.And(lo <= q, q < hi), S.vector.arr[q] == d(S, i, q + 1)), S.vector.arr[q])


def rows(S):
    return z3.And(trimmed(S), sizes(S), S.LA >= 1, codes(S, S.LB), 0 <= S.i, S.i <= S.LA, S.vector.n == S.LB, line(S, S.i, 0, S.LB),
                  implies(S.i >= 1, S.current == d(S, S.i, S.LB)), S.left >= 0, S.current >= 0)


def cells(S):
    return z3.And(0 <= S.j, S.j <= S.LB, sizes(S), line(S, S.i + 1, 0, S.j), line(S, S.i, S.j, S.LB), S.left == d(S, S.i, S.j), S.current == d(S, S.i + 1, S.j), S.charA == sat(S.A, S.start + S.i))


def cell_facts(S):
    A = (S.A, S.B, S.start)
    i, j = S.i, S.j
    return [step(*A, i, j), diag(*A, i, j), bound(*A, i, j), bound(*A, i + 1, j), bound(*A, i, j + 1), bound(*A, i + 1, j + 1)]


def row_facts(S):
    A = (S.A, S.B, S.start)
    return [col0(*A, S.i), col0(*A, S.i + 1), bound(*A, S.i, S.LB), bound(*A, S.i + 1, S.LB)]


def first_row(S):
    A = (S.A, S.B, S.start)
    return [('the first row', forall([q], implies(z3.And(0 <= q, q < S.LB), S.vector.arr[q] == d(S, 0, q + 1)), S.vector.arr[q]), [forall([q], row0(*A, q + 1), D(*A, 0, q + 1), S.vector.arr[q])])]


def at_entry(S):
    a, b = the(S)
    S._st.assume(swap(a, b, z3.IntVal(0), slen(a), slen(b)), bound(a, b, z3.IntVal(0), slen(a), slen(b)))
    return []


def post(S):
    """the result is the distance"""
    return S.result == target(S)


def final(S):
    a, b = the(S)
    z = z3.IntVal(0)
    facts = [swap(a, b, z, slen(a), slen(b)), eq0(a, b, z, slen(a))]
    if S.has('start'):
        A = (S.A, S.B, S.start)
        w = TY.fn('shas_at', SS, z3.IntSort(), z3.IntSort())(TY.ssub(S.B, S.start, S.start + S.LB), sat(S.A, S.start))
        TY.shas(S.B, z)
        facts += [row0(*A, S.LB), single_out(*A, S.LB), single_in(*A, S.LB, w), bound(*A, S.LA, S.LB),
                  forall([q], implies(z3.And(S.start <= q, q < S.start + S.LB), sat(TY.ssub(S.B, S.start, S.start + S.LB), q - S.start) == sat(S.B, q)), sat(S.B, q))]
    return [('the result is the distance', post(S), facts)]


F = 'levenshtein_distance'
CONTRACTS = [Contract(PATH + ':' + F, [Case('', {'A': STR, 'B': STR})], [('the edit distance', post)],
    loops={(F, 0): Loop([('common suffix', suffix)], entry=at_entry, use=lambda S: [diag(S.A, S.B, z3.IntVal(0), S.LA - 1, S.LB - 1)], dec=lambda S: S.LA),
           (F, 1): Loop([('common prefix', prefix)], use=lambda S: [first(S.A, S.B, S.start, S.LA - S.start - 1, S.LB - S.start - 1)], dec=lambda S: S.LA - S.start),
           (F, 2): Loop([('codes and first row', init)], dec=lambda S: S.LB - S.i, exit_hint=first_row),
           (F, 3): Loop([('rows', rows)], use=row_facts, dec=lambda S: S.LA - S.i),
           (F, 4): Loop([('cells', cells)], use=cell_facts, dec=lambda S: S.LB - S.j)},
    externals={'builtin:__malloc': malloc}, final=final)]

LEMMAS = lemmas()
COMPLETE = True
ASSUMPTIONS = ['the minimum number of insertions, deletions and substitutions is given by the Wagner-Fischer recurrence (definition of D in contracts/edit.py)',
               'unsigned int holds every length and code point (no wrap above 2**32 - 1); no wrap below zero is proved; malloc does not fail',
               'C code generated by Cython implements the Python semantics of the .pyx text']
