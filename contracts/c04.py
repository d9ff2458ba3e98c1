from contracts.edit import *
from contracts.c03 import malloc, the, target, swapped, suffix, prefix, codes, sizes, d, q

F = 'limited_levenshtein_distance'


def K(S): return S.arg('max_distance')


def capped(S): return z3.If(target(S) <= K(S), target(S), K(S) + 1)


def base(S):
    """the trimmed pieces, and the limit once cut down to the longest of them"""
    return z3.And(swapped(S), 0 <= S.start, 1 <= S.LA, S.LA <= S.LB, S.start + S.LB <= slen(S.B), S.start + S.LA <= slen(S.A), d(S, S.LA, S.LB) == target(S),
                  sat(S.A, S.start) != sat(S.B, S.start), S.upper_bound == K(S) + 1, K(S) >= 0, S.diff == S.LB - S.LA, S.diff <= S.max_distance,
                  z3.Or(z3.And(S.max_distance == K(S), K(S) <= S.LB), z3.And(S.max_distance == S.LB, K(S) > S.LB)))


def head(S, v, upto): return forall([q], implies(z3.And(0 <= q, q < upto, q < S.max_distance), v[q] == q + 1), v[q])
def tail(S, v, upto): return forall([q], implies(z3.And(S.max_distance <= q, q < upto), v[q] == S.upper_bound), v[q])


def init1(S): return z3.And(base(S), sizes(S), 0 <= S.i, S.i <= S.max_distance, codes(S, S.i), head(S, S.vector.arr, S.i))
def init2(S): return z3.And(base(S), sizes(S), S.max_distance <= S.i, S.i <= S.LB, codes(S, S.i), head(S, S.vector.arr, S.i), tail(S, S.vector.arr, S.i))


def rest(S, i, j):
    """at least that many more edits to the end"""
    e = S.diff - (j - i)
    return z3.If(e >= 0, e, -e)


def good(S, v, i, j):
    """v stands for the cell (i, j): exact if an optimal path within the limit can go through it, never too small"""
    k = S.max_distance
    x = d(S, i, j)
    return z3.And(z3.Or(v >= x, v >= k + 1), implies(x + rest(S, i, j) <= k, v == x), v >= 0)


def line(S, i, lo, hi): return forall([q], implies(z3.And(lo <= q, q < hi), good(S, S.vector.arr[q], i, q + 1)), S.vector.arr[q])


def left_edge(S, i): return z3.If(i > S.offset + 1, i - 1 - S.offset, z3.IntVal(0))
def right_edge(S, i): return z3.If(S.max_distance + i < S.LB, S.max_distance + i, S.LB)


def rows(S):
    k = S.max_distance
    return z3.And(base(S), sizes(S), codes(S, S.LB), 0 <= S.i, S.i <= S.LA, S.offset == k - S.diff, S.have_max == (k < S.LB), S.j_start == left_edge(S, S.i), S.j_end == right_edge(S, S.i),
                  line(S, S.i, S.j_start, S.LB), S.current >= 0, implies(S.i >= 1, good(S, S.current, S.i, S.j_end)),
                  forall([q], implies(z3.And(S.j_end <= q, q < S.LB), S.vector.arr[q] == S.upper_bound), S.vector.arr[q]))


def cells(S):
    lo = left_edge(S, S.i + 1); hi = right_edge(S, S.i + 1)
    return z3.And(S.j_start == lo, S.j_end == hi, S.j_start <= S.j, S.j <= S.j_end, sizes(S), line(S, S.i + 1, S.j_start, S.j), line(S, S.i, S.j, S.LB),
                  good(S, S.left, S.i, S.j), good(S, S.current, S.i + 1, S.j), S.charA == sat(S.A, S.start + S.i),
                  forall([q], implies(z3.And(S.j_end <= q, q < S.LB), S.vector.arr[q] == S.upper_bound), S.vector.arr[q]))


def cell_facts(S):
    A = (S.A, S.B, S.start)
    i, j = S.i, S.j
    return [step(*A, i, j), diag(*A, i, j), bound(*A, i, j), bound(*A, i + 1, j), bound(*A, i, j + 1), bound(*A, i + 1, j + 1)]


def row_facts(S):
    A = (S.A, S.B, S.start)
    i = S.i
    j0 = left_edge(S, i + 1)
    out = []
    for j in (z3.IntVal(0), i - S.offset):
        out += [bound(*A, i, j), bound(*A, i + 1, j)]
    return out + [col0(*A, i), col0(*A, i + 1), zero(*A, i), bound(*A, S.LA, S.LB), ndiag(*A, i + 1, i + 1 + S.diff, S.LA - i - 1), bound(*A, i, i)]


def first_row(S):
    A = (S.A, S.B, S.start)
    return [('the first row', line_(S), [forall([q], row0(*A, q + 1), S.vector.arr[q])])]


def next_row(S):
    S._st.assume(forall([q], bound(S.A, S.B, S.start, S.i, q + 1), S.vector.arr[q]))
    return []


def line_(S): return forall([q], implies(z3.And(0 <= q, q < S.LB), z3.And(d(S, 0, q + 1) == q + 1, implies(q < S.max_distance, S.vector.arr[q] == q + 1), implies(q >= S.max_distance, S.vector.arr[q] == S.upper_bound))), S.vector.arr[q])


def at_entry(S):
    a, b = the(S)
    S._st.assume(swap(a, b, z3.IntVal(0), slen(a), slen(b)))
    return []


def post(S): return S.result == capped(S)


def final(S):
    a, b = the(S)
    z = z3.IntVal(0)
    facts = [swap(a, b, z, slen(a), slen(b)), eq0(a, b, z, slen(a)), row0(S.A, S.B, z, slen(S.B)), row0(S.A, S.B, z, S.LB) if S.has('LB') else z3.BoolVal(True)]
    if S.has('start'):
        A = (S.A, S.B, S.start)
        facts += [row0(*A, S.LB), bound(*A, S.LA, S.LB)]
    return [('the result is the capped distance', post(S), facts)]


CONTRACTS = [Contract(PATH + ':' + F, [Case('', {'max_distance': INT, 'A': STR, 'B': STR}, pre=lambda S: [S.max_distance >= 0])], [('the capped edit distance', post)],
    loops={(F, 0): Loop([('common suffix', suffix)], entry=at_entry, use=lambda S: [diag(S.A, S.B, z3.IntVal(0), S.LA - 1, S.LB - 1)], dec=lambda S: S.LA),
           (F, 1): Loop([('common prefix', prefix)], use=lambda S: [first(S.A, S.B, S.start, S.LA - S.start - 1, S.LB - S.start - 1)], dec=lambda S: S.LA - S.start),
           (F, 2): Loop([('codes and first row', init1)], dec=lambda S: S.max_distance - S.i),
           (F, 3): Loop([('codes and first row, over the limit', init2)], dec=lambda S: S.LB - S.i, exit_hint=first_row),
           (F, 4): Loop([('rows', rows)], use=row_facts, hint=next_row, dec=lambda S: S.LA - S.i),
           (F, 5): Loop([('cells', cells)], use=cell_facts, dec=lambda S: S.j_end - S.j)},
    externals={'builtin:__malloc': malloc}, final=final)]

LEMMAS = lemmas()
COMPLETE = True
ASSUMPTIONS = ['the minimum number of insertions, deletions and substitutions is given by the Wagner-Fischer recurrence (definition of D in contracts/edit.py)',
               'unsigned int holds every length, code point and max_distance + 1 (no wrap above 2**32 - 1); no wrap below zero is proved; malloc does not fail',
               'C code generated by Cython implements the Python semantics of the .pyx text']
