"""Levenshtein blocks: what is returned for one string, then two strings at a time by lemmas over that contract.

Edits are given as alignments (which characters are kept); for two edits, an insertion together with a deletion is not covered
(known finding C07-insertion-and-deletion)."""
from contracts.common import *
from contracts.c05 import same, SS, slen, sat
from contracts.c06 import partial_post, PATH

q = z3.Int('q!')
FLAGS = z3.Ints('F1 F2 F3')
FL = FLAGS[0]


# the blocks: v is the block of s described by ...
def pref(v, s, h): return z3.And(slen(v) == h + 1, sat(v, 0) == FL, forall([q], implies(z3.And(1 <= q, q <= h), sat(v, q) == sat(s, q - 1)), sat(v, q)))
def suff(v, s, h): return z3.And(slen(v) == slen(s) - h + 1, sat(v, slen(s) - h) == FL, forall([q], implies(z3.And(0 <= q, q < slen(s) - h), sat(v, q) == sat(s, q + h)), sat(v, q)))
def tpref(v, s, h): return z3.And(slen(v) == h + 1, sat(v, 0) == FL, forall([q], implies(z3.And(1 <= q, q < h), sat(v, q) == sat(s, q - 1)), sat(v, q)), sat(v, h) == sat(s, h))
def piece(v, f, s, lo, hi): return z3.And(slen(v) == hi - lo + 1, sat(v, 0) == FLAGS[f], forall([q], implies(z3.And(1 <= q, q <= hi - lo), sat(v, q) == sat(s, lo + q - 1)), sat(v, q)))


def flag_pre(names):
    def f(S):
        out = [slen(S.arg('string')) >= 0]
        for n, c in zip(names, FLAGS):
            x = S._E.lift(S._E.args0raw[n])
            out += [slen(x) == 1, sat(x, 0) == c]
        return out
    return f


def items(S):
    r = S.rawresult
    if not isinstance(r, Tup) or not r.items: raise Stale('a tuple of blocks is expected')
    return [S._E.lift(x) for x in r.items]


def some(S, form, *a): return z3.Or(*[form(v, *a) for v in items(S)])


def one_post(S):
    s = S.arg('string')
    n = slen(s)
    h = n / 2
    out = [some(S, pref, s, h), some(S, suff, s, h), implies(n % 2 == 1, z3.And(some(S, pref, s, h + 1), some(S, suff, s, h + 1)))]
    if S._E.args0raw['transpositions']: out.append(implies(z3.And(n % 2 == 0, n >= 2), some(S, tpref, s, h)))
    return out


def cuts(n, r):
    """the pieces (flag, from, to) of a string whose length is r modulo 3"""
    h1 = n / 3
    h = h1 + 1
    if r == 0: return [(0, 0, h1), (1, h1, 2 * h1), (2, 2 * h1, n)]
    if r == 2: return [(0, 0, h), (1, h, 2 * h), (2, 2 * h, n), (0, 0, h1), (1, h1, h + h1), (2, h + h1, n), (1, h, h + h1)]
    return [(0, 0, h), (1, h, h + h1), (2, h + h1, n), (0, 0, h1), (1, h1, h1 + h), (1, h1, 2 * h1), (2, 2 * h1, n)]


def two_post(S):
    s = S.arg('string')
    n = slen(s)
    return [implies(n % 3 == r, some(S, lambda v, f=f, lo=lo, hi=hi: piece(v, f, s, lo, hi))) for r in range(3) for f, lo, hi in cuts(n, r)]


# ------------------------------------------------------------------------------------------- two strings
def sub1(a, b, i): return [slen(a) == slen(b), 0 <= i, i < slen(a), same(a, b, 0, i), same(a, b, i + 1, slen(a))]
def ins1(a, b, i): return [slen(b) == slen(a) + 1, 0 <= i, i <= slen(a), same(a, b, 0, i), same(a, b, i, slen(a), 1)]
def swap1(a, b, i): return [slen(a) == slen(b), 0 <= i, i + 1 < slen(a), sat(a, i) == sat(b, i + 1), sat(a, i + 1) == sat(b, i), same(a, b, 0, i), same(a, b, i + 2, slen(a))]


def one_lemma():
    a, b = z3.Consts('a b', SS)
    i = z3.Int('i')
    out = []
    V = lambda x, kinds: {k: z3.Const('%s_%s' % (x, k), SS) for k in kinds}

    def blocks(x, s, odd, tr):
        n = slen(s); h = n / 2
        v = V(x, ('P', 'S', 'P1', 'S1', 'T'))
        f = [pref(v['P'], s, h), suff(v['S'], s, h)]
        keep = ['P', 'S']
        if odd: f += [pref(v['P1'], s, h + 1), suff(v['S1'], s, h + 1)]; keep += ['P1', 'S1']
        elif tr: f.append(implies(n >= 2, tpref(v['T'], s, h))); keep.append('T')
        return f, [v[k] for k in keep]
    for name, edit, tr in (('substitution', sub1, False), ('insertion', ins1, False), ('swap', swap1, True)):
        for odd in (False, True):
            oddb = odd != (edit is ins1)
            fa, va = blocks('u', a, odd, tr)
            fb, vb = blocks('v', b, oddb, tr)
            hyp = edit(a, b, i) + [slen(a) % 2 == (1 if odd else 0)] + fa + fb + [TY.seq_ext(x, y) for x in va for y in vb]
            out.append(('%s, %s length' % (name, 'odd' if odd else 'even'), hyp, z3.Or(*[x == y for x in va for y in vb])))
    return out


def sub2(a, b, i, j): return [slen(a) == slen(b), 0 <= i, i <= j, same(a, b, 0, i), same(a, b, i + 1, j), same(a, b, j + 1, slen(a))]
def inssub(a, b, i, j):
    """an insertion at i and a substitution at j (in b)"""
    return [slen(b) == slen(a) + 1, 0 <= i, i <= slen(a), 0 <= j,
            forall([q], implies(z3.And(0 <= q, q < slen(b), q != i, q != j), sat(b, q) == z3.If(q < i, sat(a, q), sat(a, q - 1))), sat(b, q))]
def ins2(a, b, i, j):
    return [slen(b) == slen(a) + 2, 0 <= i, i < j, j < slen(b),
            forall([q], implies(z3.And(0 <= q, q < slen(b), q != i, q != j), sat(b, q) == z3.If(q < i, sat(a, q), z3.If(q < j, sat(a, q - 1), sat(a, q - 2)))), sat(b, q))]


def two_lemma():
    a, b = z3.Consts('a b', SS)
    i, j = z3.Ints('i j')
    out = []
    for name, edit, m in (('two substitutions', sub2, 0), ('an insertion and a substitution', inssub, 1), ('two insertions', ins2, 2)):
        for r in range(3):
            ca, cb = cuts(slen(a), r), cuts(slen(b), (r + m) % 3)
            ua, vb = [z3.Const('u%d' % k, SS) for k in range(len(ca))], [z3.Const('v%d' % k, SS) for k in range(len(cb))]
            pairs = [(x, y) for x, c in zip(ua, ca) for y, d in zip(vb, cb) if c[0] == d[0]]
            hyp = edit(a, b, i, j) + [slen(a) % 3 == r] + [piece(x, c[0], a, c[1], c[2]) for x, c in zip(ua, ca)] + [piece(x, c[0], b, c[1], c[2]) for x, c in zip(vb, cb)] + [TY.seq_ext(x, y) for x, y in pairs]
            out.append(('%s, length %d modulo 3' % (name, r), hyp, z3.Or(*[x == y for x, y in pairs])))
    return out


F3 = ('flag1', 'flag2', 'flag3')
TR = (('no transpositions', False), ('transpositions', True))
CONTRACTS = [
    Contract(PATH + ':levenshtein_1d_blocks', [Case('%s, %s' % (n, m), {'string': STR, 'transpositions': TConst(t), 'flag': f}, pre=flag_pre(['flag'])) for n, t in TR for m, f in (('any flag', STR), ('default flag', TConst('\x00')))],
             post=[('the halves are returned', one_post)]),
    Contract(PATH + ':levenshtein_2d_blocks', [Case('%s, %s' % (n, m), dict({'string': STR, 'transpositions': TConst(t)}, **{k: (TConst(c) if d else STR) for k, c in zip(F3, ('\x00', '\x01', '\x02'))}), pre=flag_pre(F3)) for n, t in TR for m, d in (('any flags', False), ('default flags', True))],
             post=[('the thirds are returned', two_post)]),
    Contract(PATH + ':<module>', [Case('', {})], post=[('the Damerau variants are the same functions with transpositions', lambda S: z3.And(partial_post('damerau_levenshtein_1d_blocks')(S), partial_post('damerau_levenshtein_2d_blocks')(S)))]),
]
LEMMAS = [Lemma('ONE: strings one edit apart share a block', one_lemma), Lemma('TWO: strings two edits apart share a block', two_lemma)]
COMPLETE = True
ASSUMPTIONS = ['strings are sequences of code points; a flag is one character', 'known finding: an insertion and a deletion in strings of equal length are not covered by TWO', 'two edits are read as an alignment of the two strings']
