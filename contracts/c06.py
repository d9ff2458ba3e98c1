"""Levenshtein 1D keys: what is yielded for one string, then two strings at a time by lemmas over that contract.

The addition key between two equal letters is not required (known finding C06-doubled-letter): strings whose every alignment inserts a letter
there are not covered by the completeness lemma."""
from contracts.common import *
from contracts.c05 import W, same, equal, substituted, inserted, swapped, near, SS, slen, sat

p, q = z3.Ints('p! q!')
P0 = z3.Int('P0')           # any position
FL = z3.Int('FL')           # the flag character
LOOP = ('levenshtein_1d_keys', 0)
PATH = 'fog/key/levenshtein.py'


def is_sub(v, s, i): return z3.And(0 <= i, i < slen(s), slen(v) == slen(s), sat(v, i) == FL, same(v, s, 0, i), same(v, s, i + 1, slen(s)))
def is_add(v, s, i): return z3.And(0 <= i, i <= slen(s), slen(v) == slen(s) + 1, sat(v, i) == FL, same(v, s, 0, i), same(v, s, i + 1, slen(v), -1))
def is_swap(v, s, i): return z3.And(0 <= i, i + 1 < slen(s), slen(v) == slen(s), sat(v, i) == sat(s, i + 1), sat(v, i + 1) == sat(s, i), same(v, s, 0, i), same(v, s, i + 2, slen(s)))
def free(s): return forall([q], implies(z3.And(0 <= q, q < slen(s)), sat(s, q) != FL), sat(s, q))
def allowed(s, i): return z3.Or(i == 0, i == slen(s), sat(s, i - 1) != sat(s, i))


def pre(S):
    s, f = S.arg('string'), S._E.lift(S._E.args0raw['flag'])
    return [slen(f) == 1, sat(f, 0) == FL, free(s), slen(s) >= 0]


def on_yield(S, v):
    s = S.arg('string')
    tr = S._E.args0raw['transpositions']
    l = [equal(v, s)]
    at = [slen(s)]
    k = S._st.ghost.get(('k', LOOP))
    if k is not None: at = [k] + at
    for i in at: l += [is_sub(v, s, i), is_add(v, s, i)] + ([is_swap(v, s, i - 1)] if tr else [])
    st = S._st.ghost
    return [('one of the keys', z3.Or(*l))], {'same': z3.Or(st['same'], equal(v, s)), 'sub': z3.Or(st['sub'], is_sub(v, s, P0)), 'add': z3.Or(st['add'], is_add(v, s, P0)), 'swap': z3.Or(st['swap'], is_swap(v, s, P0))}


def done(S, k):
    s = S.arg('string')
    g = S.ghost
    f = [g('same'), implies(z3.And(0 <= P0, P0 < k), g('sub')), implies(z3.And(0 <= P0, P0 < k, allowed(s, P0)), g('add'))]
    if S._E.args0raw['transpositions']: f.append(implies(z3.And(0 <= P0, P0 + 1 < k, sat(s, P0) != sat(s, P0 + 1)), g('swap')))
    return f


def post(S):
    s = S.arg('string')
    return done(S, slen(s)) + [implies(P0 == slen(s), S.ghost('add'))]


def complete():
    a, b, u, v = z3.Consts('a b u v', SS)
    i = z3.Int('i')
    ext = TY.seq_ext
    return [('equal strings share their own key', [equal(a, b), ext(a, b)], a == b),
            ('substitution: the substitution keys at its position', [is_sub(u, a, i), is_sub(v, b, i), slen(a) == slen(b), same(a, b, 0, i), same(a, b, i + 1, slen(a)), ext(u, v)], u == v),
            ('insertion: the addition key of one is a substitution key of the other', [is_add(u, a, i), is_sub(v, b, i), slen(b) == slen(a) + 1, same(a, b, 0, i), same(a, b, i, slen(a), 1), same(b, a, i + 1, slen(b), -1), ext(u, v)], u == v),
            ('swap: the swapped key of one is the other', [is_swap(v, b, i), slen(a) == slen(b), sat(a, i) == sat(b, i + 1), sat(a, i + 1) == sat(b, i), same(a, b, 0, i), same(a, b, i + 2, slen(a)), ext(v, a)], v == a),
            ('swap of two equal letters: the strings are equal', [0 <= i, i + 1 < slen(a), sat(b, i) == sat(b, i + 1), slen(a) == slen(b), sat(a, i) == sat(b, i + 1), sat(a, i + 1) == sat(b, i), same(a, b, 0, i), same(a, b, i + 2, slen(a)), ext(a, b)], a == b),
            ('the shifted form of an insertion', [same(a, b, i, slen(a), 1), slen(b) == slen(a) + 1, 0 <= i], z3.ForAll([q], implies(z3.And(i + 1 <= q, q < slen(b)), sat(a, q - 1) == sat(b, q)))),
            ]


def sound():
    a, b, v = z3.Consts('a b v', SS)
    i, j = z3.Ints('i j')
    back = {'itself': lambda s, k: same(s, v, 0, slen(s)), 'a substitution key': lambda s, k: z3.And(same(s, v, 0, k), same(s, v, k + 1, slen(s))), 'an addition key': lambda s, k: z3.And(same(s, v, 0, k), same(s, v, k, slen(s), 1))}
    form = lambda s, k: {'itself': equal(v, s), 'a substitution key': is_sub(v, s, k), 'an addition key': is_add(v, s, k)}
    out = []
    w = [W(i), W(j), W(z3.IntVal(0)), free(a), free(b)]
    for n1, f1 in form(a, i).items():
        out.append(('%s read from the string' % n1, [f1], back[n1](a, i)))
        for n2, f2 in form(b, j).items():
            out.append(('%s of one, %s of the other' % (n1, n2), w + [f1, f2, back[n1](a, i), back[n2](b, j)], near(a, b, False)))
    return out


def partial_post(name):
    def f(S):
        v = S._E.lookup_local(S._st, S._fr, name)
        ok = isinstance(v, Fn) and v.kind == 'partial' and isinstance(v.f, Fn) and getattr(v.f, 'qual', None) == name.replace('damerau_', '') and not v.args and v.kw == {'transpositions': True}
        return z3.BoolVal(bool(ok))
    return f


CASES = [Case('%s, %s' % (n, m), {'string': STR, 'transpositions': TConst(t), 'flag': f}, pre=pre) for n, t in (('no transpositions', False), ('transpositions', True)) for m, f in (('any flag', STR), ('default flag', TConst('\x00')))]
CONTRACTS = [
    Contract(PATH + ':levenshtein_1d_keys', CASES, yields=STR, on_yield=on_yield, ghost={k: z3.BoolVal(False) for k in ('same', 'sub', 'add', 'swap')},
             loops={LOOP: Loop([('keys so far', lambda S: done(S, S.k))])}, post=[('every key is yielded', post)]),
    Contract(PATH + ':<module>', [Case('', {})], post=[('the Damerau variant is the same function with transpositions', partial_post('damerau_levenshtein_1d_keys'))]),
]
LEMMAS = [Lemma('COMPLETE: strings within one edit share a key', complete), Lemma('SOUND: strings sharing a key are within one edit', sound)]
COMPLETE = True
ASSUMPTIONS = ['strings are sequences of code points; the flag is one character that the strings do not contain', 'known finding: no addition key is required between two equal letters']
