"""Word tokenizer: the generators that cut a run of text into pieces (hashtag parts, emoji and the holes between them) lose, invent and reorder nothing."""
from contracts.common import *

SS, I = STR.sort(), z3.IntSort()
slen, sat, ssub, schr = TY.slen, TY.sat, TY.ssub, TY.schr
q = z3.Int('q!')
DIGIT, UPPER, LOWER = (z3.Function('is_' + n, I, z3.BoolSort()) for n in ('digit', 'upper', 'lower'))
STATES = ('upper-start', 'upper-next', 'lower', 'number')
PAIR = TTup(INT, STR)
MATCH = TSort('Match')
START, END = (z3.Function('match_' + n, MATCH.sort(), I) for n in ('start', 'end'))
M = z3.Const('matches', z3.ArraySort(I, MATCH.sort()))
NM = z3.Int('number_of_matches')


def char(p): return lambda E, st, s, args, kw, node: one(E, st, s, args, kw, node, p)


def one(E, st, s, args, kw, node, p):
    t = E.lift(s)
    if args or kw: raise Stale('character class')
    E.oblige(st, 'a single character', slen(t) == 1, node, 'call')
    return [(st, p(sat(t, 0)))]


def enumerate_(E, st, args, kw, node):
    if len(args) != 1 or kw or not (isinstance(args[0], z3.ExprRef) and args[0].sort() == SS): return None
    s = args[0]
    arr = E.fresh('characters', z3.ArraySort(I, PAIR.sort()))
    st.assume(forall([q], implies(z3.And(0 <= q, q < slen(s)), z3.And(PAIR.get(0, arr[q]) == q, PAIR.get(1, arr[q]) == E.char_at(st, s, q))), arr[q]))
    return [(st, Gen(n=slen(s), arr=arr, t=PAIR, bag=None))]


def part(S, v):
    """the next piece of the hashtag: starts where the last one ended, is not empty, and is a number iff all its characters are digits"""
    E, s, b = S._E, S.arg('string'), S._st.ghost['covered']
    kind, text = [E.lift(x) for x in v.items] if isinstance(v, Tup) else (v[0], v[1])
    e = b + slen(text)
    number = kind == E.lift('number')
    obls = [('a word or a number', z3.Or(number, kind == E.lift('word'))), ('not empty', slen(text) > 0), ('the text goes on from the last piece', z3.And(e <= slen(s), text == ssub(s, b, e))),
            ('a number is made of digits, a word has none', forall([q], implies(z3.And(b <= q, q < e), DIGIT(sat(s, q)) == number), sat(s, q)))]
    return obls, {'covered': e}


def hashtag_pre(S):
    return [slen(S.arg('string')) >= 2, forall([q], z3.Not(z3.And(DIGIT(q), z3.Or(UPPER(q), LOWER(q)))), DIGIT(q))]


def hashtag_loop(S):
    E, s = S._E, S.arg('string')
    p, o = S.k + 2, S.offset
    st = E.lift(S.state) if isinstance(S.state, str) else S.state
    is_ = lambda n: st == E.lift(n)
    return z3.And(S.ghost('covered') == o, 1 <= o, o < p, p <= slen(s), z3.Or(*[is_(n) for n in STATES]), implies(is_('upper-next'), o + 2 <= p),
                  forall([q], implies(z3.And(o <= q, q < p), DIGIT(sat(s, q)) == is_('number')), sat(s, q)))


def all_read(S): return S.ghost('covered') == slen(S.arg('string'))


# ------------------------------------------------------------------------------------------- emoji and holes
def group(E, st, m, args, kw, node):
    if kw or args != [0] and tuple(args) != (0,): raise Stale('group')
    return [(st, ssub(E.lift(E.args0raw['string']), START(m), END(m)))]


def matches(E, st):
    return Gen(n=NM, arr=M, t=MATCH, bag=None)


def holes_pre(S):
    s = S.arg('string')
    return [NM >= 0, slen(s) >= 0, forall([q], implies(z3.And(0 <= q, q < NM), z3.And(0 <= START(M[q]), START(M[q]) < END(M[q]), END(M[q]) <= slen(s), implies(q > 0, START(M[q]) >= END(M[q - 1])))), M[q])]


def hole(S, v):
    E, s, b = S._E, S.arg('string'), S._st.ghost['covered']
    kind, text = [E.lift(x) for x in v.items] if isinstance(v, Tup) else (v[0], v[1])
    e = b + slen(text)
    emoji = kind == E.lift('emoji')
    i = S._st.ghost['m']
    return [('punctuation or emoji', z3.Or(emoji, kind == E.lift('punct'))), ('not empty', slen(text) > 0), ('a single character of punctuation', z3.Or(emoji, slen(text) == 1)),
            ('the text goes on from the last piece', z3.And(e <= slen(s), forall([q], implies(z3.And(0 <= q, q < slen(text)), sat(text, q) == sat(s, b + q)), sat(text, q)))),
            ('the emoji are the matches, in order', implies(emoji, z3.And(i < NM, b == START(M[i]), e == END(M[i])))),
            ('no match is passed over', implies(z3.And(z3.Not(emoji), i < NM), e <= START(M[i])))], {'covered': e, 'm': z3.If(emoji, i + 1, i)}


def holes_outer(S):
    return z3.And(S.ghost('m') == S.k, S.ghost('covered') == S.last_index, 0 <= S.last_index, S.last_index <= slen(S.arg('string')), implies(S.k == 0, S.last_index == 0), implies(S.k > 0, S.last_index == END(M[S.k - 1])))


def holes_gap(S):
    k = S._st.ghost[('k', ('with_holes', 0))]
    return z3.And(S.ghost('covered') == S.last_index + S.k, S.ghost('m') == k)


def holes_tail(S): return z3.And(S.ghost('covered') == S.last_index + S.k, S.ghost('m') == NM)


def holes_done(S): return z3.And(all_read(S), S.ghost('m') == NM)


# ------------------------------------------------------------------------------------------- emoji combinators
KV = TTup(STR, STR)
IT = z3.Const('pieces', z3.ArraySort(I, KV.sort()))
NI = z3.Int('number_of_pieces')
OFF = z3.Function('piece_start', I, I)
NEXT = TOpt(KV)
TWO = TTup(KV, NEXT)


def emoji_re(E, st, args, kw, node):
    E.oblige(st, 'the whole text is searched', z3.BoolVal(False) if len(args) != 1 or kw else args[0] == E.args0['string'], node, 'call')
    return [(st, Opaque('matches'))]


def the_pieces(E, st, env, node):
    """the contract of with_holes, proved below"""
    if not (isinstance(env['gen'], Opaque) and env['gen'].name == 'matches'): raise Stale('the matches of something else')
    s = E.args0['string']
    E.oblige(st, 'the pieces of the text', env['string'] == s, node, 'call')
    t = KV.get(1, IT[q])
    st.assume(NI >= 0, OFF(0) == 0, OFF(NI) == slen(s), forall([q], implies(z3.And(0 <= q, q < NI), z3.And(OFF(q) >= 0, slen(t) > 0, OFF(q + 1) == OFF(q) + slen(t), OFF(q + 1) <= slen(s), t == ssub(s, OFF(q), OFF(q + 1)),
              z3.Or(KV.get(0, IT[q]) == E.lift('emoji'), z3.And(KV.get(0, IT[q]) == E.lift('punct'), slen(t) == 1)))), IT[q]))
    return [(st, Gen(n=NI, arr=IT, t=KV, bag=None))]


def with_next(E, st, args, kw, node):
    g = args[0]
    if len(args) != 1 or kw or not isinstance(g, Gen) or not z3.eq(g.arr, IT): raise Stale('with_next')
    arr = E.fresh('with_next', z3.ArraySort(I, TWO.sort()))
    d = NEXT.dt()
    st.assume(forall([q], implies(z3.And(0 <= q, q < NI), z3.And(TWO.get(0, arr[q]) == IT[q], TWO.get(1, arr[q]) == z3.If(q + 1 < NI, d.constructor(1)(IT[q + 1]), d.constructor(0)()))), arr[q]))
    return [(st, Gen(n=NI, arr=arr, t=TWO, bag=None))]


def next_part(E, st, base, idx, node):
    d = NEXT.dt()
    E.oblige(st, 'there is a next piece', base != d.constructor(0)(), node, 'no-raise')
    return [(st, KV.get(idx, d.accessor(1, 0)(base)))]


def emitted(S, v):
    E, s, b = S._E, S.arg('string'), S._st.ghost['covered']
    kind, text = [E.lift(x) for x in v.items] if isinstance(v, Tup) else (KV.get(0, v), KV.get(1, v)) if isinstance(v, z3.ExprRef) else (v[0], v[1])
    e = b + slen(text)
    return [('punctuation or emoji', z3.Or(kind == E.lift('emoji'), z3.And(kind == E.lift('punct'), slen(text) == 1))), ('not empty', slen(text) > 0),
            ('the text goes on from the last piece', z3.And(e <= slen(s), forall([q], implies(z3.And(0 <= q, q < slen(text)), sat(text, q) == sat(s, b + q)), sat(text, q))))], {'covered': e}


def combine(S):
    E = S._E
    skip = S.skip_next
    skip = z3.BoolVal(skip) if isinstance(skip, bool) else skip
    return z3.And(S.ghost('covered') == OFF(S.k + z3.If(skip, 1, 0)), implies(skip, S.k < NI), *[z3.And(0 <= S.k, S.k <= NI)])


CONTRACTS = [
    Contract('fog/tokenizers/words.py:punct_emoji_iter', [Case('any text', {'string': STR})], yields=False, on_yield=emitted, ghost={'covered': z3.IntVal(0)},
             externals={'global:EMOJI_RE': lambda E, st: Opaque('emoji_re'), 'emoji_re.finditer': emoji_re, 'ebbe.with_next': with_next, 'index:' + NEXT.name(): next_part}, summaries={'with_holes': the_pieces},
             loops={('punct_emoji_iter', 0): Loop([('pieces written', combine)])}, post=[('the whole text is read', all_read)]),
    Contract('fog/tokenizers/words.py:split_hashtag', [Case('any text after the sigil', {'string': STR}, pre=hashtag_pre)], yields=False, on_yield=part, ghost={'covered': z3.IntVal(1)},
             externals={'builtin:enumerate': enumerate_, 'method:str.isdigit': char(DIGIT), 'method:str.isupper': char(UPPER), 'method:str.islower': char(LOWER)},
             loops={('split_hashtag', 0): Loop([('the state and the piece under way', hashtag_loop)])}, post=[('the whole hashtag is read', all_read)]),
    Contract('fog/tokenizers/words.py:with_holes', [Case('any matches', {'gen': matches, 'string': STR}, pre=holes_pre)], yields=False, on_yield=hole, ghost={'covered': z3.IntVal(0), 'm': z3.IntVal(0)},
             externals={'method:Match.start': lambda E, st, m, args, kw, node: [(st, START(m))], 'method:Match.end': lambda E, st, m, args, kw, node: [(st, END(m))], 'method:Match.group': group},
             loops={('with_holes', 0): Loop([('matches written', holes_outer)]), ('with_holes', 1): Loop([('gap written', holes_gap)]), ('with_holes', 2): Loop([('tail written', holes_tail)])},
             post=[('the whole text is read and every match written', holes_done)]),
]
COMPLETE = False
BOUNDED = ['the scanner itself (WordTokenizer.__tokenize and tokenize)']
ASSUMPTIONS = ['no character is both a digit and cased (true of every code point of this Python)', 'finditer yields the non-empty matches of the emoji expression from left to right, none overlapping']
