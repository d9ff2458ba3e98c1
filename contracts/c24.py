"""Omission, skeleton and phonetic keys.  The regular expressions and unidecode are external; the patterns they are given are checked literally."""
from contracts.common import *

SS, I = STR.sort(), z3.IntSort()
slen, sat, schr = TY.slen, TY.sat, TY.schr
p, c, q = z3.Ints('p! c! q!')
LST = TList(STR)
CLEAN, UNI = z3.Function('letters_of', SS, SS), z3.Function('unidecode', SS, SS)
REPL = z3.Function('replace', SS, SS, SS, SS)
OCC = z3.Function('occurs_in_first', I, I, z3.BoolSort())   # (k, c): c is among the first k letters
CRANK, VRANK = z3.Function('consonants_before', I, I), z3.Function('vowels_before', I, I)
ORDER = 'JKQXZVWYBFMGPDHCLNTSR'


def upper(s): return TY.fn('str_upper', SS, SS)(s)
def vowel(x): return z3.Or(*[x == ord(v) for v in 'AEIOU'])


# ------------------------------------------------------------------------------------------- externals
def compile_(E, st, args, kw, node):
    if not all(isinstance(a, str) for a in args[:1]): raise Unsupported('re.compile')
    return [(st, Opaque('re', pattern=args[0], flags=tuple(getattr(a, 'name', None) for a in args[1:])))]


def text(E, st, v): return E.lift(v)


def sub(E, st, args, kw, node):
    r = args[0]
    if not isinstance(r, Opaque) or (r.pattern, r.flags) != ('[^A-Z]', ()) or args[1] != '' or len(args) != 3: raise Stale('the characters dropped')
    s = CLEAN(E.lift(args[2]))
    st.assume(slen(s) >= 0, forall([p], implies(z3.And(0 <= p, p < slen(s)), z3.And(65 <= sat(s, p), sat(s, p) <= 90)), sat(s, p)))
    return [(st, s)]


RE = {'re.compile': compile_, 're.sub': sub, 'unidecode.unidecode': lambda E, st, args, kw, node: [(st, UNI(E.lift(args[0])))]}


# ------------------------------------------------------------------------------------------- specification
def U(S): return CLEAN(upper(UNI(S.arg('string'))))


def occ(u): return [forall([c], z3.Not(OCC(0, c)), OCC(0, c)), forall([p, q, c], implies(z3.And(p >= 0, q == p + 1), OCC(q, c) == z3.Or(OCC(p, c), sat(u, p) == c)), z3.MultiPattern(OCC(q, c), sat(u, p)))]


def rank(R, counted): return [forall([p], R(p) >= 0, R(p)), forall([p, q], implies(z3.And(p >= 0, q == p + 1), R(q) == R(p) + z3.If(counted(p), 1, 0)), z3.MultiPattern(R(p), R(q)))]


def new(u, q): return z3.Not(OCC(q, sat(u, q)))


def om_pre(S):
    u = U(S)
    n = slen(u)
    codes = ORD_()
    return occ(u) + [VRANK(0) == 0, CRANK(0) == 0] + rank(VRANK, lambda q: z3.And(vowel(sat(u, q)), new(u, q))) + [forall([p], implies(p >= 0, CRANK(p + 1) == CRANK(p) + z3.If(OCC(n, sat(codes, p)), 1, 0)), CRANK(p + 1)), forall([p], CRANK(p) >= 0, CRANK(p))]


def ORD_(): return TY.str_const(ORDER)


def members(l): return TY.elems(l.n, l.arr)


def vowels_so_far(S, k):
    u = U(S)
    V = S.vowels
    if V.c.t is None: return []
    m = z3.And(0 <= q, q < k, vowel(sat(u, q)), new(u, q))
    return [V.n == VRANK(k), k >= 0, forall([q], implies(m, z3.And(0 <= VRANK(q), VRANK(q) < V.n, V.arr[VRANK(q)] == schr(sat(u, q)))), VRANK(q)),
            forall([c], members(V)[schr(c)] == z3.And(vowel(c), OCC(k, c)), schr(c))]


def letters_so_far(S, k):
    L = S.letters
    if L.c.t is None: return []
    return [forall([c], implies(z3.Not(vowel(c)), L.set[schr(c)] == OCC(k, c)), schr(c))]


def om1(S): return vowels_so_far(S, S.k) + letters_so_far(S, S.k)


def om2(S):
    u = U(S)
    n = slen(u)
    C, codes = S.consonants, ORD_()
    if C.c.t is None: return []
    return vowels_so_far(S, n)[:3] + letters_so_far(S, n) + [C.n == CRANK(S.k), forall([p], implies(z3.And(0 <= p, p < S.k, OCC(n, sat(codes, p))), z3.And(CRANK(p) < C.n, C.arr[CRANK(p)] == schr(sat(codes, p)))), CRANK(p))]


def joined(S, r):
    if not (isinstance(r, z3.ExprRef) and r.decl().name() == 'str_join'): raise Stale('the letters are not joined')
    return slen(r.arg(0)) == 0, r.arg(1), r.arg(2)


def empty(S, r):
    if isinstance(r, str): return z3.BoolVal(r == '')
    return slen(r) == 0


def om_post(S):
    u = U(S)
    n = slen(u)
    r = S.rawresult
    if isinstance(r, str): return [n == 0, empty(S, r)]
    sep, ln, arr = joined(S, r)
    codes = ORD_()
    nc = CRANK(len(ORDER))
    return [sep, n > 0, ln == nc + VRANK(n), forall([p], implies(z3.And(0 <= p, p < len(ORDER), OCC(n, sat(codes, p))), z3.And(CRANK(p) < nc, arr[CRANK(p)] == schr(sat(codes, p)))), CRANK(p)),
            forall([p], implies(z3.And(0 <= p, p < n, vowel(sat(u, p)), new(u, p)), z3.And(VRANK(p) < VRANK(n), arr[nc + VRANK(p)] == schr(sat(u, p)))), VRANK(p))]


# skeleton: the first letter, then the other consonants, then the other vowels
def cons_new(u, q): return z3.And(z3.Not(vowel(sat(u, q))), sat(u, q) != sat(u, 0), new(u, q))
def vow_new(u, q): return z3.And(vowel(sat(u, q)), sat(u, q) != sat(u, 0), new(u, q))


def sk_pre(S):
    u = U(S)
    return occ(u) + [VRANK(0) == 0, CRANK(0) == 0] + rank(VRANK, lambda q: vow_new(u, q)) + rank(CRANK, lambda q: cons_new(u, q)) + [OCC(1, sat(u, 0)), VRANK(1) == 0, CRANK(1) == 0, OCC(0, sat(u, 0)) == False, forall([c], OCC(1, c) == (c == sat(u, 0)), OCC(1, c))]


def layout(u, n, arr, k):
    """the key of the first k letters"""
    return [n == 1 + CRANK(k) + VRANK(k), arr[0] == schr(sat(u, 0)), k >= 1,
            forall([p], implies(z3.And(1 <= p, p < k, cons_new(u, p)), z3.And(CRANK(p) < CRANK(k), arr[1 + CRANK(p)] == schr(sat(u, p)))), CRANK(p)),
            forall([p], implies(z3.And(1 <= p, p < k, vow_new(u, p)), z3.And(VRANK(p) < VRANK(k), arr[1 + CRANK(k) + VRANK(p)] == schr(sat(u, p)))), VRANK(p))]


def sk_inv(S):
    u = U(S)
    C, V, K = S.consonants, S.vowels, S.key
    if C.c.t is None or V.c.t is None or K.c.t is None: return []
    k = S.k + 1
    f = sat(u, 0)
    return layout(u, K.n, K.arr, k) + [k <= slen(u), TY.card(V.set) == VRANK(k), forall([c], V.set[schr(c)] == z3.And(vowel(c), c != f, OCC(k, c)), schr(c)),
                                       forall([c], C.set[schr(c)] == z3.And(z3.Not(vowel(c)), c != f, OCC(k, c)), schr(c))]


def sk_hint(S):
    u = U(S)
    k = S.k
    return [('consonants', CRANK(k + 1) == CRANK(k) + z3.If(cons_new(u, k), 1, 0)), ('vowels', VRANK(k + 1) == VRANK(k) + z3.If(vow_new(u, k), 1, 0)), ('letters', forall([c], OCC(k + 1, c) == z3.Or(OCC(k, c), sat(u, k) == c), schr(c)))]


def sk_post(S):
    u = U(S)
    r = S.rawresult
    if isinstance(r, str): return [slen(u) == 0, empty(S, r)]
    sep, ln, arr = joined(S, r)
    return [sep, slen(u) > 0] + layout(u, ln, arr, slen(u))


# cologne
RULES = {'AEIOUJY': '0', 'BP': '1', 'FVW': '3', 'GKQ': '4', 'L': '5', 'MN': '6', 'R': '7', 'SZ': '8'}
EMIT = z3.Function('codes_before', I, I)
SQZ = z3.Function('squeezed', SS, SS)


def among(x, s): return z3.Or(*[x == ord(v) for v in s])


def N(S):
    s = upper(S.arg('name'))
    for a, b in (('\xc4', 'A'), ('\xd6', 'O'), ('\xdc', 'U'), ('\xdf', 'SS'), ('PH', 'F')): s = REPL(s, TY.str_const(a), TY.str_const(b))
    return CLEAN(UNI(s))


def code(S, q):
    """(emits, code) of the letter at q"""
    u = N(S)
    x, last = sat(u, q), slen(u) - 1
    nxt, prv = sat(u, q + 1), sat(u, q - 1)
    has = q < last
    C = TY.str_const
    four = z3.Or(z3.And(q == 0, has, among(nxt, 'AHKLOQRUX')), z3.And(q > 0, has, among(nxt, 'AHKOQUX'), z3.Not(among(prv, 'SZ'))))
    r = z3.If(z3.And(q > 0, among(prv, 'CQK')), C('8'), C('48'))
    r = z3.If(x == ord('C'), z3.If(four, C('4'), C('8')), r)
    r = z3.If(among(x, 'DT'), z3.If(z3.And(has, among(nxt, 'CSZ')), C('8'), C('2')), r)
    for ls, d in RULES.items(): r = z3.If(among(x, ls), C(d), r)
    return x != ord('H'), r


def co_pre(S): return [EMIT(0) == 0] + rank(EMIT, lambda q: code(S, q)[0])


def pieces(S, n, arr, k):
    em, cd = code(S, p)
    return [n == EMIT(k), forall([p], implies(z3.And(0 <= p, p < k, em), z3.And(EMIT(p) < n, arr[EMIT(p)] == cd)), EMIT(p)), forall([p], implies(z3.And(0 <= p, p < n), slen(arr[p]) >= 1), arr[p])]


def co_inv(S):
    if S.code.c.t is None: return []
    return [S.name == N(S), S.last_i == slen(N(S)) - 1] + pieces(S, S.code.n, S.code.arr, S.k)


def table(E, st):
    import ast as A
    try: t = A.literal_eval(E.module.globals['CODES'].value)
    except Exception: raise Stale('the table is not a literal')
    return Opaque('codes', table=t)


def codes_get(E, st, args, kw, node, f):
    x = sat(E.lift(args[0]), 0)
    if len(args) != 1: raise Unsupported('get')
    out = []
    t = f.base.table
    for v in sorted({v for v in t.values() if v is not None}):
        a = st.copy()
        a.assume(among(x, [k for k in t if t[k] == v]))
        out.append((a, v))
    a = st.copy()
    a.assume(z3.Not(among(x, [k for k in t if t[k] is not None])))
    return out + [(a, None)]


codes_get.wants_fn = True


def squeeze_(E, st, env, node):
    """the contract of squeeze: nothing is lost but repetitions"""
    s = E.lift(env['string'])
    if env.get('keep_roman_numerals', False) is not False: raise Stale('roman numerals')
    E.squeezed = s
    # lemma JOIN
    if s.decl().name() == 'str_join':
        n, arr = s.arg(1), s.arg(2)
        st.assume(implies(forall([p], implies(z3.And(0 <= p, p < n), slen(arr[p]) >= 1), arr[p]), slen(s) >= n))
    st.assume(implies(slen(s) >= 1, slen(SQZ(s)) >= 1))
    return [(st, SQZ(s))]


def replace(E, st, v, args, kw, node):
    if len(args) != 2 or kw: raise Stale('replace with a count')
    return None if isinstance(v, str) else [(st, REPL(E.lift(v), E.lift(args[0]), E.lift(args[1])))]


def co_post(S):
    r = S.rawresult
    if isinstance(r, str): return [empty(S, r), EMIT(slen(N(S))) == 0]
    s = S._E.squeezed
    sep, n, arr = joined(S, s)
    q = SQZ(s)
    return [sep] + pieces(S, n, arr, slen(N(S))) + [S._E.lift(r) == TY.scat(schr(sat(q, 0)), REPL(TY.ssub(q, 1, slen(q)), TY.str_const('0'), TY.str_const('')))]


def join_lemma():
    def goals():
        arr = z3.Const('arr', z3.ArraySort(I, SS)); n = z3.Int('n'); e = TY.str_const('')
        h = lambda m: forall([p], implies(z3.And(0 <= p, p < m), slen(arr[p]) >= 1), arr[p])
        J = lambda m: TY.join_fn(e, m, arr)
        return [('base', [], slen(J(z3.IntVal(0))) >= 0), ('step', [n >= 0, h(n + 1), implies(h(n), slen(J(n)) >= n), slen(e) == 0], slen(J(n + 1)) >= n + 1)]
    return Lemma('JOIN: joining n strings that are not empty gives n characters at least (induction)', goals)


# squeeze
SQR = z3.Function('squeezed_but_roman', SS, SS)


def re_sub(E, st, args, kw, node, f):
    r = f.base
    if args[0] != '\\1' or len(args) != 2: raise Stale('the replacement')
    if (r.pattern, r.flags) == ('(.)\\1+', ('re.DOTALL',)): return [(st, SQZ(E.lift(args[1])))]
    if r.pattern == '([^IXCMixcm])\\1+' and r.flags in ((), ('re.DOTALL',)): return [(st, SQR(E.lift(args[1])))]
    raise Stale('the pattern')


re_sub.wants_fn = True


# rusalka: defined on every string
ANY = z3.Function('substituted', SS, SS)


def ru_sub(E, st, args, kw, node):
    x = E.fresh('sub', SS)
    st.assume(slen(x) >= 0)
    return [(st, x)]


def ru_text(E, st, v, args, kw, node):
    x = E.fresh('lower', SS)
    st.assume(slen(x) >= 0)
    return [(st, x)]


def rules(name):
    def f(E, st):
        import ast as A
        for n in E.module.tree.body:
            if isinstance(n, A.Assign) and isinstance(n.targets[0], A.Name) and n.targets[0].id == name and isinstance(n.value, A.List):
                try: return Tup([Tup([Opaque('re', pattern=a, flags=()), b]) for a, b in A.literal_eval(n.value)])
                except Exception: pass
        raise Stale('the rules are not a literal')
    return f


RU = {'re.compile': compile_, 're.sub': ru_sub, 'unidecode.unidecode': lambda E, st, args, kw, node: ru_text(E, st, None, args, kw, node), 'method:str.lower': ru_text,
      're.match': lambda E, st, args, kw, node: [(st, E.fresh('match', z3.BoolSort()))], 'global:RULES': rules('RULES'), 'global:PHONETIC_NOTATION_RULES': rules('PHONETIC_NOTATION_RULES')}


CONTRACTS = [
    Contract('fog/key/omission.py:omission_key', [Case('any string', {'string': STR}, pre=om_pre)], externals=RE, loops={('omission_key', 0): Loop([('vowels so far', om1)]), ('omission_key', 1): Loop([('consonants so far', om2)], force=True)},
             post=[('consonants in the fixed order, then vowels by appearance', om_post)]),
    Contract('fog/key/skeleton.py:skeleton_key', [Case('any string', {'string': STR}, pre=sk_pre)], externals=RE, loops={('skeleton_key', 0): Loop([('key so far', sk_inv)], hint=sk_hint)}, post=[('first letter, then consonants, then vowels by appearance', sk_post)]),
    Contract('fog/phonetics/cologne.py:cologne', [Case('any string', {'name': STR}, pre=co_pre)], externals=dict(RE, **{'global:CODES': table, 'codes.get': codes_get, 'method:str.replace': replace}), summaries={'squeeze': squeeze_},
             loops={('cologne', 1): Loop([('codes so far', co_inv)])}, post=[('the codes of the letters, squeezed, without zeros after the first', co_post)]),
    Contract('fog/utils.py:squeeze', [Case(n, {'string': STR, 'keep_roman_numerals': TConst(b)}) for n, b in (('all characters', False), ('but roman numerals', True))], externals=dict(RE, **{'re.sub': re_sub}),
             post=[('repetitions are collapsed', lambda S: S._E.lift(S.rawresult) == (SQR if S._E.args0raw['keep_roman_numerals'] else SQZ)(S.arg('string')))]),
    Contract('fog/phonetics/rusalka.py:rusalka', [Case('any string', {'name': STR})], externals=RU, post=[('is a string', lambda S: slen(S._E.lift(S.rawresult)) >= 0)]),
]
LEMMAS = [join_lemma()]
COMPLETE = True
ASSUMPTIONS = ['unidecode, str.upper, str.lower and str.replace are functions of their input', "re.sub('[^A-Z]', '', s) leaves letters A-Z only", "the two patterns of squeeze, checked literally, collapse the runs of equal characters (of those that are not roman numerals); idempotence is that of this definition",
               'the regular expressions of rusalka are valid']
