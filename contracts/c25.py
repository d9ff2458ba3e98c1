"""Fingerprints.  Regular expressions are compiled patterns applied by re.sub and re.split, which are external: the pipeline is checked
against the documented one, whatever they do; the canonical form (distinct, strictly increasing) is proved."""
from contracts.common import *

SS, I = STR.sort(), z3.IntSort()
PAT = z3.DeclareSort('Pattern')
COMP = z3.Function('compile', SS, I, PAT)
SUB = z3.Function('re_sub', PAT, SS, SS, SS)
NSPLIT, SPLIT = z3.Function('re_split_count', PAT, SS, I), z3.Function('re_split', PAT, SS, z3.ArraySort(I, SS))
UNI, STRIP, ESC, SQZ = z3.Function('unidecode', SS, SS), z3.Function('strip', SS, SS), z3.Function('escape', SS, SS), z3.Function('squeezed', SS, SS)
LT_ = z3.Function('string_before', SS, SS, z3.BoolSort())
NUM = z3.Function('number_text', I, SS)
LST = TList(STR)
p, q, r = z3.Ints('p! q! r!')
a, b, c = z3.Consts('a! b! c!', SS)
FLAGS = {'re.I': 2, 're.IGNORECASE': 2}


def lower(s): return TY.fn('str_lower', SS, SS)(s)
def lit(s): return TY.str_const(s)


def order():
    return [forall([a], z3.Not(LT_(a, a)), LT_(a, a)), forall([a, b], z3.Or(LT_(a, b), a == b, LT_(b, a)), LT_(a, b)),
            forall([a, b, c], implies(z3.And(LT_(a, b), LT_(b, c)), LT_(a, c)), z3.MultiPattern(LT_(a, b), LT_(b, c)))]


# ------------------------------------------------------------------------------------------- externals
def compile_(E, st, args, kw, node):
    fl = 0
    for x in args[1:]:
        n = getattr(x, 'name', None)
        if n not in FLAGS: raise Stale('flags of a pattern')
        fl |= FLAGS[n]
    if kw: raise Stale('compile')
    return [(st, Opaque('re', term=COMP(E.lift(args[0]), z3.IntVal(fl))))]


def pat(v):
    if not isinstance(v, Opaque) or getattr(v, 'term', None) is None: raise Stale('a pattern that is not compiled')
    return v.term


def sub(E, st, args, kw, node, f=None):
    if 'term' in getattr(getattr(f, 'base', None), '__dict__', {}) and len(args) < 3: args = [f.base] + list(args)
    if len(args) != 3 or kw: raise Stale('re.sub')
    return [(st, SUB(pat(args[0]), E.lift(args[1]), E.lift(args[2])))]


sub.wants_fn = True


def split(E, st, args, kw, node, f=None):
    if 'term' in getattr(getattr(f, 'base', None), '__dict__', {}) and len(args) < 2: args = [f.base] + list(args)
    if len(args) != 2 or kw: raise Stale('re.split')
    x, s = pat(args[0]), E.lift(args[1])
    st.assume(NSPLIT(x, s) >= 1)
    return [(st, E.new_cell(st, Lst(NSPLIT(x, s), SPLIT(x, s), STR)))]


split.wants_fn = True


def f1(F): return lambda E, st, v, args, kw, node: None if args or kw or isinstance(v, str) else [(st, F(E.lift(v)))]


def sorted_(E, st, args, kw, node):
    if kw or len(args) != 1: raise Stale('sorted with options')
    l = E.sort_list(st, args[0], {}, node)
    c_ = E.read(st, l)
    if c_.t is not STR and repr(c_.t) != repr(STR): raise Stale('sorted')
    st.assume(forall([p, q], implies(z3.And(0 <= p, p < q, q < c_.n), z3.Not(LT_(c_.arr[q], c_.arr[p]))), z3.MultiPattern(c_.arr[p], c_.arr[q])))
    return [(st, l)]


def squeeze_(E, st, env, node):
    if env.get('keep_roman_numerals', False) is not False: raise Stale('squeeze')
    return [(st, SQZ(E.lift(env['string'])))]


def ngrams_(E, st, env, node):
    """contract of ngrams (proved in c23)"""
    n, s = E.num(env['n']), E.lift(env['tokens'])
    E.oblige(st, 'grams of one character at least', n >= 1, node, 'call')
    return [(st, E.new_cell(st, Lst(GN(n, s), GA(n, s), STR)))]


def GN(n, s): return z3.If(TY.slen(s) < n, 1, TY.slen(s) - n + 1)


GA_ = z3.Function('grams', I, SS, z3.ArraySort(I, SS))


def GA(n, s): return GA_(n, s)


def grams_def(n, s): return [GA(n, s)[0] == z3.If(TY.slen(s) < n, s, TY.ssub(s, 0, n)), forall([p], implies(z3.And(0 <= p, p < TY.slen(s) - n + 1), GA(n, s)[p] == TY.ssub(s, p, p + n)), GA(n, s)[p])]


EXT = {'re.compile': compile_, 're.sub': sub, 're.split': split, 're.escape': lambda E, st, args, kw, node: [(st, ESC(E.lift(args[0])))], 'unidecode.unidecode': lambda E, st, args, kw, node: [(st, UNI(E.lift(args[0])))],
       'method:str.strip': f1(STRIP), 'builtin:sorted': sorted_}
SUM = {'squeeze': squeeze_, 'ngrams': ngrams_}


# ------------------------------------------------------------------------------------------- the pipeline
SPL, STOP, MIN = [z3.Const(n, PAT) for n in ('split_re', 'stopwords_re', 'min_token_size_re')]
KEEP, SQUEEZE = z3.Bool('keep_digits'), z3.Bool('squeeze')


def tokenizer(cls, has):
    def f(E, st):
        o = {n: Opaque('re', term=t) if h else None for (n, t), h in zip((('split_re', SPL), ('stopwords_re', STOP), ('min_token_size_re', MIN)), has)}
        o.update(keep_digits=KEEP, squeeze=SQUEEZE)
        return E.new_cell(st, Obj(E.global_value(st, E.module, cls), o))
    return f


def norm(S):
    s = S.arg('string')
    o = S._E.read(S._st, S._E.args0raw['self']).fields
    sub_ = lambda x, y, t: SUB(x, lit(y), t)
    if o['split_re'] is not None: s = sub_(SPL, ' ', s)
    if o['stopwords_re'] is not None: s = sub_(STOP, '', s)
    s = z3.If(KEEP, s, sub_(COMP(lit('\\d+'), 0), '', s))
    s = lower(s)
    if o['min_token_size_re'] is not None: s = sub_(MIN, '', s)
    s = STRIP(sub_(COMP(lit('[^a-z0-9\\s]'), 0), '', lower(UNI(s))))
    return z3.If(SQUEEZE, SQZ(s), s)


WS = '\\s+'


def tokens(S, grams):
    s = norm(S)
    w = COMP(lit(WS), 0)
    if not grams: return NSPLIT(w, s), SPLIT(w, s)
    s = SUB(w, lit(''), s)
    return GN(S.arg('n'), s), GA(S.arg('n'), s)


def canonical(S, R, grams):
    n, arr = tokens(S, grams)
    return [forall([p, q], implies(z3.And(0 <= p, p < q, q < R.n), LT_(R.arr[p], R.arr[q])), z3.MultiPattern(R.arr[p], R.arr[q])),
            forall([a], TY.elems(R.n, R.arr)[a] == TY.elems(n, arr)[a], TY.elems(R.n, R.arr)[a]), R.n >= 0]


def pre(grams): return lambda S: order() + ([S.arg('n') >= 1] if grams else [])


def tok_post(grams): return lambda S: canonical(S, S.result, grams)


# key: the tokens joined
TOKS, NT = z3.Const('the_tokens', z3.ArraySort(I, SS)), z3.Int('token_count')


def tokenize_(E, st, env, node):
    for k in ('string', 'n'):
        if k in E.args0raw and not (k in env and z3.eq(E.lift(env[k]) if k == 'string' else E.num(env[k]), E.args0[k])): raise Stale('tokenize is given something else')
    st.assume(NT >= 0)
    return [(st, E.new_cell(st, Lst(NT, TOKS, STR)))]


def key_(sep):
    def f(E, st, env, node):
        for k in ('string', 'n'):
            if k in E.args0raw and not (k in env and z3.eq(E.lift(env[k]) if k == 'string' else E.num(env[k]), E.args0[k])): raise Stale('key is given something else')
        return [(st, TY.join_fn(lit(sep), NT, TOKS))]
    return f


def key_post(sep): return lambda S: S._E.lift(S.rawresult) == TY.join_fn(lit(sep), NT, TOKS)
def call_post(S): return [S.result.n == NT, S.result.arr == TOKS]


# the constructor
def ini(has):
    def f(E, st):
        return E.new_cell(st, Obj(E.global_value(st, E.module, 'FingerprintTokenizer'), {}))
    return f


def init_post(S):
    E = S._E
    o = E.read(S._st, E.args0raw['self']).fields
    A = E.args0raw
    out = [z3.BoolVal(o.get('keep_digits') is A['keep_digits']), z3.BoolVal(o.get('squeeze') is A['squeeze'])]
    if A['split'] is None: out.append(z3.BoolVal(o['split_re'] is None))
    else:
        l = S.arg('split')
        out.append(pat(o['split_re']) == COMP(TY.scat(TY.scat(lit('['), ESC(TY.join_fn(lit(''), l.n, l.arr))), lit(']')), 0))
    if A['stopwords'] is None: out.append(z3.BoolVal(o['stopwords_re'] is None))
    else:
        l = S.arg('stopwords')
        t = pat(o['stopwords_re'])
        w = z3.Const('words!', z3.ArraySort(I, SS))
        j = z3.Not(z3.BoolVal(False))
        parts = t.arg(0)
        if parts.decl().name() != 'scat' or parts.arg(0).arg(1).decl().name() != 'str_join': raise Stale('the pattern of the stopwords')
        jn = parts.arg(0).arg(1)
        out += [t.arg(1) == 2, parts.arg(0).arg(0) == lit('(?:'), parts.arg(1) == lit(')'), jn.arg(0) == lit('|'), jn.arg(1) == l.n,
                forall([p], implies(z3.And(0 <= p, p < l.n), jn.arg(2)[p] == TY.scat(TY.scat(lit('\\b'), ESC(l.arr[p])), lit('\\b'))), jn.arg(2)[p], l.arr[p])]
    if A['min_token_size'] is None: out.append(z3.BoolVal(o['min_token_size_re'] is None))
    elif o['min_token_size_re'] is None: out.append(S.arg('min_token_size') <= 1)
    else: out.append(S.arg('min_token_size') > 1)
    return out


def unique_lemma():
    """two strictly increasing lists with the same members are equal"""
    def goals():
        A, B = [z3.Const(n, z3.ArraySort(I, SS)) for n in ('A', 'B')]
        n, m = z3.Ints('n m')
        qa, qb = z3.Function('place_in_a', I, I), z3.Function('place_in_b', I, I)
        inc = lambda X, k: forall([p, q], implies(z3.And(0 <= p, p < q, q < k), LT_(X[p], X[q])), z3.MultiPattern(X[p], X[q]))
        same = [forall([p], implies(z3.And(0 <= p, p < n), z3.And(0 <= qb(p), qb(p) < m, B[qb(p)] == A[p])), A[p]), forall([p], implies(z3.And(0 <= p, p < m), z3.And(0 <= qa(p), qa(p) < n, A[qa(p)] == B[p])), B[p])]
        hyp = order() + [inc(A, n), inc(B, m), n >= 0, m >= 0] + same
        k = z3.Int('k')
        eq = lambda k: forall([p], implies(z3.And(0 <= p, p < k), A[p] == B[p]), A[p], B[p])
        return [('one position more', hyp + [0 <= k, k < n, k < m, eq(k)], A[k] == B[k]), ('no list ends before the other', hyp + [eq(n), n < m], z3.Not(A[qa(n)] == B[n])), ('nor the other way round', hyp + [eq(m), m < n], z3.Not(B[qb(m)] == A[m]))]
    return Lemma('UNIQUE: strictly increasing lists with the same members are equal, so the fingerprint depends on the set of the tokens only (induction)', goals)


T = 'fog/tokenizers/fingerprint.py:'
HAS = [(x, y, z) for x in (False, True) for y in (False, True) for z in (False, True)]
NM = lambda h: ', '.join(w for w, x in zip(('split', 'stopwords', 'minimum size'), h) if x) or 'no option'
OPTS = [('split', None, TList(STR)), ('stopwords', None, TList(STR)), ('min_token_size', None, INT)]
CONTRACTS = [
    Contract(T + 'FingerprintTokenizer.tokenize', [Case(NM(h), {'self': tokenizer('FingerprintTokenizer', h), 'string': STR}, pre=pre(False)) for h in HAS], externals=EXT, summaries=SUM, post=[('the distinct tokens, strictly increasing', tok_post(False))]),
    Contract(T + 'NgramsFingerprintTokenizer.tokenize', [Case(NM(h), {'self': tokenizer('NgramsFingerprintTokenizer', h), 'n': INT, 'string': STR}, pre=pre(True)) for h in HAS], externals=EXT, summaries=SUM, post=[('the distinct n-grams, strictly increasing', tok_post(True))]),
    Contract(T + 'FingerprintTokenizer.__init__', [Case(NM(h), dict({'self': ini(h), 'keep_digits': BOOL, 'squeeze': BOOL}, **{n: (t if x else None) for (n, _, t), x in zip(OPTS, h)}), pre=None) for h in HAS], mutates=('self',), externals=EXT, post=[('the patterns of the options', init_post)]),
]
for cls, sep, params in (('FingerprintTokenizer', ' ', {'string': STR}), ('NgramsFingerprintTokenizer', '', {'n': INT, 'string': STR})):
    o = dict({'self': tokenizer(cls, (False, False, False))}, **params)
    CONTRACTS += [Contract(T + cls + '.key', [Case('', o)], summaries={'tokenize': tokenize_}, post=[('the tokens joined', key_post(sep))]),
                  Contract(T + cls + '.__call__', [Case('', o)], summaries={'tokenize': tokenize_}, post=[('the tokens', call_post)])]
for cls, sep, params in (('FingerprintingKeyer', ' ', {'string': STR}), ('NgramsFingerprintKeyer', '', {'n': INT, 'string': STR})):
    CONTRACTS += [Contract('fog/key/fingerprint.py:' + cls + '.__call__', [Case('', dict({'self': tokenizer(cls, (False, False, False))}, **params))], summaries={'key': key_(sep)}, post=[('the key', key_post(sep))])]
LEMMAS = [unique_lemma()]
COMPLETE = False
BOUNDED = ['that the regular expressions and unidecode absorb case, accents, punctuation and whitespace', 'idempotence', 'the pattern of the minimum token size']
ASSUMPTIONS = ['re.sub, re.split, re.escape, unidecode, str.lower and str.strip are functions of their input; strings are totally ordered', 'n-grams as proved in C23', 'squeeze as proved in C24']
