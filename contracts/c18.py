from contracts.common import *

# A pair of positions is identified by (i, j); the ghost map Y counts how often the pair of items at these positions is yielded.
PP = TTup(INT, INT)
KS = z3.ArraySort(KEY.sort(), z3.BoolSort())
key_f = z3.Function('key_of', ITEM.sort(), KEY.sort())
keys_f = z3.Function('keys_of', ITEM.sort(), TList(KEY).sort())
i, j = z3.Ints('i! j!')


def keyset(x):
    t = keys_f(x)
    return TY.elems(TList(KEY).len(t), TList(KEY).arr(t))


def match(S, a, b):
    if S._E.args0raw['key'] is not None: return key_f(a) == key_f(b)
    return TY.card(TY.inter(keyset(a), keyset(b))) > 0


def sides(S):
    return S.arg('left'), S.arg('right')


def want(S, i, j):
    L, R = sides(S)
    return z3.And(0 <= i, i < L.n, 0 <= j, j < R.n, match(S, L.arr[i], R.arr[j]))


def lids(S): return (('hashjoin', 0), ('hashjoin', 1)) if S._E.args0raw['key'] is not None else (('hashjoin', 2), ('hashjoin', 3))


def inverted(S): return S._E.resolve(S._st, S.raw('A')) is not None and not same(S.raw('A'), S._E.args0raw['left'])


def same(a, b): return a is b or (isinstance(a, Ref) and isinstance(b, Ref) and a.cid == b.cid)


def pos(S):
    o, n = lids(S)
    ka, kb = S.ghost(('k', o)), S.ghost(('k', n))
    return (kb, ka) if inverted(S) else (ka, kb)


def on_yield(S, v):
    L, R = sides(S)
    i, j = pos(S)
    Y = S.ghost('Y')
    p = PP.mk(i, j)
    E, st = S._E, S._st
    return ([('the pair of items at the current positions', z3.And(E.embed(st, v.items[0], ITEM) == L.arr[i], E.embed(st, v.items[1], ITEM) == R.arr[j]))],
            {'Y': z3.Store(Y, p, Y[p] + 1)})


def done(S, cond):
    Y = S.ghost('Y')
    t = Y[PP.mk(i, j)]
    return forall([i, j], t == z3.If(z3.And(cond(i, j), want(S, i, j)), 1, 0), t)


def outer(n):
    def f(S):
        k = S.ghost(('k', n))
        return done(S, lambda i, j: (j if inverted(S) else i) < k)
    return f


def inner(n):
    def f(S):
        o, n_ = lids(S)
        ka, kb = S.ghost(('k', o)), S.ghost(('k', n_))
        def c(i, j):
            a, b = (j, i) if inverted(S) else (i, j)
            return z3.Or(a < ka, z3.And(a == ka, b < kb))
        return done(S, c)
    return f


def post(S):
    return done(S, lambda i, j: z3.BoolVal(True))


LI = TList(ITEM)
K1 = {'key': TFn([ITEM], KEY, key_f), 'keys': None}
K2 = {'key': None, 'keys': TFn([ITEM], TList(KEY), keys_f)}
K3 = {'key': None, 'keys': lambda E, st: Fn('py', fn=lambda E, st, args, kw, node: [(st, lazy(E, st, args[0]))], name='keys')}


def lazy(E, st, x):
    t = keys_f(E.embed(st, x, ITEM))
    return Gen(n=TList(KEY).len(t), arr=TList(KEY).arr(t), t=KEY, bag=None, depth=E.loopdepth)


def nonneg(S):
    if S._E.args0raw['key'] is None:
        x = z3.Const('x!', ITEM.sort())
        return [forall([x], TList(KEY).len(keys_f(x)) >= 0, keys_f(x))]
    return []


CASES = []
for kn, K in (('one key', K1), ('lists of keys', K2), ('lazy keys', K3)):
    CASES.append(Case('two lists, ' + kn, dict(K, left=LI, right=LI), pre=nonneg))
    CASES.append(Case('a stream and a list, ' + kn, dict(K, left=TStream(ITEM), right=LI), pre=nonneg))
    CASES.append(Case('the same list twice, ' + kn, dict(K, left=LI, right=Alias('left')), pre=nonneg))

CONTRACTS = [
    Contract('fog/join/hashjoin.py:hashjoin', CASES, ghost={'Y': z3.K(PP.sort(), z3.IntVal(0))}, on_yield=on_yield, yields=TTup(ITEM, ITEM),
             post=[('every matching pair of positions is yielded exactly once and nothing else', post)],
             loops={('hashjoin', 0): Loop([('yielded so far', outer(('hashjoin', 0)))]), ('hashjoin', 1): Loop([('yielded so far', inner(1))]),
                    ('hashjoin', 2): Loop([('yielded so far', outer(('hashjoin', 2)))]), ('hashjoin', 3): Loop([('yielded so far', inner(3))])},
             externals={'warnings.warn': lambda E, st, args, kw, node: [(st, None)]}),
]
COMPLETE = True
ASSUMPTIONS = ['the key functions are pure, and keys hashable with a consistent equality', 'the right-hand side can be iterated repeatedly (the function warns otherwise)',
               'set intersection and cardinality follow the finite-set axioms']
