"""Types, z3 sorts and the axiomatised theories (finite sets, sequences, sums) used by the verifier."""
import z3

AXIOMS = {}          # name -> (formula) ; registered lazily
_cache = {}


def axiom(name, f):
    if name not in AXIOMS:
        AXIOMS[name] = f


def reset():
    AXIOMS.clear()
    _cache.clear()


class T(object):
    def __eq__(self, o):
        return type(self) is type(o) and self.key() == o.key()

    def __hash__(self):
        return hash((type(self).__name__, self.key()))

    def key(self):
        return ()

    def __repr__(self):
        return self.name()

    def name(self):
        return type(self).__name__


class TInt(T):
    def sort(self): return z3.IntSort()


class TReal(T):
    def sort(self): return z3.RealSort()


class TBool(T):
    def sort(self): return z3.BoolSort()


class TSort(T):
    """values about which nothing is known but equality (and order/truth through uninterpreted functions)"""
    def __init__(self, n): self.n = n
    def key(self): return self.n
    def name(self): return self.n

    def sort(self):
        k = ('sort', self.n)
        if k not in _cache:
            _cache[k] = z3.DeclareSort(self.n)
        return _cache[k]


class TNone(TSort):
    """only None"""
    def __init__(self): self.n = 'NoneType'


class TBV(T):
    def __init__(self, n): self.n = n
    def key(self): return self.n
    def name(self): return 'BV%d' % self.n
    def sort(self): return z3.BitVecSort(self.n)


class TTup(T):
    def __init__(self, *ts): self.ts = tuple(ts)
    def key(self): return self.ts
    def name(self): return 'Tup_' + '_'.join(t.name() for t in self.ts) + '_'

    def dt(self):
        k = ('tup', self.name())
        if k not in _cache:
            d = z3.Datatype(self.name())
            d.declare('mk' + self.name(), *[('%s_%d' % (self.name(), i), t.sort()) for i, t in enumerate(self.ts)])
            _cache[k] = d.create()
            _cache[('bysort', str(_cache[k]))] = self
        return _cache[k]

    def sort(self): return self.dt()
    def mk(self, *xs): return self.dt().constructor(0)(*xs)
    def get(self, i, x): return self.dt().accessor(0, i)(x)


class TList(T):
    def __init__(self, t): self.t = t
    def key(self): return self.t
    def name(self): return 'List_%s_' % (self.t.name() if self.t is not None else '?')

    def dt(self):
        k = ('list', self.name())
        if k not in _cache:
            d = z3.Datatype(self.name())
            n = self.name()
            d.declare('mk' + n, ('len_' + n, z3.IntSort()), ('arr_' + n, z3.ArraySort(z3.IntSort(), self.t.sort())))
            _cache[k] = d.create()
            _cache[('bysort', str(_cache[k]))] = self
        return _cache[k]

    def sort(self): return self.dt()
    def mk(self, n, a): return self.dt().constructor(0)(n, a)
    def len(self, x): return self.dt().accessor(0, 0)(x)
    def arr(self, x): return self.dt().accessor(0, 1)(x)


class TSet(T):
    def __init__(self, t): self.t = t
    def key(self): return self.t
    def name(self): return 'Set_%s_' % (self.t.name() if self.t is not None else '?')
    def sort(self): return z3.ArraySort(self.t.sort(), z3.BoolSort())


class TDict(T):
    def __init__(self, k, v): self.k = k; self.v = v
    def key(self): return (self.k, self.v)
    def name(self): return 'Dict_%s_%s_' % (self.k.name() if self.k is not None else '?', self.v.name() if self.v is not None else '?')

    def dt(self):
        k = ('dict', self.name())
        if k not in _cache:
            d = z3.Datatype(self.name())
            n = self.name()
            d.declare('mk' + n, ('dom_' + n, z3.ArraySort(self.k.sort(), z3.BoolSort())), ('val_' + n, z3.ArraySort(self.k.sort(), self.v.sort())))
            _cache[k] = d.create()
            _cache[('bysort', str(_cache[k]))] = self
        return _cache[k]

    def sort(self): return self.dt()
    def mk(self, n, a): return self.dt().constructor(0)(n, a)
    def dom(self, x): return self.dt().accessor(0, 0)(x)
    def val(self, x): return self.dt().accessor(0, 1)(x)


class TCounter(TDict):
    """a Counter: absent keys count 0"""
    def name(self): return 'Counter_%s_%s_' % (self.k.name() if self.k is not None else '?', self.v.name() if self.v is not None else '?')


class TDefault(TDict):
    """a defaultdict: absent keys are given the default of their type"""
    @property
    def factory(self): return self.v


class TOpt(T):
    """None or a value"""
    def __init__(self, t): self.t = t
    def key(self): return self.t
    def name(self): return 'Opt_%s_' % self.t.name()

    def dt(self):
        k = ('opt', self.name())
        if k not in _cache:
            d = z3.Datatype(self.name())
            n = self.name()
            d.declare('none' + n)
            d.declare('some' + n, ('get_' + n, self.t.sort()))
            _cache[k] = d.create()
            _cache[('bysort', str(_cache[k]))] = self
        return _cache[k]

    def sort(self): return self.dt()


class TFn(T):
    """callable parameter: an uninterpreted function"""
    def __init__(self, args, res, sym=None): self.args = tuple(args); self.res = res; self.sym = sym
    def key(self): return (self.args, self.res)


class TStream(T):
    """lazy iterable that can be consumed once, of elements of type t"""
    def __init__(self, t): self.t = t
    def key(self): return self.t


class TExt(T):
    """an int or +infinity"""


class TConst(T):
    """a known Python constant"""
    def __init__(self, v): self.v = v
    def key(self): return repr(self.v)


INT, REAL, BOOL = TInt(), TReal(), TBool()
NONE = TNone()


def ty_of_sort(s):
    r = _cache.get(('bysort', str(s)))
    if r is not None: return r
    if s == z3.IntSort(): return INT
    if s == z3.RealSort(): return REAL
    if s == z3.BoolSort(): return BOOL
    if isinstance(s, z3.BitVecSortRef): return TBV(s.size())
    n = s.name()
    if s.kind() == z3.Z3_UNINTERPRETED_SORT:
        return STR if n == 'Str' else NONE if n == 'NoneType' else TSort(n)
    raise TypeError('no type for sort %s' % s)


# ---------------------------------------------------------------------------------------------
# finite sets
def fn(name, *sorts):
    k = ('fn', name) + tuple(str(s) for s in sorts)
    if k not in _cache:
        _cache[k] = z3.Function(name, *sorts)
    return _cache[k]


def bit(x, j):
    """bit j >= 0 of the integer x (two's complement), 0 or 1"""
    return bitop('bit')(x, j)


def bitop(name):
    """bitwise operations, given bit by bit"""
    I = z3.IntSort()
    f = {n: fn('int_' + n, I, I, I) for n in ('bit', 'and', 'or', 'xor', 'shl', 'shr')}
    if 'bit.range' not in AXIOMS:
        x, y, i, j = z3.Ints('x! y! i! j!')
        B = f['bit']
        axiom('bit.range', z3.ForAll([x, j], z3.And(0 <= B(x, j), B(x, j) <= 1), patterns=[B(x, j)]))
        axiom('bit.low', z3.ForAll([x], B(x, 0) == x % 2, patterns=[B(x, 0)]))
        axiom('bit.small', z3.ForAll([x, j], z3.Implies(z3.And(0 <= x, x <= 1, j > 0), B(x, j) == 0), patterns=[B(x, j)]))
        for n, g in (('and', lambda a, b: z3.And(a == 1, b == 1)), ('or', lambda a, b: z3.Or(a == 1, b == 1)), ('xor', lambda a, b: a != b)):
            F = f[n]
            axiom('bit.' + n, z3.ForAll([x, y, j], z3.Implies(j >= 0, B(F(x, y), j) == z3.If(g(B(x, j), B(y, j)), 1, 0)), patterns=[B(F(x, y), j)]))
            axiom('bit.sign.' + n, z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, y >= 0), F(x, y) >= 0), patterns=[F(x, y)]))
        axiom('bit.xor1', z3.ForAll([x], f['xor'](x, 1) == x + 1 - 2 * (x % 2), patterns=[f['xor'](x, 1)]))
        axiom('bit.shl', z3.ForAll([x, i, j], z3.Implies(z3.And(i >= 0, j >= 0), B(f['shl'](x, i), j) == z3.If(j < i, 0, B(x, j - i))), patterns=[B(f['shl'](x, i), j)]))
        axiom('bit.sign.shl', z3.ForAll([x, i], z3.Implies(z3.And(x >= 0, i >= 0), f['shl'](x, i) >= 0), patterns=[f['shl'](x, i)]))
        axiom('bit.shr', z3.ForAll([x, i], z3.Implies(i >= 0, f['shr'](x, i) % 2 == B(x, i)), patterns=[f['shr'](x, i)]))
        # words of 64 bits
        axiom('bit.word', z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < 2 ** 64, 0 <= y, y < 2 ** 64), f['xor'](x, y) < 2 ** 64), patterns=[f['xor'](x, y)]))
    return f[name]


def forall(vs, body, pats=None, qid=''):
    return z3.ForAll(vs, body, patterns=pats or [], qid=qid)


def total_order(s):
    """a strict total order on a sort"""
    nm = 'lt_%s' % s.name()
    lt = fn(nm, s, s, z3.BoolSort())
    x, y, z = z3.Consts('x!lt y!lt z!lt', s)
    axiom(nm + '.asym', forall([x, y], z3.And(z3.Not(z3.And(lt(x, y), lt(y, x))), z3.Implies(z3.Not(lt(x, y)), z3.Or(x == y, lt(y, x))), z3.Not(lt(x, x))), [lt(x, y)]))
    axiom(nm + '.trans', forall([x, y, z], z3.Implies(z3.And(lt(x, y), lt(y, z)), lt(x, z)), [z3.MultiPattern(lt(x, y), lt(y, z))]))
    return lt


def empty_set(es):
    return z3.K(es, z3.BoolVal(False))


def card(S):
    """cardinality of a finite set, with its axioms"""
    es = S.sort().domain()
    nm = 'card_%s' % es.name()
    c = fn(nm, S.sort(), z3.IntSort())
    if nm + '.empty' not in AXIOMS:
        A = z3.Const('A!', S.sort()); x = z3.Const('x!', es)
        axiom(nm + '.empty', c(empty_set(es)) == 0)
        st = z3.Store(A, x, z3.BoolVal(True))
        axiom(nm + '.add', forall([A, x], c(st) == c(A) + z3.If(A[x], 0, 1), [c(st)]))
        st2 = z3.Store(A, x, z3.BoolVal(False))
        axiom(nm + '.remove', forall([A, x], c(st2) == c(A) - z3.If(A[x], 1, 0), [c(st2)]))
        axiom(nm + '.nonneg', forall([A], c(A) >= 0, [c(A)]))
        axiom(nm + '.zero', forall([A], z3.Implies(c(A) == 0, A == empty_set(es)), [c(A)]))
        B = z3.Const('B!', S.sort())
        sub = fn('subset_%s' % es.name(), S.sort(), S.sort(), z3.BoolSort())
        axiom(nm + '.mono', forall([A, B], z3.Implies(sub(A, B), c(A) <= c(B)), [sub(A, B)]))
        axiom(nm + '.monoeq', forall([A, B], z3.Implies(z3.And(sub(A, B), c(A) == c(B)), A == B), [sub(A, B)]))
        subset(A, B)
        i = inter(A, B); u = union(A, B)
        axiom(nm + '.inclusion', forall([A, B], c(i) + c(u) == c(A) + c(B), [c(i)]))
        axiom(nm + '.inclusion2', forall([A, B], c(i) + c(u) == c(A) + c(B), [c(u)]))
        axiom(nm + '.interle', forall([A, B], z3.And(c(i) <= c(A), c(i) <= c(B)), [c(i)]))
        d = diff(A, B)
        axiom(nm + '.diff', forall([A, B], c(d) == c(A) - c(i), [c(d)]))
    return c(S)


def subset(A, B):
    es = A.sort().domain()
    nm = 'subset_%s' % es.name()
    f = fn(nm, A.sort(), A.sort(), z3.BoolSort())
    if nm + '.def' not in AXIOMS:
        X = z3.Const('A!', A.sort()); Y = z3.Const('B!', A.sort()); x = z3.Const('x!', es)
        axiom(nm + '.def', forall([X, Y], f(X, Y) == z3.ForAll([x], z3.Implies(X[x], Y[x]), patterns=[X[x], Y[x]]), [f(X, Y)]))
    return f(A, B)


def _setop(nm, mem):
    def op(A, B):
        es = A.sort().domain()
        n = '%s_%s' % (nm, es.name())
        f = fn(n, A.sort(), A.sort(), A.sort())
        if n + '.def' not in AXIOMS:
            X = z3.Const('A!', A.sort()); Y = z3.Const('B!', A.sort()); x = z3.Const('x!', es)
            axiom(n + '.def', forall([X, Y, x], f(X, Y)[x] == mem(X[x], Y[x]), [f(X, Y)[x]]))
            st = z3.Store(X, x, z3.BoolVal(True))
            if nm == 'inter':
                axiom(n + '.add', forall([X, Y, x], f(st, Y) == z3.If(Y[x], z3.Store(f(X, Y), x, z3.BoolVal(True)), f(X, Y)), [f(st, Y)]))
                axiom(n + '.comm', forall([X, Y], f(X, Y) == f(Y, X), [f(X, Y)]))
                axiom(n + '.empty', forall([Y], f(empty_set(es), Y) == empty_set(es), [f(empty_set(es), Y)]))
            if nm == 'union':
                axiom(n + '.add', forall([X, Y, x], f(st, Y) == z3.Store(f(X, Y), x, z3.BoolVal(True)), [f(st, Y)]))
                axiom(n + '.comm', forall([X, Y], f(X, Y) == f(Y, X), [f(X, Y)]))
        return f(A, B)
    return op


inter = _setop('inter', lambda a, b: z3.And(a, b))
union = _setop('union', lambda a, b: z3.Or(a, b))
diff = _setop('diff', lambda a, b: z3.And(a, z3.Not(b)))


def set_axiom_lemmas(es):
    """derived facts about the set operations, as goals to prove from the membership axioms alone"""
    out = []
    s = z3.ArraySort(es, z3.BoolSort())
    X, Y = z3.Consts('X Y', s); x = z3.Const('x', es)
    return out


def elems(n, arr):
    """the set of the first n cells of an array"""
    es = arr.sort().range()
    nm = 'elems_%s' % es.name()
    ss = z3.ArraySort(es, z3.BoolSort())
    f = fn(nm, z3.IntSort(), arr.sort(), ss)
    w = fn(nm + '_at', z3.IntSort(), arr.sort(), es, z3.IntSort())
    if nm + '.in' not in AXIOMS:
        a = z3.Const('a!', arr.sort()); m, i = z3.Ints('m! i!'); x = z3.Const('x!', es)
        axiom(nm + '.in', forall([m, a, i], z3.Implies(z3.And(0 <= i, i < m), f(m, a)[a[i]]), [z3.MultiPattern(f(m, a), a[i])]))
        axiom(nm + '.at', forall([m, a, x], z3.Implies(f(m, a)[x], z3.And(0 <= w(m, a, x), w(m, a, x) < m, a[w(m, a, x)] == x)), [f(m, a)[x]]))
        axiom(nm + '.empty', forall([a], f(0, a) == empty_set(es), [f(0, a)]))
        # derived (see lemmas): appending / truncating
        axiom(nm + '.snoc', forall([m, a, x], z3.Implies(m >= 0, f(m + 1, z3.Store(a, m, x)) == z3.Store(f(m, a), x, z3.BoolVal(True))), [z3.Store(a, m, x)]))
    return f(n, arr)


# ---------------------------------------------------------------------------------------------
# strings: an uninterpreted sort with length, characters and extensional equality
class TStr(T):
    def sort(self):
        k = ('sort', 'Str')
        if k not in _cache:
            _cache[k] = z3.DeclareSort('Str')
        return _cache[k]


STR = TStr()
CHAR = INT


def _strfns():
    S = STR.sort()
    return (fn('slen', S, z3.IntSort()), fn('sat', S, z3.IntSort(), z3.IntSort()),
            fn('ssub', S, z3.IntSort(), z3.IntSort(), S), fn('scat', S, S, S),
            fn('schr', z3.IntSort(), S), fn('sdiff', S, S, z3.IntSort()))


def str_axioms():
    slen, sat, ssub, scat, schr, sdiff = _strfns()
    if 'str.len' in AXIOMS:
        return
    S = STR.sort()
    a, b = z3.Consts('a! b!', S); i, j, k = z3.Ints('i! j! k!')
    axiom('str.len', forall([a], slen(a) >= 0, [slen(a)]))
    axiom('str.sublen', forall([a, i, j], z3.Implies(z3.And(0 <= i, i <= j, j <= slen(a)), slen(ssub(a, i, j)) == j - i), [ssub(a, i, j)]))
    axiom('str.subat', forall([a, i, j, k], z3.Implies(z3.And(0 <= i, i <= j, j <= slen(a), 0 <= k, k < j - i), sat(ssub(a, i, j), k) == sat(a, i + k)), [sat(ssub(a, i, j), k)]))
    axiom('str.catlen', forall([a, b], slen(scat(a, b)) == slen(a) + slen(b), [scat(a, b)]))
    axiom('str.catat1', forall([a, b, k], z3.Implies(z3.And(0 <= k, k < slen(a)), sat(scat(a, b), k) == sat(a, k)), [sat(scat(a, b), k)]))
    axiom('str.catat2', forall([a, b, k], z3.Implies(z3.And(slen(a) <= k, k < slen(a) + slen(b)), sat(scat(a, b), k) == sat(b, k - slen(a))), [sat(scat(a, b), k)]))
    axiom('str.chr', forall([k], z3.And(slen(schr(k)) == 1, sat(schr(k), 0) == k), [schr(k)]))


def slen(a):
    str_axioms(); return _strfns()[0](a)


def sat(a, i):
    str_axioms(); return _strfns()[1](a, i)


def ssub(a, i, j):
    str_axioms(); return _strfns()[2](a, i, j)


def scat(a, b):
    str_axioms(); return _strfns()[3](a, b)


def schr(c):
    str_axioms(); return _strfns()[4](c)


def shas(a, c):
    """the character c occurs in a"""
    str_axioms()
    f = fn('shas', STR.sort(), z3.IntSort(), z3.BoolSort()); w = fn('shas_at', STR.sort(), z3.IntSort(), z3.IntSort())
    if 'shas.at' not in AXIOMS:
        s = z3.Const('a!', STR.sort()); i, k = z3.Ints('i! k!')
        axiom('shas.at', forall([s, k], z3.Implies(f(s, k), z3.And(0 <= w(s, k), w(s, k) < slen(s), sat(s, w(s, k)) == k)), [f(s, k)]))
        axiom('shas.in', forall([s, k, i], z3.Implies(z3.And(0 <= i, i < slen(s), sat(s, i) == k), f(s, k)), [z3.MultiPattern(f(s, k), sat(s, i))]))
    return f(a, c)


def seq_ext(a, b):
    """an instance of extensionality: equal length and equal characters imply equality"""
    str_axioms()
    d = _strfns()[5](a, b)
    return z3.Implies(z3.And(slen(a) == slen(b), z3.Implies(z3.And(0 <= d, d < slen(a)), sat(a, d) == sat(b, d))), a == b)


def str_const(s):
    if len(s) == 1: return schr(z3.IntVal(ord(s)))
    k = ('strconst', s)
    if k not in _cache:
        c = z3.Const('str!%s' % ''.join(ch if ch.isalnum() else '_%x_' % ord(ch) for ch in s), STR.sort())
        _cache[k] = c
    c = _cache[k]
    if 'strconst.%r' % s not in AXIOMS:
        axiom('strconst.%r' % s, z3.And([slen(c) == len(s)] + [sat(c, i) == ord(ch) for i, ch in enumerate(s)]))
    return c


# ---------------------------------------------------------------------------------------------
# sums over finite sets
def set_sum(name, es, term, rs=None):
    """declares sum_name(S) = sum of term(x) over x in S, by its recursive definition"""
    rs = rs if rs is not None else z3.RealSort()
    ss = z3.ArraySort(es, z3.BoolSort())
    f = fn('sum_' + name, ss, rs)
    A = z3.Const('A!', ss); x = z3.Const('x!', es)
    st = z3.Store(A, x, z3.BoolVal(True))
    axiom('sum_%s.empty' % name, f(empty_set(es)) == 0)
    axiom('sum_%s.add' % name, forall([A, x], f(st) == f(A) + z3.If(A[x], 0, term(x)), [f(st)]))
    return f


def ident(s):
    k = ('ident', s)
    if k not in _cache:
        _cache[k] = 'e%d' % (1 + sum(1 for x in _cache if x[0] == 'ident'))
    return _cache[k]


def prefix_sum(name, term, rs):
    """psum(n) = sum of term(i) for 0 <= i < n"""
    f = fn('psum_' + name, z3.IntSort(), rs)
    i = z3.Int('i!')
    axiom('psum_%s.zero' % name, forall([i], z3.Implies(i <= 0, f(i) == 0), [f(i)]))
    axiom('psum_%s.step' % name, forall([i], z3.Implies(i >= 0, f(i + 1) == f(i) + term(i)), [f(i + 1)]))
    return f


def bag_of_list(n, arr):
    """multiplicities in the first n cells"""
    es = arr.sort().range()
    bs = z3.ArraySort(es, z3.IntSort())
    nm = 'bagof_%s' % es.name()
    f = fn(nm, z3.IntSort(), arr.sort(), bs)
    if nm + '.zero' not in AXIOMS:
        a = z3.Const('a!', arr.sort()); m = z3.Int('m!'); x = z3.Const('x!', es)
        axiom(nm + '.zero', forall([a], f(0, a) == z3.K(es, z3.IntVal(0)), [f(0, a)]))
        axiom(nm + '.step', forall([m, a], z3.Implies(m >= 0, f(m + 1, a) == z3.Store(f(m, a), a[m], f(m, a)[a[m]] + 1)), [f(m + 1, a)]))
        k = z3.Int('k!')
        axiom(nm + '.frame', forall([m, a, k, x], z3.Implies(k >= m, f(m, z3.Store(a, k, x)) == f(m, a)), [f(m, z3.Store(a, k, x))]))
        axiom(nm + '.nonneg', forall([m, a, x], f(m, a)[x] >= 0, [f(m, a)[x]]))
        axiom(nm + '.mem', forall([m, a, x], (f(m, a)[x] > 0) == elems(m, a)[x], [f(m, a)[x]]))
    return f(n, arr)
