import z3
from pv.driver import *
from pv import theory as TY
from pv.theory import *
from pv.engine import Contract, Case, Loop, Lemma

TOK = TSort('Tok')
ITEM = TSort('Item')
KEY = TSort('Key')


def legal(t):
    """can the term be used in a pattern?"""
    if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT): return False
    return all(legal(c) for c in t.children())


def forall(vs, body, *pats):
    """universal formula; patterns that z3 rejects in this state are left to its own choice"""
    ok = [p for p in pats if all(legal(x) for x in (p.children() if isinstance(p, z3.PatternRef) else [p]))]
    return z3.ForAll(vs, body, patterns=ok)


def exists(vs, body, *pats):
    ok = [p for p in pats if all(legal(x) for x in (p.children() if isinstance(p, z3.PatternRef) else [p]))]
    return z3.Exists(vs, body, patterns=ok)


def implies(a, b): return z3.Implies(a, b)


def const(name, t): return z3.Const(name, t.sort())


def spec_set(x):
    """the set of distinct elements of a parameter seen from a specification"""
    if isinstance(x, SpecC): return x.set
    if isinstance(x, Gen): return TY.elems(x.n, x.arr)
    raise Stale('no set view')


def real(x): return z3.ToReal(x) if x.sort() == z3.IntSort() else x


def sum_fn(name, es, term):
    """name(S) = sum of the real term(x) over the finite set S"""
    return TY.set_sum(name, es, term)


def zero_outside(f, es, D):
    """lemma ZERO: coordinates outside D contribute nothing (proved as zero_lemma)"""
    T_ = z3.Const('T!z', z3.ArraySort(es, z3.BoolSort()))
    return forall([T_], f(TY.union(D, T_)) == f(D), f(TY.union(D, T_)))


def zero_lemma(es=None):
    def goals():
        e = (es or TOK).sort()
        ss = z3.ArraySort(e, z3.BoolSort())
        t = z3.Function('term', e, z3.RealSort())
        D, T_ = z3.Consts('D T', ss); x, y = z3.Consts('x y', e)
        f = sum_fn('lemmaterm', e, lambda v: t(v))
        hyp = forall([y], z3.Implies(z3.Not(D[y]), t(y) == 0), t(y))
        u0 = TY.union(D, TY.empty_set(e))
        ext = lambda X, Y: z3.Implies(forall([y], X[y] == Y[y], X[y]), X == Y)
        return [('extensionality base', [], z3.Implies(z3.ForAll([y], u0[y] == D[y]), z3.ForAll([y], u0[y] == D[y]))),
                ('base', [hyp, u0 == D], f(u0) == f(D)),
                ('step', [hyp, f(TY.union(D, T_)) == f(D)], f(TY.union(D, z3.Store(T_, x, z3.BoolVal(True)))) == f(D))]
    return Lemma('ZERO: coordinates outside the domain add nothing to a sum (induction over finite sets)', goals)
