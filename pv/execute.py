"""Symbolic execution of Python functions: statements, expressions, calls, loops."""
from .engine import *
from .engine import S as SView

PYVERSION = Tup([3, 12])     # the interpreter of /opt/venv
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def simp_true(f):
    return z3.is_true(z3.simplify(f))


_prefix_cache = {}


def mentions_prefix(f, prefixes):
    key = (f.get_id(), prefixes)
    if key in _prefix_cache and z3.eq(_prefix_cache[key][0], f): return _prefix_cache[key][1]
    seen, todo, r = set(), [f], False
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith(prefixes): r = True; break
            todo.extend(t.children())
    _prefix_cache[key] = (f, r)
    return r


class Executor(object):
    def __init__(self, repo, contract, case, prover, sites=None, registry=None):
        self.repo = repo; self.contract = contract; self.case = case; self.prover = prover
        self.sites = sites if sites is not None else {}
        self.obligations = []
        self.dry = 0
        self.writes = set()
        self.counter = itertools.count()
        self.args0 = {}
        self.P = {}
        self.registry = registry or {}
        self.calldepth = 0
        self.used = set()           # functions executed inline or through a contract
        self.trusted = set()        # external contracts used
        self.extra_axioms = []
        self.paths = 0
        self.module = Module.get(repo, contract.path)
        self.loop_bodies = {}
        self.frames = {}; self.cell_sites = {}; self.nofork = False
        self.constcache = {}
        self.frozen = set()

    # ------------------------------------------------------------------ infrastructure
    def axioms(self):
        return list(TY.AXIOMS.values()) + self.extra_axioms

    def fresh(self, name, sort):
        return z3.Const('%s!%d' % (name, next(self.counter)), sort)

    def new_cell(self, st, c):
        cid = next(self.counter)
        st.heap[cid] = c
        if getattr(c, 'site', None) is not None: self.cell_sites[cid] = c.site
        return Ref(cid)

    def oblige(self, st, name, goal, node=None, kind='assert', by=()):
        """by: definitional facts used for this obligation only"""
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if not self.dry and not (z3.is_true(goal) and kind not in ('post', 'raises')):
            self.obligations.append(Oblig(name, list(st.pc) + list(by) if by else st.pc, goal, getattr(node, 'lineno', None), kind))
        st.assume(goal)

    def valid(self, st, f):
        return self.prover.quick(st.pc, f, self.axioms())

    def feasible(self, st):
        return not self.prover.quick(st.pc, FALSE, self.axioms())

    # ------------------------------------------------------------------ types
    def fresh_of(self, st, name, t, facts=True):
        """a fresh symbolic value of a type"""
        if isinstance(t, TFn):
            f = t.sym if t.sym is not None else z3.Function(name, *([a.sort() for a in t.args] + [t.res.sort()]))
            return Fn('u', f=f, args=t.args, res=t.res, name=name)
        if isinstance(t, TConst):
            return t.v
        if isinstance(t, TExt):
            v = self.fresh(name, z3.IntSort())
            return Ext(self.fresh(name + '_inf', z3.BoolSort()), v)
        if isinstance(t, TTup):
            return Tup([self.fresh_of(st, '%s_%d' % (name, i), x) for i, x in enumerate(t.ts)])
        if isinstance(t, TList):
            n = self.fresh(name + '_len', z3.IntSort())
            st.assume(n >= 0)
            return self.new_cell(st, Lst(n, self.fresh(name + '_arr', z3.ArraySort(z3.IntSort(), t.t.sort())), t.t))
        if isinstance(t, TSet):
            return self.new_cell(st, TY_St(self.fresh(name, t.sort()), t.t))
        if isinstance(t, TDict):
            dom = self.fresh(name + '_dom', z3.ArraySort(t.k.sort(), z3.BoolSort()))
            return self.new_cell(st, Dct(dom, self.fresh(name + '_val', z3.ArraySort(t.k.sort(), t.v.sort())), t.k, t.v, order=self.fresh_order(st, name, dom), pyt='Counter' if isinstance(t, TCounter) else 'dict'))
        if isinstance(t, TStream):
            n = self.fresh(name + '_len', z3.IntSort())
            st.assume(n >= 0)
            return Gen(n=n, arr=self.fresh(name + '_arr', z3.ArraySort(z3.IntSort(), t.t.sort())), t=t.t, bag=None)
        return self.fresh(name, t.sort())

    def fresh_order(self, st, name, dom):
        """an unknown insertion order of the keys"""
        ks = dom.sort().domain()
        o = self.fresh(name + '_rank', z3.ArraySort(ks, z3.IntSort())); n = self.fresh(name + '_next', z3.IntSort())
        inv = z3.Function('unrank!%d' % next(self.counter), z3.IntSort(), ks)
        x = z3.Const('x!o', ks)
        st.assume(n >= 0, z3.ForAll([x], z3.Implies(dom[x], z3.And(0 <= o[x], o[x] < n, inv(o[x]) == x)), patterns=[o[x]]))
        return (o, n)

    def typeof(self, st, v):
        if isinstance(v, bool): return BOOL
        if isinstance(v, int): return INT
        if isinstance(v, float): return REAL
        if isinstance(v, str): return STR
        if isinstance(v, z3.ExprRef): return ty_of(v.sort())
        if isinstance(v, Tup): return TTup(*[self.typeof(st, x) for x in v.items])
        if isinstance(v, (Ref, View)): return self.read(st, v).typ()
        if v is None: return NONE
        raise Unsupported('type of %r' % (v,))

    def embed(self, st, v, t):
        """value -> z3 term of sort t"""
        if isinstance(t, TTup):
            if isinstance(v, Tup):
                if len(v.items) != len(t.ts):
                    raise Unsupported('tuple arity')
                for x in v.items:
                    if isinstance(x, Ref): self.freeze(st, x)
                return t.mk(*[self.embed(st, x, u) for x, u in zip(v.items, t.ts)])
            return v
        if isinstance(t, TOpt):
            if v is None:
                return t.dt().constructor(0)()
            if isinstance(v, z3.ExprRef) and v.sort() == t.sort(): return v
            return t.dt().constructor(1)(self.embed(st, v, t.t))
        if isinstance(v, (Ref, View)):
            c = self.read(st, v)
            return self.to_term(c)
        if v is None and isinstance(t, TNone): return z3.Const('None', t.sort())
        v = self.lift(v)
        if isinstance(t, TReal) and v.sort() == z3.IntSort():
            return z3.ToReal(v)
        if v.sort() != t.sort():
            raise Unsupported('cannot store %s as %s' % (v.sort(), t))
        return v

    def freeze(self, st, v):
        """a container inside a tuple stored as a value: the tuple keeps a copy, so the container may not change any more"""
        v = self.resolve(st, v)
        if isinstance(v, Ref) and st.heap[v.cid].kind != 'obj': self.frozen.add(v.cid)

    def project(self, st, term, t, view=None):
        if isinstance(t, TTup):
            r = Tup([self.project(st, t.get(i, term), u) for i, u in enumerate(t.ts)])
            for x in r.items:
                if isinstance(x, Ref): self.frozen.add(x.cid)
            return r
        if isinstance(t, (TList, TSet, TDict)):
            if view is not None:
                return view
            r = self.new_cell(st, self.from_term(term, t))
            return r
        if isinstance(t, TNone): return None
        return term

    def to_term(self, c):
        if c.kind == 'list':
            return TList(c.t).mk(c.n, c.arr)
        if c.kind == 'set':
            return c.arr
        if c.kind == 'dict':
            return c.typ().mk(c.dom, c.val)
        raise Unsupported('store %s' % c.kind)

    def from_term(self, term, t, pyt=None):
        if isinstance(t, TList):
            return Lst(t.len(term), t.arr(term), t.t)
        if isinstance(t, TSet):
            return TY_St(term, t.t)
        if isinstance(t, TDict):
            return Dct(t.dom(term), t.val(term), t.k, t.v, factory=getattr(t, 'factory', None), pyt='Counter' if isinstance(t, TCounter) else 'defaultdict' if isinstance(t, TDefault) else 'dict')
        raise Unsupported('no container %s' % t)

    # ------------------------------------------------------------------ heap
    def resolve(self, st, v):
        while isinstance(v, Ref) and isinstance(st.heap.get(v.cid), Fwd):
            v = st.heap[v.cid].target
        if isinstance(v, View):
            base = st.heap.get(v.cid)
            if isinstance(base, Fwd):
                b = self.resolve(st, Ref(v.cid))
                if isinstance(b, View):
                    return View(b.cid, b.path + v.path)
                return View(b.cid, v.path)
        return v

    def read(self, st, v):
        v = self.resolve(st, v)
        if isinstance(v, Ref):
            return st.heap[v.cid]
        c = st.heap[v.cid]
        for key in v.path:
            if c.kind == 'list':
                term, t = c.arr[key], c.t
            else:
                term, t = c.val[key], c.vt
            c = self.from_term(term, t)
        return c

    def write(self, st, v, c):
        v = self.resolve(st, v)
        if v.cid in self.frozen: raise Unsupported('a container inside a tuple is modified')
        self.writes.add(v.cid)
        if isinstance(v, Ref):
            st.heap[v.cid] = c
            return
        def rebuild(outer, path, c):
            if not path:
                return c
            key = path[0]
            if outer.kind == 'list':
                inner = self.from_term(outer.arr[key], outer.t)
                new = rebuild(inner, path[1:], c)
                return Lst(outer.n, z3.Store(outer.arr, key, self.to_term(new)), outer.t, outer.pyt)
            inner = self.from_term(outer.val[key], outer.vt)
            new = rebuild(inner, path[1:], c)
            return Dct(outer.dom, z3.Store(outer.val, key, self.to_term(new)), outer.kt, outer.vt, outer.factory, outer.pyt, outer.order)
        st.heap[v.cid] = rebuild(st.heap[v.cid], v.path, c)

    def len_term(self, c):
        if c.kind == 'list':
            return c.n
        if c.kind == 'set':
            return TY.card(c.arr)
        if c.kind == 'dict':
            return TY.card(c.dom)
        raise Unsupported('len')

    def spec(self, st, v):
        if isinstance(v, (Ref, View)):
            return SpecC(self, st, v)
        if isinstance(v, bool): return z3.BoolVal(v)
        if isinstance(v, int): return z3.IntVal(v)
        if isinstance(v, float): return z3.RealVal(repr(v))
        if isinstance(v, str): return TY.str_const(v)
        return v

    # ------------------------------------------------------------------ names
    def lookup_local(self, st, fr, name):
        eid = fr.eid
        while eid is not None:
            env = st.envs[eid]
            if name in env:
                return env[name]
            eid = env.get('@parent')
        if name in self.args0raw:
            return self.args0raw[name]
        return KeyError

    args0raw = {}

    def lookup(self, st, fr, name, node=None):
        eid = fr.eid
        while eid is not None:
            env = st.envs[eid]
            if name in env:
                return env[name]
            eid = env.get('@parent')
        return self.global_value(st, fr.module, name)

    def global_value(self, st, module, name):
        g = module.globals.get(name)
        h = self.contract.externals.get('global:' + name)
        if h: return h(self, st)
        if isinstance(g, ast.FunctionDef):
            return Fn('repo', module=module, node=g, qual=g.name, parent=None, name=g.name)
        if isinstance(g, ast.ClassDef):
            return Fn('class', module=module, node=g, name=g.name)
        if isinstance(g, ast.Assign):
            if len(g.targets) != 1:
                raise Unsupported('global %s' % name)
            if isinstance(g.value, ast.Call) and (module.path, name) in self.opaque_globals:
                return Opaque('%s:%s' % (module.path, name))
            return self.eval_global(st, module, name, g.value)
        if isinstance(g, tuple):
            if g[0] == 'from':
                p = self.find_module(g[1])
                if p is not None:
                    m = Module.get(self.repo, p)
                    if g[2] in m.globals:
                        return self.global_value(st, m, g[2])
                    sub = self.find_module(g[1] + '.' + g[2])
                    if sub is not None:
                        return Opaque('module:' + g[1] + '.' + g[2])
                if (g[1], g[2]) == ('sys', 'version_info'): return PYVERSION
                return Opaque('%s.%s' % (g[1], g[2]))
            return Opaque(g[1])
        return Fn('builtin', name=name)

    opaque_globals = ()

    def eval_global(self, st, module, name, node):
        fr = Frame(self.module_env(st, module), '<module>', module)
        try:
            res = self.ev(node, st, fr)
        except (Unsupported, PyRaise):
            return Opaque('%s:%s' % (module.path, name), node=node)
        if len(res) != 1:
            return Opaque('%s:%s' % (module.path, name), node=node)
        return res[0][1]

    def module_env(self, st, module):
        eid = 'M:' + module.path
        if eid not in st.envs:
            st.envs[eid] = {'@parent': None}
        return eid

    def find_module(self, dotted):
        p = dotted.replace('.', '/')
        for c in (p + '.py', p + '/__init__.py', p + '.pyx'):
            if os.path.exists(os.path.join(self.repo, c)):
                return c
        return None

    # ------------------------------------------------------------------ scalars
    def lift(self, v):
        if isinstance(v, bool): return z3.BoolVal(v)
        if isinstance(v, int): return z3.IntVal(v)
        if isinstance(v, float): return z3.RealVal(repr(v))
        if isinstance(v, str): return TY.str_const(v)
        if isinstance(v, z3.ExprRef): return v
        raise Unsupported('scalar expected, got %r' % (v,))

    def num(self, v):
        v = self.lift(v)
        if v.sort() == z3.BoolSort():
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def numpair(self, a, b):
        a, b = self.num(a), self.num(b)
        if a.sort() != b.sort():
            if a.sort() == z3.IntSort() and b.sort() == z3.RealSort(): a = z3.ToReal(a)
            elif b.sort() == z3.IntSort() and a.sort() == z3.RealSort(): b = z3.ToReal(b)
            elif isinstance(a, z3.BitVecRef) and z3.is_int_value(b): b = z3.BitVecVal(b.as_long(), a.size())
            elif isinstance(b, z3.BitVecRef) and z3.is_int_value(a): a = z3.BitVecVal(a.as_long(), b.size())
            else:
                raise Unsupported('arithmetic on %s and %s' % (a.sort(), b.sort()))
        return a, b

    def truth(self, st, v):
        if v is None: return FALSE
        if isinstance(v, bool): return z3.BoolVal(v)
        if isinstance(v, (int, float)): return z3.BoolVal(bool(v))
        if isinstance(v, str): return z3.BoolVal(bool(v))
        if isinstance(v, z3.ExprRef):
            s = v.sort()
            if s == z3.BoolSort(): return v
            if s in (z3.IntSort(), z3.RealSort()): return v != 0
            if s == STR.sort(): return TY.slen(v) != 0
            if isinstance(v, z3.BitVecRef): return v != 0
            return TY.fn('truthy_%s' % s.name(), s, z3.BoolSort())(v)
        if isinstance(v, (Ref, View)):
            c = self.read(st, v)
            if c.kind == 'obj': return TRUE
            return self.len_term(c) != 0
        if isinstance(v, Tup): return z3.BoolVal(len(v.items) > 0)
        if isinstance(v, (Fn, Opaque)): return TRUE
        raise Unsupported('truth of %r' % (v,))

    def equal(self, st, a, b):
        if a is None or b is None:
            if isinstance(a, z3.ExprRef) and isinstance(ty_of(a.sort()), TOpt): return a == self.embed(st, None, ty_of(a.sort()))
            return z3.BoolVal(a is None and b is None)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items): return FALSE
            return z3.And([self.equal(st, x, y) for x, y in zip(a.items, b.items)] or [TRUE])
        if isinstance(a, (str,)) and isinstance(b, str):
            return z3.BoolVal(a == b)
        if isinstance(a, Ext) or isinstance(b, Ext):
            raise Unsupported('== on extended number')
        if isinstance(a, (Ref, View)) and isinstance(b, (Ref, View)):
            ca, cb = self.read(st, a), self.read(st, b)
            if ca.kind == 'set' and cb.kind == 'set':
                return ca.arr == cb.arr
            if ca.kind == cb.kind == 'list':
                i = self.fresh('i', z3.IntSort())
                return z3.And(ca.n == cb.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ca.n), ca.arr[i] == cb.arr[i])))
            raise Unsupported('== on containers')
        if isinstance(a, (Ref, View, Tup, Opaque, Fn)) or isinstance(b, (Ref, View, Tup, Opaque, Fn)):
            raise Unsupported('== on %r and %r' % (a, b))
        a, b = self.lift(a), self.lift(b)
        if a.sort() == z3.BoolSort() and b.sort() == z3.BoolSort():
            return a == b
        if a.sort() == STR.sort() and b.sort() == STR.sort():
            return self.str_eq(st, a, b)
        if a.sort() != b.sort():
            try:
                a, b = self.numpair(a, b)
            except Unsupported:
                if {a.sort(), b.sort()} == {STR.sort(), z3.IntSort()}:
                    return self.char_eq(a, b)
                raise
        return a == b

    def char_eq(self, a, b):
        s, c = (a, b) if a.sort() == STR.sort() else (b, a)
        return z3.And(TY.slen(s) == 1, TY.sat(s, 0) == c)

    def str_eq(self, st, a, b):
        st.assume(TY.seq_ext(a, b))
        return a == b

    def compare(self, st, op, a, b, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            if a is None or b is None:
                if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
                    x = a if isinstance(a, z3.ExprRef) else b
                    if isinstance(ty_of(x.sort()), TOpt):
                        r = x == self.embed(st, None, ty_of(x.sort()))
                    else:
                        r = FALSE
                else:
                    r = z3.BoolVal(a is None and b is None)
            elif isinstance(a, Fn) and isinstance(b, Fn):
                r = z3.BoolVal(a.kind == b.kind and getattr(a, 'name', None) == getattr(b, 'name', None))
            elif isinstance(a, (Ref, View)) and isinstance(b, (Ref, View)):
                ra, rb = self.resolve(st, a), self.resolve(st, b)
                if isinstance(ra, Ref) and isinstance(rb, Ref):
                    r = z3.BoolVal(ra.cid == rb.cid)
                else:
                    raise Unsupported('is on views')
            elif isinstance(a, (bool,)) or isinstance(b, bool) or z3.is_bool(a):
                r = self.equal(st, a, b)
            else:
                if type(a) is not type(b): r = FALSE
                elif isinstance(a, Gen): r = z3.BoolVal(a is b)
                elif isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort():
                    # identity of two values of a sort: unknown, but identical values are equal
                    r = self.fresh('same', z3.BoolSort())
                    st.assume(z3.Implies(r, a == b))
                    if a.sort() == STR.sort():
                        # CPython has one empty string
                        st.assume(z3.Implies(z3.And(TY.slen(a) == 0, TY.slen(b) == 0), r)); self.trusted.add('CPython: the empty string is a single object')
                else: raise Unsupported('is')
            return z3.Not(r) if neg else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(st, a, b, node)
            return z3.Not(r) if isinstance(op, ast.NotIn) else r
        if isinstance(op, ast.Eq):
            return self.equal(st, a, b)
        if isinstance(op, ast.NotEq):
            return z3.Not(self.equal(st, a, b))
        if isinstance(a, Ext) or isinstance(b, Ext):
            if isinstance(b, Ext) and not isinstance(a, Ext):
                x = self.num(a)
                return {ast.Lt: lambda: z3.Or(b.inf, x < b.val), ast.LtE: lambda: z3.Or(b.inf, x <= b.val),
                        ast.Gt: lambda: z3.And(z3.Not(b.inf), x > b.val), ast.GtE: lambda: z3.And(z3.Not(b.inf), x >= b.val)}[type(op)]()
            if isinstance(a, Ext) and not isinstance(b, Ext):
                flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(op)]()
                return self.compare(st, flip, b, a, node)
            raise Unsupported('compare extended')
        if isinstance(a, Tup) and isinstance(b, Tup):
            if all(isinstance(x, int) for x in a.items + b.items):
                x, y = a.items, b.items
                return z3.BoolVal({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])
            raise Unsupported('tuple order')
        x, y = self.lift(a), self.lift(b)
        if x.sort() == STR.sort() or y.sort() == STR.sort():
            if x.sort() == STR.sort() and isinstance(b, str) and len(b) == 1 or y.sort() == STR.sort() and isinstance(a, str) and len(a) == 1:
                # comparison of one-character strings by code point
                self.oblige(st, 'char-compare', z3.And(TY.slen(x) == 1, TY.slen(y) == 1), node, 'no-raise')
                x, y = TY.sat(x, 0), TY.sat(y, 0)
            else:
                lt = TY.fn('str_lt', STR.sort(), STR.sort(), z3.BoolSort())
                return {ast.Lt: lambda: lt(x, y), ast.Gt: lambda: lt(y, x), ast.LtE: lambda: z3.Not(lt(y, x)), ast.GtE: lambda: z3.Not(lt(x, y))}[type(op)]()
        if x.sort() == y.sort() and x.sort().kind() == z3.Z3_UNINTERPRETED_SORT:
            return self.order(op, x, y)
        x, y = self.numpair(x, y)
        if isinstance(x, z3.BitVecRef):
            return {ast.Lt: z3.ULT, ast.LtE: z3.ULE, ast.Gt: z3.UGT, ast.GtE: z3.UGE}[type(op)](x, y)
        return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()

    def order(self, op, x, y):
        """values of an unknown type: a total order (assumed)"""
        lt = TY.total_order(x.sort())
        self.trusted.add('values of type %s are totally ordered' % x.sort().name())
        return {ast.Lt: lambda: lt(x, y), ast.Gt: lambda: lt(y, x), ast.LtE: lambda: z3.Not(lt(y, x)), ast.GtE: lambda: z3.Not(lt(x, y))}[type(op)]()

    def contains(self, st, a, b, node):
        if isinstance(b, Opaque):
            h = self.contract.externals.get('in:' + b.name) or self.contract.externals.get('in')
            if h: return h(self, st, a, b)
        if isinstance(b, Tup):
            return z3.Or([self.equal(st, a, x) for x in b.items] or [FALSE])
        if isinstance(b, str) and isinstance(a, z3.ExprRef) and a.sort() == STR.sort():
            # membership of a one-character string
            return z3.Or([z3.And(TY.slen(a) == 1, TY.sat(a, 0) == ord(ch)) for ch in b] or [FALSE]) if self.valid(st, TY.slen(a) == 1) else self.unk_bool(st, 'in')
        if isinstance(b, str) and isinstance(a, str):
            return z3.BoolVal(a in b)
        if isinstance(b, (Ref, View)):
            c = self.read(st, b)
            if (c.dom if c.kind == 'dict' else c.t) is None:
                return FALSE          # nothing was ever put in it
            if c.kind == 'set':
                return c.arr[self.embed(st, a, c.t)]
            if c.kind == 'dict':
                return c.dom[self.embed(st, a, c.kt)]
            if c.kind == 'list':
                if z3.is_int_value(c.n) and c.n.as_long() <= 64:
                    return z3.Or([self.equal(st, a, self.project(st, c.arr[i], c.t)) for i in range(c.n.as_long())] or [FALSE])
                return TY.elems(c.n, c.arr)[self.embed(st, a, c.t)]
        if isinstance(b, DView) and b.what == 'keys':
            return self.contains(st, a, b.ref, node)
        if isinstance(b, z3.ExprRef) and b.sort() == STR.sort():
            a = self.lift(a)
            if self.valid(st, TY.slen(a) == 1): return TY.shas(b, TY.sat(a, 0))
            f = TY.fn('str_contains', STR.sort(), STR.sort(), z3.BoolSort())
            return f(b, a)
        raise Unsupported('in %r' % (b,))

    def unk_bool(self, st, name):
        return self.fresh(name, z3.BoolSort())

    def binop(self, st, op, a, b, node):
        if isinstance(op, ast.Mod) and (isinstance(a, str) or (isinstance(a, z3.ExprRef) and a.sort() == STR.sort())):
            h = self.contract.externals.get('%format')
            if h: return h(self, st, a, b)
            return self.fresh('fmt', STR.sort())
        if isinstance(a, Opaque) and self.contract.externals.get('binop:' + a.name):
            return self.contract.externals['binop:' + a.name](self, st, op, a, b, node)
        if isinstance(a, Tup) and isinstance(b, Tup) and isinstance(op, ast.Add):
            return Tup(a.items + b.items)
        if isinstance(a, (Ref, View)) and isinstance(b, (Ref, View)):
            return self.container_binop(st, op, a, b, node)
        if isinstance(op, ast.Mult) and isinstance(a, (Ref, View)):
            c = self.read(st, a)
            if c.kind == 'list' and z3.is_int_value(c.n) and c.n.as_long() == 1:
                m = self.num(b)
                el = c.arr[0]
                return self.new_cell(st, Lst(z3.If(m > 0, m, 0), z3.K(z3.IntSort(), el), c.t))
        if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, Ext) or isinstance(b, Ext):
            raise Unsupported('arithmetic on extended number')
        if isinstance(op, ast.Pow) and isinstance(b, int) and b == 2:
            a = self.num(a)
            return a * a
        a, b = self.lift(a), self.lift(b)
        if isinstance(op, ast.Add) and (a.sort() == STR.sort() or b.sort() == STR.sort()):
            return TY.scat(a, b)
        if isinstance(op, ast.Mult) and (a.sort() == STR.sort()):
            return TY.fn('str_repeat', STR.sort(), z3.IntSort(), STR.sort())(a, b)
        a, b = self.numpair(a, b)
        if isinstance(a, z3.BitVecRef):
            return self.bv_binop(op, a, b, st, node)
        if isinstance(op, ast.Add): return a + b
        if isinstance(op, ast.Sub): return a - b
        if isinstance(op, ast.Mult): return a * b
        if isinstance(op, ast.Div):
            a, b = (z3.ToReal(x) if x.sort() == z3.IntSort() else x for x in (a, b))
            self.oblige(st, 'division by zero', b != 0, node, 'no-raise')
            return a / b
        if isinstance(op, ast.FloorDiv):
            self.oblige(st, 'division by zero', b > 0, node, 'no-raise')
            if a.sort() == z3.RealSort(): raise Unsupported('float //')
            return a / b
        if isinstance(op, ast.Mod):
            self.oblige(st, 'division by zero', b > 0, node, 'no-raise')
            return a % b
        if isinstance(op, ast.Pow):
            if z3.is_int_value(b) and b.as_long() == 2: return a * a
            if z3.is_int_value(a) and z3.is_int_value(b): return z3.IntVal(a.as_long() ** b.as_long())
            f = TY.fn('pow_%s' % a.sort().name(), a.sort(), b.sort(), z3.RealSort())
            return f(a, b)
        h = self.contract.externals.get('binop')
        if h:
            return h(self, st, op, a, b, node)
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift)) and a.sort() == z3.IntSort():
            return self.int_bitop(st, op, a, b, node)
        raise Unsupported('operator %s' % type(op).__name__)

    def bv_binop(self, op, a, b, st, node):
        """Python integers in [0, 2^w) as words of w bits: an operation that leaves this range is refuted"""
        w = a.size()
        if isinstance(op, ast.Add):
            self.oblige(st, 'the sum fits', z3.BVAddNoOverflow(a, b, False), node, 'no-raise')
            return a + b
        if isinstance(op, ast.Sub):
            self.oblige(st, 'the difference is not negative', z3.UGE(a, b), node, 'no-raise')
            return a - b
        if isinstance(op, ast.Mult):
            c, d = (a, b) if z3.is_bv_value(b) else (b, a)
            if not z3.is_bv_value(d) or d.as_long() == 0: raise Unsupported('product of words')
            self.oblige(st, 'the product fits', z3.ULE(c, z3.BitVecVal((2 ** w - 1) // d.as_long(), w)), node, 'no-raise')
            return a * b
        if isinstance(op, ast.BitAnd): return a & b
        if isinstance(op, ast.BitOr): return a | b
        if isinstance(op, ast.BitXor): return a ^ b
        if isinstance(op, ast.RShift): return z3.LShR(a, b)
        if isinstance(op, ast.LShift):
            if not z3.is_bv_value(b) or b.as_long() >= w: raise Unsupported('shift of words')
            self.oblige(st, 'the shifted word fits', z3.ULE(a, z3.BitVecVal((2 ** w - 1) >> b.as_long(), w)), node, 'no-raise')
            return a << b
        if isinstance(op, ast.Mod): return z3.URem(a, b)
        raise Unsupported('bit operator %s' % type(op).__name__)

    def int_bitop(self, st, op, a, b, node):
        """bitwise operations on mathematical integers"""
        const = lambda x: x.as_long() if z3.is_int_value(x) else None
        ca, cb = const(z3.simplify(a)), const(z3.simplify(b))
        if ca is not None and cb is not None:
            if isinstance(op, (ast.LShift, ast.RShift)) and not 0 <= cb <= 4096: raise Unsupported('shift')
            return z3.IntVal({ast.BitAnd: lambda: ca & cb, ast.BitOr: lambda: ca | cb, ast.BitXor: lambda: ca ^ cb, ast.LShift: lambda: ca << cb, ast.RShift: lambda: ca >> cb}[type(op)]())
        if isinstance(op, ast.BitAnd):
            for x, c in ((a, cb), (b, ca)):
                if c is not None and c >= 0 and c & (c + 1) == 0: return x % z3.IntVal(c + 1)
        if isinstance(op, (ast.RShift, ast.LShift)):
            self.oblige(st, 'the shift is not negative', b >= 0, node, 'no-raise')
            if cb is not None and 0 <= cb <= 4096: return a / z3.IntVal(2 ** cb) if isinstance(op, ast.RShift) else a * z3.IntVal(2 ** cb)
        return TY.bitop({ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor', ast.LShift: 'shl', ast.RShift: 'shr'}[type(op)])(a, b)

    def container_binop(self, st, op, a, b, node):
        ca, cb = self.read(st, a), self.read(st, b)
        if ca.kind == 'set' and cb.kind == 'set':
            f = {ast.BitAnd: TY.inter, ast.BitOr: TY.union, ast.Sub: TY.diff}.get(type(op))
            if f:
                return self.new_cell(st, TY_St(f(ca.arr, cb.arr), ca.t))
        if ca.kind == 'list' and cb.kind == 'list' and isinstance(op, ast.Add):
            return self.list_concat(st, ca, cb)
        raise Unsupported('container operator')

    def flat(self, st, t):
        """a term that may occur in a pattern"""
        def bad(e):
            return z3.is_quantifier(e) or z3.is_app(e) and (e.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES) or any(bad(c) for c in e.children()))
        if not bad(t): return t
        c = self.fresh('v', t.sort())
        st.assume(c == t)
        return c

    def flat_cell(self, st, c):
        n, arr = self.flat(st, c.n), self.flat(st, c.arr)
        return c if n is c.n and arr is c.arr else Lst(n, arr, c.t, c.pyt)

    def list_concat(self, st, ca, cb):
        if ca.t is None or cb.t is None:
            if z3.is_int_value(ca.n) and ca.n.as_long() == 0: return self.new_cell(st, Lst(cb.n, cb.arr, cb.t))
            if z3.is_int_value(cb.n) and cb.n.as_long() == 0: return self.new_cell(st, Lst(ca.n, ca.arr, ca.t))
        if z3.is_int_value(cb.n) and cb.n.as_long() < 5:
            arr = ca.arr
            for i in range(cb.n.as_long()):
                arr = z3.Store(arr, ca.n + i, cb.arr[i])
            return self.new_cell(st, Lst(ca.n + cb.n, arr, ca.t))
        ca, cb = self.flat_cell(st, ca), self.flat_cell(st, cb)
        arr = self.fresh('cat', ca.arr.sort())
        n = ca.n + cb.n
        if not z3.is_int_value(z3.simplify(n)):
            n = self.fresh('ncat', z3.IntSort())
            st.assume(n == ca.n + cb.n)
        i = z3.Int('i!c')
        st.assume(z3.ForAll([i], arr[i] == z3.If(i < ca.n, ca.arr[i], cb.arr[i - ca.n]), patterns=[arr[i]]))
        if ca.t.sort() == cb.t.sort():
            x = z3.Const('x!c', ca.t.sort())
            ea, eb, ec = TY.elems(ca.n, ca.arr), TY.elems(cb.n, cb.arr), TY.elems(n, arr)
            sa, sb, sc = [self.fresh('scat', ec.sort()) for _ in range(3)]
            st.assume(sa == ea, sb == eb, sc == ec, z3.ForAll([x], sc[x] == z3.Or(sa[x], sb[x]), patterns=[sc[x], sa[x], sb[x]]))
        j = z3.Int('j!c')
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < cb.n), arr[j + ca.n] == cb.arr[j]), patterns=[cb.arr[j]]))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ca.n), arr[j] == ca.arr[j]), patterns=[ca.arr[j]]))
        return self.new_cell(st, Lst(n, arr, ca.t))

    # ------------------------------------------------------------------ container element types
    def site(self, node, fr, what=''):
        return (fr.callpath, fr.qual, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), what)

    def learn(self, c, attr, t):
        """the element type of an empty container becomes known"""
        key = getattr(c, 'site', None)
        if key is None:
            raise Unsupported('untyped container')
        self.sites[key + (attr,)] = t
        raise Restart()

    def typed_list(self, key):
        t = self.sites.get(key + ('t',))
        if t is None:
            c = Lst(z3.IntVal(0), None, None)
        else:
            c = Lst(z3.IntVal(0), self.fresh('nil', z3.ArraySort(z3.IntSort(), t.sort())), t)
        c.site = key
        return c

    def typed_set(self, key, pyt='set'):
        t = self.sites.get(key + ('t',))
        c = TY_St(TY.empty_set(t.sort()) if t is not None else None, t, pyt)
        c.site = key
        return c

    def typed_dict(self, key, factory=None, pyt='dict'):
        kt = self.sites.get(key + ('kt',)); vt = self.sites.get(key + ('vt',))
        if vt is None and factory is not None:
            vt = factory
        if kt is None or vt is None or unknown(vt):
            c = Dct(None, None, kt, vt, factory, pyt)
        else:
            c = Dct(TY.empty_set(kt.sort()), self.fresh('dval', z3.ArraySort(kt.sort(), vt.sort())), kt, vt, factory, pyt,
                    order=(self.fresh('rank', z3.ArraySort(kt.sort(), z3.IntSort())), z3.IntVal(0)))
            if factory is not None:
                c.vt = vt
                c.factory = vt
        c.site = key
        return c

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        """-> list of (kind, state, value); kind in next, return, break, continue, raise"""
        outs = [('next', st, None)]
        for s in stmts:
            new = []
            for kind, st1, v in outs:
                if kind != 'next':
                    new.append((kind, st1, v))
                    continue
                new.extend(self.stmt(s, st1, fr))
            outs = new
            if len(outs) > 4000:
                raise Unsupported('too many paths')
        return outs

    def stmt(self, s, st, fr):
        try:
            return self.stmt_(s, st, fr)
        except PyRaise as e:
            return [('raise', st, e.exc)]

    def stmt_(self, s, st, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        return m(s, st, fr)

    def s_Pass(self, s, st, fr): return [('next', st, None)]
    def s_Break(self, s, st, fr): return [('break', st, None)]
    def s_Continue(self, s, st, fr): return [('continue', st, None)]
    def s_Import(self, s, st, fr): return [('next', st, None)]
    s_ImportFrom = s_Nonlocal = s_Global = s_Import

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return [('next', st, None)]
        return [('next', a, None) for a, _ in self.ev(s.value, st, fr)]

    def s_Assert(self, s, st, fr):
        outs = []
        for a, v in self.ev(s.test, st, fr):
            t = self.truth(a, v)
            self.oblige(a, 'assert holds', t, s, 'no-raise')
            if z3.is_false(z3.simplify(t)): continue       # the obligation is that this path is impossible
            outs.append(('next', a, None))
        return outs

    def s_Return(self, s, st, fr):
        if s.value is None:
            return [('return', st, None)]
        return [('return', a, v) for a, v in self.ev(s.value, st, fr)]

    def s_Raise(self, s, st, fr):
        e = s.exc
        name = None
        if e is not None:
            f = e.func if isinstance(e, ast.Call) else e
            name = f.id if isinstance(f, ast.Name) else getattr(f, 'attr', None)
        return [('raise', st, name)]

    def s_FunctionDef(self, s, st, fr):
        st.envs[fr.eid][s.name] = Fn('repo', module=fr.module, node=s, qual=fr.qual + '.' + s.name, parent=fr.eid, name=s.name)
        return [('next', st, None)]

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.envs[fr.eid].pop(t.id, None)
            else:
                raise Unsupported('del')
        return [('next', st, None)]

    def s_Assign(self, s, st, fr):
        outs = []
        for a, v in self.ev(s.value, st, fr):
            sts = [a]
            for t in s.targets:
                sts = [c for b in sts for c in self.assign(t, v, b, fr, s)]
            outs.extend(('next', b, None) for b in sts)
        return outs

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [('next', st, None)]
        return [('next', c, None) for a, v in self.ev(s.value, st, fr) for c in self.assign(s.target, v, a, fr, s)]

    def s_AugAssign(self, s, st, fr):
        outs = []
        t = s.target
        if isinstance(t, ast.Name):
            load = ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
            for a, cur in self.ev(load, st, fr):
                for b, v in self.ev(s.value, a, fr):
                    if isinstance(cur, (Ref, View)) and self.read(b, cur).kind in ('list', 'set'):
                        for c_, _ in self.aug_container(b, s.op, cur, v, s):
                            outs.append(('next', c_, None))
                        continue
                    for c in self.assign(t, self.binop(b, s.op, cur, v, s), b, fr, s):
                        outs.append(('next', c, None))
            return outs
        if isinstance(t, ast.Subscript):
            for a, base in self.ev(t.value, st, fr):
                for b, idx in self.ev(t.slice, a, fr):
                    for c, cur in self.subscript(b, base, idx, t):
                        for d, v in self.ev(s.value, c, fr):
                            nv = self.binop(d, s.op, cur, v, s)
                            self.store(d, base, idx, nv, s)
                            outs.append(('next', d, None))
            return outs
        if isinstance(t, ast.Attribute):
            for a, base in self.ev(t.value, st, fr):
                cur = self.attribute(a, base, t.attr, t, fr) if isinstance(base, Opaque) else self.read(a, base).fields[t.attr]
                for b, v in self.ev(s.value, a, fr):
                    nv = self.binop(b, s.op, cur, v, s)
                    self.set_attr(b, base, t.attr, nv)
                    outs.append(('next', b, None))
            return outs
        raise Unsupported('augmented assignment')

    def aug_container(self, st, op, cur, v, node):
        c = self.read(st, cur)
        if c.kind == 'list' and isinstance(op, ast.Add):
            return self.method(st, cur, 'extend', [v], {}, node)
        if c.kind == 'set' and isinstance(op, ast.BitOr):
            return self.method(st, cur, 'update', [v], {}, node)
        raise Unsupported('augmented container')

    def set_attr(self, st, base, attr, v):
        if isinstance(base, Opaque):
            h = self.contract.externals.get('setattr:%s.%s' % (base.name, attr))
            if h is None: raise Unsupported('attribute %s of %s' % (attr, base.name))
            return h(self, st, base, v)
        o = self.read(st, base)
        n = Obj(o.cls, o.fields)
        n.fields[attr] = v
        self.write(st, base, n)

    def assign_one(self, t, v, st, fr, node):
        """the target of a comprehension: an optional container stays as it is"""
        old, self.nofork = self.nofork, True
        try: r = self.assign(t, v, st, fr, node)
        finally: self.nofork = old
        if len(r) != 1: raise Unsupported('comprehension target')
        return r[0]

    def assign(self, t, v, st, fr, node):
        """-> list of states"""
        if isinstance(t, ast.Name):
            ty = ty_of(v.sort()) if isinstance(v, z3.DatatypeRef) else None
            if isinstance(ty, TOpt) and isinstance(ty.t, (TList, TSet, TDict)) and not self.nofork:
                # None or a container: one state for each
                outs = []
                for i in (0, 1):
                    a = st.copy().assume(ty.dt().recognizer(i)(v))
                    if not self.feasible(a): continue
                    a.envs[fr.eid][t.id] = None if i == 0 else self.project(a, ty.dt().accessor(1, 0)(v), ty.t)
                    if i == 1: self.frozen.add(a.envs[fr.eid][t.id].cid)
                    outs.append(a)
                return outs
            st.envs[fr.eid][t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported('starred')
            if isinstance(v, Tup):
                if len(v.items) != len(t.elts):
                    raise PyRaise('ValueError')
                sts = [st]
                for x, y in zip(t.elts, v.items):
                    sts = [b for a in sts for b in self.assign(x, y, a, fr, node)]
                return sts
            if isinstance(v, (Ref, View)):
                c = self.read(st, v)
                if c.kind == 'list':
                    self.oblige(st, 'unpacking arity', c.n == len(t.elts), node, 'no-raise')
                    sts = [st]
                    for i, x in enumerate(t.elts):
                        sts = [b for a in sts for b in self.assign(x, self.project(a, c.arr[i], c.t), a, fr, node)]
                    return sts
            if isinstance(v, z3.ExprRef):
                ty = ty_of(v.sort())
                if isinstance(ty, TTup):
                    return self.assign(t, self.project(st, v, ty), st, fr, node)
            raise Unsupported('unpack %r' % (v,))
        if isinstance(t, ast.Subscript):
            outs = []
            for a, base in self.ev(t.value, st, fr):
                if isinstance(t.slice, ast.Slice):
                    raise Unsupported('slice assignment')
                for b, idx in self.ev(t.slice, a, fr):
                    self.store(b, base, idx, v, node)
                    outs.append(b)
            return outs
        if isinstance(t, ast.Attribute):
            outs = []
            for a, base in self.ev(t.value, st, fr):
                self.set_attr(a, base, t.attr, v)
                outs.append(a)
            return outs
        raise Unsupported('assignment target')

    def store(self, st, base, idx, v, node):
        if isinstance(base, Opaque):
            h = self.contract.externals.get('store:' + base.name)
            if h: return h(self, st, base, idx, v)
        c = self.read(st, base)
        if c.kind == 'list':
            i = self.num(idx)
            if c.t is None:
                self.learn(c, 't', self.typeof(st, v))
            if not z3.is_int_value(i) or i.as_long() < 0:
                i = z3.If(i < 0, i + c.n, i) if not self.valid(st, i >= 0) else i
            self.oblige(st, 'index in range', z3.And(0 <= i, i < c.n), node, 'no-raise')
            i = z3.simplify(i) if z3.is_int_value(z3.simplify(i)) else i
            self.write(st, base, Lst(c.n, z3.Store(c.arr, i, self.embed(st, v, c.t)), c.t, c.pyt))
            self.forward(st, v, base, i)
            return
        if c.kind == 'dict':
            if c.kt is None:
                self.learn(c, 'kt', self.typeof(st, idx))
            if isinstance(v, Ref) and unknown(c.vt) and self.read(st, v).kind != 'obj' and unknown(self.read(st, v).typ()):
                # the type of the values is learnt (and the run restarted) when something is added to v
                self.pending_types = True
                return
            if c.vt is None:
                self.learn(c, 'vt', self.typeof(st, v))
            if unknown(c.vt):
                tv = self.typeof(st, v)
                if not unknown(tv):
                    self.learn(c, 'vt', tv)
            if isinstance(v, Ref):
                cv = self.read(st, v)
                if unknown(cv.typ()):
                    if unknown(c.vt):
                        raise Unsupported('untyped nested container')
                    self.learn(cv, 't', c.vt.t)
            if isinstance(c.vt, TInt) and isinstance(v, z3.ExprRef) and v.sort() == z3.RealSort():
                self.learn(c, 'vt', REAL)
            k = self.embed(st, idx, c.kt)
            self.write(st, base, Dct(z3.Store(c.dom, k, TRUE), z3.Store(c.val, k, self.embed(st, v, c.vt)), c.kt, c.vt, c.factory, c.pyt, c.inserted(k)))
            self.forward(st, v, base, k)
            return
        raise Unsupported('store')

    def forward(self, st, v, base, key):
        """v (a container) is now stored inside base: later mutations go through base"""
        if isinstance(v, Ref) and not isinstance(st.heap.get(v.cid), Fwd):
            base = self.resolve(st, base)
            st.heap[v.cid] = Fwd(View(base.cid, (base.path if isinstance(base, View) else ()) + (key,)))

    def s_If(self, s, st, fr):
        outs = []
        for a, v in self.ev(s.test, st, fr):
            t = self.truth(a, v)
            t = z3.simplify(t) if not has_quant(t) else t
            if z3.is_true(t):
                outs.extend(self.block(s.body, a, fr)); continue
            if z3.is_false(t):
                outs.extend(self.block(s.orelse, a, fr)); continue
            b = a.copy().assume(t)
            c = a.assume(z3.Not(t))
            if self.feasible(b):
                outs.extend(self.block(s.body, b, fr))
            if self.feasible(c):
                outs.extend(self.block(s.orelse, c, fr))
        return outs

    def s_Try(self, s, st, fr):
        if s.finalbody:
            raise Unsupported('finally')
        outs = []
        for kind, a, v in self.block(s.body, st, fr):
            if kind == 'raise':
                done = False
                for h in s.handlers:
                    names = []
                    if h.type is None: names = None
                    elif isinstance(h.type, ast.Tuple): names = [getattr(x, 'id', getattr(x, 'attr', None)) for x in h.type.elts]
                    else: names = [getattr(h.type, 'id', getattr(h.type, 'attr', None))]
                    if names is None or v in names or 'Exception' in names:
                        outs.extend(self.block(h.body, a, fr))
                        done = True
                        break
                if not done:
                    outs.append((kind, a, v))
            elif kind == 'next' and s.orelse:
                outs.extend(self.block(s.orelse, a, fr))
            else:
                outs.append((kind, a, v))
        return outs

    def s_With(self, s, st, fr):
        sts = [st]
        for item in s.items:
            new = []
            for a in sts:
                for b, v in self.ev(item.context_expr, a, fr):
                    if item.optional_vars is not None:
                        new.extend(self.assign(item.optional_vars, v, b, fr, s))
                    else:
                        new.append(b)
            sts = new
        return [o for a in sts for o in self.block(s.body, a, fr)]

    # ------------------------------------------------------------------ loops
    def s_While(self, s, st, fr):
        return self.loop(s, st, fr, None)

    def s_For(self, s, st, fr):
        outs = []
        for a, it in self.ev(s.iter, st, fr):
            outs.extend(self.for_over(s, a, fr, it))
        return outs

    def for_over(self, s, st, fr, it):
        if isinstance(it, Pending):
            # empty as far as is known; the run is restarted once its type is
            self.pending_types = True
            return [('next', st, None)]
        conc = self.concrete_iter(st, it)
        if conc is not None and not self.forced(s, fr):
            return self.unroll(s, st, fr, conc)
        return self.loop(s, st, fr, self.iterator(st, it, s))

    def forced(self, s, fr):
        idx = next((i for i, l in enumerate(loops_of(self.fnodes[fr.qual])) if l is s), None) if fr.qual in self.fnodes else None
        spec = self.contract.loops.get((fr.qual.split('.')[-1], idx)) or self.contract.loops.get((fr.qual, idx))
        return spec is not None and spec.force

    def concrete_iter(self, st, it):
        """a short list of values known now"""
        if isinstance(it, Tup):
            return it.items
        if isinstance(it, str) and len(it) <= 64:
            return list(it)
        if isinstance(it, Range) and isinstance(it.step, int):
            lo, hi = z3.simplify(self.num(it.lo)), z3.simplify(self.num(it.hi))
            if z3.is_int_value(lo) and z3.is_int_value(hi) and abs(hi.as_long() - lo.as_long()) <= 64:
                return [z3.IntVal(i) for i in range(lo.as_long(), hi.as_long(), it.step)]
        if isinstance(it, (Ref, View)):
            c = self.read(st, it)
            if c.kind == 'list' and z3.is_int_value(z3.simplify(c.n)) and z3.simplify(c.n).as_long() <= 32:
                n = z3.simplify(c.n).as_long()
                r = self.resolve(st, it)
                return [self.project(st, c.arr[i], c.t, View(r.cid, (r.path if isinstance(r, View) else ()) + (z3.IntVal(i),))) for i in range(n)] if n else []
        if isinstance(it, Enum):
            c = self.concrete_iter(st, it.it)
            if c is not None:
                return [Tup([z3.simplify(self.num(it.start) + i), x]) for i, x in enumerate(c)]
        if isinstance(it, Zip):
            cs = [self.concrete_iter(st, x) for x in it.its]
            if all(c is not None for c in cs):
                return [Tup(list(x)) for x in zip(*cs)]
        return None

    def unroll(self, s, st, fr, values):
        live = [st]
        outs = []
        for v in values:
            nxt = []
            for a in live:
                for b in self.assign(s.target, v, a, fr, s):
                    for kind, c, r in self.block(s.body, b, fr):
                        if kind in ('next', 'continue'): nxt.append(c)
                        elif kind == 'break': outs.append(('next', c, None))
                        else: outs.append((kind, c, r))
            live = nxt
        for a in live:
            outs.extend(self.block(s.orelse, a, fr) if s.orelse else [('next', a, None)])
        return outs

    def consume(self, st, g, via_loop=False):
        """a lazy stream can be consumed once"""
        if g.depth < self.loopdepth:
            raise Unsupported('a stream is consumed inside a loop')
        if ('used', g.uid) in st.ghost:
            raise Unsupported('a stream is consumed twice')
        st.ghost = dict(st.ghost)
        if not (via_loop) and st.ghost.get(('adv', g.uid)): raise Unsupported('a partly consumed stream')
        st.ghost[('used', g.uid)] = True

    loopdepth = 0
    pending_types = False

    def iterator(self, st, it, node):
        """-> dict describing an abstract iteration"""
        if isinstance(it, str): it = self.lift(it)
        if isinstance(it, Range):
            lo, hi = self.num(it.lo), self.num(it.hi)
            if it.step == 1:
                n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
                return dict(kind='index', n=n, get=lambda st, k: z3.simplify(lo + k) if z3.is_int_value(lo) and lo.as_long() == 0 else lo + k, what=it)
            if it.step == -1:
                n = z3.If(lo > hi, lo - hi, z3.IntVal(0))
                return dict(kind='index', n=n, get=lambda st, k: lo - k, what=it)
            step = self.num(it.step)
            if step.sort() != z3.IntSort() or (z3.is_int_value(step) and step.as_long() < 0): raise Unsupported('range step')
            self.oblige(st, 'the step of a range is positive', step > 0, node, 'no-raise')
            n = self.fresh('steps', z3.IntSort())
            st.assume(n >= 0, z3.If(hi > lo, z3.And(n > 0, (n - 1) * step < hi - lo, hi - lo <= n * step), n == 0))
            return dict(kind='index', n=n, get=lambda st, k: lo + k * step, what=it)
        if isinstance(it, Enum):
            sub = self.iterator(st, it.it, node)
            if sub['kind'] != 'index':
                raise Unsupported('enumerate over a set')
            start = self.num(it.start)
            return dict(kind='index', n=sub['n'], get=lambda st, k: Tup([start + k if not (z3.is_int_value(start) and start.as_long() == 0) else k, sub['get'](st, k)]), what=it)
        if isinstance(it, Zip):
            subs = [self.iterator(st, x, node) for x in it.its]
            n = subs[0]['n']
            for x in subs[1:]:
                n = z3.If(x['n'] < n, x['n'], n)
            return dict(kind='index', n=n, get=lambda st, k: Tup([x['get'](st, k) for x in subs]), what=it)
        if isinstance(it, Gen):
            if it.__dict__.get('arr') is None:
                raise Unsupported('iteration over an opaque stream')
            self.consume(st, it, True)
            off = st.ghost.get(('adv', it.uid), 0)
            if off:
                return dict(kind='index', n=it.n - off, get=lambda st, k: self.project(st, it.arr[k + off], it.t), what=it)
            return dict(kind='index', n=it.n, get=lambda st, k: self.project(st, it.arr[k], it.t), what=it)
        if isinstance(it, (Ref, View)):
            c = self.read(st, it)
            r = self.resolve(st, it)
            path = r.path if isinstance(r, View) else ()
            if c.kind == 'list':
                if c.t is None:
                    return dict(kind='index', n=z3.IntVal(0), get=None, what=it)
                return dict(kind='index', n=c.n, get=lambda st, k: self.project(st, c.arr[k], c.t, View(r.cid, path + (k,))), what=it, src=r.cid)
            if c.kind == 'set':
                return dict(kind='set', set=c.arr, t=c.t, get=lambda st, x: self.project(st, x, c.t), what=it, src=r.cid)
            if c.kind == 'dict':
                return dict(kind='set', set=c.dom, t=c.kt, get=lambda st, x: self.project(st, x, c.kt), what=it, src=r.cid, order=c.order)
        if isinstance(it, DView):
            c = self.read(st, it.ref)
            r = self.resolve(st, it.ref)
            path = r.path if isinstance(r, View) else ()

            def get(st, x):
                kv = self.project(st, x, c.kt)
                cc = self.read(st, it.ref)
                vv = self.project(st, cc.val[x], c.vt, View(r.cid, path + (x,)))
                return kv if it.what == 'keys' else vv if it.what == 'values' else Tup([kv, vv])
            return dict(kind='set', set=c.dom, t=c.kt, get=get, what=it, src=r.cid, srcval_ok=True, order=c.order)
        if isinstance(it, z3.ExprRef) and it.sort() == STR.sort():
            return dict(kind='index', n=TY.slen(it), get=lambda st, k: self.char_at(st, it, k), what=it)
        if isinstance(it, Opaque):
            h = self.contract.externals.get('iter:' + it.name)
            if h:
                return h(self, st, it)
        raise Unsupported('iteration over %r' % (it,))

    def char_at(self, st, s, k):
        return TY.schr(TY.sat(s, k))

    def shape(self, st, v):
        if v is None: return ('none',)
        if isinstance(v, bool): return ('sort', 'Bool')
        if isinstance(v, int): return ('sort', 'Int')
        if isinstance(v, float): return ('sort', 'Real')
        if isinstance(v, str): return ('str', v)
        if isinstance(v, z3.ExprRef): return ('sort', v.sort().name()) if v.sort().kind() != z3.Z3_ARRAY_SORT else ('sortx', str(v.sort()))
        if isinstance(v, Tup): return ('tup',) + tuple(self.shape(st, x) for x in v.items)
        if isinstance(v, Ref):
            if isinstance(st.heap.get(v.cid), Fwd): return ('view', repr(self.read(st, v).typ()))
            return ('cont', repr(self.read(st, v).typ())) if self.read(st, v).kind != 'obj' else ('obj', v.cid)
        if isinstance(v, View): return ('view', repr(self.read(st, v).typ()))
        if isinstance(v, Fn): return ('fn', id(getattr(v, 'node', v)))
        if isinstance(v, Opaque): return ('opaque', v.name)
        if isinstance(v, Ext): return ('ext',)
        return ('other', id(v))

    def havoc_value(self, st, name, v, pre_cids):
        if v is None or isinstance(v, str) or isinstance(v, (Fn, Opaque)):
            return v
        if isinstance(v, bool): return self.fresh(name, z3.BoolSort())
        if isinstance(v, int): return self.fresh(name, z3.IntSort())
        if isinstance(v, float): return self.fresh(name, z3.RealSort())
        if isinstance(v, z3.ExprRef): return self.fresh(name, v.sort())
        if isinstance(v, Tup): return Tup([self.havoc_value(st, '%s_%d' % (name, i), x, pre_cids) for i, x in enumerate(v.items)])
        if isinstance(v, Ext): return Ext(self.fresh(name + '_inf', z3.BoolSort()), self.fresh(name, z3.IntSort()))
        if isinstance(v, (Ref, View)):
            c = self.read(st, v)
            if c.kind == 'obj':
                return v
            return self.new_cell(st, self.havoc_cell(st, name, c))
        if isinstance(v, Gen):
            return v
        raise Unsupported('havoc %r' % (v,))

    def havoc_cell(self, st, name, c):
        if c.kind == 'list':
            if c.t is None: return c
            n = self.fresh(name + '_len', z3.IntSort())
            st.assume(n >= 0)
            return Lst(n, self.fresh(name + '_arr', c.arr.sort()), c.t, c.pyt)
        if c.kind == 'set':
            if c.t is None: return c
            return TY_St(self.fresh(name, c.arr.sort()), c.t, c.pyt)
        if c.kind == 'dict':
            if c.dom is None: return c
            dom = self.fresh(name + '_dom', c.dom.sort())
            return Dct(dom, self.fresh(name + '_val', c.val.sort()), c.kt, c.vt, c.factory, c.pyt, self.fresh_order(st, name, dom) if c.order is not None else None)
        if c.kind == 'obj':
            return Obj(c.cls, {k: (self.havoc_value(st, '%s_%s' % (name, k), v, None) if isinstance(v, (z3.ExprRef, int, float)) and not isinstance(v, bool) else v) for k, v in c.fields.items()})
        raise Unsupported('havoc cell')

    def loop(self, s, st, fr, itx):
        fnode = self.fnodes[fr.qual]
        ls = loops_of(fnode)
        idx = next((i for i, l in enumerate(ls) if l is s), None)
        lid = (fr.qual.split('.')[-1] if (fr.qual.split('.')[-1], idx) in self.contract.loops else fr.qual, idx)
        spec = self.contract.loops.get(lid)
        if itx is not None and itx['kind'] == 'index' and z3.is_int_value(itx['n']) and itx['n'].as_long() == 0:
            return [('next', st, None)]
        if itx is not None and itx['kind'] == 'set' and itx['t'] is None:
            return [('next', st, None)]     # nothing was ever added
        if spec is not None and spec.index and itx is not None and itx['kind'] == 'set':
            itx = self.numbered(st, itx)
        if spec is None:
            raise Stale('loop %d of %s (line %s) has no invariant' % (idx, fr.qual, s.lineno))
        self.loop_bodies.setdefault(lid, 0)
        names = assigned_names(s.body) | (assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0), lineno=0, col_offset=0)]) if isinstance(s, ast.For) else set())
        env0 = st.envs[fr.eid]
        # initial ghost
        st.ghost = dict(st.ghost)
        if itx is not None:
            st.ghost[('it', lid)] = itx
            if itx['kind'] == 'index':
                st.ghost[('k', lid)] = z3.IntVal(0)
            else:
                st.ghost[('seen', lid)] = TY.empty_set(itx['t'].sort())
        if spec.entry is not None:
            for nm, f, *by in spec.entry(SView(self, st, fr, loop=lid)):
                self.oblige(st, 'hint %s before loop %s:%d' % (nm, lid[0], lid[1]), f, s, 'hint', by[0] if by else ())
        self.check_inv(spec, lid, st, fr, 'initially', s)
        # head state
        # what an earlier visit of this loop was seen to change is forgotten from the start (at worst more than needed)
        known = self.frames.setdefault((lid, s.lineno), (set(), set()))
        mod_cells = {c for c in known[0] if c in st.heap}
        mod_ghost = {g for g in known[1] if g in st.ghost}
        shapes = {}
        for n in names:
            v = self.env_get(st, fr, n)
            if v is not KeyError:
                shapes[n] = [(self.shape(st, v), v)]
        for rounds in range(12):
            before = (set(mod_cells), set(mod_ghost), {n: [x[0] for x in l] for n, l in shapes.items()})
            saved = self.writes; self.writes = set()
            n_obl = len(self.obligations)
            result = self.run_loop(s, st, fr, itx, spec, lid, names, mod_cells, mod_ghost, shapes)
            new_writes = {w for w in self.writes if w in st.heap}
            self.writes = saved
            if new_writes <= mod_cells and before == (mod_cells, mod_ghost, {n: [x[0] for x in l] for n, l in shapes.items()}):
                self.writes |= new_writes
                known[0].update(mod_cells); known[1].update(mod_ghost)
                return result
            mod_cells |= new_writes
            del self.obligations[n_obl:]
        raise Unsupported('loop frame does not stabilise')

    def numbered(self, st, itx):
        """iteration over a set or dictionary, numbered: an enumeration without repetition, by insertion rank when known"""
        arr, pos = self.enumeration(st, itx['set'], itx['t'], itx.get('order'))
        get = itx['get']
        return dict(kind='index', n=TY.card(itx['set']), get=lambda st, k: get(st, arr[k]), what=itx['what'], src=itx.get('src'), srcval_ok=itx.get('srcval_ok'),
                    set=itx['set'], arr=arr, pos=pos)

    def enumeration(self, st, S_, t, order=None):
        S_ = self.flat(st, S_)
        n = TY.card(S_)
        arr = self.fresh('enum', z3.ArraySort(z3.IntSort(), t.sort()))
        pos = z3.Function('pos!%d' % next(self.counter), t.sort(), z3.IntSort())
        x = z3.Const('x!e', t.sort()); i, j = z3.Ints('i!e j!e')
        st.assume(z3.ForAll([x], z3.Implies(S_[x], z3.And(0 <= pos(x), pos(x) < n, arr[pos(x)] == x)), patterns=[S_[x]]))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(S_[arr[i]], pos(arr[i]) == i)), patterns=[arr[i]]))
        if order is not None:
            o = order[0]
            st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), o[arr[i]] < o[arr[j]]), patterns=[z3.MultiPattern(arr[i], arr[j])]))
        return arr, pos

    def env_get(self, st, fr, n):
        eid = fr.eid
        env = st.envs[eid]
        return env.get(n, KeyError)

    def check_inv(self, spec, lid, st, fr, when, node):
        for name, f in spec.inv:
            g = self.inv_formula(f, st, fr, lid)
            if g is None:
                continue
            self.oblige(st, 'invariant %s of loop %s:%d %s' % (name, lid[0], lid[1], when), g, node, 'invariant')

    def inv_formula(self, f, st, fr, lid):
        g = f(SView(self, st, fr, loop=lid))
        if g is None or g is True:
            return None
        if isinstance(g, (list, tuple)):
            g = z3.And(*g)
        return g

    def run_loop(self, s, st, fr, itx, spec, lid, names, mod_cells, mod_ghost, shapes):
        outs = []
        exits = []
        variants = [()]
        multi = [n for n in sorted(shapes) if len(shapes[n]) > 1]
        for n in multi:
            variants = [v + ((n, alt),) for v in variants for alt in shapes[n]]
        if len(variants) > 64:
            raise Unsupported('too many loop head shapes')
        for variant in variants:
            h = st.copy()
            if spec.drop:
                h.pc = [f for f in h.pc if not mentions_prefix(f, spec.drop)]
            env = h.envs[fr.eid]
            pre = set(st.heap)
            # variables
            for n in names:
                if n not in shapes:
                    env.pop(n, None)
                    continue
                v = dict((a, b[1]) for a, b in variant).get(n, shapes[n][0][1])
                src_state = h
                if isinstance(v, (Ref, View)) and self.resolve(h, v).cid not in h.heap:
                    raise Unsupported('loop variable refers to a vanished cell')
                same = isinstance(v, Ref) and v.cid in pre and not self.reassigned_container(s, n)
                if same:
                    env[n] = v
                else:
                    env[n] = self.havoc_value(h, n, v, pre)
            for cid in mod_cells:
                if cid in h.heap and not isinstance(h.heap[cid], Fwd):
                    h.heap[cid] = self.havoc_cell(h, 'cell%s' % self.cell_name(h, fr, cid), h.heap[cid])
            for g in mod_ghost:
                h.ghost[g] = self.fresh(str(g) if isinstance(g, str) else 'g', h.ghost[g].sort())
            if itx is not None:
                if itx['kind'] == 'index':
                    k = self.fresh('k', z3.IntSort())
                    h.ghost[('k', lid)] = k
                    h.assume(k >= 0, k <= itx['n'])
                else:
                    seen = self.fresh('seen', itx['set'].sort())
                    h.ghost[('seen', lid)] = seen
                    x = z3.Const('x!s', itx['t'].sort())
                    h.assume(z3.ForAll([x], z3.Implies(seen[x], itx['set'][x]), patterns=[seen[x]]))
                    h.assume(TY.subset(seen, itx['set']))
                if itx.get('src') in mod_cells and not itx.get('srcval_ok'):
                    raise Unsupported('container modified while iterated')
                if itx.get('src') in mod_cells and itx.get('srcval_ok'):
                    # only values may change while a dictionary is iterated
                    c1 = h.heap[itx['src']]; c0 = st.heap[itx['src']]
                    if c1.kind != 'dict' or not z3.eq(c1.dom, c0.dom):
                        raise Unsupported('dictionary modified while iterated')
            for name, f in spec.inv:
                g = self.inv_formula(f, h, fr, lid)
                if g is not None:
                    h.assume(g)
            if spec.use is not None:
                h.assume(*spec.use(SView(self, h, fr, loop=lid)))
            if spec.top is not None:
                for nm, f, *by in spec.top(SView(self, h, fr, loop=lid)):
                    self.oblige(h, 'hint %s at loop %s:%d' % (nm, lid[0], lid[1]), f, s, 'hint', by[0] if by else ())
            # exit
            e = h.copy()
            if itx is None:
                for a, c in self.ev(s.test, h.copy(), fr):
                    t = self.truth(a, c)
                    no = a.copy().assume(z3.Not(t))
                    if self.feasible(no):
                        exits.append(no)
                    yes = a.assume(t)
                    if self.feasible(yes):
                        outs.extend(self.body(s, yes, fr, itx, spec, lid, names, mod_ghost, shapes, None, st))
            else:
                b = h
                if itx['kind'] == 'index':
                    e.assume(e.ghost[('k', lid)] == itx['n'])
                    b.assume(k < itx['n'])
                    cur = k
                else:
                    e.assume(e.ghost[('seen', lid)] == itx['set'])
                    cur = self.fresh('x', itx['t'].sort())
                    b.assume(itx['set'][cur], z3.Not(seen[cur]))
                if self.read_later(s, fnode=self.fnodes[fr.qual]) and itx['kind'] == 'index' and itx['get'] is not None:
                    # the target keeps its last value
                    e1 = e.copy().assume(itx['n'] >= 1)
                    e.assume(itx['n'] < 1)
                    if self.feasible(e1): exits.extend(self.assign(s.target, itx['get'](e1, itx['n'] - 1), e1, fr, s))
                if self.feasible(e):
                    exits.append(e)
                if itx['get'] is not None and self.feasible(b):
                    v = itx['get'](b, cur)
                    for b2 in self.assign(s.target, v, b, fr, s):
                        outs.extend(self.body(s, b2, fr, itx, spec, lid, names, mod_ghost, shapes, cur, st))
        res = []
        for kind, a, v in outs:
            if kind == 'break':
                res.append(('next', a, None))
            else:
                res.append((kind, a, v))
        for e in exits:
            if spec.exit_hint is not None:
                for nm, f, *by in spec.exit_hint(SView(self, e, fr, loop=lid)):
                    self.oblige(e, 'hint %s after loop %s:%d' % (nm, lid[0], lid[1]), f, s, 'hint', by[0] if by else ())
            if s.orelse:
                res.extend(self.block(s.orelse, e, fr))
            else:
                res.append(('next', e, None))
        return res

    def read_later(self, s, fnode):
        """is the target of the loop read after it, and not assigned within?"""
        if not isinstance(s.target, ast.Name) or s.target.id in assigned_names(s.body): return False
        inside = {id(x) for x in ast.walk(s)}
        uses = sorted([(x.lineno, x.col_offset, isinstance(x.ctx, ast.Load)) for x in ast.walk(fnode) if isinstance(x, ast.Name) and x.id == s.target.id and id(x) not in inside and x.lineno > s.lineno])
        return bool(uses) and uses[0][2]

    def reassigned_container(self, s, n):
        """is the name n bound anew (not just mutated) in the loop?"""
        return n in assigned_names(s.body) or (isinstance(s, ast.For) and n in assigned_names([s]))

    def cell_name(self, st, fr, cid):
        for env in st.envs.values():
            for n, v in env.items():
                if isinstance(v, Ref) and v.cid == cid:
                    return '_' + n
        return ''

    def body(self, s, b, fr, itx, spec, lid, names, mod_ghost, shapes, cur, st0):
        outs = []
        g0 = dict(b.ghost)
        pre = b.copy()
        self.loop_bodies[lid] = self.loop_bodies.get(lid, 0) + 1
        dec0 = spec.dec(SView(self, b, fr, loop=lid)) if spec.dec is not None else None
        self.loopdepth += 1
        try:
            results = self.block(s.body, b, fr)
        finally:
            self.loopdepth -= 1
        for kind, a, v in results:
            for g, t in a.ghost.items():
                if isinstance(g, str) and (g in st0.ghost) and isinstance(t, z3.ExprRef) and not z3.eq(t, g0.get(g, t)):
                    mod_ghost.add(g)
            if kind in ('next', 'continue'):
                if dec0 is not None:
                    d1 = spec.dec(SView(self, a, fr, loop=lid))
                    if isinstance(d1, (list, tuple)):
                        lex = z3.BoolVal(False)
                        for x0, x1 in reversed(list(zip(dec0, d1))):
                            lex = z3.And(x0 >= 0, z3.Or(x1 < x0, z3.And(x1 == x0, lex)))
                    else:
                        lex = z3.And(dec0 >= 0, d1 < dec0)
                    self.oblige(a, 'measure of loop %s:%d decreases and is bounded' % lid, lex, s, 'termination')
                if itx is not None:
                    if itx['kind'] == 'index':
                        a.ghost[('k', lid)] = cur + 1
                    else:
                        a.ghost[('seen', lid)] = z3.Store(a.ghost[('seen', lid)], cur, TRUE)
                changed = False
                for n in names:
                    v2 = self.env_get(a, fr, n)
                    if n in shapes and v2 is not KeyError:
                        sh = self.shape(a, v2)
                        if isinstance(v2, Ref) and sh[0] == 'cont' and v2.cid in st0.heap:
                            w = shapes[n][0][1]
                            if not (isinstance(w, Ref) and w.cid == v2.cid):
                                pass
                        known = [x[0] for x in shapes[n]]
                        if sh not in known:
                            if {('sort', 'Int'), ('sort', 'Real')} == {sh, known[0]} and len(known) == 1:
                                shapes[n] = [(('sort', 'Real'), z3.RealVal(0))]
                                raise_int_to_real(st0, fr, n, self)
                            else:
                                if isinstance(v2, (Ref, View)):
                                    # keep a prototype reachable from the loop's entry state
                                    c = self.read(a, v2)
                                    v2 = self.proto(st0, c)
                                shapes[n] = shapes[n] + [(sh if sh[0] != 'view' else sh, v2)]
                            changed = True
                if changed:
                    continue
                if spec.hint is not None:
                    for nm, f, *by in spec.hint(SView(self, a, fr, loop=lid, extra={'cur': cur, 'pre': SView(self, pre, fr, loop=lid)})):
                        self.oblige(a, 'hint %s in loop %s:%d' % (nm, lid[0], lid[1]), f, s, 'hint', by[0] if by else ())
                self.check_inv(spec, lid, a, fr, 'preserved', s)
            else:
                outs.append((kind, a, v))
        return outs

    def proto(self, st, c):
        for cid, x in st.heap.items():
            if getattr(x, 'isproto', None) == repr(c.typ()):
                return Ref(cid)
        n = self.havoc_cell(st, 'proto', c)
        n.isproto = repr(c.typ())
        return self.new_cell(st, n)


def raise_int_to_real(st, fr, n, E):
    v = st.envs[fr.eid].get(n)
    if isinstance(v, int) and not isinstance(v, bool):
        st.envs[fr.eid][n] = z3.RealVal(v)
    elif isinstance(v, z3.ExprRef) and v.sort() == z3.IntSort():
        st.envs[fr.eid][n] = z3.ToReal(v)


def unknown(t):
    if t is None: return True
    if isinstance(t, (TList, TSet)): return unknown(t.t)
    if isinstance(t, TDict): return unknown(t.k) or unknown(t.v)
    if isinstance(t, TTup): return any(unknown(x) for x in t.ts)
    return False


from .engine import St as TY_St


def ty_of(s):
    return TY.ty_of_sort(s)
