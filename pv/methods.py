"""Methods of built-in containers and strings, and the assumed contracts of library functions."""
from .expr import *
from .expr import Engine as _Base
from .execute import TY_St, ty_of, unknown


class Engine(_Base):
    # ------------------------------------------------------------------ dispatch
    def method(self, st, recv, name, args, kw, node, fr=None):
        if isinstance(recv, Pending):
            return self.pending_method(st, recv, name, args)
        if isinstance(recv, (Ref, View)):
            c = self.read(st, recv)
            h = self.contract.externals.get('method:%s.%s' % (c.kind, name))
            if h is not None:
                r = h(self, st, recv, args, kw, node)
                if r is not None: return r
            m = getattr(self, 'm_%s_%s' % (c.kind, name), None)
            if m is None:
                raise Unsupported('method %s of %s' % (name, c.kind))
            return m(st, recv, c, args, kw, node)
        if isinstance(recv, Fn) and recv.kind == 'builtin' and recv.name == 'dict' and name == 'fromkeys' and len(args) == 1:
            c = self.read(st, self.to_list(st, args[0], node))
            if c.t is None: return [(st, self.new_cell(st, self.typed_dict((('fromkeys', getattr(node, 'lineno', 0)),))))]
            return [(st, self.new_cell(st, Dct(TY.elems(c.n, c.arr), z3.K(c.t.sort(), z3.Const('None', NONE.sort())), c.t, NONE)))]
        if isinstance(recv, str) or (isinstance(recv, z3.ExprRef) and recv.sort() == STR.sort()):
            return self.str_method(st, recv, name, args, kw, node)
        if isinstance(recv, Tup):
            h = self.contract.externals.get('method:tuple.%s' % name)
            if h is not None: return h(self, st, recv, args, kw, node)
        if isinstance(recv, z3.ExprRef):
            h = self.contract.externals.get('method:%s.%s' % (recv.sort().name(), name))
            if h is not None: return h(self, st, recv, args, kw, node)
        if isinstance(recv, Gen):
            h = self.contract.externals.get('method:gen.%s' % name)
            if h is not None: return h(self, st, recv, args, kw, node)
        raise Unsupported('method %s of %r' % (name, recv))

    def pending_method(self, st, p, name, args):
        if p.inner is not None:
            if name in ('append', 'add'): t = self.typeof(st, args[0])
            elif name in ('extend', 'update'): t = self.elem_type(st, args[0])
            else: raise Unsupported('method %s of an untyped container' % name)
            if unknown(t): raise Unsupported('untyped element')
            self.learn(p.c, 't', p.inner(t))
        vt = p.c.vt
        if name in ('append', 'add') and isinstance(vt, (TList, TSet)):
            t = self.typeof(st, args[0])
            if unknown(t): raise Unsupported('untyped element')
            self.learn(p.c, 'vt', type(vt)(t))
        if name in ('extend', 'update') and isinstance(vt, (TList, TSet)):
            self.learn(p.c, 'vt', type(vt)(self.elem_type(st, args[0])))
        raise Unsupported('method %s of an untyped container' % name)

    def elem_type(self, st, v):
        if isinstance(v, (Ref, View)):
            c = self.read(st, v)
            t = c.kt if c.kind == 'dict' else c.t
        elif isinstance(v, Gen): t = v.t
        elif isinstance(v, Tup): t = self.join_types(st, v.items)
        elif isinstance(v, Range): t = INT
        elif isinstance(v, DView):
            c = self.read(st, v.ref)
            t = c.kt if v.what == 'keys' else c.vt
        else: t = None
        if t is None: raise Unsupported('element type')
        return t

    # ------------------------------------------------------------------ lists
    def known_elem(self, st, c, v):
        """make sure that v can be stored in the list/set c"""
        if c.t is None:
            t = self.typeof(st, v)
            if unknown(t): raise Unsupported('untyped element')
            self.learn(c, 't', t)
        if isinstance(c.t, TInt) and isinstance(v, z3.ExprRef) and v.sort() == z3.RealSort():
            self.learn(c, 't', REAL)
        if isinstance(v, Ref):
            cv = self.read(st, v)
            if cv.kind != 'obj' and unknown(cv.typ()):
                self.learn(cv, 't', c.t.t)

    def optional(self, a, b):
        """the type that holds both: a component that is None in one and a container in the other is optional"""
        if not (isinstance(a, TTup) and isinstance(b, TTup)) or len(a.ts) != len(b.ts): return a
        out = []
        for u, v in zip(a.ts, b.ts):
            if isinstance(u, TNone) and isinstance(v, (TList, TSet, TDict)) and not unknown(v): u = TOpt(v)
            elif isinstance(v, TNone) and isinstance(u, (TList, TSet, TDict)): u = TOpt(u)
            out.append(u)
        return TTup(*out)

    def m_list_append(self, st, r, c, args, kw, node):
        v = args[0]
        self.known_elem(st, c, v)
        if isinstance(v, Tup) and isinstance(c.t, TTup):
            t = self.optional(c.t, self.typeof(st, v))
            if t != c.t:
                r_ = self.resolve(st, r)
                key = self.cell_sites.get(r_.cid) if isinstance(r_, Ref) else None
                if key is None: raise Unsupported('None or a container')
                self.sites[key + ('t',)] = t
                raise Restart()
        self.write(st, r, Lst(c.n + 1 if not z3.is_int_value(c.n) else z3.IntVal(c.n.as_long() + 1), z3.Store(c.arr, c.n, self.embed(st, v, c.t)), c.t, c.pyt))
        self.forward(st, v, r, c.n)
        return [(st, None)]

    def m_list_insert(self, st, r, c, args, kw, node):
        i, v = self.num(args[0]), args[1]
        if getattr(c, 't', None) is None: raise Unsupported('insert into an untyped list')
        i = z3.If(i < 0, z3.If(c.n + i < 0, 0, c.n + i), z3.If(i > c.n, c.n, i))
        i = z3.simplify(i)
        x = self.embed(st, v, c.t)
        arr = self.fresh('inserted', c.arr.sort())
        j = z3.Int('j!')
        st.assume(z3.ForAll([j], arr[j] == z3.If(j < i, c.arr[j], z3.If(j == i, x, c.arr[j - 1])), patterns=[arr[j]]))
        self.write(st, r, Lst(c.n + 1, arr, c.t, c.pyt))
        return [(st, None)]

    def m_list_extend(self, st, r, c, args, kw, node):
        v = args[0]
        if isinstance(v, (Ref, View)) and self.read(st, v).kind == 'list': cb = self.read(st, v)
        else:
            l = self.to_list(st, v, node)
            if not isinstance(l, Ref): raise Unsupported('extend')
            cb = self.read(st, l)
        if cb.t is None and z3.is_int_value(cb.n) and cb.n.as_long() == 0: return [(st, None)]
        if c.t is None: self.learn(c, 't', cb.t)
        n = self.read(st, self.list_concat(st, c, cb))
        self.write(st, r, Lst(n.n, n.arr, c.t, c.pyt))
        return [(st, None)]

    def m_list_pop(self, st, r, c, args, kw, node):
        if c.t is None: raise PyRaise('IndexError')
        if args and not (isinstance(args[0], int) and args[0] == -1):
            if isinstance(args[0], int) and args[0] == 0:
                self.oblige(st, 'pop from a non-empty list', c.n > 0, node, 'no-raise')
                arr = self.fresh('popped', c.arr.sort()); i = z3.Int('i!p')
                st.assume(z3.ForAll([i], arr[i] == c.arr[i + 1], patterns=[arr[i]]))
                self.write(st, r, Lst(c.n - 1, arr, c.t, c.pyt))
                return [(st, self.project(st, c.arr[0], c.t))]
            raise Unsupported('pop(i)')
        self.oblige(st, 'pop from a non-empty list', c.n > 0, node, 'no-raise')
        self.write(st, r, Lst(c.n - 1, c.arr, c.t, c.pyt))
        return [(st, self.project(st, c.arr[c.n - 1], c.t))]

    def m_list_sort(self, st, r, c, args, kw, node):
        n = self.read(st, self.sort_list(st, r, kw, node))
        self.write(st, r, n)
        return [(st, None)]

    def m_list_copy(self, st, r, c, args, kw, node):
        return [(st, self.new_cell(st, Lst(c.n, c.arr, c.t, c.pyt)))]

    # ------------------------------------------------------------------ sets
    def m_set_add(self, st, r, c, args, kw, node):
        self.known_elem(st, c, args[0])
        self.write(st, r, TY_St(z3.Store(c.arr, self.embed(st, args[0], c.t), TRUE), c.t, c.pyt))
        return [(st, None)]

    def m_set_discard(self, st, r, c, args, kw, node):
        if c.t is None: return [(st, None)]
        self.write(st, r, TY_St(z3.Store(c.arr, self.embed(st, args[0], c.t), FALSE), c.t, c.pyt))
        return [(st, None)]

    def m_set_remove(self, st, r, c, args, kw, node):
        self.oblige(st, 'remove an existing element', c.arr[self.embed(st, args[0], c.t)], node, 'no-raise')
        return self.m_set_discard(st, r, c, args, kw, node)

    def as_set(self, st, v, node):
        s = self.read(st, self.to_set(st, v, node, None))
        return s

    def setop(self, st, r, c, args, node, op, inplace):
        for v in args:
            if isinstance(v, (Ref, View)):
                cv = self.read(st, v)
                if (cv.kind in ('set', 'list') and cv.t is None):
                    if op is TY.inter: raise Unsupported('intersection with an untyped set')
                    continue
            s = self.as_set(st, v, node)
            if c.t is None:
                self.learn(c, 't', s.t)
            c = TY_St(op(c.arr, s.arr), c.t, c.pyt)
        if inplace:
            self.write(st, r, c)
            return [(st, None)]
        return [(st, self.new_cell(st, c))]

    def m_set_update(self, st, r, c, args, kw, node): return self.setop(st, r, c, args, node, TY.union, True)
    def m_set_union(self, st, r, c, args, kw, node): return self.setop(st, r, c, args, node, TY.union, False)
    def m_set_intersection(self, st, r, c, args, kw, node): return self.setop(st, r, c, args, node, TY.inter, False)
    def m_set_difference(self, st, r, c, args, kw, node): return self.setop(st, r, c, args, node, TY.diff, False)
    def m_set_difference_update(self, st, r, c, args, kw, node): return self.setop(st, r, c, args, node, TY.diff, True)
    def m_set_intersection_update(self, st, r, c, args, kw, node): return self.setop(st, r, c, args, node, TY.inter, True)

    def m_set_copy(self, st, r, c, args, kw, node): return [(st, self.new_cell(st, TY_St(c.arr, c.t)))]

    def m_set_issubset(self, st, r, c, args, kw, node): return [(st, TY.subset(c.arr, self.as_set(st, args[0], node).arr))]

    def m_set_isdisjoint(self, st, r, c, args, kw, node):
        b = self.as_set(st, args[0], node); x = z3.Const('x!dj', c.t.sort())
        return [(st, z3.ForAll([x], z3.Not(z3.And(c.arr[x], b.arr[x])), patterns=[c.arr[x], b.arr[x]]))]

    # ------------------------------------------------------------------ dicts
    def m_dict_get(self, st, r, c, args, kw, node):
        d = args[1] if len(args) > 1 else kw.get('default')
        if c.dom is None:
            return [(st, d)]
        k = self.embed(st, args[0], c.kt)
        rv = self.resolve(st, r)
        view = View(rv.cid, (rv.path if isinstance(rv, View) else ()) + (k,))
        if d is None or isinstance(c.vt, (TList, TSet, TDict, TTup)):
            outs = []
            a = st.copy().assume(c.dom[k])
            b = st.assume(z3.Not(c.dom[k]))
            if self.feasible(a): outs.append((a, self.project(a, c.val[k], c.vt, view)))
            if self.feasible(b): outs.append((b, d))
            return outs
        v = c.val[k]
        if v.sort() in (z3.IntSort(), z3.RealSort()):
            x, y = self.numpair(v, d)
            return [(st, z3.If(c.dom[k], x, y))]
        dd = self.lift(d) if not isinstance(d, z3.ExprRef) else d
        if dd.sort() == v.sort():
            return [(st, z3.If(c.dom[k], v, dd))]
        outs = []
        a = st.copy().assume(c.dom[k])
        b = st.assume(z3.Not(c.dom[k]))
        if self.feasible(a): outs.append((a, v))
        if self.feasible(b): outs.append((b, d))
        return outs

    def m_dict_items(self, st, r, c, args, kw, node): return [(st, DView(r, 'items'))]
    def m_dict_keys(self, st, r, c, args, kw, node): return [(st, DView(r, 'keys'))]
    def m_dict_values(self, st, r, c, args, kw, node): return [(st, DView(r, 'values'))]

    def m_dict_copy(self, st, r, c, args, kw, node):
        return [(st, self.new_cell(st, Dct(c.dom, c.val, c.kt, c.vt, c.factory, c.pyt, c.order)))]

    def m_dict_pop(self, st, r, c, args, kw, node):
        k = self.embed(st, args[0], c.kt)
        if len(args) == 1:
            self.oblige(st, 'key present', c.dom[k], node, 'no-raise')
            self.write(st, r, Dct(z3.Store(c.dom, k, FALSE), c.val, c.kt, c.vt, c.factory, c.pyt, c.order))
            return [(st, self.project(st, c.val[k], c.vt))]
        raise Unsupported('pop with default')

    # ------------------------------------------------------------------ strings
    def str_method(self, st, s, name, args, kw, node):
        h = self.contract.externals.get('method:str.' + name)
        if h is not None:
            r = h(self, st, s, args, kw, node)
            if r is not None: return r
        if isinstance(s, str) and all(isinstance(a, (str, int)) for a in args) and not kw and name in (
                'lower', 'upper', 'strip', 'split', 'startswith', 'endswith', 'replace', 'isspace', 'isdigit'):
            v = getattr(s, name)(*args)
            return [(st, v if not isinstance(v, list) else Tup(v))]
        t = self.lift(s)
        if name in ('startswith', 'endswith') and len(args) == 1:
            p = args[0]
            opts = p.items if isinstance(p, Tup) else [p]
            res = []
            for o in opts:
                o = self.lift(o)
                n, m = TY.slen(t), TY.slen(o)
                if isinstance(p, str) or all(isinstance(q, str) for q in opts):
                    q = opts[len(res)]
                    if name == 'startswith':
                        f = z3.And(n >= len(q), *[TY.sat(t, i) == ord(ch) for i, ch in enumerate(q)])
                    else:
                        f = z3.And(n >= len(q), *[TY.sat(t, n - len(q) + i) == ord(ch) for i, ch in enumerate(q)])
                else:
                    f = TY.fn('str_' + name, STR.sort(), STR.sort(), z3.BoolSort())(t, o)
                res.append(f)
            return [(st, z3.Or(res) if len(res) > 1 else res[0])]
        if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'casefold'):
            if args: raise Unsupported('str.%s with arguments' % name)
            return [(st, TY.fn('str_' + name, STR.sort(), STR.sort())(t))]
        if name in ('isspace', 'isdigit', 'isalpha', 'isupper', 'islower', 'isalnum', 'isnumeric', 'isdecimal', 'isidentifier'):
            return [(st, TY.fn('str_' + name, STR.sort(), z3.BoolSort())(t))]
        if name == 'join':
            return [(st, self.join(st, t, args[0], node))]
        raise Unsupported('str.%s' % name)

    def join(self, st, sep, v, node):
        c = self.read(st, v) if isinstance(v, (Ref, View)) else v
        if isinstance(c, Gen): self.consume(st, c)
        if isinstance(c, Gen) or (hasattr(c, 'kind') and c.kind == 'list'):
            return TY.join_fn(sep, c.n, c.arr)
        raise Unsupported('join')


def _join_fn(sep, n, arr):
    f = TY.fn('str_join', STR.sort(), z3.IntSort(), arr.sort(), STR.sort())
    if arr.sort().range() == STR.sort() and 'join.nil' not in TY.AXIOMS:
        # joining with an empty separator: concatenation
        a = z3.Const('a!', arr.sort()); m, k = z3.Ints('m! k!'); x, s = z3.Consts('x! s!', STR.sort())
        TY.axiom('join.nil', TY.forall([s, a], TY.slen(f(s, 0, a)) == 0, [f(s, 0, a)]))
        TY.axiom('join.one', TY.forall([s, a], z3.Implies(TY.slen(s) == 0, f(s, 1, a) == TY.scat(f(s, 0, a), a[0])), [f(s, 1, a)]))
        TY.axiom('join.step', TY.forall([s, m, a], z3.Implies(z3.And(m >= 0, TY.slen(s) == 0), f(s, m + 1, a) == TY.scat(f(s, m, a), a[m])), [f(s, m + 1, a)]))
        TY.axiom('join.frame', TY.forall([s, m, a, k, x], z3.Implies(k >= m, f(s, m, z3.Store(a, k, x)) == f(s, m, a)), [f(s, m, z3.Store(a, k, x))]))
    if arr.sort().range() == STR.sort() and 'join.ext' not in TY.AXIOMS:
        # extensionality: the result depends on the joined strings only
        b = z3.Const('b!', arr.sort()); d = TY.fn('join_diff', z3.IntSort(), arr.sort(), arr.sort(), z3.IntSort())
        a = z3.Const('a!', arr.sort()); m = z3.Int('m!'); s = z3.Const('s!', STR.sort()); w = d(m, a, b)
        TY.axiom('join.ext', TY.forall([s, m, a, b], z3.Or(f(s, m, a) == f(s, m, b), z3.And(0 <= w, w < m, a[w] != b[w])), [z3.MultiPattern(f(s, m, a), f(s, m, b))]))
    return f(sep, n, arr)


TY.join_fn = _join_fn


# ------------------------------------------------------------------------------------------- externals
def sqrt_term(x):
    f = TY.fn('sqrt', z3.RealSort(), z3.RealSort())
    y = z3.Real('y!')
    TY.axiom('sqrt.def', TY.forall([y], z3.Implies(y >= 0, z3.And(f(y) >= 0, f(y) * f(y) == y)), [f(y)]))
    return f(x)


@external('math.sqrt')
def _sqrt(E, st, args, kw, node):
    x = E.num(args[0])
    x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
    E.oblige(st, 'math domain', x >= 0, node, 'no-raise')
    return [(st, sqrt_term(x))]


@external('math.ceil')
def _ceil(E, st, args, kw, node):
    if isinstance(args[0], (int, float)): return [(st, _math.ceil(args[0]))]
    x = E.num(args[0])
    if x.sort() == z3.IntSort(): return [(st, x)]
    return [(st, -z3.ToInt(-x))]


@external('math.floor')
def _floor(E, st, args, kw, node):
    if isinstance(args[0], (int, float)): return [(st, _math.floor(args[0]))]
    x = E.num(args[0])
    if x.sort() == z3.IntSort(): return [(st, x)]
    return [(st, z3.ToInt(x))]


FACT = {'list': TList(None), 'set': TSet(None), 'int': INT, 'float': REAL, 'dict': TDict(None, None)}


@external('collections.defaultdict')
def _defaultdict(E, st, args, kw, node):
    f = args[0]
    t = None
    if isinstance(f, Fn) and f.kind == 'builtin': t = FACT.get(f.name)
    if isinstance(f, Opaque) and f.name == 'collections.Counter': t = TCounter(None, INT)
    if t is None: raise Unsupported('defaultdict factory')
    key = (('dd', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)),)
    return [(st, E.new_cell(st, E.typed_dict(key, factory=t, pyt='defaultdict')))]


@external('collections.Counter')
def _counter(E, st, args, kw, node):
    if args:
        v = args[0]
        if isinstance(v, Gen):
            E.consume(st, v)
            n, arr, t = v.n, v.arr, v.t
        else:
            c = E.read(st, E.to_list(st, v, node))
            n, arr, t = c.n, c.arr, c.t
        return [(st, E.new_cell(st, Dct(TY.elems(n, arr), TY.bag_of_list(n, arr), t, INT, pyt='Counter')))]
    key = (('ctr', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)),)
    E.sites.setdefault(key + ('vt',), INT)
    return [(st, E.new_cell(st, E.typed_dict(key, pyt='Counter')))]


@external('collections.OrderedDict')
def _odict(E, st, args, kw, node):
    if args: raise Unsupported('OrderedDict(iterable)')
    key = (('od', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)),)
    return [(st, E.new_cell(st, E.typed_dict(key, pyt='OrderedDict')))]


@external('functools.partial')
def _partial(E, st, args, kw, node):
    return [(st, Fn('partial', f=args[0], args=args[1:], kw=kw, name='partial'))]
