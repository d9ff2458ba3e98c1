"""Expressions, calls, built-ins and comprehensions."""
from .execute import *
from .execute import TY_St, ty_of
import math as _math


class Engine(Executor):
    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, st, fr)

    def evs(self, es, st, fr):
        """evaluate in sequence -> list of (state, [values])"""
        outs = [(st, [])]
        for e in es:
            outs = [(b, vs + [v]) for a, vs in outs for b, v in self.ev(e, a, fr)]
        return outs

    def e_Constant(self, e, st, fr):
        v = e.value
        if isinstance(v, bytes):
            return [(st, Opaque('bytes:%r' % v))]
        return [(st, v)]

    def e_Name(self, e, st, fr):
        v = self.lookup(st, fr, e.id, e)
        return [(st, v)]

    def e_Tuple(self, e, st, fr):
        return [(a, Tup(vs)) for a, vs in self.evs(e.elts, st, fr)]

    def e_JoinedStr(self, e, st, fr):
        return [(st, self.fresh('fstr', STR.sort()))]

    def e_List(self, e, st, fr):
        key = self.site(e, fr, 'list')
        if not e.elts:
            return [(st, self.new_cell(st, self.typed_list(key)))]
        outs = []
        for a, vs in self.evs(e.elts, st, fr):
            t = self.sites.get(key + ('t',)) or self.join_types(a, vs)
            if t is None:
                # not homogeneous: a fixed tuple of values
                outs.append((a, Tup(vs)))
                continue
            arr = self.fresh('lit', z3.ArraySort(z3.IntSort(), t.sort()))
            for i, v in enumerate(vs):
                arr = z3.Store(arr, i, self.embed(a, v, t))
            c = Lst(z3.IntVal(len(vs)), arr, t)
            c.site = key
            outs.append((a, self.new_cell(a, c)))
        return outs

    def join_types(self, st, vs):
        try:
            ts = [self.typeof(st, v) for v in vs]
        except Unsupported:
            return None
        if all(t == ts[0] for t in ts):
            return ts[0] if not unknown(ts[0]) else None
        if {repr(t) for t in ts} <= {'TInt', 'TReal'}:
            return REAL
        return None

    def e_Set(self, e, st, fr):
        outs = []
        for a, vs in self.evs(e.elts, st, fr):
            t = self.join_types(a, vs)
            if t is None: raise Unsupported('set literal')
            arr = TY.empty_set(t.sort())
            for v in vs:
                arr = z3.Store(arr, self.embed(a, v, t), TRUE)
            c = TY_St(arr, t)
            c.lits = vs
            outs.append((a, self.new_cell(a, c)))
        return outs

    def e_Dict(self, e, st, fr):
        if not e.keys:
            return [(st, self.new_cell(st, self.typed_dict(self.site(e, fr, 'dict'))))]
        outs = []
        for a, ks in self.evs(e.keys, st, fr):
            for b, vs in self.evs(e.values, a, fr):
                if any(isinstance(v, Fn) for v in vs) and all(isinstance(x, str) for x in ks):
                    outs.append((b, Opaque('table', table=dict(zip(ks, vs)))))
                    continue
                kt, vt = self.join_types(b, ks), self.join_types(b, vs)
                if kt is None or vt is None: raise Unsupported('dict literal')
                dom = TY.empty_set(kt.sort())
                val = self.fresh('dlit', z3.ArraySort(kt.sort(), vt.sort()))
                for k, v in zip(ks, vs):
                    kk = self.embed(b, k, kt)
                    dom = z3.Store(dom, kk, TRUE); val = z3.Store(val, kk, self.embed(b, v, vt))
                outs.append((b, self.new_cell(b, Dct(dom, val, kt, vt))))
        return outs

    def e_Lambda(self, e, st, fr):
        return [(st, Fn('lambda', node=e, parent=fr.eid, module=fr.module, qual=fr.qual + '.<lambda>', name='<lambda>'))]

    def e_UnaryOp(self, e, st, fr):
        outs = []
        for a, v in self.ev(e.operand, st, fr):
            if isinstance(e.op, ast.Not): outs.append((a, z3.Not(self.truth(a, v))))
            elif isinstance(e.op, ast.USub):
                if isinstance(v, (int, float)) and not isinstance(v, bool): outs.append((a, -v))
                else: outs.append((a, -self.num(v)))
            elif isinstance(e.op, ast.UAdd): outs.append((a, v))
            elif isinstance(e.op, ast.Invert): outs.append((a, ~self.num(v)))
        return outs

    def e_BinOp(self, e, st, fr):
        outs = []
        for a, x in self.ev(e.left, st, fr):
            for b, y in self.ev(e.right, a, fr):
                if isinstance(x, (int, float)) and isinstance(y, (int, float)) and not isinstance(x, bool) and not isinstance(y, bool) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)):
                    outs.append((b, {ast.Add: x + y, ast.Sub: x - y, ast.Mult: x * y}[type(e.op)]))
                else:
                    outs.append((b, self.binop(b, e.op, x, y, e)))
        return outs

    def e_Compare(self, e, st, fr):
        outs = []
        for a, l in self.ev(e.left, st, fr):
            cur = [(a, l, TRUE)]
            for op, rn in zip(e.ops, e.comparators):
                new = []
                for b, left, acc in cur:
                    for c, r in self.ev(rn, b, fr):
                        t = self.compare(c, op, left, r, e)
                        new.append((c, r, z3.And(acc, t) if not z3.is_true(acc) else t))
                cur = new
            outs.extend((b, acc) for b, _, acc in cur)
        return outs

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        outs = []

        def go(a, i, acc):
            """acc: truth of all previous operands (list of z3 bools)"""
            for b, v in self.ev(e.values[i], a, fr):
                if i == len(e.values) - 1:
                    outs.append((b, v, acc))
                    continue
                t = self.truth(b, v)
                ts = z3.simplify(t) if not has_quant(t) else t
                if z3.is_true(ts) or z3.is_false(ts):
                    if z3.is_true(ts) == isand:
                        go(b, i + 1, acc)
                    else:
                        outs.append((b, v, acc))
                    continue
                cond = t if isand else z3.Not(t)
                # try to evaluate the rest without forking
                trial = b.copy().assume(cond)
                npc = len(trial.pc)
                sub = []
                saved = len(self.obligations), set(self.writes)
                ok = False
                if self.feasible(trial):
                    heap0, envs0 = trial.heap, {k: dict(x) for k, x in trial.envs.items()}
                    heap_ids = set(trial.heap)
                    rest = ast.BoolOp(op=e.op, values=e.values[i + 1:]) if len(e.values) - i - 1 > 1 else e.values[i + 1]
                    ast.copy_location(rest, e)
                    sub = self.ev(rest, trial, fr)
                    if len(sub) == 1:
                        s2, v2 = sub[0]
                        same = all(s2.heap.get(c) is b.heap.get(c) for c in heap_ids) and s2.envs.keys() == envs0.keys() and all(
                            s2.envs[k].keys() == envs0[k].keys() and all(s2.envs[k][n] is envs0[k][n] for n in envs0[k]) for k in envs0)
                        try:
                            t2 = self.truth(s2, v2)
                        except Unsupported:
                            same = False
                        if same:
                            for f in s2.pc[npc:]:
                                b.assume(z3.Implies(cond, f))
                            for cid, c in s2.heap.items():
                                b.heap.setdefault(cid, c)
                            b.ghost = s2.ghost
                            outs.append((b, z3.And(t, t2) if isand else z3.Or(t, t2), acc))
                            ok = True
                    if not ok:
                        for s2, v2 in sub:
                            outs.append((s2, v2, acc))
                    if ok:
                        continue
                neg = b.assume(z3.Not(cond))
                if self.feasible(neg):
                    outs.append((neg, v, acc))
        go(st, 0, [])
        return [(a, v) for a, v, _ in outs]

    def e_IfExp(self, e, st, fr):
        outs = []
        for a, c in self.ev(e.test, st, fr):
            t = self.truth(a, c)
            ts = z3.simplify(t) if not has_quant(t) else t
            if z3.is_true(ts): outs.extend(self.ev(e.body, a, fr)); continue
            if z3.is_false(ts): outs.extend(self.ev(e.orelse, a, fr)); continue
            b = a.copy().assume(t)
            d = a.assume(z3.Not(t))
            if self.feasible(b): outs.extend(self.ev(e.body, b, fr))
            if self.feasible(d): outs.extend(self.ev(e.orelse, d, fr))
        return outs

    def e_Attribute(self, e, st, fr):
        outs = []
        for a, v in self.ev(e.value, st, fr):
            outs.append((a, self.attribute(a, v, e.attr, e, fr)))
        return outs

    def attribute(self, st, v, attr, node, fr):
        if isinstance(v, (Ref, View)):
            c = self.read(st, v)
            if c.kind == 'obj':
                if attr in c.fields: return c.fields[attr]
                if attr == '__class__': return c.cls
                m = self.find_method(c.cls, attr)
                if m is not None:
                    return Fn('repo', module=m[0], node=m[1], qual=c.cls.name + '.' + attr, parent=None, name=attr, self=v)
                h = self.contract.externals.get('attr:%s.%s' % (c.cls.name if not isinstance(c.cls, str) else c.cls, attr))
                if h: return h(self, st, v)
                raise Unsupported('attribute %s' % attr)
            return Fn('method', recv=v, name=attr)
        if isinstance(v, Opaque):
            h = self.contract.externals.get('attr:%s.%s' % (v.name, attr))
            if h: return h(self, st, v)
            return Opaque('%s.%s' % (v.name, attr), base=v)
        if isinstance(v, Fn) and v.kind == 'repo' and hasattr(v, 'node') and isinstance(v.node, ast.ClassDef):
            pass
        return Fn('method', recv=v, name=attr)

    def find_method(self, cls, name):
        if isinstance(cls, str):
            return None
        for m in cls.node.body:
            if isinstance(m, ast.FunctionDef) and (m.name == name or '_%s%s' % (cls.name, m.name) == name):
                return cls.module, m
        for b in cls.node.bases:
            if isinstance(b, ast.Name):
                g = self.global_value(State(), cls.module, b.id)
                if isinstance(g, Fn) and g.kind == 'class':
                    r = self.find_method(g, name)
                    if r: return r
        return None

    def e_Subscript(self, e, st, fr):
        outs = []
        for a, base in self.ev(e.value, st, fr):
            if isinstance(e.slice, ast.Slice):
                sl = e.slice
                parts = [sl.lower, sl.upper, sl.step]
                ps = [(a, [])]
                for p in parts:
                    ps = [(b, vs + [v]) for c, vs in ps for b, v in (self.ev(p, c, fr) if p is not None else [(c, None)])]
                for b, (lo, hi, step) in ps:
                    outs.append((b, self.slice(b, base, lo, hi, step, e)))
                continue
            for b, idx in self.ev(e.slice, a, fr):
                outs.extend(self.subscript(b, base, idx, e))
        return outs

    def clamp(self, st, i, n, default):
        if i is None: return default
        i = self.num(i)
        si = z3.simplify(i)
        if z3.is_int_value(si):
            c = si.as_long()
            if c == 0: return z3.IntVal(0)
            if c < 0:
                return z3.If(n + c < 0, z3.IntVal(0), n + c) if not self.valid(st, n + c >= 0) else n + c
        if self.valid(st, z3.And(i >= 0, i <= n)): return i
        if self.valid(st, i >= 0): return z3.If(i > n, n, i)
        return z3.If(i < 0, z3.If(n + i < 0, z3.IntVal(0), n + i), z3.If(i > n, n, i))

    def slice(self, st, base, lo, hi, step, node):
        if isinstance(base, Tup) and step is None and (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
            return Tup(base.items[lo:hi])
        if isinstance(base, str):
            if (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)): return base[lo:hi]
            base = self.lift(base)
        if isinstance(step, int) and step == -1 and lo is None and hi is None and isinstance(base, z3.ExprRef):
            return TY.fn('str_reverse', STR.sort(), STR.sort())(base)
        if step is not None:
            raise Unsupported('slice step')
        if isinstance(base, z3.ExprRef) and base.sort() == STR.sort():
            n = TY.slen(base)
            i = self.clamp(st, lo, n, z3.IntVal(0)); j = self.clamp(st, hi, n, n)
            if not self.valid(st, j >= i):
                j = z3.If(j < i, i, j)
            return TY.ssub(base, i, j)
        if isinstance(base, (Ref, View)):
            c = self.read(st, base)
            if c.kind == 'list':
                i = self.clamp(st, lo, c.n, z3.IntVal(0)); j = self.clamp(st, hi, c.n, c.n)
                if not self.valid(st, j >= i):
                    j = z3.If(j < i, i, j)
                if z3.is_int_value(i) and i.as_long() == 0:
                    return self.new_cell(st, Lst(j, c.arr, c.t, c.pyt))
                arr = self.fresh('slice', c.arr.sort())
                x = z3.Int('i!s')
                st.assume(z3.ForAll([x], arr[x] == c.arr[x + i], patterns=[arr[x]]))
                return self.new_cell(st, Lst(j - i, arr, c.t, c.pyt))
        if isinstance(base, Opaque):
            h = self.contract.externals.get('slice:' + base.name)
            if h: return h(self, st, base, lo, hi)
        raise Unsupported('slice of %r' % (base,))

    def subscript(self, st, base, idx, node):
        if isinstance(base, Tup):
            if isinstance(idx, int): return [(st, base.items[idx])]
            i = z3.simplify(self.num(idx))
            if z3.is_int_value(i): return [(st, base.items[i.as_long()])]
            raise Unsupported('tuple index')
        if isinstance(base, Opaque):
            h = self.contract.externals.get('index:' + base.name)
            if h: return h(self, st, base, idx, node)
            if base.name == 'table' and idx in base.table: return [(st, base.table[idx])]
            raise Unsupported('index of %s' % base.name)
        if isinstance(base, str):
            base = self.lift(base)
        if isinstance(base, z3.ExprRef) and base.sort() == STR.sort():
            i = self.num(idx)
            n = TY.slen(base)
            if isinstance(idx, int) and idx < 0: i = n + idx
            elif not self.valid(st, i >= 0): i = z3.If(i < 0, i + n, i)
            self.oblige(st, 'index in range', z3.And(0 <= i, i < n), node, 'no-raise')
            return [(st, self.char_at(st, base, i))]
        if isinstance(base, z3.ExprRef):
            t = ty_of(base.sort())
            if isinstance(t, TTup):
                return self.subscript(st, self.project(st, base, t), idx, node)
            h = self.contract.externals.get('index:' + base.sort().name())
            if h: return h(self, st, base, idx, node)
        if isinstance(base, Pending) and base.inner is None and isinstance(base.c.vt, TDict) and not unknown(base.c.vt.v):
            self.learn(base.c, 'vt', type(base.c.vt)(self.typeof(st, idx), base.c.vt.v))
        if isinstance(base, (Ref, View)):
            c = self.read(st, base)
            r = self.resolve(st, base)
            path = r.path if isinstance(r, View) else ()
            if c.kind == 'list':
                if c.t is None:
                    if getattr(c, 'nested', None) is None: raise Unsupported('index into an untyped list')
                    inner = {'list': TList, 'set': TSet}.get(c.nested.kind)
                    if inner is None: raise Unsupported('index into an untyped list')
                    return [(st, Pending(self, base, c, inner))]
                i = self.num(idx)
                if isinstance(idx, int) and idx < 0: i = c.n + idx
                elif isinstance(idx, int): pass
                elif not self.valid(st, i >= 0): i = z3.If(i < 0, i + c.n, i)
                self.oblige(st, 'index in range', z3.And(0 <= i, i < c.n), node, 'no-raise')
                return [(st, self.project(st, c.arr[i], c.t, View(r.cid, path + (i,))))]
            if c.kind == 'dict':
                if c.kt is None:
                    self.learn(c, 'kt', self.typeof(st, idx))
                if unknown(c.vt) and c.factory is None:
                    raise Unsupported('untyped dict')
                k = self.embed(st, idx, c.kt)
                if c.factory is None and c.pyt != 'Counter':
                    self.oblige(st, 'key present', c.dom[k], node, 'no-raise')
                    return [(st, self.project(st, c.val[k], c.vt, View(r.cid, path + (k,))))]
                if c.pyt == 'Counter':
                    return [(st, z3.If(c.dom[k], c.val[k], self.embed(st, 0, c.vt)))]
                # defaultdict
                outs = []
                if unknown(c.vt):
                    # the type of the values will be learnt through this view
                    return [(st, Pending(self, base, c))]
                if self.valid(st, c.dom[k]):
                    return [(st, self.project(st, c.val[k], c.vt, View(r.cid, path + (k,))))]
                d = self.default_of(st, c)
                if isinstance(c.vt, (TList, TSet, TDict)):
                    # absent key: insert the default.  One state: val[k] is the default when absent.
                    nv = z3.If(c.dom[k], c.val[k], d)
                    self.write(st, base, Dct(z3.Store(c.dom, k, TRUE), z3.Store(c.val, k, nv), c.kt, c.vt, c.factory, c.pyt, c.inserted(k)))
                    return [(st, View(r.cid, path + (k,)))]
                self.write(st, base, Dct(z3.Store(c.dom, k, TRUE), z3.Store(c.val, k, z3.If(c.dom[k], c.val[k], d)), c.kt, c.vt, c.factory, c.pyt, c.inserted(k)))
                c2 = self.read(st, base)
                return [(st, z3.If(c.dom[k], c.val[k], d))]
        raise Unsupported('subscript of %r' % (base,))

    def default_of(self, st, c):
        t = c.vt
        return self.default_term(t)

    def default_term(self, t):
        if isinstance(t, TList):
            return t.mk(z3.IntVal(0), TY.fn('nil_%s' % t.name(), z3.ArraySort(z3.IntSort(), t.t.sort()))())
        if isinstance(t, TSet): return TY.empty_set(t.t.sort())
        if isinstance(t, TDict): return t.mk(TY.empty_set(t.k.sort()), TY.fn('nild_%s' % t.name(), z3.ArraySort(t.k.sort(), t.v.sort()))())
        if isinstance(t, TInt): return z3.IntVal(0)
        if isinstance(t, TReal): return z3.RealVal(0)
        raise Unsupported('default value')

    def e_Yield(self, e, st, fr):
        outs = []
        for a, v in (self.ev(e.value, st, fr) if e.value is not None else [(st, None)]):
            self.do_yield(a, v, e, fr)
            outs.append((a, None))
        return outs

    def do_yield(self, st, v, node, fr):
        key = ('yield', fr.qual, fr.callpath)
        g = st.ghost
        depth = g.get('gendepth', 0)
        if depth == 0 and self.contract.on_yield is not None:
            obls, upd = self.contract.on_yield(SView(self, st, fr), self.spec(st, v) if not isinstance(v, Tup) else v)
            for nm, f in obls:
                self.oblige(st, 'yield clause %s' % nm, f, node, 'yield')
            st.ghost = dict(st.ghost)
            st.ghost.update(upd)
        if depth == 0 and self.contract.yields is False: return
        ty = self.sites.get(key)
        if ty is None:
            if depth == 0 and self.contract.yields is not None:
                ty = self.contract.yields
            else:
                try:
                    ty = self.typeof(st, v)
                except Unsupported:
                    if depth == 0: return
                    raise
                if unknown(ty):
                    raise Unsupported('yield of an untyped value')
                if key not in self.sites and self.needs_outs(fr):
                    self.sites[key] = ty
                    raise Restart()
        if ty is False or 'bag' not in st.ghost or st.ghost['bag'] is None:
            return
        if isinstance(v, Tup) and isinstance(ty, TTup) and key in self.sites:
            t2 = self.optional(ty, self.typeof(st, v))
            if t2 != ty:
                self.sites[key] = t2
                raise Restart()
        x = self.embed(st, v, ty)
        st.ghost = dict(st.ghost)
        st.ghost['bag'] = z3.Store(g['bag'], x, g['bag'][x] + 1)
        st.ghost['out'] = z3.Store(g['out'], g['outlen'], x)
        st.ghost['outlen'] = g['outlen'] + 1

    def needs_outs(self, fr):
        return True

    def start_outs(self, st, fr, key, ty=None):
        ty = ty if ty is not None else self.sites.get(key)
        if ty is False: ty = None
        st.ghost = dict(st.ghost)
        if ty is None:
            st.ghost['bag'] = None; st.ghost['out'] = None; st.ghost['outlen'] = z3.IntVal(0)
        else:
            st.ghost['bag'] = z3.K(ty.sort(), z3.IntVal(0))
            st.ghost['out'] = self.fresh('out', z3.ArraySort(z3.IntSort(), ty.sort()))
            st.ghost['outlen'] = z3.IntVal(0)
        st.ghost['outty'] = ty

    def e_YieldFrom(self, e, st, fr):
        outs = []
        for a, v in self.ev(e.value, st, fr):
            outs.extend(self.yield_from(a, v, e, fr))
        return outs

    def yield_from(self, st, v, e, fr):
        h = self.contract.externals.get('yield_from')
        if h is not None:
            r = h(self, st, v, e, fr)
            if r is not None:
                return r
        if isinstance(v, Gen) and v.__dict__.get('opaque') is not None:
            # emitted wholesale: recorded as a ghost stream
            st.ghost = dict(st.ghost)
            if st.ghost.get('gendepth', 0) == 0:
                if 'stream' in st.ghost and st.ghost['stream'] is not None:
                    raise Unsupported('two streams emitted')
                st.ghost['stream'] = v
            else:
                st.ghost['stream'] = v
            return [(st, None)]
        conc = self.concrete_iter(st, v)
        if conc is not None:
            for x in conc:
                self.do_yield(st, x, e, fr)
            return [(st, None)]
        itx = self.iterator(st, v, e)
        if itx['kind'] == 'index':
            src = v if isinstance(v, Gen) else self.read(st, v) if isinstance(v, (Ref, View)) else None
            if src is None: raise Unsupported('yield from')
            n, arr, ty = src.n, src.arr, src.t
            key = ('yield', fr.qual, fr.callpath)
            if self.sites.get(key) is None and not (st.ghost.get('gendepth', 0) == 0 and self.contract.yields is not None):
                self.sites[key] = ty
                raise Restart()
            g = st.ghost
            st.ghost = dict(g)
            newbag = self.fresh('bag', g['bag'].sort())
            newout = self.fresh('out', g['out'].sort())
            x = z3.Const('x!y', ty.sort())
            vb = self.bag_of(st, v, n, arr, ty)
            st.assume(z3.ForAll([x], newbag[x] == g['bag'][x] + vb[x], patterns=[newbag[x]]))
            i = z3.Int('i!y')
            st.assume(z3.ForAll([i], newout[i] == z3.If(i < g['outlen'], g['out'][i], arr[i - g['outlen']]), patterns=[newout[i]]))
            st.ghost['bag'] = newbag; st.ghost['out'] = newout; st.ghost['outlen'] = g['outlen'] + n
            return [(st, None)]
        raise Unsupported('yield from a set')

    def bag_of(self, st, v, n, arr, ty):
        if isinstance(v, Gen) and v.__dict__.get('bag') is not None:
            return v.bag
        return TY.bag_of_list(n, arr)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        outs = []
        # generator expression arguments are handled by the callee
        for a, f in self.ev(e.func, st, fr):
            lazy = len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp)
            if lazy:
                outs.extend(self.call_genexp(f, e.args[0], e, a, fr))
                continue
            if any(isinstance(x, ast.Starred) for x in e.args) or any(k.arg is None for k in e.keywords):
                outs.extend(self.call_star(f, e, a, fr))
                continue
            for b, args in self.evs(e.args, a, fr):
                for c, kws in self.evs([k.value for k in e.keywords], b, fr):
                    outs.extend(self.call(f, args, {k.arg: v for k, v in zip(e.keywords, kws)}, c, fr, e))
        return outs

    def call_star(self, f, e, st, fr):
        """f(a, b, **kwargs) where kwargs is the caller's own, handed over to a function under contract"""
        if isinstance(f, Opaque) and not any(isinstance(x, ast.Starred) for x in e.args) and len([k for k in e.keywords if k.arg is None]) == 1:
            # an external called with **mapping: the mapping is handed over as '**' (a literal one as a list of pairs)
            outs = []
            star = next(k.value for k in e.keywords if k.arg is None)
            lit = isinstance(star, ast.Dict) and None not in star.keys
            for b, args in self.evs(e.args, st, fr):
                for c, kws in self.evs([k.value for k in e.keywords if k.arg is not None], b, fr):
                    kw = {k.arg: v for k, v in zip([k for k in e.keywords if k.arg is not None], kws)}
                    for d, m in (self.evs([x for kv in zip(star.keys, star.values) for x in kv], c, fr) if lit else self.ev(star, c, fr)):
                        outs.extend(self.call(f, args, dict(kw, **{'**': list(zip(m[::2], m[1::2])) if lit else m}), d, fr, e))
            return outs
        if any(isinstance(x, ast.Starred) for x in e.args) or not isinstance(f, Fn) or f.kind != 'repo': raise Unsupported('star arguments')
        s = self.contract.summaries.get('**' + f.qual.split('.')[-1])
        if s is None: raise Unsupported('star arguments')
        outs = []
        for b, args in self.evs(e.args, st, fr):
            for c, kws in self.evs([k.value for k in e.keywords], b, fr):
                env = {x.arg: v for x, v in zip(f.node.args.args, args)}
                if len(args) > len(f.node.args.args): raise PyRaise('TypeError')
                star = [v for k, v in zip(e.keywords, kws) if k.arg is None]
                env.update({k.arg: v for k, v in zip(e.keywords, kws) if k.arg is not None})
                if len(star) != 1 or not isinstance(star[0], Opaque) or star[0].name != 'kwargs': raise Unsupported('** arguments')
                env['**'] = star[0]
                self.used.add('%s:%s (by contract)' % (f.module.path, f.qual))
                outs.extend(s(self, c, env, e))
        return outs

    def call(self, f, args, kw, st, fr, node):
        if isinstance(f, Opaque):
            return self.call_external(f.name, args, kw, st, fr, node, f)
        if not isinstance(f, Fn):
            raise Unsupported('call of %r' % (f,))
        if f.kind == 'u':
            ts = [self.embed(st, x, t) for x, t in zip(args, f.args)]
            if len(args) != len(f.args): raise PyRaise('TypeError')
            r = f.f(*ts)
            return [(st, self.project(st, r, f.res))]
        if f.kind == 'py':
            return f.fn(self, st, args, kw, node)
        if f.kind == 'builtin':
            return self.builtin(f.name, args, kw, st, fr, node)
        if f.kind == 'method':
            return self.method(st, f.recv, f.name, args, kw, node, fr)
        if f.kind == 'partial':
            return self.call(f.f, list(f.args) + args, dict(f.kw, **kw), st, fr, node)
        if f.kind == 'class':
            return self.instantiate(f, args, kw, st, fr, node)
        if f.kind in ('repo', 'lambda'):
            return self.call_repo(f, args, kw, st, fr, node)
        raise Unsupported('call kind %s' % f.kind)

    def instantiate(self, f, args, kw, st, fr, node):
        h = self.contract.externals.get('class:' + f.name)
        if h: return h(self, st, args, kw, node)
        r = self.new_cell(st, Obj(f, {}))
        m = self.find_method(f, '__init__')
        if m is None:
            return [(st, r)]
        fn = Fn('repo', module=m[0], node=m[1], qual=f.name + '.__init__', parent=None, name='__init__', self=r)
        return [(a, r) for a, _ in self.call_repo(fn, args, kw, st, fr, node)]

    def call_external(self, name, args, kw, st, fr, node, f=None):
        h = self.contract.externals.get(name) or EXTERNALS.get(name)
        if h is None:
            raise Unsupported('external %s' % name)
        self.trusted.add(name)
        return h(self, st, args, kw, node) if not getattr(h, 'wants_fn', False) else h(self, st, args, kw, node, f)

    def bind(self, f, args, kw, st, fr):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if getattr(f, 'self', None) is not None:
            args = [f.self] + list(args)
        if len(args) > len(names) and a.vararg is None:
            raise PyRaise('TypeError')
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = Tup(args[len(names):])
        rest = dict(kw)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in rest:
                if n in env: raise PyRaise('TypeError')
                env[n] = rest.pop(n)
        if rest:
            if a.kwarg is None: raise PyRaise('TypeError')
            raise Unsupported('**kwargs')
        mod = Frame(self.module_env(st, f.module), '<module>', f.module)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                if n not in defaults: raise PyRaise('TypeError')
                env[n] = self.ev(defaults[n], st, mod)[0][1]
        return env

    def call_repo(self, f, args, kw, st, fr, node):
        key = '%s:%s' % (f.module.path, f.qual)
        s = self.contract.summaries.get(key) or self.contract.summaries.get(f.qual.split('.')[-1] if f.kind != 'lambda' else None)
        if s is not None and f.kind == 'repo':
            env = self.bind(f, args, kw, st, fr)
            self.used.add(key + ' (by contract)')
            if isinstance(s, Contract):
                return self.apply_contract(s, env, st, fr, node)
            return s(self, st, env, node)
        if self.calldepth > 12:
            raise Unsupported('recursion')
        env = self.bind(f, args, kw, st, fr)
        env['@parent'] = f.parent
        eid = next(self.counter)
        st.envs[eid] = env
        self.used.add(key + (' (inlined)' if key != self.contract.target else ''))
        fr2 = Frame(eid, f.qual, f.module, fr.callpath + ((getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)),), cls=None)
        self.calldepth += 1
        try:
            if f.kind == 'lambda':
                return self.ev(f.node.body, st, fr2)
            self.fnodes[f.qual] = f.node
            if is_generator(f.node):
                return self.run_generator(f, st, fr2)
            outs = []
            for kind, a, v in self.block(f.node.body, st, fr2):
                if kind == 'raise':
                    if self.calldepth and not self.dry_raise_ok(v):
                        raise PyRaise(v) if len(outs) == 0 else Unsupported('conditional raise in an inlined function')
                outs.append((a, v if kind == 'return' else None))
            return outs
        finally:
            self.calldepth -= 1

    def dry_raise_ok(self, v):
        return False

    def run_generator(self, f, st, fr2):
        """eager execution of a generator: its ghost output becomes the value"""
        key = ('yield', fr2.qual, fr2.callpath)
        saved = {k: st.ghost.get(k) for k in ('bag', 'out', 'outlen', 'outty', 'stream')}
        self.start_outs(st, fr2, key)
        st.ghost['gendepth'] = st.ghost.get('gendepth', 0) + 1
        st.ghost['stream'] = None
        outs = []
        for kind, a, v in self.block(f.node.body, st, fr2):
            if kind == 'raise': raise PyRaise(v)
            g = a.ghost
            if g.get('stream') is not None:
                val = g['stream']
            elif g['bag'] is None:
                val = Gen(n=z3.IntVal(0), arr=None, t=None, bag=None, empty=True, depth=self.loopdepth)
            else:
                val = Gen(n=g['outlen'], arr=g['out'], t=g['outty'], bag=g['bag'], depth=self.loopdepth)
                a.assume(g['outlen'] >= 0)
            a.ghost = dict(g)
            for k, x in saved.items():
                a.ghost[k] = x
            a.ghost['gendepth'] = a.ghost['gendepth'] - 1
            outs.append((a, val))
        return outs

    def apply_contract(self, c, env, st, fr, node):
        """modular use of another function's contract"""
        self.used.add(c.target + ' (by contract)')
        eid = next(self.counter)
        st.envs[eid] = dict(env, **{'@parent': None})
        fr2 = Frame(eid, c.qual, self.module)
        sub = c
        if c.callee_pre is not None:
            for nm, f in c.callee_pre(SView(self, st, fr2)):
                self.oblige(st, 'precondition %s of %s' % (nm, c.qual), f, node, 'call')
        r = self.fresh_of(st, c.qual + '_res', c.ret)
        for nm, f in c.callee_post(SView(self, st, fr2, result=r)):
            st.assume(f)
        return [(st, r)]

    # ------------------------------------------------------------------ built-ins
    def builtin(self, name, args, kw, st, fr, node):
        h = self.contract.externals.get('builtin:' + name)
        if h is not None:
            r = h(self, st, args, kw, node)
            if r is not None:
                self.trusted.add('builtin ' + name)
                return r
        m = getattr(self, 'b_' + name, None)
        if m is None:
            raise Unsupported('built-in %s' % name)
        return m(args, kw, st, fr, node)

    def b_len(self, args, kw, st, fr, node):
        v = args[0]
        if isinstance(v, Gen): raise PyRaise('TypeError')
        if isinstance(v, str): return [(st, len(v))]
        if isinstance(v, Tup): return [(st, len(v.items))]
        if isinstance(v, z3.ExprRef) and v.sort() == STR.sort(): return [(st, TY.slen(v))]
        if isinstance(v, DView): v = v.ref
        if isinstance(v, (Ref, View)):
            c = self.read(st, v)
            if c.kind == 'obj':
                m = self.find_method(c.cls, '__len__')
                return self.call_repo(Fn('repo', module=m[0], node=m[1], qual=c.cls.name + '.__len__', parent=None, name='__len__', self=v), [], {}, st, fr, node)
            if (c.kind in ('set', 'list') and c.t is None) or (c.kind == 'dict' and c.dom is None): return [(st, 0)]
            return [(st, self.len_term(c))]
        if isinstance(v, Opaque):
            h = self.contract.externals.get('len:' + v.name)
            if h: return h(self, st, v)
        if v is None or isinstance(v, (int, float, Fn)): raise PyRaise('TypeError')
        raise Unsupported('len of %r' % (v,))

    def b_isinstance(self, args, kw, st, fr, node):
        v, t = args
        ts = t.items if isinstance(t, Tup) else [t]
        flat = []
        for x in ts:
            flat.extend(x.items if isinstance(x, Tup) else [x])
        names = [getattr(x, 'name', None) for x in flat]
        return [(st, any(self.isinst(st, v, (n or '').split('.')[-1]) for n in names))]

    def isinst(self, st, v, n):
        if isinstance(v, (Ref, View)):
            c = self.read(st, v)
            if c.kind == 'list': return n in (c.pyt, 'Sequence', 'Iterable')
            if c.kind == 'set': return n == c.pyt or n in ('Iterable', 'Set')
            if c.kind == 'dict': return n in ('dict', 'Mapping', c.pyt) if c.pyt in ('dict', 'Counter', 'defaultdict') else n in ('Mapping', c.pyt)
            if c.kind == 'obj': return n == getattr(c.cls, 'name', c.cls)
        if isinstance(v, (str,)) or (isinstance(v, z3.ExprRef) and v.sort() == STR.sort()): return n in ('str', 'Sequence')
        if isinstance(v, Tup): return n in ('tuple', 'Sequence')
        if isinstance(v, Gen): return n in ('GeneratorType', 'Iterator', 'Iterable')
        if isinstance(v, Opaque) and hasattr(v, 'pytype'): return n == v.pytype
        if isinstance(v, z3.ExprRef) and v.sort() in (z3.IntSort(), z3.RealSort()): return n in (('int',) if v.sort() == z3.IntSort() else ('float',))
        raise Unsupported('isinstance of %r' % (v,))

    def b_type(self, args, kw, st, fr, node):
        v = args[0]
        if isinstance(v, (Ref, View)):
            c = self.read(st, v)
            if c.kind == 'obj': return [(st, c.cls)]
            return [(st, Fn('builtin', name=c.pyt))]
        if isinstance(v, Gen): return [(st, Fn('builtin', name='generator'))]
        if isinstance(v, str) or (isinstance(v, z3.ExprRef) and v.sort() == STR.sort()): return [(st, Fn('builtin', name='str'))]
        raise Unsupported('type')

    def b_range(self, args, kw, st, fr, node):
        if len(args) == 1: return [(st, Range(0, args[0]))]
        if len(args) == 2: return [(st, Range(args[0], args[1]))]
        s = args[2]
        if isinstance(s, z3.ExprRef) and z3.is_int_value(z3.simplify(s)): s = z3.simplify(s).as_long()
        return [(st, Range(args[0], args[1], s))]

    def b_enumerate(self, args, kw, st, fr, node):
        return [(st, Enum(args[0], args[1] if len(args) > 1 else kw.get('start', 0)))]

    def b_zip(self, args, kw, st, fr, node):
        return [(st, Zip(args))]

    def minmax(self, args, st, ismin):
        if len(args) == 1:
            if isinstance(args[0], Tup): args = args[0].items
            else: raise Unsupported('min/max of an iterable')
        if all(isinstance(x, (int, float)) for x in args): return [(st, (min if ismin else max)(args))]
        r = args[0]
        for x in args[1:]:
            a, b = self.numpair(r, x)
            r = z3.If(a <= b, a, b) if ismin else z3.If(a >= b, a, b)
        return [(st, r)]

    def b_min(self, args, kw, st, fr, node): return self.minmax(args, st, True)
    def b_max(self, args, kw, st, fr, node): return self.minmax(args, st, False)

    def b_abs(self, args, kw, st, fr, node):
        x = self.num(args[0]); return [(st, z3.If(x < 0, -x, x))]

    def b_bool(self, args, kw, st, fr, node): return [(st, self.truth(st, args[0]))]

    def b_int(self, args, kw, st, fr, node):
        v = args[0]
        if isinstance(v, (int, float)): return [(st, int(v))]
        v = self.num(v)
        if v.sort() == z3.RealSort(): return [(st, z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))]
        return [(st, v)]

    def b_float(self, args, kw, st, fr, node):
        if isinstance(args[0], str):
            if args[0] == 'inf': return [(st, Ext(TRUE, z3.IntVal(0)))]
            raise Unsupported('float of a string')
        v = self.num(args[0])
        return [(st, z3.ToReal(v) if v.sort() == z3.IntSort() else v)]

    def b_callable(self, args, kw, st, fr, node): return [(st, isinstance(args[0], Fn))]

    def b_print(self, args, kw, st, fr, node): return [(st, None)]

    def b_iter(self, args, kw, st, fr, node): return [(st, args[0])]

    def b_set(self, args, kw, st, fr, node):
        key = self.site(node, fr, 'set')
        if not args: return [(st, self.new_cell(st, self.typed_set(key)))]
        return [(st, self.to_set(st, args[0], node, key))]

    def b_frozenset(self, args, kw, st, fr, node):
        r = self.b_set(args, kw, st, fr, node)
        for a, v in r:
            c = a.heap[v.cid]
            n = TY_St(c.arr, c.t, 'frozenset'); n.site = getattr(c, 'site', None)
            a.heap[v.cid] = n
        return r

    def to_set(self, st, v, node, key=None):
        if isinstance(v, (Ref, View)):
            c = self.read(st, v)
            if c.kind == 'set': return self.new_cell(st, TY_St(c.arr, c.t))
            if c.kind == 'dict': return self.new_cell(st, TY_St(c.dom, c.kt))
            if c.kind == 'list':
                if c.t is None: return self.new_cell(st, self.typed_set(key))
                return self.new_cell(st, TY_St(TY.elems(c.n, c.arr), c.t))
        if isinstance(v, DView) and v.what == 'keys':
            c = self.read(st, v.ref); return self.new_cell(st, TY_St(c.dom, c.kt))
        if isinstance(v, Gen):
            self.consume(st, v)
            return self.new_cell(st, TY_St(TY.elems(v.n, v.arr), v.t))
        if isinstance(v, Tup):
            t = self.join_types(st, v.items)
            if t is None: raise Unsupported('set of a tuple')
            arr = TY.empty_set(t.sort())
            for x in v.items: arr = z3.Store(arr, self.embed(st, x, t), TRUE)
            return self.new_cell(st, TY_St(arr, t))
        if isinstance(v, str):
            return self.to_set(st, Tup(list(v)), node)
        if isinstance(v, z3.ExprRef):
            f = TY.fn('tokens_%s' % v.sort().name(), v.sort(), z3.ArraySort(TSort('Tok').sort(), z3.BoolSort()))
            return self.new_cell(st, TY_St(f(v), TSort('Tok')))
        raise Unsupported('set of %r' % (v,))

    def b_list(self, args, kw, st, fr, node):
        if not args: return [(st, self.new_cell(st, self.typed_list(self.site(node, fr, 'list'))))]
        return [(st, self.to_list(st, args[0], node))]

    def b_tuple(self, args, kw, st, fr, node):
        if not args: return [(st, Tup([]))]
        if isinstance(args[0], Tup): return [(st, args[0])]
        r = self.to_list(st, args[0], node)
        if isinstance(r, Ref):
            c = st.heap[r.cid]; st.heap[r.cid] = Lst(c.n, c.arr, c.t, 'tuple')
        return [(st, r)]

    def list_of_set(self, st, S_, t, elt=None, et=None, order=None):
        """a list enumerating a finite set in some order, through elt"""
        n = TY.card(S_)
        arr, pos = self.enumeration(st, S_, t, order)
        i = z3.Int('i!e')
        if elt is None:
            st.assume(TY.elems(n, arr) == S_)
            return self.new_cell(st, Lst(n, arr, t))
        arr2 = self.fresh('enumv', z3.ArraySort(z3.IntSort(), et.sort()))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), arr2[i] == elt(arr[i])), patterns=[arr2[i]]))
        x = z3.Const('x!e', t.sort())
        st.assume(z3.ForAll([x], z3.Implies(S_[x], arr2[pos(x)] == elt(x)), patterns=[S_[x]]))
        c = Lst(n, arr2, et)
        r = self.new_cell(st, c)
        c.keys_arr = arr
        c.keys_pos = pos
        return r

    def to_list(self, st, v, node):
        if isinstance(v, (Ref, View)):
            c = self.read(st, v)
            if c.kind == 'list': 
                n = Lst(c.n, c.arr, c.t); n.site = getattr(c, 'site', None)
                return self.new_cell(st, n)
            if c.kind == 'set': return self.list_of_set(st, c.arr, c.t)
            if c.kind == 'dict': return self.list_of_set(st, c.dom, c.kt, order=c.order)
        if isinstance(v, DView):
            c = self.read(st, v.ref)
            if v.what == 'keys': return self.list_of_set(st, c.dom, c.kt, order=c.order)
            if v.what == 'values': return self.list_of_set(st, c.dom, c.kt, lambda x: c.val[x], c.vt, c.order)
            if v.what == 'items' and c.kt is not None and not unknown(c.vt) and not isinstance(c.vt, (TList, TSet, TDict)):
                et = TTup(c.kt, c.vt)
                return self.list_of_set(st, c.dom, c.kt, lambda x: et.mk(x, c.val[x]), et, c.order)
        if isinstance(v, Gen):
            if v.__dict__.get('opaque') is not None: raise Unsupported('list of an opaque stream')
            self.consume(st, v)
            return self.new_cell(st, Lst(v.n, v.arr, v.t))
        if isinstance(v, Tup):
            t = self.join_types(st, v.items)
            if t is None: return v
            arr = self.fresh('tl', z3.ArraySort(z3.IntSort(), t.sort()))
            for i, x in enumerate(v.items): arr = z3.Store(arr, i, self.embed(st, x, t))
            return self.new_cell(st, Lst(z3.IntVal(len(v.items)), arr, t))
        if isinstance(v, Range) and v.step == 1:
            arr = self.fresh('rng', z3.ArraySort(z3.IntSort(), z3.IntSort()))
            lo, hi = self.num(v.lo), self.num(v.hi)
            i = z3.Int('i!r')
            st.assume(z3.ForAll([i], arr[i] == lo + i, patterns=[arr[i]]))
            return self.new_cell(st, Lst(z3.If(hi > lo, hi - lo, z3.IntVal(0)), arr, INT))
        raise Unsupported('list of %r' % (v,))

    def b_dict(self, args, kw, st, fr, node):
        if not args and not kw: return [(st, self.new_cell(st, self.typed_dict(self.site(node, fr, 'dict'))))]
        if args and isinstance(args[0], (Ref, View)):
            c = self.read(st, args[0])
            if c.kind == 'dict': return [(st, self.new_cell(st, Dct(c.dom, c.val, c.kt, c.vt, order=c.order)))]
        raise Unsupported('dict()')

    def b_sorted(self, args, kw, st, fr, node):
        """a permutation of the input, ordered by the key (order: uninterpreted total preorder)"""
        return [(st, self.sort_list(st, args[0], kw, node))]

    def sort_list(self, st, v, kw, node):
        r = self.to_list(st, v, node)
        c = self.read(st, r)
        arr = self.fresh('sorted', c.arr.sort())
        p = z3.Function('perm!%d' % next(self.counter), z3.IntSort(), z3.IntSort())
        q = z3.Function('permi!%d' % next(self.counter), z3.IntSort(), z3.IntSort())
        i = z3.Int('i!p')
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c.n), z3.And(0 <= p(i), p(i) < c.n, arr[i] == c.arr[p(i)], q(p(i)) == i)), patterns=[arr[i], p(i)]))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c.n), z3.And(0 <= q(i), q(i) < c.n, arr[q(i)] == c.arr[i], p(q(i)) == i)), patterns=[c.arr[i], q(i)]))
        n = Lst(c.n, arr, c.t)
        n.perm = (p, q)
        n.src = c
        st.ghost = dict(st.ghost)
        st.ghost['perm'] = (p, q)
        self.P.setdefault('perms', {})[getattr(node, 'lineno', 0)] = (p, q, c)
        st.ghost['sortedlist'] = (c.n, arr)
        if isinstance(v, Gen) and v.__dict__.get('bag') is not None:
            st.assume(TY.bag_of_list(c.n, arr) == v.bag)
        if not kw.get('key') and isinstance(c.t, TTup) and all(isinstance(t, (TInt, TReal)) for t in c.t.ts):
            j = z3.Int('j!p')
            le = TRUE
            for d in reversed(range(len(c.t.ts))):
                a, b = c.t.get(d, arr[i]), c.t.get(d, arr[j])
                le = z3.Or(a < b, z3.And(a == b, le))
            st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < c.n), le), patterns=[z3.MultiPattern(arr[i], arr[j])]))
        if not kw.get('key') and isinstance(c.t, (TInt, TReal)):
            j = z3.Int('j!p')
            st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < c.n), arr[i] <= arr[j]), patterns=[z3.MultiPattern(arr[i], arr[j])]))
        return self.new_cell(st, n)

    def b_next(self, args, kw, st, fr, node):
        v = args[0]
        if not isinstance(v, Gen) or v.__dict__.get('arr') is None or len(args) != 1: raise Unsupported('next')
        if v.depth < self.loopdepth or ('used', v.uid) in st.ghost: raise Unsupported('next of a shared stream')
        off = st.ghost.get(('adv', v.uid), 0)
        self.oblige(st, 'the stream is not exhausted', v.n > off, node, 'no-raise')
        st.ghost = dict(st.ghost)
        st.ghost[('adv', v.uid)] = off + 1
        return [(st, self.project(st, v.arr[off], v.t))]

    def b_sum(self, args, kw, st, fr, node):
        raise Unsupported('sum')

    def b_any(self, args, kw, st, fr, node): raise Unsupported('any')
    def b_all(self, args, kw, st, fr, node): raise Unsupported('all')

    def b_ord(self, args, kw, st, fr, node):
        s = self.lift(args[0])
        self.oblige(st, 'ord of one character', TY.slen(s) == 1, node, 'no-raise')
        st.assume(TY.sat(s, 0) >= 0)
        return [(st, TY.sat(s, 0))]

    def b_TypeError(self, args, kw, st, fr, node): return [(st, Opaque('TypeError'))]

    # ------------------------------------------------------------------ comprehensions
    def sym_elem(self, st, fr, gen, n_sym=None):
        """bind one symbolic element of a generator clause.
        -> (state, guard, bound const, frame, itx)"""
        raise NotImplementedError

    def comp_parts(self, e, st, fr):
        self.loopdepth += 1
        try:
            return self.comp_parts_(e, st, fr)
        finally:
            self.loopdepth -= 1

    def comp_parts_(self, e, st, fr):
        """evaluate a one-generator comprehension on a symbolic element
        -> dict(itx, x (const), guard, cond, elt value, elt state, base state)"""
        if len(e.generators) != 1:
            raise Unsupported('nested comprehension')
        g = e.generators[0]
        res = []
        self.loopdepth -= 1
        try:
            its = [(a, it, self.iterator(a, it, e)) for a, it in self.ev(g.iter, st, fr)]
        finally:
            self.loopdepth += 1
        for a, it, itx in its:
            if itx['kind'] == 'index':
                x = self.fresh('ci', z3.IntSort())
                guard = z3.And(0 <= x, x < itx['n'])
            else:
                x = self.fresh('cx', itx['t'].sort())
                guard = itx['set'][x]
            b = a.copy()
            eid = next(self.counter)
            b.envs[eid] = {'@parent': fr.eid}
            fr2 = Frame(eid, fr.qual, fr.module, fr.callpath)
            b.assume(guard)
            npc = len(b.pc)
            mark = next(self.counter)
            cur = self.assign_one(g.target, itx['get'](b, x), b, fr2, e)
            cond = TRUE
            for c in g.ifs:
                r = self.ev(c, cur, fr2)
                if len(r) != 1:
                    r = self.merge_bools(cur, r)
                cur, v = r[0]
                t = self.truth(cur, v)
                cond = z3.And(cond, t) if not z3.is_true(cond) else t
                cur.assume(t)
            elt = e.elt if not isinstance(e, ast.DictComp) else ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
            r = self.ev(elt, cur, fr2)
            if len(r) != 1:
                raise Unsupported('comprehension element forks')
            c2, v = r[0]
            facts = c2.pc[npc:]
            res.append(dict(st=a, itx=itx, x=x, guard=guard, cond=cond, val=v, est=c2, facts=facts, it=it))
        return res

    def merge_bools(self, st, r):
        """forked boolean values -> one disjunction"""
        base = len(st.pc)
        raise Unsupported('condition forks')

    def quant_facts(self, part):
        """facts gathered while evaluating the element, generalised"""
        a, x = part['st'], part['x']
        for f in part['facts']:
            if any(z3.eq(f, y) for y in (part['cond'], part['guard'])):
                continue
            if self.mentions(f, x):
                a.assume(z3.ForAll([x], z3.Implies(part['guard'], f)))
            else:
                a.assume(z3.Implies(part['guard'], f) if False else f)

    def mentions(self, f, x):
        seen = set()
        todo = [f]
        while todo:
            g = todo.pop()
            if g.get_id() in seen: continue
            seen.add(g.get_id())
            if z3.eq(g, x): return True
            todo.extend(g.children() if not z3.is_quantifier(g) else [g.body()])
        return False

    def e_ListComp(self, e, st, fr):
        g = e.generators[0]
        if len(e.generators) == 1 and not g.ifs and isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Attribute):
            # over a sequence known in full: element by element
            r = self.ev(g.iter, st.copy(), fr)
            if all(isinstance(it, Tup) for _, it in r):
                outs = []
                for a, it in r:
                    states = [(a, [])]
                    for x in it.items:
                        nxt = []
                        for b, vals in states:
                            eid = next(self.counter)
                            b.envs[eid] = {'@parent': fr.eid}
                            fr2 = Frame(eid, fr.qual, fr.module, fr.callpath)
                            b = self.assign_one(g.target, x, b, fr2, e)
                            nxt += [(c, vals + [v]) for c, v in self.ev(e.elt, b, fr2)]
                        states = nxt
                    outs += [(b, Tup(vals)) for b, vals in states]
                return outs
        return [(p['st'], self.list_from_part(p, e)) for p in self.comp_parts(e, st, fr)]

    def elt_term(self, p):
        t = self.typeof(p['est'], p['val'])
        if unknown(t): raise Unsupported('untyped comprehension element')
        return self.embed(p['est'], p['val'], t), t

    def list_from_part(self, p, node):
        a, itx, x = p['st'], p['itx'], p['x']
        if isinstance(p['val'], (Ref, View)) and unknown(self.read(p['est'], p['val']).typ()):
            # list of fresh empty containers
            key = (('comp', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)),)
            t = self.sites.get(key + ('t',))
            if t is None or itx['kind'] != 'index':
                c = Lst(itx['n'], None, None)
                c.site = key
                c.nested = self.read(p['est'], p['val'])
                return self.new_cell(a, c)
            return self.new_cell(a, Lst(itx['n'], z3.K(z3.IntSort(), self.default_term(t)), t))
        term, t = self.elt_term(p)
        self.quant_facts(p)
        arr = self.fresh('comp', z3.ArraySort(z3.IntSort(), t.sort()))
        if itx['kind'] == 'index' and z3.is_true(p['cond']):
            i = z3.Int('i!l')
            body = z3.substitute(term, (x, i))
            pats = [arr[i]]
            a.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < itx['n']), arr[i] == body), patterns=pats))
            c = Lst(itx['n'], arr, t)
            c.comp = lambda i, term=term, x=x: z3.substitute(term, (x, i))
            return self.new_cell(a, c)
        # filtered (or over a set): positions through two inverse maps
        n = self.fresh('complen', z3.IntSort())
        src = z3.Function('src!%d' % next(self.counter), z3.IntSort(), x.sort())
        pos = z3.Function('posn!%d' % next(self.counter), x.sort(), z3.IntSort())
        j = z3.Int('j!l'); y = z3.Const('y!l', x.sort())
        sub = lambda f, z: z3.substitute(f, (x, z))
        ok = lambda z: z3.And(sub(p['guard'], z), sub(p['cond'], z))
        a.assume(n >= 0)
        a.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(ok(src(j)), arr[j] == sub(term, src(j)), pos(src(j)) == j)), patterns=[arr[j], src(j)]))
        trig = [itx['set'][y]] if itx['kind'] == 'set' else None
        if trig is None:
            base = self.find_trigger(p['guard'], p['cond'], term, x, y)
            trig = [base] if base is not None else [pos(y)]
        a.assume(z3.ForAll([y], z3.Implies(ok(y), z3.And(0 <= pos(y), pos(y) < n, src(pos(y)) == y)), patterns=trig))
        if itx['kind'] == 'index':
            j2 = z3.Int('j2!l')
            a.assume(z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < n), src(j) < src(j2)), patterns=[z3.MultiPattern(src(j), src(j2))]))
        c = Lst(n, arr, t)
        c.srcpos = (src, pos)
        self.P.setdefault('comps', {})[getattr(node, 'lineno', 0)] = (src, pos)
        return self.new_cell(a, c)

    def find_trigger(self, guard, cond, term, x, y):
        """a subterm applied to x usable as a pattern"""
        best = []

        def go(f):
            if z3.is_quantifier(f): return
            for c in f.children(): go(c)
            if z3.is_app(f) and f.num_args() > 0 and self.mentions(f, x) and f.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT):
                if any(z3.eq(c, x) for c in f.children()):
                    best.append(f)
        go(term); go(cond)
        return z3.substitute(best[0], (x, y)) if best else None

    def e_SetComp(self, e, st, fr):
        return [(p['st'], self.set_from_part(p, e)) for p in self.comp_parts(e, st, fr)]

    def set_from_part(self, p, node):
        a, itx, x = p['st'], p['itx'], p['x']
        term, t = self.elt_term(p)
        self.quant_facts(p)
        R = self.fresh('setc', z3.ArraySort(t.sort(), z3.BoolSort()))
        w = z3.Function('wit!%d' % next(self.counter), t.sort(), x.sort())
        z = z3.Const('z!c', t.sort()); y = z3.Const('y!c', x.sort())
        sub = lambda f, v: z3.substitute(f, (x, v))
        ok = lambda v: z3.And(sub(p['guard'], v), sub(p['cond'], v))
        trig = [itx['set'][y]] if itx['kind'] == 'set' else None
        if trig is None:
            b = self.find_trigger(p['guard'], p['cond'], term, x, y)
            trig = [b] if b is not None else []
        a.assume(z3.ForAll([y], z3.Implies(ok(y), R[sub(term, y)]), patterns=trig))
        a.assume(z3.ForAll([z], z3.Implies(R[z], z3.And(ok(w(z)), sub(term, w(z)) == z)), patterns=[R[z]]))
        return self.new_cell(a, TY_St(R, t))

    def e_DictComp(self, e, st, fr):
        outs = []
        for p in self.comp_parts(e, st, fr):
            a, itx, x = p['st'], p['itx'], p['x']
            kv = p['val']
            kt, vt = self.typeof(p['est'], kv.items[0]), self.typeof(p['est'], kv.items[1])
            k, v = self.embed(p['est'], kv.items[0], kt), self.embed(p['est'], kv.items[1], vt)
            if not z3.eq(k, x) or itx['kind'] != 'set':
                raise Unsupported('dict comprehension')
            dom = self.fresh('dcd', z3.ArraySort(kt.sort(), z3.BoolSort()))
            val = self.fresh('dcv', z3.ArraySort(kt.sort(), vt.sort()))
            y = z3.Const('y!d', x.sort())
            sub = lambda f: z3.substitute(f, (x, y))
            a.assume(z3.ForAll([y], dom[y] == z3.And(sub(p['guard']), sub(p['cond'])), patterns=[dom[y]]))
            a.assume(z3.ForAll([y], z3.Implies(dom[y], val[y] == sub(v)), patterns=[val[y]]))
            outs.append((a, self.new_cell(a, Dct(dom, val, kt, vt))))
        return outs

    def e_GeneratorExp(self, e, st, fr):
        """a lazy generator: evaluated eagerly (its parts are pure)"""
        outs = []
        g = e.generators[0]
        for a, it in self.ev(g.iter, st.copy(), fr):
            if isinstance(it, Gen) and it.__dict__.get('bag') is not None:
                self.consume(a, it)
                outs.extend(self.genexp_bag(e, a, fr, it))
            else:
                for p in self.comp_parts(e, a, fr):
                    r = self.list_from_part(p, e)
                    c = p['st'].heap[r.cid]
                    outs.append((p['st'], Gen(n=c.n, arr=c.arr, t=c.t, bag=None, depth=self.loopdepth, srcpos=getattr(c, 'srcpos', None), comp=getattr(c, 'comp', None))))
        return outs

    def is_eta(self, term, x):
        """a tuple rebuilt from its own components"""
        t = TY.ty_of_sort(x.sort()) if x.sort().kind() == z3.Z3_DATATYPE_SORT else None
        return isinstance(t, TTup) and z3.is_app(term) and term.num_args() == len(t.ts) and term.sort() == x.sort() and all(z3.eq(z3.simplify(term.arg(i)), z3.simplify(t.get(i, x))) for i in range(len(t.ts)))

    def genexp_bag(self, e, a, fr, it):
        x = self.fresh('gx', it.t.sort())
        b = a.copy()
        eid = next(self.counter)
        b.envs[eid] = {'@parent': fr.eid}
        fr2 = Frame(eid, fr.qual, fr.module, fr.callpath)
        g = e.generators[0]
        b = self.assign_one(g.target, self.project(b, x, it.t), b, fr2, e)
        cond = TRUE
        for c in g.ifs:
            r = self.ev(c, b, fr2)
            if len(r) != 1: raise Unsupported('condition forks')
            b, v = r[0]
            cond = z3.And(cond, self.truth(b, v))
        r = self.ev(e.elt, b, fr2)
        if len(r) != 1: raise Unsupported('element forks')
        b, v = r[0]
        t = self.typeof(b, v)
        term = self.embed(b, v, t)
        cond = z3.simplify(cond)
        if z3.eq(z3.simplify(term), x) or self.is_eta(term, x):
            if z3.is_true(cond):
                kw = dict(it.__dict__); kw.pop('uid', None)
                return [(a, Gen(**kw))]
            bag = self.fresh('fbag', it.bag.sort())
            y = z3.Const('y!g', x.sort())
            a.assume(z3.ForAll([y], bag[y] == z3.If(z3.substitute(cond, (x, y)), it.bag[y], 0), patterns=[bag[y]]))
            n = self.fresh('fn', z3.IntSort())
            a.assume(n >= 0)
            return [(a, Gen(n=n, arr=self.fresh('farr', z3.ArraySort(z3.IntSort(), x.sort())), t=it.t, bag=bag, filtered=True, depth=self.loopdepth))]
        # mapped: keep the list view
        if z3.is_true(cond):
            arr = self.fresh('marr', z3.ArraySort(z3.IntSort(), t.sort()))
            i = z3.Int('i!m')
            a.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < it.n), arr[i] == z3.substitute(term, (x, it.arr[i]))), patterns=[arr[i]]))
            return [(a, Gen(n=it.n, arr=arr, t=t, bag=None, depth=self.loopdepth, source=it))]
        raise Unsupported('generator expression')

    def call_genexp(self, f, ge, node, st, fr):
        name = f.name if isinstance(f, Fn) and f.kind == 'builtin' else None
        if isinstance(f, Fn) and f.kind == 'method' and f.name == 'join':
            name = 'join'
        if name in ('any', 'all'):
            outs = []
            conc = None
            for p in self.comp_parts(ge, st, fr):
                a, x = p['st'], p['x']
                self.quant_facts(p)
                t = self.truth(p['est'], p['val'])
                y = z3.Const('y!q', x.sort())
                sub = lambda g: z3.substitute(g, (x, y))
                if name == 'any':
                    outs.append((a, z3.Exists([y], z3.And(sub(p['guard']), sub(p['cond']), sub(t)))))
                else:
                    outs.append((a, z3.ForAll([y], z3.Implies(z3.And(sub(p['guard']), sub(p['cond'])), sub(t)))))
            return outs
        if name == 'sum':
            outs = []
            for p in self.comp_parts(ge, st, fr):
                a, x, itx = p['st'], p['x'], p['itx']
                self.quant_facts(p)
                term = self.num(p['val'])
                if itx['kind'] == 'set':
                    term = z3.If(p['cond'], term, 0) if not z3.is_true(p['cond']) else term
                    outs.append((a, self.sum_over(itx['set'], x, term)))
                else:
                    outs.append((a, self.sum_index(itx['n'], x, z3.If(p['cond'], term, 0) if not z3.is_true(p['cond']) else term)))
            return outs
        if name in ('set', 'frozenset'):
            return [(p['st'], self.set_from_part(p, ge)) for p in self.comp_parts(ge, st, fr)]
        if name in ('list', 'tuple', 'sorted', 'join'):
            outs = []
            for a, v in self.e_GeneratorExp(ge, st, fr):
                outs.extend(self.call(f, [v], {}, a, fr, node))
            return outs
        outs = []
        kws = node.keywords
        for a, v in self.e_GeneratorExp(ge, st, fr):
            for c, ks in self.evs([k.value for k in kws], a, fr):
                outs.extend(self.call(f, [v], {k.arg: w for k, w in zip(kws, ks)}, c, fr, node))
        return outs

    def sum_over(self, S_, x, term):
        """sum of term over the set, as a function identified by the text of the term"""
        c = z3.Const('sx!', x.sort())
        body = z3.simplify(z3.substitute(term, (x, c)))
        f = TY.set_sum('%s_%s' % (x.sort().name(), TY.ident(body.sexpr())), x.sort(), lambda y: z3.substitute(body, (c, y)), body.sort())
        return f(S_)

    def sum_index(self, n, x, term):
        c = z3.Int('si!')
        body = z3.simplify(z3.substitute(term, (x, c)))
        return TY.prefix_sum(TY.ident(body.sexpr()), lambda y: z3.substitute(body, (c, y)), body.sort())(n)


EXTERNALS = {}


def external(name):
    def d(f):
        EXTERNALS[name] = f
        return f
    return d
