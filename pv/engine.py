"""A deductive verifier for the subset of Python used by fog.

The functions are read from /repo on every run (module `ast`), executed symbolically path by path, and cut
at loops by invariants; every proof obligation (invariant initially / preserved, postcondition, no
exception, callee precondition, per-yield clause) is discharged by z3 for all inputs.  Helpers without a
contract are inlined, callees with a contract are used through it.
"""
import ast, itertools, os, subprocess, time
import z3
from .theory import *
from . import theory as TY


class Unsupported(Exception):
    """construct outside of the verifier's reach"""


class Stale(Exception):
    """the contract's proof script does not apply to this shape of code (loop without invariant, unknown name)"""


class Restart(Exception):
    """a container's element type became known: start over"""


class PyRaise(Exception):
    """Python exception known at verification time"""
    def __init__(self, exc): self.exc = exc


# --------------------------------------------------------------------------------------------- values
class Tup(object):
    def __init__(self, items): self.items = list(items)
    def __repr__(self): return 'Tup%r' % (self.items,)


class Ref(object):
    def __init__(self, cid): self.cid = cid
    def __repr__(self): return 'Ref(%s)' % self.cid


class View(object):
    """container stored inside another one"""
    def __init__(self, cid, path): self.cid = cid; self.path = tuple(path)
    def __repr__(self): return 'View(%s,%s)' % (self.cid, self.path)


class Ext(object):
    """int or +inf"""
    def __init__(self, inf, val): self.inf = inf; self.val = val


class Fn(object):
    def __init__(this, kind, **kw): this.kind = kind; this.__dict__.update(kw)
    def __repr__(self): return 'Fn(%s,%s)' % (self.kind, getattr(self, 'name', ''))


class Lst(object):
    kind = 'list'
    def __init__(self, n, arr, t, pyt='list'): self.n = n; self.arr = arr; self.t = t; self.pyt = pyt
    def typ(self): return TList(self.t)


class St(object):
    kind = 'set'
    def __init__(self, arr, t, pyt='set'): self.arr = arr; self.t = t; self.pyt = pyt
    def typ(self): return TSet(self.t)


class Dct(object):
    kind = 'dict'
    def __init__(self, dom, val, kt, vt, factory=None, pyt='dict', order=None):
        self.dom = dom; self.val = val; self.kt = kt; self.vt = vt; self.factory = factory; self.pyt = pyt
        self.order = order          # (rank of each key by insertion, next rank), when tracked

    def inserted(self, k, old=None):
        """the insertion order once k is stored"""
        if self.order is None: return None
        o, n = self.order
        here = self.dom[k]
        return (z3.If(here, o, z3.Store(o, k, n)), n + z3.If(here, 0, 1))
    def typ(self): return (TCounter if self.pyt == 'Counter' else TDict)(self.kt, self.vt)


class Fwd(object):
    def __init__(self, target): self.target = target


class Obj(object):
    kind = 'obj'
    def __init__(self, cls, fields): self.cls = cls; self.fields = dict(fields)


class Range(object):
    def __init__(self, lo, hi, step=1): self.lo = lo; self.hi = hi; self.step = step


class Enum(object):
    def __init__(self, it, start): self.it = it; self.start = start


class Zip(object):
    def __init__(self, its): self.its = its


class DView(object):
    """items/keys/values of a dictionary"""
    def __init__(self, ref, what): self.ref = ref; self.what = what


class Gen(object):
    """result of a generator: ghost output `bag` (element -> multiplicity) and/or list; or an opaque stream"""
    uids = itertools.count()

    def __init__(self, **kw):
        self.depth = 0
        self.__dict__.update(kw)
        self.uid = next(Gen.uids)


class Opaque(object):
    """named external value"""
    def __init__(self, name, **kw): self.name = name; self.__dict__.update(kw)
    def __repr__(self): return 'Opaque(%s)' % self.name


class Pending(object):
    """a defaultdict entry, or a member of a list of empty containers, whose container type is not known yet"""
    def __init__(self, E, base, c, inner=None): self.E = E; self.base = base; self.c = c; self.inner = inner


class State(object):
    __slots__ = ('envs', 'heap', 'pc', 'ghost', 'trace')

    def __init__(self):
        self.envs = {}; self.heap = {}; self.pc = []; self.ghost = {}; self.trace = ()

    def copy(self):
        s = State()
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        return s

    def assume(self, *fs):
        for f in fs:
            if f is True:
                continue
            if isinstance(f, bool):
                f = z3.BoolVal(f)
            self.pc.append(f)
        return self


class Frame(object):
    def __init__(self, eid, qual, module, callpath=(), cls=None):
        self.eid = eid; self.qual = qual; self.module = module; self.callpath = callpath; self.cls = cls


class Oblig(object):
    def __init__(self, name, pc, goal, line, kind):
        self.name = name; self.pc = list(pc); self.goal = goal; self.line = line; self.kind = kind
        self.result = None; self.time = 0.0


# --------------------------------------------------------------------------------------------- sources
class Module(object):
    cache = {}

    def __init__(self, repo, path):
        self.repo = repo; self.path = path
        src = open(os.path.join(repo, path)).read()
        if path.endswith('.pyx'):
            from .pyx import transform
            src = transform(src)
        self.src = src
        self.tree = ast.parse(src)
        self.globals = {}
        self.funcs = {}
        # the statements run on import, as a function without parameters
        top = [n for n in self.tree.body if not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Try)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))
               and not (isinstance(n, ast.If) and '__name__' in ast.unparse(n.test))]
        f = ast.parse('def module(): pass').body[0]
        f.body = top or f.body
        self.funcs['<module>'] = f
        for node in self.tree.body:
            if isinstance(node, ast.FunctionDef):
                self.globals[node.name] = node
                self.funcs[node.name] = node
            elif isinstance(node, ast.ClassDef):
                self.globals[node.name] = node
                for m in node.body:
                    if isinstance(m, ast.FunctionDef):
                        self.funcs[node.name + '.' + m.name] = m
            elif isinstance(node, ast.Assign):
                for t in node.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = node
            elif isinstance(node, ast.ImportFrom):
                for a in node.names:
                    self.globals[a.asname or a.name] = ('from', node.module, a.name)
            elif isinstance(node, ast.Import):
                for a in node.names:
                    self.globals[a.asname or a.name.split('.')[0]] = ('import', a.name)

    @classmethod
    def get(cls, repo, path):
        k = (repo, path)
        if k not in cls.cache:
            cls.cache[k] = Module(repo, path)
        return cls.cache[k]


def assigned_names(stmts):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n): pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name: out.add(n.name)
            self.generic_visit(n)
    v = V()
    for s in stmts:
        v.visit(s)
    return out


def loops_of(fnode):
    """loops of a function in source order, not descending into nested functions"""
    out = []

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.For, ast.While)):
                out.append(c)
            go(c)
    go(fnode)
    return out


def is_generator(fnode):
    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                return True
            if go(c):
                return True
        return False
    return go(fnode)


# --------------------------------------------------------------------------------------------- solver
Z3OLD = '/usr/bin/z3'


class Prover(object):
    def __init__(self, rlimit=8000000, timeout=60000):
        self.rlimit = rlimit; self.timeout = timeout
        self.pruning = 400000
        self.time = 0.0
        self.queries = 0
        self.second = 0

    def solver(self, rlimit=None, timeout=None, mbqi=False, seed=0):
        s = z3.SimpleSolver() if False else z3.Solver()
        s.set('auto_config', False)
        s.set('smt.mbqi', mbqi)
        s.set('smt.random_seed', seed)
        s.set('rlimit', rlimit or self.rlimit)
        s.set('timeout', timeout or self.timeout)
        return s

    def prove(self, pc, goal, axioms, rlimit=None, timeout=None):
        """-> 'proved' | 'failed' (sat) | 'unknown'"""
        parts = conjuncts(goal)
        if len(parts) > 1:
            # first as a whole, cheaply; then conjunct by conjunct, each one proved helping the next
            t0 = time.time()
            ok = self.attempt(pc, goal, axioms, 1500000, 10000)
            self.time += time.time() - t0
            if ok: return 'proved'
            pc = list(pc)
            for g in parts:
                r = self.prove1(pc, g, axioms, rlimit, timeout)
                if r != 'proved':
                    return r + ' on: ' + str(g)[:600]
                pc.append(g)
            return 'proved'
        return self.prove1(pc, goal, axioms, rlimit, timeout)

    def attempt(self, pc, goal, axioms, rlimit, timeout):
        s = self.solver(rlimit, timeout)
        for a in axioms: s.add(a)
        for p in pc: s.add(p)
        s.add(z3.Not(goal))
        self.queries += 1
        return s.check() == z3.unsat

    ROUNDS = ((2500, None), (9000, None), (28000, 3))
    SEED = int(os.environ.get('PV_SEED', '0'))

    def prove1(self, pc, goal, axioms, rlimit=None, timeout=None):
        """a portfolio: several configurations of two z3 releases, under growing time limits"""
        t0 = time.time()
        res = 'unknown'
        d = self.SEED
        configs = [('new', d, {}), ('old', d, {}), ('new', d + 7, {'smt.qi.eager_threshold': 50.0}), ('near', d, {}), ('new', d + 5, {'smt.relevancy': 0}), ('new', d + 3, {'smt.arith.solver': 2}), ('near-old', d, {}), ('new', d + 11, {})]
        dead = set()
        text = {}
        for limit, most in self.ROUNDS if rlimit is None else ((6000, 3),):
            for kind, seed, extra in configs[:most]:
                if (kind, seed) in dead: continue
                self.queries += 1
                hyps = near(pc, goal) if kind.startswith('near') else pc
                s = self.solver(rlimit or self.rlimit * (1 if limit < 20000 else 5), limit, seed=seed)
                for k, v in extra.items(): s.set(k, v)
                for a in axioms: s.add(a)
                for p in hyps: s.add(p)
                s.add(z3.Not(goal))
                if kind.endswith('old'):
                    if kind not in text: text[kind] = s.to_smt2()
                    r = self.other(text[kind], limit)
                    if r == 'unsat': self.time += time.time() - t0; return 'proved'
                    if r == 'unknown': dead.add((kind, seed))
                    continue
                r = s.check()
                if r == z3.unsat:
                    self.time += time.time() - t0
                    return 'proved'
                if kind == 'new':
                    res = 'failed' if r == z3.sat else 'unknown:' + s.reason_unknown()
                    if r == z3.sat:
                        self.time += time.time() - t0
                        return res
                if r == z3.sat or 'incomplete' in s.reason_unknown(): dead.add((kind, seed))
        self.time += time.time() - t0
        return res

    def other(self, text, timeout):
        """the same query put to the other installed release of z3, which instantiates quantifiers differently"""
        if not os.path.exists(Z3OLD): return 'none'
        try:
            r = subprocess.run([Z3OLD, '-in', 'auto_config=false', 'smt.mbqi=false', 'smt.random_seed=%d' % self.SEED], input=text, capture_output=True, text=True, timeout=timeout / 1000.)
        except (subprocess.TimeoutExpired, OSError):
            return 'timeout'
        out = r.stdout.split()
        if out == ['unsat']: self.second += 1
        return out[0] if out else 'none'

    def quick(self, pc, goal, axioms):
        """cheap validity test used to prune paths: True only when proved"""
        if z3.is_true(goal):
            return True
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g) and not pc:
            return False
        t0 = time.time()
        self.queries += 1
        s = self.solver(rlimit=self.pruning, timeout=4000)
        for a in axioms:
            s.add(a)
        for p in pc:
            s.add(p)
        s.add(z3.Not(goal))
        r = s.check()
        self.time += time.time() - t0
        return r == z3.unsat


def conjuncts(g):
    if z3.is_and(g):
        return [y for c in g.children() for y in conjuncts(c)]
    return [g]


_syms = {}


def symbols(f):
    k = f.get_id()
    if k in _syms and z3.eq(_syms[k][0], f): return _syms[k][1]
    seen, todo, r = set(), [f], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): todo.append(t.body())
        elif z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED: r.add(t.decl().name())
            todo.extend(t.children())
    _syms[k] = (f, frozenset(r))
    return _syms[k][1]


def near(pc, goal, hops=2):
    """the hypotheses that share symbols with the goal, directly or through another one"""
    count = {}
    for p in pc:
        for x in symbols(p): count[x] = count.get(x, 0) + 1
    common = {x for x, n in count.items() if n > max(6, len(pc) // 3)}
    have = set(symbols(goal))
    for _ in range(hops):
        add = set()
        for p in pc:
            sy = symbols(p)
            if sy & have and not (sy - have <= set()) : add |= (sy - common) if (sy & have) - common else set()
        have |= add
    return [p for p in pc if symbols(p) <= have | common]


def has_quant(e):
    if z3.is_quantifier(e):
        return True
    return any(has_quant(c) for c in e.children())


# --------------------------------------------------------------------------------------------- spec view
class SpecC(object):
    """container seen from a specification"""
    def __init__(self, E, st, v):
        self.E = E; self.st = st; self.v = v
        self.c = E.read(st, v) if isinstance(v, (Ref, View)) else v

    @property
    def len(self): return self.E.len_term(self.c)

    @property
    def n(self): return self.c.n

    @property
    def arr(self): return self.c.arr

    @property
    def set(self):
        c = self.c
        return c.arr if c.kind == 'set' else c.dom if c.kind == 'dict' else TY.elems(c.n, c.arr)

    @property
    def dom(self): return self.c.dom

    @property
    def rank(self):
        if self.c.order is None: raise Stale('insertion order is not tracked')
        return self.c.order[0]

    @property
    def nextrank(self):
        if self.c.order is None: raise Stale('insertion order is not tracked')
        return self.c.order[1]

    @property
    def val(self): return self.c.val

    def has(self, x):
        return self.set[x]

    def __getitem__(self, i):
        c = self.c
        return c.arr[i] if c.kind == 'list' else c.val[i]

    def __getattr__(self, a):
        c = self.c
        if c.kind == 'obj' and a in c.fields:
            return self.E.spec(self.st, c.fields[a])
        raise Stale('no field %s' % a)


class S(object):
    """state as seen by specifications: local variables by name, plus ghost state"""
    def __init__(self, E, st, fr, loop=None, result=None, extra=None):
        self._E = E; self._st = st; self._fr = fr; self._loop = loop; self._result = result; self._extra = extra or {}

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return self[name]

    def __getitem__(self, name):
        if name in self._extra:
            return self._extra[name]
        v = self._E.lookup_local(self._st, self._fr, name)
        if v is KeyError:
            raise Stale('no variable %s' % name)
        return self._E.spec(self._st, v)

    def has(self, name):
        return self._E.lookup_local(self._st, self._fr, name) is not KeyError

    def raw(self, name):
        v = self._E.lookup_local(self._st, self._fr, name)
        if v is KeyError:
            raise Stale('no variable %s' % name)
        return v

    @property
    def k(self): return self._st.ghost[('k', self._loop)]

    @property
    def seen(self): return self._st.ghost[('seen', self._loop)]

    def loop(self, lid):
        """ghost position/seen set of an enclosing loop"""
        return S(self._E, self._st, self._fr, loop=lid)

    def it(self, lid=None):
        """what a loop iterates over"""
        return self._st.ghost[('it', lid if lid is not None else self._loop)]

    @property
    def result(self): return self._E.spec(self._st, self._result)

    @property
    def rawresult(self): return self._result

    def ghost(self, name): return self._st.ghost[name]

    @property
    def bag(self): return self._st.ghost['bag']

    @property
    def outlen(self): return self._st.ghost['outlen']

    @property
    def out(self): return self._st.ghost['out']

    def arg(self, name):
        """initial value of a parameter"""
        return self._E.args0[name]

    @property
    def env(self): return self._E.P


class Loop(object):
    def __init__(self, inv=(), hint=None, dec=None, use=None, exit_hint=None, index=False, top=None, entry=None, drop=(), force=False):
        self.force = force      # never unrolled
        self.entry = entry      # hints proved before the loop
        self.drop = tuple(drop)  # facts about symbols with these prefixes are forgotten at the loop head (weakening)
        self.top = top
        self.index = index      # number the iterations over a dictionary or a set
        self.inv = list(inv); self.hint = hint; self.dec = dec; self.use = use; self.exit_hint = exit_hint


class Case(object):
    def __init__(self, name, params, pre=None, post=None, consts=None, shared=None):
        self.name = name; self.params = params; self.pre = pre; self.post = post; self.consts = consts or {}; self.shared = shared


class Contract(object):
    """contract of one function of /repo"""
    def __init__(self, target, cases, post=(), loops=None, setup=None, ret=None, yields=None, out=(), ghost=None,
                 raises=None, on_yield=None, externals=None, summaries=None, lemmas=None, pure=(), unroll=None, nested=None, note='', budget=None, replace=None,
                 final=None, fields=None, havoc_types=None, reveal=None, inline=None,
                 callee_pre=None, callee_post=None, mutates=(), self_fields=None, trusted=(), rlimit=None, prune=None):
        self.target = target
        self.path, self.qual = target.split(':')
        self.cases = cases; self.post = list(post); self.loops = loops or {}
        self.setup = setup; self.ret = ret; self.yields = yields; self.out = tuple(out); self.ghost = ghost or {}
        self.raises = raises or {}; self.on_yield = on_yield; self.externals = externals or {}
        self.summaries = summaries or {}; self.lemmas = lemmas; self.pure = tuple(pure); self.note = note
        self.callee_pre = callee_pre; self.callee_post = callee_post; self.mutates = tuple(mutates); self.self_fields = self_fields
        self.trusted = tuple(trusted); self.rlimit = rlimit; self.prune = prune
        self.final = final; self.budget = budget; self.havoc_types = havoc_types or {}; self.inline = inline


class Lemma(object):
    """a named formula proved on its own; goals(P) -> list of (name, assumptions, goal)"""
    def __init__(self, name, goals):
        self.name = name; self.goals = goals
