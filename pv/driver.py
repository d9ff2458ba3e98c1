"""Checks a contract against the current source of /repo: generates and discharges its obligations."""
import hashlib, time, traceback
from .methods import *
from .engine import S as SView
from . import theory as TY

REPO = os.environ.get('VP_REPO_SRC', '/repo')


class Alias(object):
    """the same object as another parameter"""
    def __init__(self, name): self.name = name


class Result(object):
    def __init__(self, name, target):
        self.name = name; self.target = target
        self.obligations = 0; self.discharged = 0; self.failed = []; self.stale = None
        self.used = set(); self.trusted = set(); self.solver = 0.0; self.kinds = {}; self.paths = 0

    def json(self):
        return {'name': self.name, 'target': self.target, 'obligations': self.obligations, 'discharged': self.discharged,
                'failed': self.failed, 'stale': self.stale, 'used': sorted(self.used), 'trusted': sorted(self.trusted),
                'solver_s': round(self.solver, 2), 'kinds': self.kinds, 'paths': self.paths}


def bind_params(E, st, fnode, case, fr, eid):
    env = {'@parent': None}
    a = fnode.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    defaults = dict(zip([x.arg for x in (a.posonlyargs + a.args)][len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults))
    defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    for n in names:
        if n in case.params:
            t = case.params[n]
            if isinstance(t, Alias):
                env[n] = env[t.name]
            elif isinstance(t, T):
                env[n] = E.fresh_of(st, n, t)
            elif isinstance(t, (z3.ExprRef, Fn, Opaque, Tup, Gen)) or t is None or isinstance(t, (bool, int, float, str)):
                env[n] = t
            elif callable(t):
                env[n] = t(E, st)
            else:
                raise Stale('parameter %s' % n)
        elif n in defaults:
            mod = Frame(E.module_env(st, E.module), '<module>', E.module)
            env[n] = E.ev(defaults[n], st, mod)[0][1]
        else:
            raise Stale('parameter %s is not specified by the contract' % n)
    for n in case.params:
        if n not in names and not n.startswith('@'):
            raise Stale('no parameter %s any more' % n)
    if a.kwarg is not None:
        env[a.kwarg.arg] = Opaque('kwargs')
    if a.vararg is not None:
        env[a.vararg.arg] = Tup([])
    st.envs[eid] = env
    return env


def run_case(repo, contract, case, prover, sites):
    TY.AXIOMS.clear()
    E = Engine(repo, contract, case, prover, sites)
    E.fnodes = {}
    E.args0raw = {}
    fnode = E.module.funcs.get(contract.qual)
    if fnode is None:
        raise Stale('%s does not exist any more' % contract.target)
    E.fnodes[contract.qual] = fnode
    st = State()
    eid = 'F'
    fr = Frame(eid, contract.qual, E.module)
    if contract.setup is not None:
        contract.setup(E, st)
    env = bind_params(E, st, fnode, case, fr, eid)
    E.args0raw = {n: v for n, v in env.items() if not n.startswith('@')}
    E.args0 = {n: E.spec(st, v) for n, v in E.args0raw.items()}
    init_heap = dict(st.heap)
    st.ghost['gendepth'] = 0
    for g, f in contract.ghost.items():
        st.ghost[g] = f(SView(E, st, fr)) if callable(f) else f
    for pre in ([case.pre] if case.pre else []):
        fs = pre(SView(E, st, fr))
        st.assume(*(fs if isinstance(fs, (list, tuple)) else [fs]))
    if contract.lemmas is not None:
        st.assume(*contract.lemmas(SView(E, st, fr)))
    E.writes = set()
    vac = [('precondition', list(st.pc))]
    if is_generator(fnode):
        E.start_outs(st, fr, ('yield', fr.qual, fr.callpath), contract.yields)
        st.ghost['stream'] = None
        st.ghost['isgen'] = True
    E.used.add(contract.target)
    outs = E.block(fnode.body, st, fr)
    E.paths = len(outs)
    if E.pending_types: raise Unsupported('untyped nested container')
    normal = 0
    for kind, a, v in outs:
        if kind == 'raise':
            cond = contract.raises.get(v)
            if case.consts.get('raises') == v:
                E.oblige(a, 'raises %s' % v, z3.BoolVal(True), None, "raises")
                continue
            if cond is None:
                E.oblige(a, 'no %s is raised' % v, FALSE, None, 'no-raise')
            else:
                E.oblige(a, '%s is raised only when specified' % v, cond(SView(E, a, fr)), None, 'raises')
            continue
        if case.consts.get('raises') is not None:
            E.oblige(a, 'raises %s' % case.consts['raises'], FALSE, None, 'raises')
            continue
        normal += 1
        vac.append(('path', list(a.pc)))
        sv = SView(E, a, fr, result=v if kind == 'return' else None)
        if contract.final is not None:
            for nm, f, *by in contract.final(sv):
                E.oblige(a, 'hint %s' % nm, f, None, 'hint', by[0] if by else ())
        for nm, f in contract.post + (list(case.post) if case.post else []):
            g = f(sv)
            if g is None: continue
            if isinstance(g, (list, tuple)): g = z3.And(*g)
            E.oblige(a, 'postcondition %s' % nm, g, None, 'post')
        for n, v0 in E.args0raw.items():
            if isinstance(v0, Ref) and n not in contract.mutates and v0.cid in E.writes:
                c0, c1 = init_heap[v0.cid], a.heap.get(v0.cid)
                if c0.kind != 'obj' and not isinstance(c1, Fwd):
                    E.oblige(a, 'argument %s is left unchanged' % n, E.to_term(c0) == E.to_term(c1), None, 'frame')
    if normal == 0 and case.consts.get('raises') is None:
        raise Stale('no normal exit')
    return E, vac


def verify(repo, contract, case, prover=None):
    name = '%s[%s]' % (contract.target, case.name) if case.name else contract.target
    R = Result(name, contract.target)
    prover = prover or Prover()
    if contract.rlimit: prover.rlimit = contract.rlimit
    if contract.prune: prover.pruning = contract.prune
    sites = {}
    try:
        for attempt in range(60):
            try:
                E, vac = run_case(repo, contract, case, prover, sites)
                break
            except Restart:
                continue
        else:
            raise Unsupported('types do not stabilise')
    except Stale as e:
        R.stale = 'contract out of step with the code: %s' % e
    except Unsupported as e:
        R.stale = 'outside the supported subset: %s' % e
    except PyRaise as e:
        R.stale = 'raises %s' % e.exc
    except (KeyError, AttributeError, TypeError, IndexError, z3.Z3Exception, RecursionError, SyntaxError, NotImplementedError, AssertionError, ValueError) as e:
        R.stale = 'verifier error %s: %s' % (type(e).__name__, traceback.format_exc()[-1500:])
    if R.stale:
        R.solver = prover.time
        return R
    R.used = E.used; R.trusted = set(E.trusted) | set(contract.trusted); R.paths = E.paths
    # vacuity: no precondition and not every exit path may be contradictory
    axioms = E.axioms()
    if prover.quick(vac[0][1], FALSE, axioms):
        R.failed.append({'name': name + ': the precondition is contradictory', 'output': 'vacuous'})
    elif len(vac) > 1 and all(prover.quick(pc, FALSE, axioms) for _, pc in vac[1:]):
        R.failed.append({'name': name + ': every exit is contradictory', 'output': 'vacuous'})
    cache = set()
    for i, o in enumerate(E.obligations):
        h = hash(tuple(p.get_id() for p in o.pc) + (o.goal.get_id(),))
        if h in cache:
            continue
        cache.add(h)
        R.obligations += 1
        R.kinds[o.kind] = R.kinds.get(o.kind, 0) + 1
        t0 = time.time()
        r = prover.prove(o.pc, o.goal, axioms) if not R.failed else prover.prove(o.pc, o.goal, axioms, rlimit=prover.rlimit, timeout=10000)
        o.result = r; o.time = time.time() - t0
        if os.environ.get('PV_VERBOSE') and (o.time > 1 or r != 'proved'):
            print('   %-8s %5.1fs line %s %s' % (r[:30], o.time, o.line, o.name), flush=True)
        if r == 'proved':
            R.discharged += 1
        else:
            if len(R.failed) >= 4: break
            R.failed.append({'name': '%s: %s (line %s)' % (name, o.name, o.line), 'output': r + '\ngoal: ' + str(o.goal)[:1500], 'timeout': 'timeout' in r or 'canceled' in r and False})
            if os.environ.get('PV_DUMP'):
                with open(os.environ['PV_DUMP'] + '/%s_%d.smt2' % (contract.qual, i), 'w') as f:
                    s = z3.Solver()
                    for x in axioms: s.add(x)
                    for x in o.pc: s.add(x)
                    s.add(z3.Not(o.goal))
                    f.write(s.to_smt2())
    if R.obligations == 0:
        R.failed.append({'name': name + ': no obligation was generated', 'output': 'vacuous'})
    if R.failed:
        # an invariant with no loop left to hold in: the failure says nothing about the code
        for fn, idx in contract.loops:
            nodes = [n for q, n in list(E.module.funcs.items()) + list(E.fnodes.items()) if q == fn or q.split('.')[-1] == fn]
            if nodes and all(idx >= len(loops_of(n)) for n in nodes):
                R.stale = 'contract out of step with the code: loop %d of %s is gone (%s not proved)' % (idx, fn, R.failed[0]['name'][:120])
                R.failed = []
                break
    R.solver = prover.time
    return R


def run_lemma(lem, prover=None):
    prover = prover or Prover()
    TY.AXIOMS.clear()
    R = Result('lemma ' + lem.name, 'lemma ' + lem.name)
    for nm, hyps, goal in lem.goals():
        R.obligations += 1
        R.kinds['lemma'] = R.kinds.get('lemma', 0) + 1
        ax = list(TY.AXIOMS.values()) if getattr(lem, 'theory', True) else []
        r = prover.prove(hyps, goal, ax)
        if r == 'proved': R.discharged += 1
        else: R.failed.append({'name': 'lemma %s: %s' % (lem.name, nm), 'output': r})
        if os.environ.get('PV_VERBOSE') and r != 'proved':
            print('   lemma', lem.name, nm, r)
    R.solver = prover.time
    return R
