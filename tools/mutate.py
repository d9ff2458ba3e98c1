#!/opt/venv/bin/python
"""mutate.py [-n MAX] [-j WORKERS] OUT.jsonl FILE...: mutation testing of the refuters.
Small syntactic changes of the files of /repo (in scratch copies) that pass the repository's tests are shown to
the refuters of the properties anchored in the file; each line of OUT says which mutant was caught by what."""
import ast, copy, json, multiprocessing, os, random, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
PROPS = [json.loads(l) for l in open(os.path.join(HERE, '..', 'properties.jsonl'))]


def mutants(src):
    tree = ast.parse(src)
    out = []

    def emit(node, new, what):
        out.append((node.lineno, what, node, new))
    CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
    BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.BitXor: [ast.BitOr], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift]}
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for o in CMP.get(type(op), []):
                    m = copy.deepcopy(n); m.ops[i] = o(); emit(n, m, '%s->%s' % (type(op).__name__, o.__name__))
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                m = copy.deepcopy(n); m.op = o(); emit(n, m, '%s->%s' % (type(n.op).__name__, o.__name__))
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); emit(n, m, 'and/or')
            for i in range(len(n.values)):
                vs = [copy.deepcopy(v) for j, v in enumerate(n.values) if j != i]
                emit(n, vs[0] if len(vs) == 1 else ast.BoolOp(op=n.op, values=vs), 'operand dropped')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            emit(n, copy.deepcopy(n.operand), 'unary dropped')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool): emit(n, ast.Constant(value=not n.value), 'bool')
            elif isinstance(n.value, (int, float)):
                emit(n, ast.Constant(value=n.value + 1), 'const+1')
                if n.value > 0: emit(n, ast.Constant(value=n.value - 1), 'const-1')
        elif isinstance(n, (ast.If, ast.While)) or isinstance(n, ast.IfExp):
            m = copy.deepcopy(n); m.test = ast.UnaryOp(op=ast.Not(), operand=m.test)
            if not isinstance(n, ast.While): emit(n, m, 'negated test')
            if isinstance(n, ast.If):
                m = copy.deepcopy(n); m.test = ast.Constant(value=False); emit(n, m, 'branch never')
                m = copy.deepcopy(n); m.test = ast.Constant(value=True); emit(n, m, 'branch always')
        elif isinstance(n, (ast.Break,)):
            emit(n, ast.Continue(), 'break->continue')
        elif isinstance(n, ast.Continue):
            emit(n, ast.Break(), 'continue->break'); emit(n, ast.Pass(), 'continue->pass')
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            emit(n, ast.Pass(), 'statement dropped')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('set', 'list', 'sorted', 'tuple', 'abs', 'iter', 'reversed', 'enumerate') and len(n.args) == 1 and n.func.id != 'enumerate':
            emit(n, copy.deepcopy(n.args[0]), 'call of %s dropped' % n.func.id)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('min', 'max'):
            m = copy.deepcopy(n); m.func.id = 'max' if n.func.id == 'min' else 'min'; emit(n, m, 'min/max')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for f in ('lower', 'upper'):
                if getattr(n.slice, f) is not None:
                    m = copy.deepcopy(n); setattr(m.slice, f, None); emit(n, m, 'slice bound dropped')
    for line, what, node, new in out:
        class R(ast.NodeTransformer):
            def visit(self, x):
                if x is node: return ast.copy_location(new, x)
                return self.generic_visit(x)
        # work on a tree that shares nothing with the next mutant
        memo = {}
        t2 = copy.deepcopy(tree, memo)
        target = memo.get(id(node))
        class R2(ast.NodeTransformer):
            def visit(self, x):
                if x is target: return ast.copy_location(copy.deepcopy(new), x)
                return self.generic_visit(x)
        t2 = ast.fix_missing_locations(R2().visit(t2))
        # replace only the changed lines: unparse the statement? keep it simple, the whole file is unparsed
        yield line, what, ast.unparse(t2), ast.unparse(node)[:70].split('\n')[0], ast.unparse(new)[:70].split('\n')[0]


def tests(d):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    try:
        r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', '--deselect', 'test/lsh/minhash_test.py::TestLSBMinHash::test_numpy'] + ['--ignore=test/clustering/%s_test.py' % x for x in ('minhash', 'nn_descent', 'ppjoin', 'quickjoin')] + ['test'],
                           cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


def work(job):
    path, line, what, text, old, new, budget = job
    d = tempfile.mkdtemp(prefix='mut')
    try:
        for x in ('fog', 'cfog', 'test', 'setup.py', 'data'):
            if os.path.isdir('/repo/' + x): shutil.copytree('/repo/' + x, d + '/' + x, ignore=shutil.ignore_patterns('__pycache__'))
            elif os.path.exists('/repo/' + x): shutil.copy('/repo/' + x, d)
        with open(os.path.join(d, path), 'w') as f: f.write(text)
        if not tests(d):
            return None
        res = {}
        for p in PROPS:
            if path not in p['anchors']['files']: continue
            o = d + '/out.json'
            try:
                subprocess.run([PY, os.path.join(HERE, '../refute/run.py'), p['id'], 'quick', '1', str(budget), o], env=dict(os.environ, VP_REPO=d), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=budget * 3 + 120)
                r = json.load(open(o)); os.unlink(o)
                res[p['id']] = (r.get('violations') or [None])[0] and str(r['violations'][0])[:200]
            except Exception as e:
                res[p['id']] = 'ERROR %r' % e
            if res[p['id']]: break
        return {'file': path, 'line': line, 'what': what, 'old': old, 'new': new, 'caught': res}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]; n, j, budget = 60, 8, 12.0
    while a[0].startswith('-'):
        v = a[1]
        if a[0] == '-n': n = int(v)
        if a[0] == '-j': j = int(v)
        if a[0] == '-b': budget = float(v)
        a = a[2:]
    out, files = a[0], a[1:]
    rng = random.Random(1)
    jobs = []
    for path in files:
        ms = list(mutants(open('/repo/' + path).read()))
        rng.shuffle(ms)
        jobs += [(path, l, w, t, o, nw, budget) for l, w, t, o, nw in ms[:n]]
    with open(out, 'a') as f, multiprocessing.Pool(j, maxtasksperchild=1) as p:
        for r in p.imap_unordered(work, jobs):
            if r is not None:
                f.write(json.dumps(r) + '\n'); f.flush()


if __name__ == '__main__':
    main()
