"""Refutation harness: runs the real code of /repo against executable contracts.

Every refuter registers named checks (functions of literal arguments which return None when the
contract holds and a message otherwise).  A failing call is a replayable counterexample: the check's
name and its arguments.  The harness runs in a child process; a supervisor notices a case that does
not come back (non-termination, crash, memory blow-up) and re-runs it alone before reporting it.
"""
import ast, json, mmap, os, random, resource, signal, struct, sys, time, traceback

REPO = os.environ.get('VP_REPO', '/repo')


class Bad(Exception):
    pass


CHECKS = {}


def check(fn):
    CHECKS[fn.__name__] = fn
    return fn


def internal(fn):
    """a check of a helper that is not part of the interface: says nothing when the helper is gone or is called differently"""
    import functools

    @functools.wraps(fn)
    def f(*args):
        try:
            return fn(*args)
        except ImportError:
            return None
        except (TypeError, ValueError, AttributeError) as e:
            if os.path.dirname(traceback.extract_tb(e.__traceback__)[-1].filename) == os.path.dirname(os.path.abspath(__file__)):
                return None
            raise
    CHECKS[fn.__name__] = f
    return f


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


def call_check(name, args):
    """-> None | message"""
    try:
        return CHECKS[name](*args)
    except CaseTimeout:
        raise
    except Bad as e:
        return str(e)
    except MemoryError:
        return 'ran out of memory'
    except RecursionError:
        return 'raised RecursionError'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ''
        for fr in tb:
            if fr.filename.startswith(REPO) or '/fog/' in fr.filename:
                where = ' at %s:%d' % (fr.filename, fr.lineno)
        return 'raised %s: %s%s' % (type(e).__name__, e, where)


class Ctx(object):
    def __init__(self, seed, tier, budget, state, known):
        self.rng = random.Random(seed)
        self.seed = seed
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.budget = budget
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.known_hits = {}
        self.known = known
        self.state = state      # mmap shared with the supervisor
        self.max_violations = 3
        self.section_end = None
        self.stats = {}
        self.skip = set()

    # time management -------------------------------------------------------------------------
    def left(self):
        return self.budget - (time.time() - self.t0)

    def share(self, fraction):
        """iterate until `fraction` of the whole budget has been used by this section"""
        end = time.time() + self.budget * fraction
        while time.time() < end and not self.done():
            yield

    def done(self):
        return len(self.violations) >= self.max_violations or self.left() <= 0

    # literals of the code under check, used as seeds -----------------------------------------
    def literals(self, files):
        ints, strs = set(), set()
        for f in files:
            p = os.path.join(REPO, f)
            try:
                src = open(p).read()
                if f.endswith('.pyx'):
                    import re
                    for m in re.finditer(r'\b\d+\b', src):
                        ints.add(int(m.group(0)))
                    for m in re.finditer(r"'([^'\n]{1,12})'", src):
                        strs.add(m.group(1))
                    continue
                tree = ast.parse(src)
            except Exception:
                continue
            docs = set()
            for n in ast.walk(tree):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                    docs.add(id(n.value))
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and id(n) not in docs:
                    if isinstance(n.value, bool):
                        continue
                    if isinstance(n.value, int) and abs(n.value) < 10 ** 6:
                        ints.add(n.value)
                    elif isinstance(n.value, str) and 0 < len(n.value) <= 24:
                        strs.add(n.value)
        return sorted(ints), sorted(strs)

    # running one case ------------------------------------------------------------------------
    def run(self, name, *args, nontrivial=True):
        rec = json.dumps([name, repr(args)]).encode()
        if rec in self.skip:
            return None
        m = self.state
        self.evaluations += 1
        n = min(len(rec), len(m) - 24)
        m[0:16] = struct.pack('<QQ', self.evaluations, n)
        m[16:16 + n] = rec[:n]
        msg = call_check(name, args)
        if nontrivial:
            self.distinct.add(hash(rec))
        if len(self.samples) < 6 and (self.evaluations in (1, 7, 50, 300, 1500, 5000)):
            self.samples.append('%s%s -> %s' % (name, _short(args), 'ok' if msg is None else msg))
        self.stats[name] = self.stats.get(name, 0) + 1
        if msg is not None:
            k = self.match_known(name, args, msg)
            if k is not None:
                self.known_hits[k] = self.known_hits.get(k, 0) + 1
                return msg
            # replay before believing it
            again = call_check(name, args)
            if again is not None:
                self.violations.append({'check': name, 'args': repr(args), 'message': again})
        return msg

    def match_known(self, name, args, msg):
        for kid, pred in self.known.items():
            try:
                if pred(name, args, msg):
                    return kid
            except Exception:
                pass
        return None


def _short(args, n=160):
    s = repr(args)
    return s if len(s) <= n else s[:n] + '...'


def child_main(module, seed, tier, budget, state_path, out_path, skip_path):
    sys.path.insert(0, REPO)
    fd = os.open(state_path, os.O_RDWR)
    mm = mmap.mmap(fd, 1 << 20)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    known = getattr(module, 'KNOWN', {})
    ctx = Ctx(seed, tier, budget, mm, known)
    if os.path.exists(skip_path):
        for l in open(skip_path):
            ctx.skip.add(l.strip().encode())
    try:
        module.main(ctx)
    except CaseTimeout:
        pass
    res = {'evaluations': ctx.evaluations, 'distinct_nontrivial': len(ctx.distinct), 'samples': ctx.samples,
           'violations': ctx.violations, 'known_hits': ctx.known_hits, 'stats': ctx.stats,
           'rule': getattr(module, 'RULE', 'distinct argument tuples')}
    with open(out_path + '.tmp', 'w') as f:
        json.dump(res, f)
    os.rename(out_path + '.tmp', out_path)


def supervise(modname, seed, tier, budget, case_limit=25.0):
    """Fork children running the refuter until one completes."""
    import importlib, tempfile, shutil
    d = tempfile.mkdtemp(prefix='refute_')
    total = {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'violations': [], 'known_hits': {}, 'stats': {}, 'rule': ''}
    try:
        state = os.path.join(d, 'state')
        out = os.path.join(d, 'out')
        skip = os.path.join(d, 'skip')
        t_end = time.time() + budget
        for attempt in range(4):
            with open(state, 'wb') as f:
                f.truncate(1 << 20)
            if os.path.exists(out):
                os.unlink(out)
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                rc = 0
                try:
                    os.setpgid(0, 0)
                    module = importlib.import_module(modname)
                    child_main(module, seed, tier, max(3.0, t_end - time.time()), state, out, skip)
                except BaseException:
                    traceback.print_exc()
                    rc = 3
                sys.stdout.flush(); sys.stderr.flush()
                os._exit(rc)
            fd = os.open(state, os.O_RDONLY)
            mm = mmap.mmap(fd, 1 << 20, prot=mmap.PROT_READ)
            last, since = -1, time.time()
            status = None
            while True:
                w, st = os.waitpid(pid, os.WNOHANG)
                if w:
                    status = st
                    break
                n, = struct.unpack('<Q', mm[0:8])
                if n != last:
                    last, since = n, time.time()
                elif n > 0 and time.time() - since > case_limit:
                    break
                elif n == 0 and time.time() - since > 240:
                    break
                time.sleep(0.02)
            stuck = None
            if status is None or not os.path.exists(out):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except Exception:
                    pass
                if status is None:
                    os.waitpid(pid, 0)
                n, ln = struct.unpack('<QQ', mm[0:16])
                if n > 0:
                    stuck = bytes(mm[16:16 + ln])
                total['evaluations'] += n
            mm.close(); os.close(fd)
            if os.path.exists(out):
                r = json.load(open(out))
                for k in ('evaluations', 'distinct_nontrivial'):
                    total[k] += r[k]
                total['samples'] += r['samples']
                total['violations'] += r['violations']
                for k, v in r['known_hits'].items():
                    total['known_hits'][k] = total['known_hits'].get(k, 0) + v
                for k, v in r['stats'].items():
                    total['stats'][k] = total['stats'].get(k, 0) + v
                total['rule'] = r['rule']
                return total
            if stuck is None:
                raise RuntimeError('refuter %s failed to start (status %r)' % (modname, status))
            # re-run the stuck case alone, with a longer limit
            name, args = json.loads(stuck)
            verdict = run_alone(modname, name, args, case_limit * 2)
            if verdict is not None:
                total['violations'].append({'check': name, 'args': args, 'message': verdict})
                return total
            with open(skip, 'ab') as f:
                f.write(stuck + b'\n')
        return total
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_alone(modname, name, args_repr, limit):
    """Runs one case in its own process -> None when it holds, else a message."""
    import importlib
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            os.close(r)
            sys.path.insert(0, REPO)
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            importlib.import_module(modname)
            m = call_check(name, ast.literal_eval(args_repr))
            os.write(w, json.dumps(m).encode())
        except BaseException:
            traceback.print_exc()
        os._exit(0)
    os.close(w)
    t0 = time.time()
    import select
    data = b''
    while time.time() - t0 < limit:
        a, _, _ = select.select([r], [], [], 0.2)
        if a:
            b = os.read(r, 1 << 20)
            if not b:
                break
            data += b
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except Exception:
        pass
    _, st = os.waitpid(pid, 0)
    if data:
        return json.loads(data)
    if time.time() - t0 >= limit:
        return 'did not terminate within %d s' % limit
    return 'crashed the interpreter (wait status %d)' % st


# generic helpers -----------------------------------------------------------------------------
def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def components(nodes, edges):
    """connected components (list of frozensets) of the nodes touched by edges"""
    parent = {}

    def find(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x
    for n in nodes:
        parent.setdefault(n, n)
    for a, b in edges:
        parent.setdefault(a, a)
        parent.setdefault(b, b)
        ra, rb = find(a), find(b)
        if ra != rb:
            parent[ra] = rb
    comp = {}
    for n in parent:
        comp.setdefault(find(n), set()).add(n)
    return [frozenset(c) for c in comp.values()]


def lev(a, b):
    la, lb = len(a), len(b)
    prev = list(range(lb + 1))
    for i in range(1, la + 1):
        cur = [i] + [0] * lb
        ca = a[i - 1]
        for j in range(1, lb + 1):
            cur[j] = min(prev[j] + 1, cur[j - 1] + 1, prev[j - 1] + (ca != b[j - 1]))
        prev = cur
    return prev[lb]


def one_edit(a, b):
    """equal or one insertion/deletion/substitution apart"""
    if a == b:
        return True
    if len(a) > len(b):
        a, b = b, a
    if len(b) - len(a) > 1:
        return False
    if len(a) == len(b):
        return sum(x != y for x, y in zip(a, b)) == 1
    return any(b[:i] + b[i + 1:] == a for i in range(len(b)))


def one_damerau(a, b):
    if one_edit(a, b):
        return True
    return len(a) == len(b) and any(
        a[:i] + a[i + 1] + a[i] + a[i + 2:] == b for i in range(len(a) - 1))


def mutate_string(rng, s, alphabet, n=1, transpose=False):
    s = list(s)
    for _ in range(n):
        op = rng.randrange(4 if transpose else 3)
        if op == 0:
            s.insert(rng.randint(0, len(s)), rng.choice(alphabet))
        elif op == 1 and s:
            del s[rng.randrange(len(s))]
        elif op == 2 and s:
            s[rng.randrange(len(s))] = rng.choice(alphabet)
        elif op == 3 and len(s) > 1:
            i = rng.randrange(len(s) - 1)
            s[i], s[i + 1] = s[i + 1], s[i]
    return ''.join(s)
