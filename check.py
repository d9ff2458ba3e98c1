#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

1. proof stage   : the contracts of contracts/<id>.py are checked against the source now in /repo (pv, z3);
2. refuter stage : the executable form of the same contracts is run on the real code, searching for a failing
                   input (it is also the bounded stand-in for whatever is not under a discharged contract);
3. verdict, evidence/<id>.json.
"""
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
PY = '/opt/venv/bin/python'
PROVER = 'python3-vt'
NEEDS_BUILD = {'C03', 'C04', 'C05'}       # properties of the Cython module: always rebuilt
BUDGET = {'quick': 25, 'thorough': 240}
EXTRA = {'quick': 120, 'thorough': 300}
PROOF_LIMIT = {'quick': 500, 'thorough': 1200}
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')


def log(*a):
    print(*a)
    sys.stdout.flush()


def have_ext(root):
    for p in glob.glob(os.path.join(REPO, 'cfog', '**', '*.pyx'), recursive=True):
        rel = os.path.relpath(p, REPO)[:-4]
        if not glob.glob(os.path.join(root, rel + '.*.so')):
            return False
    return True


def build(scratch):
    """compiles the current tree in a scratch copy -> (root, error)"""
    root = os.path.join(scratch, 'tree')
    shutil.copytree(REPO, root, ignore=shutil.ignore_patterns('.git', '*.so', 'build', '*.c', '__pycache__', 'node_modules'),
                    symlinks=True)
    env = dict(ENV, PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin', PIP_NO_INDEX='1')
    err = ''
    for p in glob.glob(os.path.join(root, 'cfog', '**', '*.pyx'), recursive=True):
        r = subprocess.run([PY, '-m', 'cython', p], cwd=root, env=env, capture_output=True, text=True)
        err += r.stdout + r.stderr
    r = subprocess.run([PY, 'setup.py', '-q', 'build_ext', '--inplace'], cwd=root, env=env, capture_output=True, text=True)
    err += r.stdout + r.stderr
    if not have_ext(root):
        return root, err
    return root, None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vcheck_%s_' % prop)
    try:
        rc = run(prop, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, t0, scratch):
    env = dict(ENV)
    pout = os.path.join(scratch, 'proof.json')
    proof_p = None
    has_contract = os.path.exists(os.path.join(HERE, 'contracts', prop.lower() + '.py'))
    if has_contract:
        plog = open(os.path.join(scratch, 'proof.log'), 'w')
        proof_p = subprocess.Popen([PROVER, os.path.join(HERE, 'pv', 'run.py'), prop, tier, pout], cwd=HERE, env=env, stdout=plog, stderr=subprocess.STDOUT,
                                   start_new_session=True)
    root = REPO
    if prop in NEEDS_BUILD or not have_ext(REPO):
        root, err = build(scratch)
        if err:
            # the tree does not compile: nothing to judge the property on
            if proof_p: kill(proof_p)
            rp = write_replay(prop, {'property': prop, 'kind': 'build', 'message': 'the current tree does not build', 'output': err[-4000:]})
            log('the tree does not build:\n' + err[-2000:])
            log('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
            evidence(prop, tier, seed, t0, None, None, 1)
            return 1
    env['VP_REPO'] = root
    res = refute(prop, tier, seed, BUDGET[tier], env, scratch)
    proof = None
    if proof_p:
        try:
            proof_p.wait(timeout=max(5, PROOF_LIMIT[tier] - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            kill(proof_p)
        if os.path.exists(pout):
            proof = json.load(open(pout))
        else:
            tail = open(os.path.join(scratch, 'proof.log')).read()[-3000:]
            proof = {'obligations': 0, 'discharged': 0, 'failed': [], 'functions': [], 'stale': [
                {'contract': '(all)', 'reason': 'the proof stage gave no result: ' + tail}], 'assumptions': [], 'trusted': [], 'complete': False, 'solver_s': 0}
        report_proof(prop, proof)
    for k in res.get('known', []):
        if k['still_fails']:
            log('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    viol = res['violations']
    if not viol and proof and (proof['failed'] or proof['stale']):
        log('obligations not discharged: searching longer for a failing input')
        more = refute(prop, tier, seed + 1000, EXTRA[tier] if proof['failed'] else EXTRA[tier] // 2, env, scratch)
        for k in ('evaluations', 'distinct_nontrivial'):
            res[k] += more[k]
        viol = more['violations']
    nviol = 0
    rc = 0
    if viol:
        nviol = len(viol)
        v = viol[0]
        rec = dict(v, property=prop, kind='input', failed_obligations=[f['name'] for f in (proof or {}).get('failed', [])],
                   how='cd /verif/refute && VP_REPO=/repo /opt/venv/bin/python run.py --replay <this file>   (build /repo first)')
        rp = write_replay(prop, rec)
        for v in viol:
            log('failing input: %s%s -> %s' % (v['check'], v['args'][:600], v['message'][:600]))
        log('VIOLATION property=%s replay=%s' % (prop, rp))
        rc = 1
    elif proof and proof['failed']:
        nviol = len(proof['failed'])
        rp = write_replay(prop, {'property': prop, 'kind': 'obligation', 'failed': proof['failed'],
                                 'how': 'python3-vt /verif/pv/run.py %s quick out.json' % prop})
        for f in proof['failed']:
            log('failed obligation: %s' % f['name'])
        log('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        rc = 1
    evidence(prop, tier, seed, t0, proof, res, nviol)
    if rc == 0:
        log('%s: held (%s; %d evaluations of the executable contract) in %.1f s' % (
            prop, 'no contract' if not proof else '%d/%d obligations discharged' % (proof['discharged'], proof['obligations']),
            res['evaluations'], time.time() - t0))
    return rc


def kill(p):
    import signal
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        pass
    p.wait()


def refute(prop, tier, seed, budget, env, scratch):
    out = os.path.join(scratch, 'refute.json')
    if os.path.exists(out):
        os.unlink(out)
    p = subprocess.run([PY, os.path.join(HERE, 'refute', 'run.py'), prop, tier, str(seed), str(budget), out],
                       cwd=os.path.join(HERE, 'refute'), env=env, capture_output=True, text=True)
    if not os.path.exists(out):
        # the refuter could not even import the code: report it as such
        tail = (p.stdout + p.stderr)[-3000:]
        log(tail)
        return {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'rule': '', 'stats': {}, 'known': [], 'known_hits': {},
                'violations': [{'check': '(import)', 'args': '()', 'message': 'the code could not be exercised: ' + tail[-800:]}]}
    return json.load(open(out))


def report_proof(prop, proof):
    for f in proof['functions']:
        log('  [%s] %s: %d/%d obligations' % (f['status'], f['name'], f['discharged'], f['obligations']))
    for s in proof['stale']:
        log('NOTE: %s is outside the verifier on this tree (%s): decided by the bounded stand-in only' % (s['contract'], s['reason'][:400]))


def write_replay(prop, rec):
    d = os.path.join(HERE, 'replay')
    os.makedirs(d, exist_ok=True)
    s = json.dumps(rec, indent=1)
    p = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha1(s.encode()).hexdigest()[:10]))
    with open(p, 'w') as f:
        f.write(s)
    return p


def evidence(prop, tier, seed, t0, proof, res, nviol):
    cov = {}
    assumptions = []
    level = 'exploration'
    if res:
        cov.update(evaluations=res['evaluations'], distinct_nontrivial=res['distinct_nontrivial'], rule=res['rule'], samples=res['samples'],
                   cases_per_check=res['stats'], known_finding_hits=res['known_hits'])
    if proof:
        level = 'proof' if proof['complete'] and not proof['failed'] and not proof['stale'] else 'other'
        cov.update(obligations=proof['obligations'], discharged=proof['discharged'],
                   checker_cmd='python3-vt /verif/pv/run.py %s %s OUT.json' % (prop, tier), trusted_base=proof['trusted'],
                   functions_under_contract=proof['functions'], failed_obligations=proof['failed'], outside_the_verifier=proof['stale'],
                   solver_seconds=proof['solver_s'], lemmas=proof.get('lemmas', []), backend=proof.get('backend', ''))
        assumptions = proof['assumptions']
        bounded = proof.get('bounded', [])
        cov['bounded_only'] = bounded
        if level == 'other':
            cov['explanation'] = ('Mixed: the obligations counted here are discharged deductively for all inputs; the rest of the statement (%s) is '
                                  'decided only by the bounded search counted under evaluations.' % ('; '.join(bounded + [s['contract'] for s in proof['stale']]) or 'none'))
    if not cov:
        cov = {'explanation': 'the tree does not build', 'evaluations': 0, 'distinct_nontrivial': 0, 'rule': 'none', 'samples': []}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    main()
