"""seed.py SPEC.py : build /verif/seeded/<id> from (id, property, file, old, new, needs, breaks, demo) and validate it in a scratch copy"""
import json, os, shutil, subprocess, sys, tempfile, importlib.util
V = '/verif/seeded'
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'] if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else [])


def sh(cmd, cwd=None, env=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True)
    return r.returncode, r.stdout + r.stderr


def main():
    spec = importlib.util.spec_from_file_location('spec', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = sys.argv[2:]
    for s in m.SEEDS:
        if only and s['id'] not in only: continue
        if not only and os.path.exists(os.path.join(V, s['id'], 'meta.json')): continue
        one(s)


def one(s):
    edits = s['edits']
    root = '/repo'
    rc, out = sh('git status --porcelain', root)
    assert not out.strip(), out
    first = sh('git rev-list --max-parents=0 HEAD', root)[1].strip()
    try:
        for f, old, new in edits:
            p = os.path.join(root, f); t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', root)[1]
        d = os.path.join(V, s['id'])
        tmp = tempfile.mkdtemp()
        demo = os.path.join(tmp, 'demo.py')
        open(demo, 'w').write(s['demo'])
        open(os.path.join(tmp, 'demo.sh'), 'w').write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        rc, out = sh('bash /opt/vp/build.sh'); assert rc == 0, out
        rc, out = sh('bash /opt/vp/test.sh /tmp/w/seedtest.json')
        t = json.load(open('/tmp/w/seedtest.json'))
        passed = set(t.get('passed', []))
        missing = BASE - passed
        rc1, out1 = sh('bash %s/demo.sh' % tmp, root)
    finally:
        sh('git checkout -- .', root)
        sh('bash /opt/vp/build.sh')
    rc0, out0 = sh('bash %s/demo.sh' % tmp, root)
    # lines of the original repository?
    added = []
    for f, old, new in edits:
        bl = sh('git blame -s %s' % f, root)[1].splitlines()
        src = open(os.path.join(root, f)).read()
        start = src[:src.index(old)].count('\n'); n = old.count('\n') + 1
        oldl = [l for l in old.splitlines()]
        for i in range(start, start + n):
            line = bl[i]
            if not line.startswith('^') and first[:8] not in line.split()[0]:
                added.append(line)
    ok = not missing and rc1 != 0 and rc0 == 0
    print(s['id'], 'OK' if ok else 'REJECTED', 'missing tests: %s' % sorted(missing)[:3] if missing else '', 'demo clean=%d patched=%d' % (rc0, rc1), out1.strip()[-150:] if ok else (out1[-400:], out0[-400:]))
    if added: print('   WARNING context lines not original:', added[:3])
    if ok:
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        shutil.copy(os.path.join(tmp, 'demo.sh'), d); shutil.copy(demo, d)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.rmtree(tmp)


main()
