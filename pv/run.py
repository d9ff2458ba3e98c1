#!/usr/bin/env python3-vt
"""run.py PROPERTY TIER OUT.json: discharge every obligation of the property's contracts"""
import importlib, json, multiprocessing, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[0] = os.path.join(HERE, '..')
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def task(a):
    prop, i, j = a
    from pv import driver
    mod = importlib.import_module('contracts.' + prop.lower())
    if j is None:
        return driver.run_lemma(mod.LEMMAS[i]).json()
    c = mod.CONTRACTS[i]
    return driver.verify(driver.REPO, c, c.cases[j]).json()


LIMIT = {'quick': 400, 'thorough': 1100}


def missing(mod, t, why):
    n = mod.LEMMAS[t[1]].name if t[2] is None else '%s[%s]' % (mod.CONTRACTS[t[1]].target, mod.CONTRACTS[t[1]].cases[t[2]].name)
    return {'name': n, 'target': n, 'obligations': 0, 'discharged': 0, 'failed': [], 'stale': why, 'used': [], 'trusted': [], 'solver_s': 0, 'kinds': {}, 'paths': 0}


def main():
    prop, tier, out = sys.argv[1], sys.argv[2], sys.argv[3]
    only = sys.argv[4] if len(sys.argv) > 4 else None
    t0 = time.time()
    mod = importlib.import_module('contracts.' + prop.lower())
    tasks = [(prop, i, j) for i, c in enumerate(mod.CONTRACTS) for j in range(len(c.cases)) if not only or only in c.target + '[' + c.cases[j].name]
    tasks += [(prop, i, None) for i in range(len(getattr(mod, 'LEMMAS', []))) if not only or only in mod.LEMMAS[i].name]
    if os.environ.get('PV_SERIAL'):
        res = [task(t) for t in tasks]
    else:
        with multiprocessing.Pool(min(8, len(tasks)) or 1, maxtasksperchild=1) as p:
            res, todo = [], {t: p.apply_async(task, (t,)) for t in tasks}
            while todo:
                for t, a in list(todo.items()):
                    if a.ready():
                        try:
                            res.append(a.get())
                        except Exception as e:
                            res.append(missing(mod, t, 'verifier error %r' % e))
                        del todo[t]
                if todo and time.time() - t0 > LIMIT[tier]:
                    res.extend(missing(mod, t, 'the verifier ran out of time') for t in todo)
                    break
                time.sleep(0.01)
            p.terminate()
    stale = [{'contract': r['name'], 'reason': r['stale']} for r in res if r['stale']]
    failed = [dict(f) for r in res for f in r['failed']]
    R = {'obligations': sum(r['obligations'] for r in res), 'discharged': sum(r['discharged'] for r in res), 'failed': failed, 'stale': stale,
         'functions': [{'name': r['name'], 'status': 'outside' if r['stale'] else 'failed' if r['failed'] else 'proved', 'obligations': r['obligations'],
                        'discharged': r['discharged'], 'kinds': r['kinds'], 'executes': r['used'], 'exit_paths': r['paths'], 'solver_s': r['solver_s']} for r in res],
         'trusted': sorted(set(['pv verification-condition generator (pv/)', 'z3 4.x/5.x through python3-vt'] + getattr(mod, 'TRUSTED', []) +
                               ['assumed contract of ' + t for r in res for t in r['trusted']])),
         'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'bounded': getattr(mod, 'BOUNDED', []), 'complete': getattr(mod, 'COMPLETE', False),
         'solver_s': round(sum(r['solver_s'] for r in res), 2), 'backend': 'z3', 'wall_s': round(time.time() - t0, 2)}
    with open(out + '.tmp', 'w') as f:
        json.dump(R, f, indent=1)
    os.rename(out + '.tmp', out)
    for f in R['functions']:
        print('[%s] %s %d/%d %.1fs' % (f['status'], f['name'], f['discharged'], f['obligations'], f['solver_s']))
    for s in stale: print('STALE', s['contract'], s['reason'])
    for f in failed: print('FAILED', f['name'], f['output'][:300])


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'          # the same obligations in the same order on every run
        os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:])
    main()
