#!/opt/venv/bin/python
"""run.py PROPERTY TIER SEED BUDGET OUT.json : refutation search;  run.py --replay FILE : re-run a counterexample"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get('VP_REPO', '/repo'))
sys.modules['lib'] = __import__('lib')
import lib


def known_ids(prop):
    p = os.path.join(HERE, '..', 'known_findings.json')
    try:
        return {e['id']: e for e in json.load(open(p)).get('findings', []) if e['property'] == prop}
    except FileNotFoundError:
        return {}


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        import ast, importlib
        r = json.load(open(sys.argv[2]))
        importlib.import_module(r['property'].lower())
        msg = lib.run_alone(r['property'].lower(), r['check'], r['args'], 60)
        print('VIOLATED: ' + msg if msg else 'holds')
        sys.exit(1 if msg else 0)
    prop, tier, seed, budget, out = sys.argv[1:6]
    import importlib
    mod = importlib.import_module(prop.lower())
    listed = known_ids(prop)
    if hasattr(mod, 'KNOWN'):
        mod.KNOWN = {k: v for k, v in mod.KNOWN.items() if k in listed}
    res = lib.supervise(prop.lower(), int(seed), tier, float(budget))
    res['known'] = []
    for k, e in listed.items():
        w = e.get('witness')
        msg = lib.run_alone(prop.lower(), w['check'], w['args'], 60) if w else None
        res['known'].append({'id': k, 'what': e['what'], 'still_fails': msg is not None, 'message': msg})
    with open(out, 'w') as f:
        json.dump(res, f, indent=1)
