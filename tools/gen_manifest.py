"""writes MANIFEST.json from properties.jsonl and the contracts present"""
import json, os, re
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
checks = []
NOTES = json.load(open(os.path.join(HERE, 'tools', 'levels.json')))
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    f = os.path.join(HERE, 'contracts', i.lower() + '.py')
    if os.path.exists(f):
        src = open(f).read()
        complete = re.search(r'^COMPLETE = True', src, re.M) is not None
        level = 'proof' if complete else 'other'
        tech = 'contract-based deductive verification (pv/z3)' if complete else 'contract-based deductive verification (pv/z3) of the listed functions, bounded executable contract for the rest'
    else:
        level, tech = 'exploration', 'executable contract run on the real code (bounded stand-in for the deductive verifier)'
    note = NOTES.get(i, 'Bounded stand-in only: the executable contract is run on generated inputs.' if level == 'exploration' else 'All obligations discharged by z3; floats as reals; executable contract as refuter.')
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                   'technique': tech, 'level': level, 'level_note': note})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/selfcheck.py', 'checks': checks, 'not_applicable': []}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
