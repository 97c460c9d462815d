import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = {}
f = os.path.join(HERE, 'tools', 'levels.json')
if os.path.exists(f):
    LEVEL = json.load(open(f))
checks = []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    lv, note = LEVEL.get(i, ['exploration', 'bounded: contract replay on the real code; obligations of the contracts proved are listed in the evidence'])
    checks.append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='python3-vt check.py %s --thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique='deductive verification: contracts on the functions extracted from /repo, obligations discharged by SMT (z3, cvc5); failing inputs replayed on the real code',
                       level=lv, level_note=note))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=[], notes='see DESIGN.md'), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
