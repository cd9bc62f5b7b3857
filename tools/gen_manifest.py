"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification of the real functions (own verifier pv/: per-function contracts, obligations discharged by normal form and z3 on every run)'
# property -> (level, note)
P = 'All obligations generated from the current source of the functions under contract are discharged for all sizes and values; '
B = 'run-time evaluation of the same contracts on the real code is additional and bounded. '
ASM = 'Trusted: the engine pv/, its models of numpy/scipy (cross-checked on each run), z3; floating point treated as exact arithmetic; inverted quantities nonzero.'
CLAIMED = {}
def claim(pid, level, note): CLAIMED[pid] = (level, note)
for pid in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06'): claim(pid, 'proof', P + B + ASM)
exec(open(os.path.join(HERE, 'tools', 'claims.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'claims.py')) else None
NA = globals().get('NA', {})
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1,
     'setup_cmd': './setup',
     'checks': [{'property': p, 'quick_cmd': './check %s' % p, 'thorough_cmd': './check %s --thorough' % p, 'technique': TECH,
                 'level': l, 'level_note': n, 'evidence_file': 'evidence/%s.json' % p} for p, (l, n) in sorted(CLAIMED.items())],
     'not_applicable': [{'property': p['id'], 'reason': NA.get(p['id'], 'no contract built for this property yet')} for p in props if p['id'] not in CLAIMED],
     'notes': 'no hooks: the verified text is the source in /repo, parsed on every run'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not')
