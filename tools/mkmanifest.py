"""MANIFEST.json from registry.py and properties.jsonl"""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, H)
from registry import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    p = PROPS.get(i)
    if p is None:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check built yet; to be decided by contracts on the functions listed in properties.jsonl')))
        continue
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=p.get('technique', 'contract-based deductive verification (VC generation over the real source, z3/cvc5); failed obligations replayed on the real code'),
                       level=p['level'], level_note=p.get('note', '')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo. Proof engines: engine/cv.py (C), engine/pv.py (Python); contracts in contracts/; contract evaluation on the real code in falsify/.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
