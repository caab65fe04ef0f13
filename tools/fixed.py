"""Record a repaired defect: python3 tools/fixed.py PROP SUB COMMIT "what failed" """
import json, sys, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, 'known_findings.json')
d = json.load(open(p))
prop, sub, commit, what = sys.argv[1:5]
d.append({'property': prop, 'status': f'fixed: property={prop} {commit} {what}', 'sub': sub, 'case': None, 'what': what})
json.dump(d, open(p, 'w'), indent=1)
