"""Register a check: python3 tools/reg.py ID "oracle phrase" "rule" """
import json, sys, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, tech, rule = sys.argv[1:4]
for fn, key, val in (('tools/notes.json', 'technique', 'property-based testing (Hypothesis): ' + tech), ('rules.json', 'rule', rule)):
    p = os.path.join(root, fn)
    d = json.load(open(p))
    d.setdefault(i, {})[key] = val
    json.dump(dict(sorted(d.items())), open(p, 'w'), indent=1)
subprocess.check_call([sys.executable, os.path.join(root, 'tools/mkmanifest.py')])
