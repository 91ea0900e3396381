#!/usr/bin/env python3
"""addfinding.py ID STATUS COMMIT WHAT REPLAY: records a finding (known or fixed) with its failing case."""
import json, sys, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, 'known_findings.json')
db = {"findings": []}
if os.path.exists(path):
    db = json.load(open(path))
fid, status, commit, what, rep = sys.argv[1:6]
r = json.load(open(rep))
e = dict(status=status, property=r['property'], id=fid, what=what)
if commit != '-':
    e['commit'] = commit
if status == 'fixed':
    e['line'] = "fixed: property=%s %s %s" % (r['property'], commit, what)
e['sub'] = r['sub']
e['case'] = r['case']
db['findings'] = [f for f in db['findings'] if f['id'] != fid] + [e]
with open(path, 'w') as f:
    f.write('{"findings":[\n' + ',\n'.join(json.dumps(x) for x in db['findings']) + '\n]}\n')
