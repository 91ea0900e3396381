#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks registered in harness/."""
import glob, json, os, re
root = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
reg = {}
for f in sorted(glob.glob(root + '/harness/*.go')):
    for m in re.finditer(r'Register\("(C\d+)", "([^"]+)"', open(f).read()):
        reg.setdefault(m.group(1), []).append(m.group(2))
again = open(root + '/harness/again.go').read()
for i in re.findall(r'"(C\d+)"', again[again.index('func init()'):]):
    reg[i].append('asked-again')
stateful = {'C01': 'stateful model-based histories against a plain 2-D array', 'C05': 'recorded walk histories against an enumeration of the region',
            'C06': 'operation then mutation, snapshots compared', 'C08': 'stateful model-based histories against a plain slice',
            'C26': 'stateful model-based histories against the dense model', 'C04': 'differential programs over every storage',
            'C24': 'permuted accessor histories, differential over storage', 'C07': 'generated invalid requests, status and before/after state compared',
            'C27': 'metamorphic equality relations', 'C29': 'extreme values planted in structured matrices, termination and classification oracle', 'C28': 'metamorphic determinant laws and exact integer elimination',
            'C21': 'differential between solvers and backward-error oracle', 'C22': 'least-squares optimality oracle, differential between solvers',
            'C30': 'generated concurrent programs under the race detector, compared with the same programs run alone',
            'C31': 'metamorphic and differential relations between decompositions of related matrices',
            'C23': 'constructed singular matrices and threshold boundary search'}
checks, na = [], []
for p in props:
    i = p['id']
    if i in reg:
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
            "technique": "property-based testing (rapid generators, shrinking to a replay file): " + stateful.get(i, 'structured matrices against an explicit oracle') + "; generators: " + ", ".join(reg[i]),
            "level": "exploration",
            "level_note": "Seeded random search over generated inputs against an oracle independent of the code; it finds violations, and proves nothing beyond the cases run."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(root + '/MANIFEST.json', 'w'), indent=1)
