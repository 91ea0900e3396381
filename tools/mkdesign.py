#!/usr/bin/env python3
"""Fills tools/DESIGN.tmpl from known_findings.json and seeded/ and writes DESIGN.md."""
import json, glob, os, re
r = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(r + '/tools/DESIGN.tmpl').read()
f = ''
for x in json.load(open(r + '/known_findings.json'))['findings']:
    f += '* %s (%s, %s): %s\n' % (x['id'], x['property'], x['commit'], re.sub(r'^C\d\d: ', '', x['what']))
s = '| planted bug | needs | caught by |\n|---|---|---|\n'
by = json.load(open(r + '/tools/caught.json')) if os.path.exists(r + '/tools/caught.json') else {}
for m in sorted(glob.glob(r + '/seeded/*/meta.json')):
    j = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    s += '| %s | %s | %s |\n' % (i, ' '.join(j['needs'].split()).replace('|', '\\|'), by.get(i, j['property']))
t = t.replace('@@FINDINGS@@', f.strip()).replace('@@SEEDED@@', s.strip())
t = t.replace('@@MUTATION@@', open(r + '/tools/mutation.txt').read().strip() if os.path.exists(r + '/tools/mutation.txt') else '')
open(r + '/DESIGN.md', 'w').write(t)
