#!/usr/bin/env python3
"""Fill the generated sections of DESIGN.md (per property: statement, exploration, bounds; seeded bugs)."""
import glob
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.stdout = open(os.devnull, 'w')
import importlib  # noqa: E402

out = []
man = {c['property']: c for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']}
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(l)
    if p['id'] not in man:
        continue
    m = importlib.import_module('checks.' + p['id'])
    out.append('#### %s %s\n' % (p['id'], p['title']))
    out.append('*Statement.* %s\n' % p['statement'])
    out.append('*What is enumerated and against what.* %s.\n' % m.RULE.strip().rstrip('.'))
    out.append('*Bounds, quick:* %s. *Thorough:* %s.\n' % (m.BOUNDS['quick'], m.BOUNDS['thorough']))
    a = getattr(m, 'ASSUMPTIONS', None)
    if a:
        out.append('*Assumptions.* %s.\n' % '; '.join(a))
    out.append('*Why tests cannot.* %s.\n' % p['why_tests_cant'].rstrip('.'))
props = '\n'.join(out)

seeds = ['| change | property | what it breaks | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    seeds.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['property'],
                                            d['what_it_breaks'].replace('|', '/'), d['needs'].replace('|', '/')))
seeds = '\n'.join(seeds)

path = os.path.join(ROOT, 'DESIGN.md')
s = open(path).read()
for name, text in (('PROPS', props), ('SEEDS', seeds)):
    s = re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (name, name), lambda m: m.group(1) + '\n' + text + '\n\n' + m.group(2), s, flags=re.S)
open(path, 'w').write(s)
