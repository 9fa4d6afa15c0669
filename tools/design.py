#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.md with the tables of scenarios, planted bugs and fixes filled in."""
import collections, importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
for f in sorted(os.listdir(os.path.join(HERE, 'checks'))):
    if f.endswith('.py'):
        importlib.import_module('checks.' + f[:-3])
from sx.harness import REGISTRY
text = open(os.path.join(HERE, 'tools/design.md')).read()
props = {p['id']: p for p in map(json.loads, open(os.path.join(HERE, 'properties.jsonl')))}
rows = []
for p, s in sorted(REGISTRY.items()):
    q = sum('quick' in x.tiers for x in s)
    rows.append(f'| {p} | {props[p]["title"]} | {q} | {len(s)} | {", ".join(sorted({x.fn.__module__.split(".")[-1] + ".py" for x in s}))} |')
text = text.replace('@SCENARIOS@', '\n'.join(rows))
rows = []
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    rows.append(f'| {d} | {m["property"]} | {m["needs"]} | {m["what_it_breaks"]} |')
text = text.replace('@SEEDS@', '\n'.join(rows)).replace('@NSEEDS@', str(len(rows)))
fixed = collections.defaultdict(list)
for l in open(os.path.join(HERE, 'known_findings.jsonl')):
    if l.startswith('fixed:'):
        _, p, c, what = l.split(maxsplit=3)
        fixed[p[9:]].append(f'{c} {what.strip()}')
text = text.replace('@FIXES@', '\n'.join(f'- {p}: ' + '; '.join(x) for p, x in sorted(fixed.items())))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(text)
