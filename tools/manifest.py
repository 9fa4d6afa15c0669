#!/usr/bin/env python3
"""Write MANIFEST.json: every property with a scenario is claimed, the others are listed as not applicable."""
import importlib, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if not os.environ.get('SX_NOEXEC'):
    os.environ['SX_NOEXEC'] = '1'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-B', os.path.abspath(__file__)])
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, here)
from sx import harness
for f in sorted(os.listdir(os.path.join(here, 'checks'))):
    if f.endswith('.py') and f != '__init__.py':
        importlib.import_module('checks.' + f[:-3])
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
reasons = json.load(open(os.path.join(here, 'tools', 'not_applicable.json')))
have = harness.REGISTRY
checks, na = [], []
for p in props:
    i = p['id']
    if i in have and i not in reasons:
        checks.append({
            'property': i,
            'quick_cmd': f'python3 run.py {i} --tier quick',
            'thorough_cmd': f'python3 run.py {i} --tier thorough',
            'technique': 'dynamic symbolic execution of the real Python code with z3 (path conditions and assertions as SMT queries, counterexamples replayed on the unmodified package)',
            'level': 'model_checking',
            'level_note': 'Bounded: every assertion is decided by z3 over all values of the symbolic inputs on every explored path of each scenario; '
                          'the bounds of the scenarios, and which of them were explored exhaustively and which only within the time budget, are in the evidence file. '
                          'Trusted: the symbolic stand-ins for struct, numpy, datetime, re and file access (validated against the real ones by concrete replays of explored paths), z3.'})
    else:
        na.append({'property': i, 'reason': reasons.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', [n['property'] for n in na])
