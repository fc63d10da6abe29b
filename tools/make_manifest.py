"""writes MANIFEST.json from the list of implemented checks"""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, '/repo']
from dst.props import MODULES, NOTES  # noqa: E402

NA = {
    'N01': 'create_datetime_array is a pure function of its arguments: no schedule, clock, I/O, randomness or second party for a simulation to decide anything about.',
    'N03': 'Plausibility warnings are a pure function of constructor arguments; there is no execution to schedule or fault to inject.',
    'N04': 'Descriptions are pure renderings of already built objects; no fault or schedule affects them. (That they belong to their own model is covered by H02.)',
}
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in MODULES:
        checks.append({
            'property': p, 'quick_cmd': f'./check {p}', 'thorough_cmd': f'VERIF_TIER=thorough ./check {p}', 'evidence_file': f'evidence/{p}.json',
            'technique': 'deterministic simulation with fault injection (seeded search): ' + NOTES[p][0],
            'level': 'exploration', 'level_note': NOTES[p][1]})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'no check yet')})
m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every seam used (pyomo solver objects, file functions, clocks, hash, threads) exists already. '
              'Repairs of genuine defects are the fix: commits listed in known-findings.txt.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
