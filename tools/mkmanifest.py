#!/opt/venv/bin/python
"""Write MANIFEST.json from the checks that exist (dsim/checks) and the reasons for the rest."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
TECH = 'deterministic simulation with fault injection (seeded search)'
PURE = {
    'C15': 'a pure table lookup on one tag: no schedule, clock, I/O, crash point or history for a simulator to vary',
    'C16': 'pure linear algebra on one cell: no schedule, clock, I/O, crash point or history for a simulator to vary',
    'C17': 'a pure function of a title and a label: no schedule, clock, I/O, crash point or history to vary',
}
checks, missing = [], []
for line in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf8'):
    prop = json.loads(line)['id']
    if os.path.exists(os.path.join(HERE, 'dsim', 'checks', prop.lower() + '.py')):
        mod = importlib.import_module('dsim.checks.' + prop.lower())
        checks.append({
            'property': prop,
            'quick_cmd': f'python3 run.py check {prop} --tier quick',
            'thorough_cmd': f'python3 run.py check {prop} --tier thorough',
            'technique': TECH,
            'level': getattr(mod, 'LEVEL', 'exploration'),
            'level_note': getattr(mod, 'LEVEL_NOTE', 'Sampled histories, delivery schedules and faults from seeds; '
                                  'the real library code runs, only raw file I/O and the peers are simulated.'),
        })
    else:
        missing.append({'property': prop, 'reason': PURE.get(prop, 'no check has been built yet')})
body = {'version': 1, 'setup_cmd': 'python3 run.py --help > /dev/null',
        'hooks': {'guard': 'PARSEVASP_DSIM', 'enable': 'not used: every seam is reached from outside (open, threading, '
                  'handles), so /repo carries no hooks', 'source_commits': []},
        'checks': checks, 'not_applicable': missing}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf8') as out:
    json.dump(body, out, indent=1)
    out.write('\n')
