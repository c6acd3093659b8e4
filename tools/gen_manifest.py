"""Write MANIFEST.json from the contract modules and properties.jsonl."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine import env  # noqa
env.setup()

TECH = {
    'proof': 'contracts on the real code, instrumented from source; VCs discharged by z3; contract evaluated on generated inputs',
    'exploration': 'executable contracts on the real code evaluated on generated inputs (bounded stand-in), plus proof obligations where listed',
}
checks, na = [], []
NA = {}
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    if not os.path.exists(os.path.join(HERE, 'contracts', i.lower() + '.py')):
        na.append({'property': i, 'reason': 'its contracts are not written yet'})
        continue
    m = importlib.import_module('contracts.' + i.lower())
    note = getattr(m, 'NOTE', None)
    if note is None:
        fns = sorted({f for p_ in m.PROOFS for f in p_[2]})
        note = ''
        if fns:
            note += 'Proved for all inputs (z3 over obligations from the current source): %s. ' % ', '.join(fns)
        if m.BOUNDED:
            note += 'Bounded, not proved: %s. ' % '; '.join(m.BOUNDED)
        if m.ASSUMPTIONS:
            note += 'Assumes: %s. ' % '; '.join(m.ASSUMPTIONS)
        if m.TRUSTED:
            note += 'Trusts: %s.' % '; '.join(m.TRUSTED)
    tech = getattr(m, 'TECHNIQUE', None)
    if tech is None:
        tech = TECH['proof'] if m.PROOFS and m.LEVEL == 'proof' else TECH['exploration']
    checks.append({'property': i, 'quick_cmd': './run.sh %s quick' % i, 'thorough_cmd': './run.sh %s thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': tech, 'level': m.LEVEL,
                   'level_note': note.strip()})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. Checks read /repo from the working tree on every run.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
