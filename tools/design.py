"""Per-property section and detection table of DESIGN.md, from the contract modules and seeded/*/meta.json."""
import glob
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine import env  # noqa
env.setup()
out = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    m = importlib.import_module('contracts.' + p['id'].lower())
    out.append('### %s %s (%s)\n' % (p['id'], p['title'], 'proved + battery' if m.PROOFS else 'bounded stand-in only'))
    for name, fn, fns in m.PROOFS:
        doc = ' '.join((fn.__doc__ or '').split())
        out.append('* proof `%s`: %s%s' % (name, ', '.join(fns), ' - ' + doc if doc else ''))
    for t, l in (('bounded', m.BOUNDED), ('assumes', m.ASSUMPTIONS), ('trusts', m.TRUSTED)):
        for x in l:
            out.append('* %s: %s' % (t, x))
    out.append('* inputs of the battery: %s' % m.RULE)
    plan = getattr(m, 'WHY', None)
    if plan:
        out.append('* why bounded: %s' % plan)
    out.append('')
out.append('## Planted bugs and the checks that catch them\n')
out.append('Every patch is confirmed by `tools/seed.py` (demo fails with it, stable tests pass, the check named exits 1).\n')
out.append('| bug | caught by | what it breaks | needs |')
out.append('|---|---|---|---|')
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*'))):
    j = json.load(open(os.path.join(d, 'meta.json')))
    cut = lambda s: ' '.join(str(s).split()).replace('|', '/')
    out.append('| %s | %s | %s | %s |' % (os.path.basename(d), j['property'], cut(j['what_it_breaks']), cut(j['needs'])))
path = os.path.join(HERE, 'DESIGN.md')
text = open(path).read().split('<!-- generated -->')[0]
open(path, 'w').write(text + '<!-- generated -->\n## Properties\n\n' + '\n'.join(out) + '\n')
