"""Helper to write seeded/<id>/ from replacements in /repo's HEAD (used by hand)."""
import json
import os
import subprocess
import tempfile
import shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
# runs in the repository; fails when the property is broken
exec /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"
'''
PRE = '''import os, sys
sys.path.insert(0, os.getcwd())
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
'''


def seed(sid, prop, edits, needs, breaks, demo, helpers=False):
    d = os.path.join(V, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mkseed_')
    try:
        subprocess.check_call('git -C /repo worktree list >/dev/null; cp -a /repo %s/r' % w, shell=True)
        r = w + '/r'
        for f, old, new in edits:
            p = os.path.join(r, 'kerncraft', f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output('git -C %s diff' % r, shell=True, text=True)
        assert diff
        open(d + '/patch.diff', 'w').write(diff)
    finally:
        shutil.rmtree(w)
    shutil.rmtree(d + '/h', ignore_errors=True)
    if helpers:
        os.makedirs(d + '/h')
        open(d + '/h/__init__.py', 'w').close()
        for f in ('common.py', 'perf.py'):
            shutil.copy(os.path.join(V, 'contracts', f), d + '/h/' + f)
    open(d + '/demo.sh', 'w').write(HEAD)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(PRE + demo.strip() + '\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
