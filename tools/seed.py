"""Try planted bugs in scratch copies: demo on the unchanged tree and with the patch, stable tests, checks.

usage: tools/seed.py [--notest] [--all CXX,..] ID...
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, cwd, **env):
    p = subprocess.run(cmd, cwd=cwd, shell=True, env={**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', **env},
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def one(a):
    sid, notest = a
    d = os.path.join(V, 'seeded', sid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    w = '/tmp/seedwork/' + sid
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    res = [sid]
    try:
        r = w + '/repo'
        sh('cp -a /repo %s' % r, '/')
        demo = w + '/demo'
        shutil.copytree(d, demo)
        rc, out = sh('timeout 120 bash %s/demo.sh' % demo, r, PYTHONPATH=r)
        res.append('clean demo ok' if rc == 0 else 'CLEAN DEMO FAILS %d: %s' % (rc, out[-600:]))
        rc, out = sh('git apply %s/patch.diff' % d, r)
        if rc:
            return res + ['PATCH DOES NOT APPLY ' + out]
        rc, out = sh('timeout 120 bash %s/demo.sh' % demo, r, PYTHONPATH=r)
        res.append('patched demo fails: ok (%s)' % out.strip().split('\n')[-1][-150:] if rc else 'PATCHED DEMO PASSES')
        # changed lines have to be original ones
        root = subprocess.check_output('git -C /repo rev-list --max-parents=0 HEAD', shell=True, text=True).split()[0]
        import re
        cur, hits, tot = None, 0, 0
        ln = 0
        for l in open(d + '/patch.diff'):
            if l.startswith('--- a/'):
                cur = l[6:].strip()
                blame = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', '-l', '--root', cur], text=True).split('\n')
            elif l.startswith('@@'):
                ln = int(re.match(r'@@ -(\d+)', l).group(1))
            elif l.startswith('-') and not l.startswith('---'):
                tot += 1
                hits += blame[ln - 1].startswith(root[:30])
                ln += 1
            elif l.startswith(' '):
                ln += 1
        res.append('%d of %d changed lines original%s' % (hits, tot, '' if hits == tot and tot else '  <<<<<< CHECK'))
        if not notest:
            rep = w + '/junit.xml'
            os.makedirs(w + '/home')
            rc, out = sh('/opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -p no:xdist --disable-warnings '
                         '--timeout=300 -o junit_family=xunit2 --junitxml=%s' % rep, r, PYTHONPATH=r, MPLBACKEND='Agg',
                         HOME=w + '/home')
            import xml.etree.ElementTree as ET
            bad = []
            for tc in ET.parse(rep).iter('testcase'):
                if any(c.tag in ('failure', 'error') for c in tc):
                    n = '%s::%s' % (tc.get('classname'), tc.get('name'))
                    bad.append(n)
            names = [b for b in bad if b in stable]
            res.append('tests ok' if not names else 'STABLE TESTS FAIL %r' % names)
        pid = meta['property']
        rc, out = sh('%s/run.sh %s quick' % (V, pid), V, KC_REPO=r, KC_EVIDENCE=w + '/ev')
        line = [l for l in out.split('\n') if l.startswith('VIOLATION')]
        res.append('%s %s: %s' % (pid, 'CAUGHT' if rc == 1 and line else 'MISSED rc=%d' % rc,
                                  (line[0] if line else '') + ' | ' + out[:300].replace('\n', ' / ')))
    except Exception as e:
        res.append('ERROR %r' % e)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return res


ids = [a for a in sys.argv[1:] if not a.startswith('--')]
if not ids:
    ids = sorted(os.listdir(os.path.join(V, 'seeded')))
with ThreadPoolExecutor(max_workers=3) as ex:
    for r in ex.map(one, [(i, '--notest' in sys.argv) for i in ids]):
        print('\n   '.join(r), flush=True)
