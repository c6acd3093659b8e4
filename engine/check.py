"""Decide one property: discharge its proof obligations, run its executable contract, write the evidence."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

from engine import env

PROOF_LIMIT = 420
BATTERY_LIMIT = 420
BASE_TRUST = [
    'z3 4.x (python3-vt z3-solver) as back end of every obligation',
    'engine/*: instrumentation of the source, symbolic values and loop rules (this repository)',
    'CPython 3.12 executing the instrumented module; machine floats treated as reals in proofs',
]


def worker_env(scratch):
    e = dict(os.environ)
    e.update(HOME=scratch, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TMPDIR=scratch,
             PYTHONPATH=env.VERIF, KC_REPO=env.REPO, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    e.pop('VERIF_TIER', None)
    return e


def call(args, scratch, limit):
    d = tempfile.mkdtemp(dir=scratch)
    try:
        # OSACA keeps parsed machine models in ~/.osaca: let workers share one per run
        p = subprocess.run([sys.executable, '-B', '-m', 'engine.worker'] + args, cwd=d, timeout=limit,
                           env=worker_env(d), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           stdin=subprocess.DEVNULL, start_new_session=True)
        return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 'timeout', '', ''


def known_findings(pid):
    out = []
    path = os.path.join(env.VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for l in open(path):
            if l.startswith('KNOWN-FINDING: property=%s ' % pid):
                out.append(l.split('property=%s ' % pid, 1)[1].strip())
    return out


def decide(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scratch = tempfile.mkdtemp(prefix='kc_%s_' % pid)
    evd = os.environ.get('KC_EVIDENCE') or os.path.join(env.VERIF, 'evidence')
    os.makedirs(os.path.join(evd, 'replay'), exist_ok=True)
    replay = os.path.join(evd, 'replay', pid + '.json')
    if os.path.exists(replay):
        os.remove(replay)
    try:
        rc, out, err = call(['list', pid], scratch, 120)
        try:
            info = json.loads(out.strip().splitlines()[-1])
        except Exception:
            # the code under contract cannot even be imported
            json.dump({'property': pid, 'what': 'contract module or code under contract cannot be loaded',
                       'output': err[-4000:]}, open(replay, 'w'), indent=1)
            json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
                       'coverage': {'explanation': 'code under contract could not be loaded: ' + err[-500:]},
                       'wall_s': time.time() - t0, 'violations': 1},
                      open(os.path.join(evd, pid + '.json'), 'w'), indent=1)
            print(err[-1500:])
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay))
            return 1
        jobs = []
        n = info['shards'] if info['battery'] else 0
        budget = info['budget'] * (1 if tier == 'quick' else 8)
        for name, _ in info['proofs']:
            o = os.path.join(scratch, 'p_%d.json' % len(jobs))
            jobs.append((name, ['proof', pid, name, o], o, PROOF_LIMIT))
        for i in range(n):
            o = os.path.join(scratch, 'b_%d.json' % i)
            jobs.append(('battery', ['battery', pid, str(i), str(n), str(seed), tier, str(budget), o], o,
                         BATTERY_LIMIT if tier == 'quick' else 3000))
        with ThreadPoolExecutor(max_workers=8) as ex:
            results = list(ex.map(lambda j: call(j[1], scratch, j[3]), jobs))
        obligations, batt, bad, undecided = [], [], [], []
        solver_s = 0.0
        fstat = {}
        for (name, args, o, _), (rc, so, se) in zip(jobs, results):
            data = None
            if os.path.exists(o):
                try:
                    data = json.load(open(o))
                except ValueError:
                    data = None
            if args[0] == 'proof':
                if data is None:
                    data = {'obligations': [[name, 'unknown', {'reason': 'prover ended: %s %s' % (rc, se[-600:])}, 0]],
                            'solver_s': 0, 'queries': 0, 'paths': 0, 'secs': 0}
                solver_s += data['solver_s']
                bad += data.get('bad', [])
                fstat[name] = {'obligations': len(data['obligations']),
                               'discharged': sum(x[1] == 'proved' for x in data['obligations']),
                               'paths': data['paths'], 'solver_s': round(data['solver_s'], 2)}
                for ob in data['obligations']:
                    obligations.append(ob)
                    if ob[1] != 'proved':
                        undecided.append([name] + ob[:3])
            else:
                if data is None:
                    undecided.append(['battery', 'executable contract', 'unknown',
                                      {'reason': 'battery ended: %s %s' % (rc, se[-1500:])}])
                else:
                    batt.append(data)
                    bad += data['bad']
        known = known_findings(pid)
        kn, new = set(), []
        for case, msg in bad:
            for k in known:
                if k.split(' :: ')[0] in msg:
                    kn.add(k)
                    break
            else:
                new.append((case, msg))
        new.sort(key=lambda b: len(json.dumps(b[0])))
        proved = sum(o[1] == 'proved' for o in obligations)
        cov = {
            'obligations': len(obligations), 'discharged': proved,
            'checker_cmd': './run.sh prove %s' % pid,
            'trusted_base': BASE_TRUST + info['trusted'],
            'functions_under_contract': {p[0]: p[1] for p in info['proofs']},
            'per_proof': fstat, 'solver_s': round(solver_s, 2), 'back_end': 'z3',
            'evaluations': sum(b['n'] for b in batt),
            'distinct_nontrivial': sum(b['nontrivial'] for b in batt),
            'rule': info['rule'], 'samples': [s for b in batt for s in b['samples']][:4],
            'bounded_standins': info['bounded'],
            'battery_cut_short': any(b['truncated'] for b in batt),
        }
        if info['level'] not in ('proof',):
            cov['explanation'] = info['rule']
        if not obligations:
            for k in ('obligations', 'discharged', 'checker_cmd', 'per_proof', 'solver_s', 'back_end'):
                cov.pop(k)
        nviol = len(new) if new else (1 if undecided else 0)
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': info['level'], 'coverage': cov,
                   'assumptions': info['assumptions'], 'wall_s': round(time.time() - t0, 2),
                   'violations': nviol}, open(os.path.join(evd, pid + '.json'), 'w'), indent=1)
        print('%s %s: %d/%d obligations discharged (z3 %.1f s), %d contract evaluations (%d distinct non-trivial), %.1f s'
              % (pid, info['title'], proved, len(obligations), solver_s, cov['evaluations'],
                 cov['distinct_nontrivial'], time.time() - t0))
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, k))
        if undecided:
            for u in undecided[:6]:
                print('  not discharged: %s / %s: %s %s' % (u[0], u[1], u[2], json.dumps(u[3], default=str)[:500]))
        if new:
            case, msg = new[0]
            json.dump({'property': pid, 'case': case, 'violates': msg,
                       'replay': './run.sh replay ' + replay,
                       'failed_obligations': undecided[:10]}, open(replay, 'w'), indent=1, default=str)
            print('  %s\n  on case %s' % (msg[:800], json.dumps(case)[:800]))
            print('VIOLATION property=%s replay=%s' % (pid, replay))
            return 1
        if undecided:
            json.dump({'property': pid, 'failed_obligations': undecided,
                       'verifier_output': [r[2][-2000:] for r in results if r[2]],
                       'note': 'no failing input found by the executable contract'},
                      open(replay, 'w'), indent=1, default=str)
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay))
            return 1
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[0] == 'replay':
        r = json.load(open(a[1]))
        if 'case' not in r:
            print(json.dumps(r, indent=1))
            return 1
        scratch = tempfile.mkdtemp(prefix='kc_replay_')
        try:
            f = os.path.join(scratch, 'case.json')
            json.dump(r['case'], open(f, 'w'))
            rc, out, err = call(['case', r['property'], f], scratch, 300)
            print(out, err[-2000:])
            return 0 if out.strip().endswith('{"msg": null}') else 1
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    if a[0] == 'prove':
        scratch = tempfile.mkdtemp(prefix='kc_prove_')
        try:
            rc, out, err = call(['list', a[1]], scratch, 120)
            if err.strip():
                print(err)
            bad = 0
            for name, _ in json.loads(out.strip().splitlines()[-1])['proofs']:
                if len(a) > 2 and a[2] not in name:
                    continue
                rc, out, err = call(['vproof', a[1], name], scratch, 1500)
                print(out, err)
            return 0
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return decide(a[0], tier)


if __name__ == '__main__':
    sys.exit(main())
