"""Worker process: one battery shard or one proof of one property; result as JSON file."""
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
from engine import env
env.setup()

CASE_LIMIT = 100


class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return ' <- '.join('%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in reversed(tb[-5:]))


def run_case(mod, case):
    """None, or the message of the violated contract."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        return mod.check(case)
    except CaseTimeout:
        return 'no result within %d s' % CASE_LIMIT
    except SystemExit as e:
        return 'code under contract called exit(%s) where a result is required' % (e.code,)
    except Exception as e:
        return 'unexpected %s: %s (%s)' % (type(e).__name__, str(e)[:300], where(e))
    finally:
        signal.alarm(0)


def battery(pid, shard, nshard, seed, tier, budget, out):
    mod = importlib.import_module('contracts.' + pid.lower())
    t0 = time.time()
    seen, n, nontriv, samples, bad = set(), 0, 0, [], []
    truncated = False
    for i, case in enumerate(mod.cases(random.Random(seed), tier)):
        if i % nshard != shard:
            continue
        if time.time() - t0 > budget:
            truncated = True
            break
        key = json.dumps(case, sort_keys=True)
        if key in seen:
            continue
        seen.add(key)
        n += 1
        msg = run_case(mod, case)
        if msg is None:
            if not getattr(mod, 'trivial', lambda c: False)(case):
                nontriv += 1
                if len(samples) < 2 and len(key) < 1500:
                    samples.append(case)
        else:
            bad.append((len(key), case, msg))
            if len(bad) >= 12:
                break
    bad.sort(key=lambda b: b[0])
    json.dump({'n': n, 'nontrivial': nontriv, 'samples': samples, 'secs': time.time() - t0,
               'truncated': truncated, 'bad': [(c, m) for _, c, m in bad]}, open(out, 'w'))


def proof(pid, name, out, verbose=False):
    import z3  # noqa
    from engine.core import Session, Obligation, Unsupported
    mod = importlib.import_module('contracts.' + pid.lower())
    fn = dict((p[0], p[1]) for p in mod.PROOFS)[name]
    S = Session(name)
    if hasattr(fn, 'setup'):
        fn.setup(S)
    t0 = time.time()
    try:
        fn(S)
    except Unsupported as e:
        S.obligations.append(Obligation(name, 'unsupported', {'reason': str(e)}))
    except Exception as e:
        if verbose:
            traceback.print_exc()
        S.obligations.append(Obligation(name, 'unsupported', {'reason': '%s: %s (%s)' % (
            type(e).__name__, e, where(e))}))
    if not S.obligations:
        S.obligations.append(Obligation(name, 'vacuous', {'reason': 'nothing was proved'}))
    bad = []
    if hasattr(mod, 'concretize'):
        # counterexamples are replayed against the real code
        seen = set()
        for o in S.obligations:
            if o.status == 'failed' and len(seen) < 20 and not bad:
                c = mod.concretize(o.name, o.detail)
                if c is not None and json.dumps(c) not in seen:
                    seen.add(json.dumps(c))
                    msg = run_case(mod, c)
                    if msg is not None:
                        bad.append((c, msg))
    json.dump({'proof': name, 'bad': bad, 'obligations': [[o.name, o.status, o.detail, o.secs] for o in S.obligations],
               'solver_s': S.solver_s, 'queries': S.queries, 'paths': S.paths, 'secs': time.time() - t0},
              open(out, 'w'), default=str)
    if verbose:
        agg = {}
        for o in S.obligations:
            agg.setdefault((o.name, o.status), []).append(o)
        for (nm, st), os_ in agg.items():
            print('%-11s %3dx %s' % (st, len(os_), nm))
            if st != 'proved':
                print('      ', os_[0].detail)
        print('%s: paths %d, queries %d, solver %.1f s, wall %.1f s' % (
            name, S.paths, S.queries, S.solver_s, time.time() - t0))


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'battery':
        battery(a[1], int(a[2]), int(a[3]), int(a[4]), a[5], float(a[6]), a[7])
    elif a[0] == 'proof':
        proof(a[1], a[2], a[3])
    elif a[0] == 'vproof':
        proof(a[1], a[2], '/dev/null', True)
    elif a[0] == 'case':
        mod = importlib.import_module('contracts.' + a[1].lower())
        print(json.dumps({'msg': run_case(mod, json.load(open(a[2])))}))
    elif a[0] == 'list':
        mod = importlib.import_module('contracts.' + a[1].lower())
        print(json.dumps({'proofs': [[p[0], p[2]] for p in getattr(mod, 'PROOFS', [])],
                          'battery': hasattr(mod, 'cases'), 'title': mod.TITLE, 'level': mod.LEVEL,
                          'assumptions': mod.ASSUMPTIONS, 'bounded': mod.BOUNDED,
                          'rule': getattr(mod, 'RULE', ''), 'trusted': getattr(mod, 'TRUSTED', []),
                          'shards': getattr(mod, 'SHARDS', 4), 'budget': getattr(mod, 'BUDGET', 40)}))
