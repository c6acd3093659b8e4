"""C21: temporarily changed global state."""
ID = 'C21'
TITLE = 'temporarily changed global state'
LEVEL = 'proof'
ASSUMPTIONS = ['the enclosed block itself does not change the same state by other means, except where the contract '
               'says so (changes made inside are overwritten by the restored value)']
BOUNDED = ['real environment, interpreter and pprint; use in Benchmark: all nestings up to depth 3 (thorough: 4) of the three context managers with all ways of leaving']
TRUSTED = ['contextlib.contextmanager, os.environ']
RULE = ('all sequences of up to 3 nested uses over {set, unset, empty value} x {previously set, unset, empty} x ways of '
        'leaving (normal, exception, break, return, exit, closing a generator); non-trivial: everything but plain use')
SHARDS = 4

EXITS = ('normal', 'exception', 'exit', 'interrupt', 'return', 'break', 'close', 'inner-change')
MANAGERS = ('env:v1', 'env:v2', 'env:None', 'env:', 'env2:w', 'env2:None', 'rec:5000', 'rec:100000', 'pprint')


def cases(rng, tier):
    for prev in (None, '', 'old'):
        for ex in EXITS:
            for a in MANAGERS:
                yield {'prev': prev, 'exit': ex, 'm': [a]}
                for b in MANAGERS:
                    yield {'prev': prev, 'exit': ex, 'm': [a, b]}
    for _ in range(1000 if tier == 'quick' else 20000):
        yield {'prev': rng.choice([None, '', 'old']), 'exit': rng.choice(EXITS),
               'm': [rng.choice(MANAGERS) for _ in range(rng.choice([3, 3, 4, 6]))],
               'twice': rng.random() < .3}
    yield {'perfctr': 'ok'}
    for prev in (None, '4'):
        for how in ('ok', 'failed', 'broken'):
            yield {'perfctr': how, 'prev': prev}


def trivial(c):
    return len(c.get('m', '..')) == 1 and c['exit'] == 'normal'


class Leave(Exception):
    pass


def check(c):
    import os
    import pprint
    import sys
    from kerncraft.models import benchmark
    from kerncraft import kernel
    A, B = 'KC_VERIF_A', 'KC_VERIF_B'
    if 'perfctr' in c:
        return check_perfctr(c, benchmark, os)

    def state():
        return (os.environ.get(A), os.environ.get(B), sys.getrecursionlimit(), pprint._safe_key)

    def enter(m):
        k, _, v = m.partition(':')
        v = None if v == 'None' else v
        if k == 'env':
            return benchmark.fix_env_variable(A, v), (0, v)
        if k == 'env2':
            return benchmark.fix_env_variable(B, v), (1, v)
        if k == 'rec':
            return kernel.set_recursionlimit(int(v)), (2, int(v))
        return benchmark.pprint_nosort(), (3, benchmark.sympy_safe_key)

    for n in (A, B):
        os.environ.pop(n, None)
    if c.get('prev') is not None:
        os.environ[A] = c['prev']
    orig = state()
    err = []

    def use(ms, leave):
        """Nested use; every level checks the value in force inside and after it."""
        if not ms:
            return leave()
        before = state()
        cm, (i, want) = enter(ms[0])
        if state() != before:
            err.append('creating %s already changes state' % ms[0])
        try:
            with cm:
                now = state()
                if now[i] != want:
                    err.append('inside %s the value is %r' % (ms[0], now[i]))
                if [x for j, x in enumerate(now) if j != i] != [x for j, x in enumerate(before) if j != i]:
                    err.append('%s changes other state: %r -> %r' % (ms[0], before, now))
                r = use(ms[1:], leave)
                if state() != now:
                    err.append('after the uses nested in %s the state is %r instead of %r' % (ms[0], state(), now))
                return r
        finally:
            if state() != before:
                err.append('after leaving %s by %s the state is %r instead of %r' % (ms[0], c['exit'], state(), before))

    def leave_normal():
        return 1

    def leave_exc():
        raise Leave()

    def leave_exit():
        raise SystemExit(3)

    def leave_int():
        raise KeyboardInterrupt()

    def change():
        # changes made inside the block do not survive it
        for m in c['m']:
            k = m.partition(':')[0]
            if k in ('env', 'env2'):
                os.environ[A if k == 'env' else B] = 'changed inside'
            elif k == 'rec':
                sys.setrecursionlimit(7777)
            else:
                pprint._safe_key = None
        return 1

    def gen():
        stack = []
        cms = [enter(m) for m in c['m']]
        import contextlib
        with contextlib.ExitStack() as s:
            for cm, _ in cms:
                s.enter_context(cm)
            for i in range(3):
                yield state()

    try:
        for _ in range(2 if c.get('twice') else 1):
            if c['exit'] == 'normal' or c['exit'] == 'return':
                if use(c['m'], leave_normal) != 1:
                    err.append('the block was not executed')
            elif c['exit'] == 'break':
                for i in range(3):
                    before = state()
                    cm, (j, want) = enter(c['m'][0])
                    with cm:
                        if state()[j] != want:
                            err.append('inside %s the value is %r' % (c['m'][0], state()[j]))
                        break
                if state() != before:
                    err.append('after leaving %s by break the state is %r' % (c['m'][0], state()))
            elif c['exit'] == 'close':
                g = gen()
                before = state()
                next(g)
                g.close()
                if state() != before:
                    err.append('after closing a generator inside %r the state is %r instead of %r' % (
                        c['m'], state(), before))
            elif c['exit'] == 'inner-change':
                # only the outermost state after everything is compared
                before = state()
                import contextlib
                with contextlib.ExitStack() as s:
                    for m in c['m']:
                        s.enter_context(enter(m)[0])
                    change()
                if state() != before:
                    err.append('changes made inside %r survive it: %r instead of %r' % (c['m'], state(), before))
            else:
                exc = {'exception': (leave_exc, Leave), 'exit': (leave_exit, SystemExit),
                       'interrupt': (leave_int, KeyboardInterrupt)}[c['exit']]
                try:
                    use(c['m'], exc[0])
                except exc[1]:
                    pass
                else:
                    err.append('%s was swallowed by %r' % (c['exit'], c['m']))
        if state() != orig:
            err.append('finally the state is %r instead of %r' % (state(), orig))
    finally:
        for n in (A, B):
            os.environ.pop(n, None)
        sys.setrecursionlimit(orig[2])
        pprint._safe_key = orig[3]
    return err[0] if err else None


def check_perfctr(c, benchmark, os):
    """The measuring call runs without OMP_NUM_THREADS, which is restored whatever happens."""
    import subprocess
    seen = []
    name = 'OMP_NUM_THREADS'
    os.environ.pop(name, None)
    if c.get('prev') is not None:
        os.environ[name] = c['prev']
    real = subprocess.check_output, benchmark.find_executable

    def fake(cmd, *a, **kw):
        seen.append((kw.get('env') or os.environ).get(name))
        if c['perfctr'] == 'failed':
            raise subprocess.CalledProcessError(1, cmd)
        if c['perfctr'] == 'broken':
            raise OSError('broken')
        return b'STRUCT,Info,3\nRuntime (RDTSC) [s],1.5\n'
    try:
        subprocess.check_output = fake
        benchmark.find_executable = lambda *a: '/bin/true'
        try:
            benchmark.perfctr(['/bin/true'], 1)
        except (SystemExit, OSError):
            if c['perfctr'] == 'ok':
                return 'measurement failed'
    finally:
        subprocess.check_output, benchmark.find_executable = real
    after = os.environ.pop(name, None)
    if seen and seen != [None]:
        return 'measured with %s=%r' % (name, seen)
    if after != c.get('prev'):
        return '%s is %r after measuring (%s) instead of %r' % (name, after, c['perfctr'], c.get('prev'))
    return None


# ------------------------------------------------------------------ proofs
class Left(BaseException):
    pass


def _uses(S, cm, now, before, want, havoc, what):
    """One use of a context manager with an arbitrary block, for every way of leaving it (nesting follows)."""
    was = before()
    c = cm()
    S.check('creating %s changes nothing' % what, now(was))
    how = S.pick(['end', 'exception', 'exit', 'close'])

    def block():
        with c:
            S.check('the requested value is in force', want())
            if S.pick([False, True]):
                havoc()
            if how == 'exception':
                raise Left()
            if how == 'exit':
                return 1
            if how == 'close':
                yield 1
    g = block()
    left = False
    try:
        for _ in g:
            break
        g.close()
    except Left:
        left = True
    S.check('exceptions of the block pass', bool(left == (how == 'exception')))
    S.check('the previous value is in force again', now(was))


def proof_env(S):
    """fix_env_variable: any name, any previous, requested and intermediate value, set or not, every way of leaving."""
    from engine import instr
    from engine.core import SAtom, SBool, ctx
    from .stubs import Plain

    class Env(object):
        """The variable in question and, as one, all others."""
        def __init__(self, S, name):
            self.S, self.name = S, name
            self.cur = self.value('previous')

        def value(self, what):
            return S.pick([None, S.atom(what)])

        def own(self, k):
            S.check('no other variable is touched', k == self.name)

        def __contains__(self, k):
            self.own(k)
            return self.cur is not None

        def get(self, k, d=None):
            self.own(k)
            return d if self.cur is None else self.cur

        def __getitem__(self, k):
            self.own(k)
            if self.cur is None:
                raise KeyError(k)
            return self.cur

        def __setitem__(self, k, v):
            self.own(k)
            if not isinstance(v, (str, SAtom)):
                raise TypeError('str expected')
            self.cur = v

        def __delitem__(self, k):
            self[k]
            self.cur = None

        def pop(self, k, *d):
            if d and k not in self:
                return d[0]
            v = self[k]
            del self[k]
            return v

        def setdefault(self, k, d):
            if k not in self:
                self[k] = d
            return self[k]

        def update(self, *a, **kw):
            for k, v in dict(*a, **kw).items():
                self[k] = v

    m = instr.load('kerncraft/models/benchmark.py')

    def same(a, b):
        return a is None and b is None if a is None or b is None else a == b

    def go(S):
        name = S.atom('name')
        e = Env(S, name)
        m.os = Plain(environ=e, getenv=e.get)
        requested = S.pick([None, S.atom('requested')])

        def havoc():
            e.cur = S.pick([None, S.atom('inside')])
        _uses(S, lambda: m.fix_env_variable(name, requested), lambda was: same(e.cur, was), lambda: e.cur,
              lambda: same(e.cur, requested), havoc, 'the manager')
    S.run(go, 'fix_env_variable')


def proof_limit(S):
    """set_recursionlimit: any previous, requested and intermediate limit, every way of leaving."""
    from engine import instr
    from .stubs import Plain
    m = instr.load('kerncraft/kernel.py')

    def go(S):
        st = {'limit': S.int('previous')}
        new = S.int('requested')

        def put(x):
            st['limit'] = x
        m.sys = Plain(getrecursionlimit=lambda: st['limit'], setrecursionlimit=put)
        _uses(S, lambda: m.set_recursionlimit(new), lambda was: st['limit'] == was, lambda: st['limit'],
              lambda: st['limit'] == new, lambda: put(S.int('inside')), 'the manager')
    S.run(go, 'set_recursionlimit')

    def refused(S):
        st = {'limit': S.int('previous')}
        was = st['limit']

        def put(x):
            raise RecursionError('cannot set the recursion limit')
        m.sys = Plain(getrecursionlimit=lambda: st['limit'], setrecursionlimit=put)
        try:
            with m.set_recursionlimit(S.int('requested')):
                S.fail('the block is entered without the limit asked for')
        except RecursionError:
            pass
        S.check('a refused limit changes nothing', st['limit'] == was)
    S.run(refused, 'set_recursionlimit, refused limit')


def proof_hook(S):
    """pprint_nosort: any previous hook, any hook set inside, every way of leaving."""
    from engine import instr
    from .stubs import Plain
    m = instr.load('kerncraft/models/benchmark.py')

    def go(S):
        m.pprint = Plain(_safe_key=object())
        _uses(S, lambda: m.pprint_nosort(), lambda was: bool(m.pprint._safe_key is was), lambda: m.pprint._safe_key,
              lambda: bool(m.pprint._safe_key is m.sympy_safe_key),
              lambda: setattr(m.pprint, '_safe_key', object()), 'the manager')
    S.run(go, 'pprint_nosort')


PROOFS = [('environment', proof_env, ['fix_env_variable']), ('limit', proof_limit, ['set_recursionlimit']),
          ('hook', proof_hook, ['pprint_nosort'])]
