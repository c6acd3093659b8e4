"""C20: cached intermediates."""
ID = 'C20'
TITLE = 'locking and location of cached intermediates'
LEVEL = 'proof'
ASSUMPTIONS = [
    'flock() blocks until the lock is granted and converts exclusive into shared locks in place; other processes '
    'touch an intermediate only while holding its exclusive lock',
    'on file systems without working locks (first flock() fails) the caller is told to write, as documented',
    'the kernel file, machine file and program are not modified while an analysis runs',
    'kernel function names are those the callers use (the default)']
BOUNDED = [
    'lock_intermediate against real locks: up to 4 threads and adversarial file states at every step',
    'locations: generated pairs of dependency lists', 'shared caches: histories of up to 4 configurations per product']
TRUSTED = ['fcntl.flock', 'gcc', 'OSACA', 'pycachesim', 'compress_pickle']
RULE = 'lock schedules, file ages around the three inputs, dependency lists, histories of configurations'
SHARDS = 6
BUDGET = 60

KERNELS = {
    'copy': ('double a[N];\ndouble b[N];\nfor(int i=0; i<N; ++i) {\n  a[i] = b[i];\n}\n', ('N',)),
    'triad': ('double a[N];\ndouble b[N];\ndouble c[N];\ndouble s;\nfor(int i=0; i<N; ++i) {\n'
              '  a[i] = b[i] + s * c[i];\n}\n', ('N',)),
    '2d5pt': ('double a[M][N];\ndouble b[M][N];\nfor(int j=1; j<M-1; ++j) {\n  for(int i=1; i<N-1; ++i) {\n'
              '    b[j][i] = a[j][i-1] + a[j][i+1] + a[j-1][i] + a[j+1][i];\n  }\n}\n', ('M', 'N')),
}


# ------------------------------------------------------------------ cases
def history(rng):
    prod = rng.choice(['header', 'code', 'main', 'lc', 'csim', 'asm', 'obj', 'incore', 'incore', 'mca', 'iaca', 'exe'])
    base = {'kernel': rng.choice(list(KERNELS)), 'cl': 64, 'cores': 1, 'flags': '-O2', 'openmp': False,
            'block': 'auto', 'inc': 'auto', 'param': 'SNB', 'consts': 0, 'clock': 2, 'mach': False, 'extra': 0}
    dims = {'kernel': list(KERNELS), 'cl': [64, 128, 32], 'cores': [1, 2, 4, 8], 'flags': ['-O1', '-O2', '-O3', '-O2 -mavx', '-O3 -funroll-loops'],
            'openmp': [False, True], 'block': ['auto', 1, 0], 'inc': ['auto', 8, 16, 32], 'param': ['SNB', 'HSW', 'IVB'],
            'consts': [0, 1, 2, 3], 'clock': [1, 2], 'mach': [False, True], 'extra': [0, 1, 2]}
    use = {'header': ['kernel', 'extra', 'consts', 'cl'], 'code': ['kernel', 'extra', 'openmp', 'cl', 'consts'],
           'main': ['kernel', 'extra', 'cl', 'consts'], 'lc': ['kernel', 'cores', 'mach', 'cl', 'consts', 'clock'],
           'csim': ['kernel', 'cores', 'mach', 'consts', 'cl'], 'asm': ['kernel', 'flags', 'openmp', 'extra'],
           'obj': ['kernel', 'flags', 'openmp', 'extra'],
           'incore': ['block', 'inc', 'param', 'flags', 'kernel', 'mach'], 'mca': ['block', 'inc', 'param', 'flags', 'mach'],
           'iaca': ['block', 'inc', 'param', 'flags'], 'exe': ['kernel', 'flags', 'openmp', 'extra']}[prod]
    seq = [base]
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = dict(seq[-1])
        for d in rng.sample(use, rng.choice([1, 1, 1, 2])):
            n[d] = rng.choice([x for x in dims[d] if x != n[d]])
        seq.append(n)
    return {'k': 'hist', 'prod': prod, 'seq': seq}


def cases(rng, tier):
    for s0 in ('missing', 'stale', 'fresh'):
        for s1 in ('missing', 'stale', 'fresh'):
            for s2 in ('missing', 'stale', 'fresh'):
                yield {'k': 'lock', 'states': [s0, s1, s2], 'fail': False}
    yield {'k': 'lock', 'states': ['fresh', 'fresh', 'fresh'], 'fail': True}
    yield {'k': 'lock', 'states': ['missing', 'stale', 'fresh'], 'fail': True}
    for d in range(-1, 2):
        for e in range(-1, 2):
            for f in range(-1, 2):
                yield {'k': 'fresh', 'd': [d, e, f], 'unit': 1.0}
                yield {'k': 'fresh', 'd': [d, e, f], 'unit': 0.25}
    yield {'k': 'fresh', 'd': [1, 1, 1], 'unit': 7200.0, 'tz': 'UTC+7'}
    yield {'k': 'fresh', 'd': [-1, 1, 1], 'unit': 7200.0, 'tz': 'UTC-7'}
    yield {'k': 'fresh', 'd': [1, -1, 1], 'unit': 7200.0, 'tz': 'UTC+7'}
    yield {'k': 'fresh', 'd': [1, 1, -1], 'unit': 7200.0, 'tz': 'UTC+7'}
    for w in ('write', 'crash'):
        yield {'k': 'block', 'other': w}
    for _ in range(3):
        yield {'k': 'race', 'n': 4, 'seed': rng.randrange(10 ** 6)}
    for p in ('header', 'code', 'main', 'lc', 'csim', 'asm', 'incore', 'mca', 'iaca', 'exe'):
        yield {'k': 'held', 'prod': p}
    part = ['a', 'b', 'a/b', '/', '.', '..', '', ' ', 'a b', '%2F', 'a%2Fb', '-O3', '-O3 -xAVX', '1', 1, 'auto', 8,
            'x' * 300, 'x' * 299 + 'y', 'x' * 300 + 'y', '\u00e9', 'A', '../x', '_', '%', 'a_b', 'a\\b']
    for _ in range(400 if tier == 'quick' else 5000):
        a = [rng.choice(part) for _ in range(rng.randrange(0, 4))]
        b = list(a) if rng.random() < .2 else [rng.choice(part) for _ in range(rng.randrange(0, 4))]
        if rng.random() < .4 and a:
            b = list(a)
            b[rng.randrange(len(b))] = rng.choice(part)
        if rng.random() < .15:
            b = b[::-1]
        yield {'k': 'loc', 'a': a, 'b': b}
    fl = ['', '-O3', '-O3 -g', '-O2', '-O3  -g', '-O3 -march=native', None, '-I/usr/include -O3', '-I/usr -O3', '-O3 ' + '-DX=1 ' * 80,
          '-O3 ' + '-DX=1 ' * 79 + '-DX=2']
    for _ in range(150 if tier == 'quick' else 2000):
        yield {'k': 'mloc', 'a': [rng.choice(fl), rng.choice([64, 128]), rng.choice([1, 2, 3]), rng.choice([0, 1, 2])],
               'b': [rng.choice(fl), rng.choice([64, 128]), rng.choice([1, 2, 3]), rng.choice([0, 1, 2])]}
    yield {'k': 'clean'}
    base = {'kernel': 'triad', 'cl': 64, 'cores': 1, 'flags': '-O2', 'openmp': False, 'block': 'auto', 'inc': 'auto',
            'param': 'SNB', 'consts': 0, 'clock': 2, 'mach': False, 'extra': 0}
    for prod, d, v in (('header', 'extra', 1), ('code', 'openmp', True), ('main', 'cl', 128), ('main', 'extra', 1),
                       ('lc', 'cores', 8), ('lc', 'cl', 32), ('lc', 'mach', True), ('csim', 'consts', 1), ('csim', 'cores', 8),
                       ('csim', 'mach', True), ('csim', 'cl', 32), ('asm', 'flags', '-O1'), ('asm', 'openmp', True), ('obj', 'flags', '-mavx'),
                       ('incore', 'param', 'HSW'), ('incore', 'inc', 16), ('incore', 'flags', '-O1'), ('incore', 'block', 1),
                       ('mca', 'param', 'HSW'), ('mca', 'inc', 16), ('mca', 'flags', '-O1'),
                       ('iaca', 'inc', 16), ('iaca', 'flags', '-O1'), ('exe', 'flags', '-mavx'), ('exe', 'kernel', 'copy'),
                       ('exe', 'openmp', True), ('lc', 'kernel', 'copy'), ('incore', 'kernel', 'copy')):
        yield {'k': 'hist', 'prod': prod, 'seq': [base, dict(base, **{d: v}), base]}
    yield {'k': 'models'}
    for _ in range(60 if tier == 'quick' else 2000):
        yield history(rng)


def trivial(c):
    return c['k'] == 'hist' and len({repr(x) for x in c['seq']}) == 1


# ------------------------------------------------------------------ environment
def setup(path, cfg):
    """Kernel object of a configuration whose kernel file lies at path."""
    import os
    from .common import machine_dict, Args
    from kerncraft.kernel import KernelCode
    from kerncraft.machinemodel import MachineModel
    code, names = KERNELS[cfg['kernel']]
    try:
        with open(path) as f:
            old = f.read()
    except IOError:
        old = None
    if old != code:
        with open(path, 'w') as f:
            f.write(code)
        if old is None:
            os.utime(path, (1.6e9, 1.6e9))
    mpath = os.path.join(os.path.dirname(os.path.abspath(path)), 'machine.yml')
    if not os.path.exists(mpath):
        with open(mpath, 'w') as f:
            f.write('see the object\n')
        os.utime(mpath, (1.6e9, 1.6e9))
    md = machine_dict(cl=cfg['cl'], clock=cfg['clock'] * 1e9)
    md['in-core model']['OSACA'] = cfg['param']
    md['in-core model']['LLVM-MCA'] = '-mcpu=' + cfg['param']
    md['in-core model']['IACA'] = cfg['param']
    for k in list(md['compiler']):
        md['compiler'][k] = cfg['flags'] + ' -D_POSIX_C_SOURCE=200809L'
    if cfg['mach']:
        for h in md['memory hierarchy'][:-1]:
            h['cache per group']['sets'] //= 4
            h['size per group'] = h['size per group'] / 4
            if h['cores per group'] == 8:
                h['cores per group'] = 4
    mach = MachineModel(machine_yaml=md, args=Args(compiler='gcc', compiler_flags=None, cores=cfg['cores']))
    # data of the machine is not in the file: all machine files of a history have one name and age
    mach._path = mpath
    kern = KernelCode(code, mach, filename=path)
    for i, n in enumerate(names):
        kern.set_constant(n, [400, 3000, 1000, 200][(cfg['consts'] + i) % 4])
    for x in range(cfg['extra']):
        kern.set_constant('X%d' % x, 3)
    return mach, kern


def product(prod, path, cfg):
    """What an analysis delivers, as text independent of the directory."""
    import gc
    try:
        return product_(prod, path, cfg)
    except IndexError:
        pass
    # analyses which failed leave their locks to the garbage collector
    gc.collect()
    return 'no such block'


def product_(prod, path, cfg):
    import os
    import re
    import subprocess
    from .common import fast_osaca
    from kerncraft import incore_model, cacheprediction
    mach, kern = setup(path, cfg)
    where = os.path.dirname(os.path.abspath(path))
    if prod in ('header', 'code', 'main'):
        if prod == 'header':
            name, lock = kern.get_kernel_header()
            if not os.path.isabs(name) and not os.path.exists(name):
                name = kern.get_intermediate_location(
                    name, machine_and_compiler_dependent=False,
                    other_dependencies=kern._get_code_dependencies()) if hasattr(kern, '_get_code_dependencies') else None
        elif prod == 'code':
            name, lock = kern.get_kernel_code(openmp=cfg['openmp'])
        else:
            name, lock = kern.get_main_code()
        text = open(name).read() if name else None
        lock.close()
        return text
    if prod in ('lc', 'csim'):
        P = cacheprediction.LayerConditionPredictor if prod == 'lc' else cacheprediction.CacheSimulationPredictor
        p = P(kern, mach, cores=cfg['cores'])
        return repr([p.get_loads(), p.get_hits(), p.get_misses(), p.get_stores(), p.get_evicts()])
    if prod in ('asm', 'obj'):
        name, lock = kern.compile_kernel(assembly=prod == 'asm', openmp=cfg['openmp'])
        text = dump(name) if prod == 'obj' else open(name).read()
        lock.close()
        return text
    if prod == 'exe':
        inc = os.path.join(where, 'inc')
        os.makedirs(inc, exist_ok=True)
        if not os.path.exists(os.path.join(inc, 'likwid.h')):
            with open(os.path.join(inc, 'likwid.h'), 'w') as f:
                f.write(''.join('#define likwid_marker%s\n' % x for x in
                                ('Init()', 'Close()', 'RegisterRegion(x)', 'StartRegion(x)', 'StopRegion(x)')))
        os.environ.update({'LIKWID_INCLUDE': '-I' + inc, 'LIKWID_LIB': ''})
        try:
            name, lock = kern.build_executable(openmp=cfg['openmp'])
        finally:
            del os.environ['LIKWID_INCLUDE'], os.environ['LIKWID_LIB']
        text = dump(name)
        lock.close()
        return text
    model = {'incore': 'OSACA', 'mca': 'LLVM-MCA', 'iaca': 'IACA'}[prod]
    fast_osaca()
    saved = incore_model.llvm_mca_analyse_instrumented_assembly, incore_model.iaca_analyse_instrumented_binary
    incore_model.llvm_mca_analyse_instrumented_assembly = \
        lambda f, m, *a, **k: {'llvm-mca': m, 'asm': open(f).read()}
    incore_model.iaca_analyse_instrumented_binary = lambda f, m, *a, **k: {'iaca': m, 'obj': dump(f)}
    try:
        a, inc = kern.incore_analysis(asm_block=cfg['block'], pointer_increment=cfg['inc'], model=model)
    finally:
        incore_model.llvm_mca_analyse_instrumented_assembly, incore_model.iaca_analyse_instrumented_binary = saved
    a = {k: v for k, v in a.items() if k != 'output'}
    return re.sub(re.escape(where) + r'[^\s\'"]*', '<path>', repr([sorted(a.items(), key=str), inc, kern.pointer_increment]))


def dump(name):
    import subprocess
    t = subprocess.check_output(['objdump', '-d', '-s', '-j', '.text', name]).decode('utf8', 'replace')
    return '\n'.join(t.split('\n')[3:])


_CLEAN = {}


def fresh_product(prod, cfg, work):
    import os
    import shutil
    key = repr((prod, sorted(cfg.items())))
    if key not in _CLEAN:
        d = os.path.join(work, 'clean')
        os.makedirs(d)
        try:
            _CLEAN[key] = product(prod, os.path.join(d, 'kernel.c'), cfg)
        finally:
            shutil.rmtree(d)
    return _CLEAN[key]


def blocked(path, mode):
    """Would another process have to wait for a lock of this mode?"""
    import fcntl
    with open(path + '.lock', 'r') as f:
        try:
            REAL_FLOCK(f, mode | fcntl.LOCK_NB)
        except BlockingIOError:
            return True
        REAL_FLOCK(f, fcntl.LOCK_UN)
    return False


REAL_FLOCK = None


def holds(path, lock_mode):
    import fcntl
    if lock_mode == fcntl.LOCK_SH:
        return not blocked(path, fcntl.LOCK_SH) and blocked(path, fcntl.LOCK_EX)
    return blocked(path, fcntl.LOCK_SH)


def prog_time():
    import os
    import kerncraft
    t = 0
    for r, ds, fs in os.walk(os.path.dirname(kerncraft.__file__)):
        for f in fs:
            try:
                t = max(t, os.stat(os.path.join(r, f)).st_mtime)
            except OSError:
                pass
    return t


def lock_kernel(d, t_kernel=None, t_machine=None):
    """Kernel whose kernel and machine file have the given ages."""
    import os
    import kerncraft
    from .common import machine
    from kerncraft.kernel import KernelCode
    path = os.path.join(d, 'kernel.c')
    with open(path, 'w') as f:
        f.write(KERNELS['copy'][0])
    mpath = os.path.join(d, 'machine.yml')
    with open(mpath, 'w') as f:
        f.write('x: 1\n')
    mach = machine()
    mach._path = mpath
    kern = KernelCode(KERNELS['copy'][0], mach, filename=path)
    P = int(prog_time())
    os.utime(path, (P - 50, P - 50 if t_kernel is None else t_kernel))
    os.utime(mpath, (P - 50, P - 50 if t_machine is None else t_machine))
    return kern, path, mpath, P


def set_state(path, st, P):
    import os
    if st == 'missing':
        if os.path.exists(path):
            os.unlink(path)
        return
    if not os.path.exists(path):
        with open(path, 'w') as f:
            f.write('x')
    t = P + 1000 if st == 'fresh' else P - 1000
    os.utime(path, (t, t))


def check(c):
    import fcntl
    import os
    import shutil
    import tempfile
    global REAL_FLOCK
    if REAL_FLOCK is None:
        REAL_FLOCK = fcntl.flock
    work = tempfile.mkdtemp(prefix='c20-', dir=os.getcwd())
    try:
        return globals()['check_' + c['k']](c, work)
    finally:
        fcntl.flock = REAL_FLOCK
        shutil.rmtree(work, ignore_errors=True)


def check_lock(c, work):
    import contextlib
    import fcntl
    import io
    import os
    kern, path, mpath, P = lock_kernel(work)
    target = os.path.join(work, 'thing')
    states = list(c['states'])
    st = {'held': None, 'i': 0, 'calls': 0}
    set_state(target, states[0], P)

    def flock(fp, mode):
        st['calls'] += 1
        if st['calls'] > 50:
            raise RuntimeError('endless locking')
        if c['fail']:
            raise OSError('no locks here')
        if st['held'] != fcntl.LOCK_EX and not mode & fcntl.LOCK_UN:
            # another process may have held the exclusive lock while we waited
            if st['held'] is None:
                set_state(target, states[min(st['i'], 2)], P)
                st['i'] += 1
        REAL_FLOCK(fp, mode)
        st['held'] = None if mode & fcntl.LOCK_UN else mode & ~fcntl.LOCK_NB
    fcntl.flock = flock
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            mode, fp = kern.lock_intermediate(target)
    except OSError:
        if c['fail']:
            return None
        raise
    finally:
        fcntl.flock = REAL_FLOCK
    try:
        usable = os.path.exists(target) and os.stat(target).st_mtime > P
        if c['fail']:
            return None if mode == fcntl.LOCK_EX else 'without locks the caller may not be told to read'
        if mode == fcntl.LOCK_SH:
            if not usable:
                return 'told to read a file which is %s' % states[min(st['i'] - 1, 2)]
            if not holds(target, fcntl.LOCK_SH):
                return 'told to read without holding a shared lock'
        elif mode == fcntl.LOCK_EX:
            if usable:
                return 'told to write although the file is up to date'
            if not holds(target, fcntl.LOCK_EX):
                return 'told to write without holding the exclusive lock'
            set_state(target, 'fresh', P)
            with open(target + '.lock') as other:
                def steal(f, mode):
                    # a waiting writer gets the lock as soon as it is free
                    r = REAL_FLOCK(f, mode)
                    try:
                        REAL_FLOCK(other, fcntl.LOCK_EX | fcntl.LOCK_NB)
                    except BlockingIOError:
                        pass
                    return r
                fcntl.flock = steal
                try:
                    kern.release_exclusive_lock(fp)
                finally:
                    fcntl.flock = REAL_FLOCK
                if not holds(target, fcntl.LOCK_SH):
                    return 'after downgrading the shared lock is not held'
        else:
            return 'unknown lock mode %r' % (mode,)
    finally:
        fp.close()
    if blocked(target, fcntl.LOCK_EX):
        return 'closing the lock file does not release the lock'
    if os.path.exists(target) and open(target).read() != 'x':
        return 'locking changes the intermediate'
    return None


def check_fresh(c, work):
    import fcntl
    import os
    import time
    old = os.environ.get('TZ')
    if c.get('tz'):
        os.environ['TZ'] = c['tz']
        time.tzset()
    try:
        P = int(prog_time()) + 1
        dk, dm, dp = [x * c['unit'] for x in c['d']]
        P0 = prog_time()
        # age of the intermediate relative to kernel, machine file and program
        t = P0 + (dp if dp else 0)
        kern, path, mpath, _ = lock_kernel(work, t - dk, t - dm)
        target = os.path.join(work, 'thing')
        with open(target, 'w') as f:
            f.write('x')
        os.utime(target, (t, t))
        t = os.stat(target).st_mtime
        exp = t > os.stat(path).st_mtime and t > os.stat(mpath).st_mtime and t > prog_time()
        mode, fp = kern.lock_intermediate(target)
        fp.close()
        if (mode == fcntl.LOCK_SH) != exp:
            return 'file with age differences %r s to kernel, machine file and program: told to %s' % (
                c['d'], 'read' if mode == fcntl.LOCK_SH else 'write')
    finally:
        if c.get('tz'):
            if old is None:
                del os.environ['TZ']
            else:
                os.environ['TZ'] = old
            time.tzset()
    return None


def check_block(c, work):
    import fcntl
    import os
    import threading
    import time
    kern, path, mpath, P = lock_kernel(work)
    target = os.path.join(work, 'thing')
    mode, fp = kern.lock_intermediate(target)
    if mode != fcntl.LOCK_EX:
        return 'told to read a missing file'
    got = []

    def other():
        got.append(kern.lock_intermediate(target))
    t = threading.Thread(target=other, daemon=True)
    t.start()
    time.sleep(.15)
    if got:
        return 'a second process got its lock while the first one held the exclusive lock'
    if c['other'] == 'write':
        set_state(target, 'fresh', P)
        kern.release_exclusive_lock(fp)
        exp = fcntl.LOCK_SH
    else:
        exp = fcntl.LOCK_EX
    if c['other'] == 'write':
        t.join(.15)
    fp.close()
    t.join(5)
    if not got:
        return 'the second process never gets its lock'
    mode2, fp2 = got[0]
    try:
        if mode2 != exp:
            return 'second process was told to %s' % ('read' if mode2 == fcntl.LOCK_SH else 'write')
        if not holds(target, exp):
            return 'second process does not hold its lock'
    finally:
        fp2.close()
    return None


def check_race(c, work):
    """Protocol-abiding threads: writers are alone, readers see complete content."""
    import fcntl
    import os
    import random
    import threading
    import time
    kern, path, mpath, P = lock_kernel(work)
    target = os.path.join(work, 'thing')
    errs, state = [], {'w': 0, 'r': 0}
    guard = threading.Lock()
    rng = random.Random(c['seed'])
    delays = [rng.random() * .02 for _ in range(64)]

    def run(n):
        try:
            for rep in range(3):
                time.sleep(delays[(n * 7 + rep) % 64])
                mode, fp = kern.lock_intermediate(target)
                if mode == fcntl.LOCK_EX:
                    with guard:
                        if state['w'] or state['r']:
                            errs.append('a writer is not alone')
                        state['w'] += 1
                    with open(target, 'w') as f:
                        f.write('par')
                        f.flush()
                        time.sleep(delays[(n * 11 + rep) % 64])
                        f.write('tial')
                    t = P + 1000
                    os.utime(target, (t, t))
                    with guard:
                        state['w'] -= 1
                    kern.release_exclusive_lock(fp)
                    fp.close()
                else:
                    with guard:
                        if state['w']:
                            errs.append('a reader overlaps with a writer')
                        state['r'] += 1
                    if open(target).read() != 'partial':
                        errs.append('a reader sees incomplete content')
                    with guard:
                        state['r'] -= 1
                    fp.close()
                if rep == 1 and n == 0:
                    # the file becomes outdated, as seen by a writer holding the lock
                    with open(target + '.lock', 'w') as f:
                        REAL_FLOCK(f, fcntl.LOCK_EX)
                        os.unlink(target)
        except Exception as e:
            errs.append(repr(e))
    ts = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(c['n'])]
    for t in ts:
        t.start()
    for t in ts:
        t.join(20)
    if any(t.is_alive() for t in ts):
        return 'deadlock'
    return errs[0] if errs else None


NAMES = ('kernel.h', 'kernel.c', 'kernel-omp.c', 'main.c', 'LC_analysis.pickle.lzma', 'CSIM_analysis.pickle.lzma',
         'incore_analysis.pickle.lzma', 'kernel-marked.s', 'kernel-marked.o', 'kernel.s', 'kernel.o', 'kernel-omp.o', 'kernel')


def check_held(c, work):
    """Intermediates are written under the exclusive lock and read under a lock."""
    import builtins
    import fcntl
    import os
    import subprocess
    errs = []
    real_open, real_sub = builtins.open, subprocess.check_output

    def ours(p):
        return isinstance(p, str) and os.path.basename(p) in NAMES and '_kerncraft' in p

    def look(p, mode):
        if not os.path.exists(p + '.lock'):
            errs.append('%s is used without a lock' % os.path.basename(p))
            return
        with real_open(p + '.lock') as f:
            try:
                REAL_FLOCK(f, mode | fcntl.LOCK_NB)
            except BlockingIOError:
                return
            REAL_FLOCK(f, fcntl.LOCK_UN)
        errs.append('%s is %s without holding the %s lock' % (
            (os.path.basename(p),) + (('written', 'exclusive') if mode == fcntl.LOCK_SH else ('read', 'shared'))))

    def vopen(file, mode='r', *a, **k):
        if ours(file):
            look(file, fcntl.LOCK_SH if set(mode) & set('wax+') else fcntl.LOCK_EX)
        return real_open(file, mode, *a, **k)

    def vsub(cmd, *a, **k):
        if isinstance(cmd, (list, tuple)) and '-o' in cmd:
            out = cmd[list(cmd).index('-o') + 1]
            ins = [x for x in cmd if ours(x) and x != out]
            if ours(out):
                look(out, fcntl.LOCK_SH)
            for x in ins:
                look(x, fcntl.LOCK_EX)
            r = real_sub(cmd, *a, **k)
            if ours(out):
                look(out, fcntl.LOCK_SH)
            for x in ins:
                look(x, fcntl.LOCK_EX)
            return r
        return real_sub(cmd, *a, **k)
    cfg = {'kernel': 'triad', 'cl': 64, 'cores': 1, 'flags': '-O2', 'openmp': False, 'block': 'auto', 'inc': 'auto',
           'param': 'SNB', 'consts': 0, 'clock': 2, 'mach': False, 'extra': 0}
    path = os.path.join(work, 'kernel.c')
    setup(path, cfg)
    real_dump = globals()['dump']
    builtins.open, subprocess.check_output = vopen, vsub
    globals()['dump'] = lambda name: ''
    try:
        a = product(c['prod'], path, cfg)
        b = product(c['prod'], path, cfg)
    finally:
        builtins.open, subprocess.check_output = real_open, real_sub
        globals()['dump'] = real_dump
    return errs[0] if errs else None


def check_loc(c, work):
    import os
    import itertools
    kern, path, _, _ = lock_kernel(work)
    loc = lambda d: os.path.realpath(kern.get_intermediate_location(
        'thing', machine_and_compiler_dependent=False, other_dependencies=d))
    before = list(c['a'])
    la, lb, la2 = loc(c['a']), loc(c['b']), loc(c['a'])
    if c['a'] != before:
        return 'the list of dependencies is changed'
    if la != la2:
        return 'the same dependencies give %r and %r' % (la, la2)
    same = [str(x) for x in c['a']] == [str(x) for x in c['b']]
    if (la == lb) != same:
        return 'dependencies %r and %r %s' % (c['a'], c['b'], 'share a location' if la == lb else 'have two locations')
    for l in (la, lb):
        if not l.startswith(os.path.realpath(work) + os.sep) or os.path.basename(l) != 'thing':
            return 'location %r is outside of the directory of the kernel' % l
        if not os.path.isdir(os.path.dirname(l)):
            return 'the directory of the location does not exist'
    return None


def check_mloc(c, work):
    import os
    from .common import machine_dict, Args
    from kerncraft.kernel import KernelCode
    from kerncraft.machinemodel import MachineModel
    path = os.path.join(work, 'kernel.c')
    with open(path, 'w') as f:
        f.write(KERNELS['copy'][0])
    out = []
    for flags, cl, clock, how in (c['a'], c['b']):
        md = machine_dict(cl=cl, clock=clock * 1e9)
        mach = MachineModel(machine_yaml=md, args=Args(compiler=[None, 'gcc', 'clang'][how], compiler_flags=flags))
        kern = KernelCode(KERNELS['copy'][0], mach, filename=path)
        try:
            comp = mach.get_compiler()
        except (RuntimeError, KeyError, SystemExit):
            return None
        out.append((comp[0], list(comp[1]), cl, clock,
                    os.path.realpath(kern.get_intermediate_location('thing', other_dependencies=['z']))))
        if comp[1] != list(mach.get_compiler()[1]):
            return 'compiler flags change from %r to %r' % (comp[1], mach.get_compiler()[1])
    a, b = out
    if (a[4] == b[4]) != (a[:4] == b[:4]):
        return 'compiler, flags, cache line and clock %r and %r %s' % (
            a[:4], b[:4], 'share a location' if a[4] == b[4] else 'have two locations')
    return None


def check_clean(c, work):
    """Without a file name nothing is shared at all."""
    from .common import kernel_code
    k = kernel_code(KERNELS['copy'][0])
    import os
    import shutil
    ps = []
    try:
        for _ in range(2):
            ps.append(os.path.realpath(k.get_intermediate_location('thing')))
            ps.append(os.path.realpath(k.get_intermediate_location('thing', machine_and_compiler_dependent=False)))
    finally:
        for p in ps:
            d = p
            while os.path.basename(os.path.dirname(d)) not in ('tmp', '') and os.path.dirname(d) != os.environ.get('TMPDIR'):
                d = os.path.dirname(d)
            if os.path.basename(d).startswith('tmp'):
                shutil.rmtree(d, ignore_errors=True)
    return None if len(set(ps)) == 4 else 'unnamed kernels share a location'


def check_models(c, work):
    """Analyses by several in-core models and parameters in one directory."""
    import os
    cfg = {'kernel': 'triad', 'cl': 64, 'cores': 1, 'flags': '-O2', 'openmp': False, 'block': 'auto', 'inc': 'auto',
           'param': 'SNB', 'consts': 0, 'clock': 2, 'mach': False, 'extra': 0}
    path = os.path.join(work, 'kernel.c')
    for prod in ('incore', 'mca', 'iaca', 'incore', 'mca'):
        for p in ('SNB', 'HSW'):
            x = dict(cfg, param=p)
            got, exp = product(prod, path, x), fresh_product(prod, x, work)
            if got != exp:
                return '%s with %s after other models gives %.300r instead of %.300r' % (prod, p, got, exp)
    return None


def check_hist(c, work):
    import os
    d = os.path.join(work, 'shared')
    os.makedirs(d)
    path = os.path.join(d, 'kernel.c')
    for i, cfg in enumerate(c['seq']):
        exp = fresh_product(c['prod'], cfg, work)
        got = product(c['prod'], path, cfg)
        if got != exp:
            diff = [k for k in cfg if i and cfg[k] != c['seq'][i - 1][k]]
            return '%s differs from that of a clean directory after %s changed: %s' % (
                c['prod'], ', '.join(diff) or 'nothing', short(got, exp))
    return None


def short(a, b):
    a, b = str(a), str(b)
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return '%r instead of %r' % (a[max(0, i - 30):i + 60], b[max(0, i - 30):i + 60])


# ------------------------------------------------------------------ proofs
def proof_lock(S):
    """lock_intermediate/release_exclusive_lock: every schedule, against the contract of _check_freshness."""
    from engine import instr
    m = instr.load('kerncraft/kernel.py')

    class Fcntl(object):
        LOCK_SH, LOCK_EX, LOCK_NB, LOCK_UN = 1, 2, 4, 8

        def __init__(self, S, locks_work):
            self.S, self.held, self.epoch, self.works, self.calls = S, None, 0, locks_work, 0

        def flock(self, fp, mode):
            self.calls += 1
            self.S.check('locking ends', self.calls < 20)
            self.S.check('only the own lock file is locked', isinstance(fp, File) and fp.name is LOCKNAME and not fp.closed)
            if not self.works:
                raise OSError('no locks')
            # without a lock, others may have replaced, outdated or removed the file any number of times
            if self.held is None and mode != self.LOCK_UN:
                self.epoch += 1
            self.held = None if mode == self.LOCK_UN else mode

    class File(object):
        def __init__(self, name):
            self.name, self.closed = name, False

        def close(self):
            self.closed = True
            fc[0].held = None
    fc = [None]

    class Name(str):
        def __add__(self, o):
            return LOCKNAME if o == '.lock' else Name(str(self) + o)
    FILE, LOCKNAME = Name('file'), Name('file.lock')
    m.__dict__['__builtins__']['open'] = lambda name, mode='r', *a, **k: File(name)
    K = m.KernelCode

    def fresh(self, path):
        S.check('freshness is asked about the intermediate', path is FILE)
        return S.bool('fresh_%d' % fc[0].epoch)
    K._check_freshness = fresh

    def go(S):
        works = S.pick([True, False])
        m.fcntl = fc[0] = Fcntl(S, works)
        k = object.__new__(K)
        try:
            mode, fp = k.lock_intermediate(FILE)
        except OSError:
            S.check('only failing locks raise', not works)
            return
        f = fc[0]
        S.check('the lock file is returned open', isinstance(fp, File) and not fp.closed)
        S.check('the mode is shared or exclusive', mode in (1, 2))
        if not works:
            S.check('without locks the caller is told to write', mode == 2)
            return
        S.check('the lock held is the one returned', f.held == mode)
        now = S.bool('fresh_%d' % f.epoch)
        if mode == 1:
            S.check('told to read: the file is fresh under the lock', now)
        else:
            S.check('told to write: the file is not fresh under the lock', ~now)
            k.release_exclusive_lock(fp)
            S.check('downgrading leaves a shared lock', f.held == 1 and not fp.closed)
    S.run(go, 'lock_intermediate')


def proof_fresh(S):
    """_check_freshness: all times."""
    from engine import instr
    m = instr.load('kerncraft/kernel.py')

    def go(S):
        exists = S.bool('exists')
        T = {'file': S.real('t_file'), 'kernel': S.real('t_kernel')}
        tm, tp = S.real('t_machine'), S.real('t_program')

        class Stat(object):
            def __init__(self, t):
                self.st_mtime = t

        class Path(object):
            def isfile(self, p):
                return self.exists(p)

            def getmtime(self, p):
                return T[p]

            def exists(self, p):
                S.check('existence is asked about the intermediate', p == 'file')
                return exists

        class Os(object):
            path = Path()

            def stat(self, p):
                if p == 'file':
                    S.check('only existing files are inspected', exists)
                return Stat(T[p])

        class Dt(object):
            def utcfromtimestamp(self, t):
                return t

        class Mach(object):
            def get_last_modified_datetime(self):
                return tm

        class Prog(object):
            def get_last_modified_datetime(self):
                return tp
        m.os, m.datetime, m.kerncraft = Os(), Dt(), Prog()
        k = object.__new__(m.KernelCode)
        k._filename, k._machine = 'kernel', Mach()
        r = k._check_freshness('file')
        want = exists & (T['file'] > tm) & (T['file'] > tp) & (T['file'] > T['kernel'])
        if r:
            S.check('fresh only if it exists and is newer than kernel, machine file and program', want)
        else:
            S.check('not fresh only if missing or as old as an input', ~want)
    S.run(go, '_check_freshness')


PROOFS = [('lock', proof_lock, ['KernelCode.lock_intermediate', 'KernelCode.release_exclusive_lock']),
          ('fresh', proof_fresh, ['KernelCode._check_freshness'])]
