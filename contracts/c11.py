"""C11: cache simulation."""
from . import kgen

ID = 'C11'
TITLE = 'cache simulation'
LEVEL = 'proof'
ASSUMPTIONS = ['address streams follow the layout of C06', 'rectangular iteration spaces',
               'alignment is decided where the leading stream is contiguous, ascends with the inner loop and meets a boundary within '
               'the current run of the inner loop', 'elements of one size, aligned to it; every cache holds at least one element',
               'alignment is proved for lines of 32 to 256 bytes and elements of 4, 8 and 16 bytes']
BOUNDED = ['CacheSimulationPredictor (simulate, alignment, getters, get_infos): generated kernels of up to 3 loops, 400000 iterations '
           'and cache hierarchies of one to three levels up to 512 KiB']
TRUSTED = ['pycachesim (simulation of the streams it is given)', 'numpy', 'sympy']
RULE = ('random kernels with contiguous, strided and revisited streams, random hierarchies and iteration counts below, around and far '
        'beyond the thresholds of the warm-up; every access given to the simulator is recorded and mapped to its iteration; '
        'non-trivial: the measured stretch starts after iteration 0')
SHARDS = 8
BUDGET = 150


def cases(rng, tier):
    for n in range(260 if tier == 'quick' else 6000):
        yield case(rng)


def case(rng):
    kind = rng.choice(['1d', '1d', '2d', '2d', '3d', 'revisit', 'readonly'])
    t = rng.choice(['double', 'double', 'float', 'double _Complex'])
    size = kgen.SIZES[t]
    st = rng.choice([1, 1, 1, 2, 4, 3])
    big = rng.choice([900, 4000, 20000, 99990, 100000, 100100, 120000, 180000, 260000, 390000])
    n = max(900, big + rng.randint(-40, 40))
    s = rng.choice([0, 0, 1, 2, 3, 5, 7, 8])
    loops = []
    if kind in ('1d', 'readonly'):
        loops = [['i', s, 'N', st]]
        consts = {'N': s + n * st - rng.choice([0, 0, st - 1])}
        dims = [['+', 'N', rng.choice([0, 3, 8])]]
    elif kind == '2d':
        a = rng.choice([40, 128, 200, 512, 700])
        b = max(5, n // a)
        loops = [['j', rng.choice([0, 1, 2]), 'M', 1], ['i', s, ['-', 'N', rng.choice([0, 1, 2])], st]]
        consts = {'M': b + 2, 'N': s + a * st}
        dims = [['+', 'M', 2], rng.choice(['N', 'N', ['+', 'N', rng.choice([1, 8, 64])]])]
    elif kind == '3d':
        a, b = rng.choice([(32, 20), (50, 50), (100, 10), (64, 64)])
        loops = [['k', 1, ['-', 'O', 1], 1], ['j', 1, ['-', 'M', 1], rng.choice([1, 1, 2])], ['i', s, 'N', st]]
        consts = {'O': max(4, n // (a * b)) + 2, 'M': b + 2, 'N': s + a * st}
        dims = ['O', 'M', ['+', 'N', 4]]
    else:
        a = rng.choice([16, 100, 700])
        loops = [['j', 0, 'M', 1], ['i', 0, 'N', st]]
        consts = {'M': n // a + 1, 'N': a * st}
        dims = ['N']
    idx = [l[0] for l in loops][-len(dims):]
    names = rng.sample(['a', 'b', 'c', 'u', 'w'], rng.choice([1, 2, 2, 3, 4]))
    pad = {x: rng.choice([0, 0, 1, 3, 8]) for x in names}
    arrays = {x: dims[:-1] + [['+', dims[-1], pad[x] + 4]] for x in names}

    def ref(x, o=0):
        ix = list(idx)
        q = rng.randrange(len(ix))
        lo = next(l[1] for l in loops if l[0] == ix[q])
        d = max(-lo, rng.choice([0, 0, 1, -1, 2])) if o else 0
        ix[q] = kgen.off(rng, ix[q], d)
        return [x] + ix
    rhs = ['ref'] + ref(rng.choice(names), 1)
    for _ in range(rng.choice([0, 1, 2, 3])):
        rhs = ['b', rng.choice('+*'), rhs, ['ref'] + ref(rng.choice(names), 1)]
    if kind == 'readonly':
        body = [{'l': ['s'], 'op': '+=', 'r': rhs}]
    else:
        body = [{'l': ref(rng.choice(names), rng.random() < .3), 'op': rng.choice(['=', '=', '+=']), 'r': rhs}]
        if rng.random() < .25:
            body.append({'l': ref(rng.choice(names), rng.random() < .3), 'op': '=', 'r': ['ref'] + ref(rng.choice(names))})
    k = {'type': t, 'arrays': arrays, 'scalars': ['s'], 'consts': consts, 'style': 0, 'body': body,
         'loops': [{'i': i, 's': a, 'e': e, 'st': x, 'nx': '+=' if x > 1 else '++'} for i, a, e, x in loops]}
    cl = rng.choice([64, 64, 64, 32, 128])
    lv = rng.choice([1, 2, 2, 3, 3])
    hier = []
    sets, ways = rng.choice([1, 8, 16, 64]), rng.choice([1, 2, 4, 8])
    for q in range(lv):
        hier.append([sets, ways, rng.choice([1, 1, 4, 2]) if q == lv - 1 else 1])
        sets *= rng.choice([2, 4, 8])
        while sets * ways * cl > 1 << 19:
            sets //= 2
    cores = rng.choice([1, 1, 2, 4])
    for h in hier:
        h[0] = max(h[0], cores if h[2] > 1 else 1)
    return {'k': k, 'cl': cl, 'hier': hier, 'cores': cores, 'cached': rng.random() < .15, 'r': rng.randrange(1 << 30)}


def trivial(c):
    return False


def make_machine(c):
    from .common import machine, PU
    names = ['L%d' % (i + 1) for i in range(len(c['hier']))] + ['MEM']
    m = machine(levels=tuple(names), cl=c['cl'], shared={n: h[2] for n, h in zip(names, c['hier'])})
    for h, lv in zip(c['hier'], m['memory hierarchy']):
        lv['cache per group']['sets'], lv['cache per group']['ways'] = h[0], h[1]
        lv['cache per group']['cl_size'] = c['cl']
        lv['size per group'] = PU(float(h[0] * h[1] * c['cl']), 'B')
    return m


class Recorder(object):
    """The simulator, recording what it is given."""
    def __init__(self, sim):
        self.sim, self.log, self.direct = sim, [], False

    def __getattr__(self, n):
        if n in ('load', 'store', 'mark_all_invalid'):
            self.direct = True
        return getattr(self.sim, n)

    def loadstore(self, addrs, length=1):
        addrs = addrs if hasattr(addrs, 'shape') else list(addrs)
        self.log.append(('rows', addrs, length))
        return self.sim.loadstore(addrs, length=length)

    def reset_stats(self):
        self.log.append(('reset',))
        return self.sim.reset_stats()


def stats_close(a, b):
    from .common import close
    return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))


def check(c):
    import os
    import random
    import numpy
    from kerncraft.cacheprediction import CacheSimulationPredictor
    from .common import kernel_code
    k, cl = c['k'], c['cl']
    rng = random.Random(c['r'])
    size = kgen.SIZES[k['type']]
    where = '\nfor %r on caches %r of %d bytes per line with %d cores\n%s' % (k['consts'], c['hier'], cl, c['cores'], kgen.text(k))
    mach = make_machine(c)
    if c['cached']:
        with open('m.yml', 'w') as f:
            f.write('x')
        with open('k.c', 'w') as f:
            f.write(kgen.text(k))
        os.utime('m.yml', (1000, 1000))
        os.utime('k.c', (1000, 1000))
        mach._path = os.path.abspath('m.yml')
    kc = kernel_code(kgen.text(k), mach, os.path.abspath('k.c') if c['cached'] else None, **k['consts'])
    total = 1
    for l in k['loops']:
        total *= max(0, -(-(kgen.ev(l['e'], k['consts']) - l['s']) // l['st']))
    real = mach.get_cachesim
    recs, asked = [], []

    def get(cores=1):
        asked.append(cores)
        recs.append(Recorder(real(cores)))
        return recs[-1]
    mach.get_cachesim = get
    small = total < 1200
    try:
        p = CacheSimulationPredictor(kc, mach, c['cores'])
    except (AssertionError, ValueError, ZeroDivisionError, IndexError):
        if small:
            return None
        raise
    if not recs:
        return 'no simulation took place' + where if not c['cached'] else None
    rec = recs[-1]
    if any(a != c['cores'] for a in asked):
        return 'the simulator was built for %r cores' % asked + where
    # the kernel's stream; distinct iterations of loops which move no stream have equal rows
    full = kc.compile_global_offsets(iteration=range(total))
    cat = numpy.concatenate([full['load'].reshape(total, -1), full['store'].reshape(total, -1)], axis=1)
    warm, meas, cur = [], None, []
    for e in rec.log:
        if e[0] == 'reset':
            warm += cur
            cur, meas = [], True
        elif len(e[1]):
            if e[2] != size:
                return 'the simulator was given accesses of %r bytes, elements have %d' % (e[2], size) + where
            cur.append(e[1])
    if meas is None:
        return 'statistics are not reset between warm-up and measurement' + where
    if not cur:
        return 'nothing was measured' + where if not small else None
    nl, ns = full['load'].reshape(total, -1).shape[1], full['store'].reshape(total, -1).shape[1]

    def matrix(parts):
        out = []
        for a in parts:
            if hasattr(a, 'dtype') and a.dtype.names:
                out.append(numpy.concatenate([a['load'].reshape(len(a), -1), a['store'].reshape(len(a), -1)], axis=1))
            else:
                out.append(numpy.array([list(x or ()) + list(y or ()) for x, y in a]).reshape(len(a), nl + ns))
        return numpy.concatenate(out) if out else numpy.zeros((0, nl + ns), dtype='int64')
    if not rec.direct:
        w, m = matrix(warm), matrix(cur)
        pos = len(w)
        # the warm-up: consecutive from some iteration, possibly a complete sweep and on from the first iteration
        begin = None
        if pos == 0:
            begin = [i for i in range(total) if (cat[i] == m[0]).all()][:1]
            if not begin:
                return 'the measurement starts with accesses %r of no iteration' % (m[0].tolist(),) + where
            start = begin[0]
        else:
            n1 = min(pos, total)
            if pos > 2 * total or not (w[:n1] == cat[:n1]).all():
                bad = int(numpy.argmax((w[:n1] != cat[:n1]).any(axis=1)))
                return 'warm-up does not visit iterations in order: its access %d is %r, iteration %d makes %r' % (
                    bad, w[bad].tolist(), bad, cat[bad].tolist()) + where
            if pos > total and not (w[total:] == cat[:pos - total]).all():
                return 'after the last iteration the warm-up does not continue from the first one' + where
            start = pos % total
        end = start + len(m)
        if end > total:
            return 'measures iterations %d to %d of %d' % (start, end, total) + where
        if not (m == cat[start:end]).all():
            bad = int(numpy.argmax((m != cat[start:end]).any(axis=1)))
            hint = [i for i in range(total) if (cat[i] == m[0]).all()][:3] if bad == 0 else ''
            return 'measured access %d is %r, iteration %d (after a warm-up of %d) makes %r %s' % (
                bad, m[bad].tolist(), start + bad, pos, cat[start + bad].tolist(), hint) + where
        lead = full['store' if ns else 'load'].reshape(total, -1).min(axis=1)
        for what, it in (('starts', start), ('ends', end)):
            msg = aligned(k, lead, it, cl, size, total)
            if msg and not (what == 'ends' and small):
                return 'measurement %s at iteration %d, %s' % (what, it, msg) + where
    else:
        m = matrix(cur)
    length = len(matrix(cur))
    work = length * size * k['loops'][-1]['st'] / cl
    got = result(p)
    want = [dict(s) for s in rec.sim.stats()]
    names = [lv['level'] for lv in mach['memory hierarchy']]
    # an independent simulation of the same stream
    fresh = make_machine(c).get_cachesim(c['cores'])
    for e in warm:
        fresh.loadstore(e, length=size)
    fresh.reset_stats()
    for e in cur:
        fresh.loadstore(e, length=size)
    if [dict(s) for s in fresh.stats()] != want:
        return 'statistics %r differ from those of a fresh simulation of the same accesses, %r' % (
            want, [dict(s) for s in fresh.stats()]) + where
    by = {s['name']: s for s in want}
    msg = compare(got, by, names, work)
    if msg:
        return msg + ' (%d iterations measured)' % length + where
    if hasattr(p, '_align_iteration_with_cl_boundary') and hasattr(p, 'csim'):
        lead = full['store' if ns else 'load'].reshape(total, -1).min(axis=1)
        for _ in range(12):
            it = rng.randrange(total)
            for sub in (True, False):
                try:
                    r = p._align_iteration_with_cl_boundary(it, subtract=sub)
                except (TypeError, AttributeError):
                    break
                if not (0 <= r < total) or not linear(k, it, r, total):
                    continue
                msg = aligned(k, lead, r, cl, size, total)
                if msg is None and inside(k, lead, it, cl, size, total, sub):
                    if sub and r > it or not sub and r < it:
                        msg = 'in the wrong direction'
                    elif abs(r - it) * k['loops'][-1]['st'] >= cl // size and abs(r - it) > 1:
                        msg = 'past the closest boundary'
                if msg:
                    return 'iteration %d is aligned %s to %d, %s' % (it, 'down' if sub else 'up', r, msg) + where
    if c['cached']:
        n = len(recs)
        again = CacheSimulationPredictor(kernel_code(kgen.text(k), mach, os.path.abspath('k.c'), **k['consts']), mach, c['cores'])
        if result(again) != got:
            return 'results %r, kept as %r' % (got, result(again)) + where
        other = CacheSimulationPredictor(kernel_code(kgen.text(k), mach, os.path.abspath('k.c'), **dict(k['consts'], N=k['consts']['N'] - 1)),
                                         mach, c['cores'])
        if len(recs) == n:
            return 'results were kept for other constants' + where
        del other
    return None


def row(k, it, total):
    """number of an iteration within its run of the inner loop, and the length of the runs"""
    l = k['loops'][-1]
    n = -(-(kgen.ev(l['e'], k['consts']) - l['s']) // l['st'])
    return it % n, n


def linear(k, a, b, total):
    n = row(k, a, total)[1]
    return a // n == b // n


def inside(k, lead, it, cl, size, total, down):
    """a boundary lies within the run in the given direction"""
    x, n = row(k, it, total)
    lo = it - x
    seg = lead[lo:lo + n]
    return bool(((seg[:x + 1] if down else seg[x:]) % cl == 0).any())


def aligned(k, lead, it, cl, size, total):
    """None or why iteration it is not at a boundary although it could be"""
    if it >= total:
        return None
    st = k['loops'][-1]['st'] * size
    if cl % st:
        return None
    x, n = row(k, it, total)
    span = cl // st
    lo = it - x
    if x < span or x + span >= n:       # boundaries close to the ends may lie in another run
        return None
    seg = lead[lo:lo + n]
    import numpy
    if not (numpy.diff(seg) == st).all() or not (seg % cl == 0).any():
        return None
    if lead[it] % cl:
        return 'where the leading stream is at %d, %d bytes behind a cache line boundary' % (lead[it], lead[it] % cl)
    return None


def result(p):
    return {'loads': list(p.get_loads()), 'hits': list(p.get_hits()), 'misses': list(p.get_misses()),
            'stores': list(p.get_stores()), 'evicts': list(p.get_evicts()), 'infos': p.get_infos()}


def compare(got, by, names, work):
    from .common import close
    for g, f in (('loads', 'LOAD'), ('hits', 'HIT'), ('misses', 'MISS'), ('stores', 'STORE'), ('evicts', 'EVICT')):
        want = [by[n][f + '_count'] / work for n in names]
        if not stats_close(got[g], want):
            return '%s per cache line are %r, the simulator counted %r in %r cache lines, %r' % (
                g, got[g], [by[n][f + '_count'] for n in names], work, want)
    i = got['infos']
    if not close(i['cachelines in stats'], work):
        return '%r cache lines of work are reported instead of %r' % (i['cachelines in stats'], work)
    if [e['level'] for e in i['memory hierarchy']] != names or [e['index'] for e in i['memory hierarchy']] != list(range(len(names))):
        return 'information on levels %r' % [e['level'] for e in i['memory hierarchy']]
    for e, n in zip(i['memory hierarchy'], names):
        for f, label in (('LOAD', 'load'), ('MISS', 'misses'), ('HIT', 'hits'), ('STORE', 'stores'), ('EVICT', 'evicts')):
            a = e['total loads' if label == 'load' else 'total ' + label]
            b = e['total lines ' + label]
            if not close(a, by[n][f + '_byte'] / work) or not close(b, by[n][f + '_count'] / work):
                return 'information %r (bytes) and %r (lines) of %s %s, counted %r in %r cache lines' % (a, b, n, label, by[n], work)
    return None


# ------------------------------------------------------------------ proofs
class _Sim(object):
    """Cache simulator: counters are known by the stretch they cover.

    Ghost state: the iteration after the last one simulated, whether the counters were reset and the stretch since then."""
    __shadow__ = True

    def __init__(self, S, sizes, n_iterations, element_size):
        self.pos, self.reset, self.lo, self.runs = 0, False, 0, 0
        self._S, self._sizes, self._max, self._es = S, sizes, n_iterations, element_size

    def levels(self, with_mem=True):
        from .stubs import Plain
        self._S.check('the capacity does not include memory', with_mem is False)
        from engine.cont import VList
        from engine.core import mk, sint
        return VList.sym(sint(self._sizes[0]), lambda i: Plain(size=lambda: mk(self._sizes[1](sint(i)), 'int')))

    def count_invalid_entries(self):
        from engine.core import ctx, mk
        t = ctx().fresh('invalid')
        ctx().assume(t >= 0)
        return mk(t, 'int')

    def loadstore(self, offsets, length=1):
        from engine.core import sint
        import z3
        S = self._S
        S.check('elements have the size of the data type', length == self._es)
        a, b = offsets.a, offsets.b
        S.check('simulated iterations are in order', (a <= b) & (a >= 0) & (b <= self._max))
        if self.reset:
            S.check('one measured stretch', self.runs == 0)
            S.check('the measured stretch follows the warm-up',
                    z3.Or(sint(a) == sint(self.pos), z3.And(sint(a) == 0, sint(self.pos) == sint(self._max))))
            self.lo, self.runs = a, self.runs + 1
        else:
            S.check('warm-up iterations follow each other',
                    z3.Or(sint(a) == sint(self.pos), z3.And(sint(a) == 0, sint(self.pos) == sint(self._max))))
        self.pos = b

    def reset_stats(self):
        self._S.check('counters are reset once', bool(self.reset is False))
        self.reset = True

    def stats(self):
        self._S.check('the counters cover one measured stretch', (self.runs == 1) & self.reset)
        return ['counters']

    def print_stats(self, file=None):
        file.write('text')


class _Offsets(object):
    def __init__(self, a, b):
        self.a, self.b = a, b


def proof_simulate(S):
    """CacheSimulationPredictor.simulate: any cache sizes, simulator behaviour, iteration count and element size."""
    import z3
    from engine import instr
    from engine.core import sint, sreal, mk, ctx, zb
    from .stubs import Q, Plain, pos_int, bi
    S.cut_hints.append('simulate')
    S.flags = True
    S.feas_timeout = 300
    I = z3.IntSort()

    def slot(leaves, *names):
        r = []
        for n in names:
            f = [lk for lk in leaves if lk[0][-1] == n]
            if len(f) != 1:
                return None
            r.append(f[0])
        return r

    def templates(L, leaves, opened):
        top = sint(limit[0])
        c = []
        ints = [lk for lk in leaves if leaves[lk][3] == 'int']
        pos = [lk for lk in ints if lk[0][-1] == 'pos']
        # a counter of the function equals the position of the simulator, lies in the iteration space
        for p in pos:
            c.append(('position in the iteration space', lambda k, lv, p=p: z3.And(sint(lv[p]) >= 0, sint(lv[p]) <= top)))
            for v in ints:
                if v != p and v[0][0] == 'v':
                    c.append(('%s is the position' % v[0][1], lambda k, lv, v=v, p=p: sint(lv[v]) == sint(lv[p])))
            for b in leaves:
                if leaves[b][3] == 'bool' and b[0][0] == 'v':
                    c.append(('%s: everything simulated' % b[0][1],
                              lambda k, lv, b=b, p=p: zb(lv[b]) == (sint(lv[p]) == top)))
        return c
    S.templates.append(templates)
    limit = [None]

    def go(S):
        m = instr.load('kerncraft/cacheprediction.py')
        es = S.pick([4, 8, 16])
        inc, bpi, epl = pos_int(S, 'increment'), pos_int(S, 'bytes_per_iteration'), pos_int(S, 'elements_per_line')
        n, levels, cores = pos_int(S, 'iterations'), pos_int(S, 'levels'), pos_int(S, 'cores')
        limit[0] = n
        cl = epl * es
        size = S.func('size', I, I)
        q = z3.Int('lq')
        ctx().assume(z3.ForAll([q], size(q) >= es))
        real_sum = bi(m, 'sum')

        def total(*a):
            # a sum of at least one number, each at least es, is at least es
            r = real_sum(*a)
            S.assume(r >= es)
            return r
        m.__dict__['__builtins__']['sum'] = total
        m.symbol_pos_int = lambda x: x
        m.sympy = Plain(Integer=lambda x: x.bv if isinstance(x, Q) else x)
        m.StringIO = lambda: Plain(write=lambda t: None, getvalue=lambda: 'text', close=lambda: None)
        sim = _Sim(S, (levels, size), n, es)

        class Refused(Exception):
            pass

        class Kern(object):
            datatypes_size, datatype, bytes_per_iteration = {'double': es}, 'double', bpi

            def get_loop_stack(self, subs_consts=False):
                S.check('loops with constants', subs_consts is True)
                return [{'index': 'j', 'increment': pos_int(S, 'outer_increment'), 'start': 0, 'stop': n},
                        {'index': 'i', 'increment': inc, 'start': 0, 'stop': n}]

            def iteration_length(self, dimension=None):
                S.check('all loops', bool(dimension is None))
                return 'total'

            def subs_consts(self, x):
                assert x == 'total'
                return n

            def compile_global_offsets(self, iteration=0, spacing=0):
                S.check('the layout of the kernel', spacing == 0)
                if isinstance(iteration, range):
                    a, b, st = iteration.start, iteration.stop, iteration.step
                else:
                    a, b, st = iteration.start, iteration.stop, iteration.step
                S.check('every iteration', st == 1)
                if not bool((a >= 0) & (a < b) & (b <= n)):
                    raise Refused
                return _Offsets(a, b)

        class Mach(object):
            def get_cachesim(self, c):
                S.check('simulator of the cores asked for', c == cores)
                return sim

            def __getitem__(self, k):
                return {'cacheline size': Q.of(cl, 'B')}[k]
        o = object.__new__(m.CacheSimulationPredictor)
        o.kernel, o.machine, o.cores = Kern(), Mach(), cores
        aligned = []

        def align(iteration, subtract=True):
            # contract of _align_iteration_with_cl_boundary
            if not bool((iteration >= 0) & (iteration < n)):
                raise Refused
            r, it = ctx().fresh('aligned'), sint(iteration)
            ctx().assume(z3.And(it - sint(epl) <= r, r <= it) if subtract else z3.And(it <= r, r <= it + sint(epl)))
            aligned.append(mk(r, 'int'))
            return mk(r, 'int')
        o._align_iteration_with_cl_boundary = align
        S.example[:] = [n == 100000, epl == 8, bpi == 8, inc == 1, levels == 1, cores == 1]
        try:
            o.simulate()
        except Refused:
            # only if less than two lines are left to measure
            S.check('long loops are not refused', (n <= 2 * epl + 2) | (epl > 1000))
            return
        S.check('counters of the measured stretch', bool(o.stats == ['counters']))
        S.check('measured once, after the reset', (sim.runs == 1) & sim.reset)
        lo, hi = sim.lo, sim.pos
        S.check('the stretch lies in the iteration space', (lo >= 0) & (lo < hi) & (hi <= n))
        S.check('the stretch starts and ends at aligned iterations', (lo == aligned[-2]) & (hi == aligned[-1]))
        S.check('cache lines of work in the stretch', z3.And(
            sreal(o.first_dim_factor) * sreal(cl) == sreal(hi - lo) * sreal(bpi)))
        S.check('the textual statistics', bool(o.pretty_stats == 'text'))
    S.run(go, 'simulate')


def proof_align(S):
    """_align_iteration_with_cl_boundary: any iteration, offsets and line sizes; the stream ascends with the loop."""
    import z3
    from engine import instr
    from engine.core import sint, mk, ctx
    from engine.cont import VList
    from .stubs import Q, Plain, pos_int, bi
    I = z3.IntSort()
    for es in (4, 8, 16):
        for subtract in (True, False):
            def go(S):
                m = instr.load('kerncraft/cacheprediction.py')
                inc, it = pos_int(S, 'increment'), S.int('iteration')
                bits = S.pick([5, 6, 7, 8])
                cl = 1 << bits
                rd, wr = S.func('load_offset', I, I), S.func('store_offset', I, I)
                q = z3.Int('oq')
                ctx().assume(z3.ForAll([q], z3.And(rd(q) >= 0, wr(q) >= 0)))
                S.assume(it >= 0)
                writes = S.pick([True, False])
                nr, nw = pos_int(S, 'loads'), pos_int(S, 'stores')
                loads = VList.sym(sint(nr), lambda i: mk(rd(sint(i)), 'int'))
                stores = VList.sym(sint(nw), lambda i: mk(wr(sint(i)), 'int')) if writes else VList([])

                class Kern(object):
                    datatypes_size, datatype = {'double': es}, 'double'

                    def get_loop_stack(self, subs_consts=False):
                        S.check('loops with constants', subs_consts is True)
                        return [{'index': 'j', 'increment': pos_int(S, 'outer_increment')}, {'index': 'i', 'increment': inc}]

                    def compile_global_offsets(self, iteration=0, spacing=0):
                        S.check('the offsets of this iteration', (iteration == it) & (spacing == 0))
                        return [(loads, stores)]
                o = object.__new__(m.CacheSimulationPredictor)
                o.kernel, o.machine = Kern(), {'cacheline size': Q.of(cl, 'B')}
                o.csim = Plain(first_level=Plain(cl_bits=bits))
                r = o._align_iteration_with_cl_boundary(it) if subtract and S.pick([True, False]) else \
                    o._align_iteration_with_cl_boundary(it, subtract=subtract)
                first = bi(m, 'min')(stores if writes else loads)
                S.assume(first % es == 0)
                # the leading stream advances by one element for each unit of the index
                step = inc * es
                new = first + (r - it) * step
                low = first // cl * cl
                S.check('whole iterations', bool(isinstance(r, int) or r.kind == 'int'))
                if subtract:
                    S.check('not later', r <= it)
                    S.check('the first iteration in the line', (new >= low) & (new - low < step))
                    S.check('less than a line away', it - r <= cl // es)
                else:
                    S.check('not earlier', r >= it)
                    if bool(first == low):
                        S.check('an aligned iteration stays', r == it)
                    else:
                        S.check('the last iteration up to the boundary', (new <= low + cl) & (low + cl - new < step))
                    S.check('less than a line away', r - it <= cl // es)
            S.run(go, 'align %s, elements of %d bytes' % ('down' if subtract else 'up', es))


def proof_getters(S):
    """get_loads, get_hits, get_misses, get_stores, get_evicts and get_infos: any number of levels and counters."""
    import z3
    from engine import instr
    from engine.core import SAtom, sint, mk
    from engine.cont import VList, VDict
    from .stubs import pos_int, pos_real
    I, R = z3.IntSort(), z3.RealSort()
    NAMES = ['LOAD', 'HIT', 'MISS', 'STORE', 'EVICT']

    def setup(S):
        m = instr.load('kerncraft/cacheprediction.py')
        n, f = pos_int(S, 'levels'), pos_real(S, 'lines_of_work')
        F = {a + '_' + b: S.func(a + '_' + b, I, I) for a in NAMES for b in ('count', 'byte')}
        lvl = S.func('level', I, I)
        o = object.__new__(m.CacheSimulationPredictor)
        o.stats = VList.sym(sint(n), lambda i: VDict([('name', SAtom(lvl(sint(i))))] + [
            (k, mk(v(sint(i)), 'int')) for k, v in F.items()]))
        o.machine = VDict([('memory hierarchy', VList.sym(sint(n), lambda i: VDict([('level', SAtom(lvl(sint(i))))])))])
        o.first_dim_factor, o.pretty_stats = f, 'text'
        j = S.int('j')
        S.assume((j >= 0) & (j < n))
        return o, n, f, F, lvl, j

    for name, what in zip(('get_loads', 'get_hits', 'get_misses', 'get_stores', 'get_evicts'), NAMES):
        def go(S):
            o, n, f, F, lvl, j = setup(S)
            r = getattr(o, name)()
            S.check('one number per level', r.vlen() == n)
            S.check('counter per cache line of work', r[j] == mk(F[what + '_count'](sint(j)), 'int') / f)
        S.run(go, name)

    def infos(S):
        o, n, f, F, lvl, j = setup(S)
        r = o.get_infos()
        S.check('the measured work', r['cachelines in stats'] == f)
        S.check('the statistics', bool(r['cache pretty output'] == 'text' and r['cache stats'] is o.stats))
        h = r['memory hierarchy']
        S.check('one entry per level', h.vlen() == n)
        e = h[j]
        S.check('levels in order', e['index'] == j)
        S.check('levels have their names', e['level'] == SAtom(lvl(sint(j))))
        for what, a, b in zip(NAMES, ('total loads', 'total hits', 'total misses', 'total stores', 'total evicts'),
                              ('load', 'hits', 'misses', 'stores', 'evicts')):
            S.check(a, e[a] == mk(F[what + '_byte'](sint(j)), 'int') / f)
            S.check('total lines ' + b, e['total lines ' + b] == mk(F[what + '_count'](sint(j)), 'int') / f)
    S.run(infos, 'get_infos')


PROOFS = [('simulate', proof_simulate, ['CacheSimulationPredictor.simulate']),
          ('align', proof_align, ['CacheSimulationPredictor._align_iteration_with_cl_boundary']),
          ('getters', proof_getters, ['CacheSimulationPredictor.get_loads, get_hits, get_misses, get_stores, get_evicts, get_infos'])]
