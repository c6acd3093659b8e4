"""Models run on a real kernel and machine description with prescribed traffic and in-core results."""
import contextlib
from .common import machine, Args, PU, close

DT = {'float': 4, 'double': 8, 'float _Complex': 8, 'double _Complex': 16}
_K = {}


def code(dt, flops, step=1, reads=((0, 0),), rmw=False):
    """One-dimensional kernel with the given reads (array number, offset) and operation count."""
    arrays = sorted({a for a, _ in reads})
    decl = ''.join('%s b%d[N+40];\n' % (dt, a) for a in arrays)
    terms = ['b%d[i%+d]' % (a, o) if o else 'b%d[i]' % a for a, o in reads]
    if rmw:
        terms.append('a[i]')
    e = terms[0]
    n = 0
    for t in terms[1:]:
        e += '+' + t
        n += 1
    while n < flops:
        e = '(%s)*s' % e
        n += 1
    return '%s a[N+40], s;\n%sfor(int i=20; i<N; %s) a[i] = %s;\n' % (
        dt, decl, '++i' if step == 1 else 'i+=%d' % step, e), n


def kernel(dt='double', flops=1, step=1, reads=((0, 0),), rmw=False, mach=None):
    """(KernelCode, operations per iteration); operations are at least len(reads)-1."""
    from .common import kernel_code
    key = (dt, flops, step, tuple(map(tuple, reads)), rmw)
    if key not in _K:
        if len(_K) > 400:
            _K.clear()
        c, n = code(dt, flops, step, reads, rmw)
        k = kernel_code(c, machine())
        k.set_constant('N', 4000)
        _K[key] = (k, n)
    return _K[key]


@contextlib.contextmanager
def traffic(loads, stores):
    """Both cache predictors return the given traffic (their own contracts are C10 and C11)."""
    from kerncraft import cacheprediction as cp
    new = {'__init__': lambda self, kernel, machine, cores=1, **kw: None,
           'get_loads': lambda self: list(loads), 'get_stores': lambda self: list(stores),
           'get_hits': lambda self: [0.0] * len(loads), 'get_misses': lambda self: list(loads[1:]) + [0.0],
           'get_evicts': lambda self: list(stores[1:]) + [0.0], 'get_infos': lambda self: {'x': 1}}
    saved = {}
    for cls in (cp.LayerConditionPredictor, cp.CacheSimulationPredictor):
        for n, f in new.items():
            saved[cls, n] = cls.__dict__.get(n)
            setattr(cls, n, f)
    try:
        yield
    finally:
        for (cls, n), f in saved.items():
            if f is None:
                delattr(cls, n)
            else:
                setattr(cls, n, f)


NAMES = ['L1', 'L2', 'L3', 'L4', 'LLC', 'eDRAM', 'MEM', 'HBM']


def levels(rng, n=None):
    n = n or rng.choice([2, 2, 3, 4, 4, 4, 5, 6])
    ls = NAMES[:n - 1] + ['MEM']
    return ls


def hierarchy(rng, n, unknown=0.0):
    """JSON description of the upstream throughputs: number (B/cy) or None (memory bandwidth), duplexness, penalties."""
    out = []
    for i in range(n):
        mem = (i == n - 1 and rng.random() < .9) or rng.random() < .12
        d = 'half-duplex' if rng.random() < .5 else 'full-duplex'
        if i and rng.random() < unknown:
            d = rng.choice(['simplex', '', 'duplex', 'Full-duplex', 'half', None])
        out.append([None if mem else rng.choice([4.0, 8.0, 16.0, 32.0, 64.0, round(rng.uniform(1, 100), 3)]), d,
                    rng.choice([None, None, 0.0, 1.5, 2, round(rng.uniform(0, 20), 2)]),
                    rng.choice([None, None, 0.0, 3.25, 7, round(rng.uniform(0, 20), 2)]),
                    rng.random() < .3])
    return out


def numbers(rng, n):
    def one():
        return rng.choice([0, 0.0, 1, 1.0, 2, 3, 0.5, 0.125, 12, round(rng.uniform(0, 10), 4), rng.randrange(20)])
    z = rng.random()
    if z < .1:
        k = rng.randrange(n)
        return [one() if i <= k else 0 for i in range(n)]
    return [one() for i in range(n)]


def build(c):
    """Machine for a case with keys lv (level names), h (hierarchy), clock, cl, cores, numa, fp."""
    tput = {}
    for i, (l, h) in enumerate(zip(c['lv'], c['h'])):
        tput[l] = ['full socket memory bandwidth' if h[0] is None else PU(h[0], 'B/cy'), h[1]]
    kw = {}
    if c.get('fp'):
        kw['extra'] = {'FLOPs per cycle': c['fp']}
    m = machine(levels=tuple(c['lv']), tput=tput, clock=c.get('clock', 2.7e9), cl=c.get('cl', 64),
                cores=c.get('cores', 8), numa_cores=c.get('numa'), **kw)
    for d, h in zip(m['memory hierarchy'], c['h']):
        if h[2] is not None:
            d['penalty cycles per cacheline load'] = h[2]
        if h[3] is not None:
            d['penalty cycles per cacheline store'] = h[3]
        d['transfers overlap'] = bool(h[4])
    return m


def units(d, cl, bpi, clock, flops, what, skip_flops=False):
    """The contract of C15 on one dictionary of units."""
    import math
    want = {'It/s', 'cy/CL', 'cy/It', 'FLOP/s'}
    if set(d) != want:
        return '%s reports %r' % (what, sorted(d))
    for u in want:
        if getattr(d[u], 'unit', None) != u:
            return '%s: the quantity under %r is %r with unit %r' % (what, u, d[u], getattr(d[u], 'unit', None))
    it, cc, ci, fl = (float(d[u]) for u in ('It/s', 'cy/CL', 'cy/It', 'FLOP/s'))
    n = float(cl) / bpi
    if not close(cc, ci * n):
        return '%s: %r cy/CL but %r cy/It with %r iterations per line' % (what, cc, ci, n)
    if cc == 0:
        if it != math.inf:
            return '%s: zero cycles but %r It/s' % (what, it)
    elif cc == math.inf:
        if it != 0:
            return '%s: unlimited cycles but %r It/s' % (what, it)
    elif not close(it, clock / ci):
        return '%s: %r It/s but %r cy/It at %r Hz' % (what, it, ci, clock)
    if not (math.isinf(it) and flops == 0):
        if not close(fl, it * flops):
            return '%s: %r FLOP/s but %r It/s with %r operations each' % (what, fl, it, flops)
    return None


def kernel_case(rng, flops=None):
    dt = rng.choice(['double', 'double', 'float', 'float', 'double _Complex', 'float _Complex'])
    nr = rng.choice([1, 1, 2, 3])
    reads = sorted({(rng.randrange(2), rng.choice([0, 0, -1, 1, 2, -3])) for _ in range(nr)})
    return {'dt': dt, 'flops': rng.choice([0, 1, 2, 5, 9]) if flops is None else flops,
            'step': rng.choice([1, 1, 1, 2, 4]), 'reads': [list(r) for r in reads], 'rmw': rng.random() < .3}


def kernel_of(c):
    return kernel(c['k']['dt'], c['k']['flops'], c['k']['step'], c['k']['reads'], c['k']['rmw'])
