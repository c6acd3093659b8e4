"""C15: units of reported performance."""
ID = 'C15'
TITLE = 'performance units'
LEVEL = 'proof'
ASSUMPTIONS = ['FLOP/s of unlimited performance without operations is undefined (infinity times zero)',
               'cycles and performance are not negative; performance is not zero',
               'proofs: machine arithmetic treated as exact']
BOUNDED = ['conversions: generated values, clocks, line sizes, element types, steps and operation counts']
TRUSTED = ['quantities with units (C01)']
RULE = 'random values as numbers and as quantities, zero and infinity included; non-trivial: finite positive value'


def cases(rng, tier):
    from . import perf
    for i in range(3000 if tier == 'quick' else 20000):
        v = rng.choice([0.0, 0, 1.0, 8, 'inf', 1e-3, 1e12, round(rng.uniform(0, 100), 3), 10 ** rng.uniform(-6, 12)])
        yield {'f': rng.choice(['data', 'cpu', 'roof', 'asm']), 'v': v, 'pu': rng.random() < .5,
               'prefix': rng.choice(['', '', 'k', 'M', 'G']),
               'clock': rng.choice([2.7e9, 1e9, 2.2e9, round(rng.uniform(5e8, 5e9))]),
               'cpre': rng.choice(['', 'G', 'M']),
               'cl': rng.choice([32, 64, 64, 128, 256]), 'k': perf.kernel_case(rng)}


def trivial(c):
    return c['v'] in (0, 'inf')


def check(c):
    from . import perf
    from .common import Args, PU, machine, close
    from kerncraft.models.ecm import ECMData, ECMCPU
    from kerncraft.models.roofline import RooflineFLOP, RooflineASM
    scale = {'': 1.0, 'k': 1e3, 'M': 1e6, 'G': 1e9}
    m = machine(cl=c['cl'], extra={'clock': PU(c['clock'] / scale[c['cpre']], c['cpre'], 'Hz')})
    k, flops = perf.kernel_of(c)
    v = float(c['v'])
    if c['f'] in ('roof', 'asm') and v == 0:
        return None
    args = Args()
    with perf.traffic([1.0] * 4, [1.0] * 4):
        model = {'data': ECMData, 'cpu': ECMCPU, 'roof': RooflineFLOP, 'asm': RooflineASM}[c['f']](k, m, args)
    u = 'cy/CL' if c['f'] in ('data', 'cpu') else 'It/s'
    x = c['v'] if c['v'] != 'inf' else v
    if c['pu'] or u == 'It/s':
        x = PU(v / scale[c['prefix']], c['prefix'], u)
    before = repr(x)
    clock = repr(m['clock'])
    d = (model.conv_cy if u == 'cy/CL' else model.conv_perf)(x)
    if repr(x) != before or repr(m['clock']) != clock:
        return 'converting changes its argument or the machine: %s -> %r, %s -> %r' % (before, x, clock, m['clock'])
    what = '%s of %s' % (c['f'], before)
    e = perf.units(d, c['cl'], k.bytes_per_iteration, c['clock'], flops, what)
    if e:
        return e
    if not close(d[u], v):
        return '%s: %s is reported as %r' % (what, u, d[u])
    return None


# ------------------------------------------------------------------ proofs
def _units_post(S, m, d, cl, bpi, clock, flops, what):
    """Contract of C15 on the returned mapping, base values as reals (or infinite)."""
    from .stubs import Q, num, is_inf, finite
    for u in ('It/s', 'cy/CL', 'cy/It', 'FLOP/s'):
        S.check('%s: %s is a quantity of that unit' % (what, u), isinstance(d[u], Q) and d[u].unit == u)
    S.check('%s: exactly the four units' % what, sorted(d.keys().lit() if hasattr(d.keys(), 'lit') else d) == sorted(
        ['It/s', 'cy/CL', 'cy/It', 'FLOP/s']))
    it, cc, ci, fl = (num(d[u]) for u in ('It/s', 'cy/CL', 'cy/It', 'FLOP/s'))
    n = cl / bpi
    if is_inf(cc) or is_inf(ci):
        S.check('%s: cy/CL is cy/It times iterations per line' % what, is_inf(cc) and is_inf(ci) and (cc > 0) == (ci > 0))
        S.check('%s: no speed with unlimited cycles' % what, it == 0)
    else:
        S.check('%s: cy/CL is cy/It times iterations per line' % what, cc == ci * n)
        if is_inf(it):
            S.check('%s: unlimited speed exactly with zero cycles' % what, cc == 0)
        else:
            S.check('%s: speed is the clock over cycles per iteration' % what, it * ci == clock)
            S.check('%s: some cycles at limited speed' % what, cc != 0)
    if finite(it):
        S.check('%s: FLOP/s is It/s times operations' % what, fl == it * flops if finite(fl) else False)
    else:
        S.check('%s: unlimited FLOP/s at unlimited speed (with operations)' % what,
                (flops == 0) if finite(fl) or fl != fl else True)


def _setup(S, m):
    from .stubs import Q, Bag, Plain, Rec, flops_seq, pos_real, pos_int, bi
    cl, bpi, clock = pos_real(S, 'cacheline_size'), pos_int(S, 'bytes_per_iteration'), pos_real(S, 'clock')
    seq = flops_seq(S)
    k = Plain(bytes_per_iteration=bpi, _flops=Bag(seq))
    cq, lq = Q.of(clock, 'Hz'), Q.of(cl, 'B')
    mach = Rec(clock=cq, cacheline_size=lq)
    flops = bi(m, 'sum')(seq)
    S.assume(flops >= 0)

    def intact():
        S.check('the machine description is left alone', cq.bv is clock and cq.unit == 'Hz' and lq.bv is cl and lq.unit == 'B')
    return k, mach, cl, bpi, clock, flops, intact


def proof_conv(S):
    """conv_cy of ECMData and ECMCPU, conv_perf: all values, clocks, line sizes, bytes and operation counts."""
    from engine import instr
    from .stubs import Q
    ecm, roof = instr.load('kerncraft/models/ecm.py'), instr.load('kerncraft/models/roofline.py')
    ecm.PrefixedUnit = roof.PrefixedUnit = Q
    for cls in ('ECMData', 'ECMCPU'):
        for kind in ('number', 'quantity', 'infinite'):
            def go(S):
                k, mach, cl, bpi, clock, flops, intact = _setup(S, ecm)
                o = object.__new__(getattr(ecm, cls))
                o.kernel, o.machine = k, mach
                if kind == 'infinite':
                    v = float('inf')
                else:
                    v = S.real('cycles')
                    S.assume(v >= 0)
                x = v if kind == 'number' else Q.of(v, 'cy/CL')
                d = o.conv_cy(x)
                _units_post(S, ecm, d, cl, bpi, clock, flops, '%s.conv_cy' % cls)
                S.check('cy/CL is the given value', d['cy/CL'].bv == v)
                intact()
                if kind != 'number':
                    S.check('the argument is left alone', x.bv is v and x.unit == 'cy/CL')
            S.run(go, '%s.conv_cy of a %s' % (cls, kind))
    for kind in ('quantity', 'infinite'):
        def go(S):
            k, mach, cl, bpi, clock, flops, intact = _setup(S, roof)
            o = object.__new__(roof.RooflineFLOP)
            o.kernel, o.machine = k, mach
            if kind == 'infinite':
                v = float('inf')
            else:
                v = S.real('speed')
                S.assume(v > 0)
            x = Q.of(v, 'It/s')
            d = o.conv_perf(x)
            _units_post(S, roof, d, cl, bpi, clock, flops, 'conv_perf')
            S.check('It/s is the given value', d['It/s'].bv == v)
            S.check('the argument is left alone', x.bv is v and x.unit == 'It/s')
            intact()
        S.run(go, 'conv_perf of a %s' % kind)


PROOFS = [('conversions', proof_conv, ['ECMData.conv_cy', 'ECMCPU.conv_cy', 'RooflineFLOP.conv_perf'])]
