"""C13: composition and scaling of the ECM model."""
ID = 'C13'
TITLE = 'ECM prediction'
LEVEL = 'proof'
ASSUMPTIONS = ['the number of cores asked for is between one and the cores per socket',
               'the pointer increment is a multiple of the element size and not zero',
               'proofs: machine arithmetic treated as exact; in-core and data parts enter through their results']
BOUNDED = ['ECM.report, ECMCPU.analyze: generated hierarchies of 2 to 6 levels, overlap flags, traffic, port pressures, up to 48 cores']
TRUSTED = ['in-core analysis results (C18, C19), get_bandwidth (C16), cache predictors (C10, C11), '
           'quantities with units (C01)']
RULE = ('random component times, overlap flags, penalties, core and NUMA domain counts; non-trivial: memory traffic and '
        'more than one core')


def cases(rng, tier):
    from . import perf
    for i in range(2500 if tier == 'quick' else 12000):
        lv = perf.levels(rng)
        n = len(lv)
        h = perf.hierarchy(rng, n)
        cut = rng.choice([0, 0, 0, 1, n, n, rng.randrange(n + 1)])
        for j, x in enumerate(h):
            x[4] = j < cut
        if rng.random() < .12:
            for x in h:
                x[4] = rng.random() < .5
        if rng.random() < .5:
            for x in h:
                x[2] = x[3] = None
        cores = rng.choice([1, 2, 3, 4, 6, 8, 8, 12, 16, 24, 48])
        numa = rng.choice([d for d in range(1, cores + 1) if cores % d == 0])
        names = ['0', '0DV', '1', '2', '2D', '3', '3D', '4', '5', 'X']
        ports = {p: rng.choice([0.0, 1.0, 2.0, 4.5, round(rng.uniform(0, 40), 2)]) for p in names
                 if rng.random() < .8}
        loads, stores = perf.numbers(rng, n), perf.numbers(rng, n)
        if rng.random() < .2:
            loads[-1] = stores[-1] = 0
        k = perf.kernel_case(rng)
        size = perf.DT[k['dt']]
        yield {'lv': lv, 'h': h, 'loads': loads, 'stores': stores, 'clock': rng.choice([2.7e9, 1e9, 2.2e9]),
               'cl': rng.choice([32, 64, 64, 128]), 'k': k, 'cores': cores, 'numa': numa,
               'unit': rng.choice(['cy/CL', 'It/s', 'cy/It', 'FLOP/s']), 'ports': ports,
               'ol': rng.sample(names, rng.randrange(0, 8)), 'nol': rng.sample(names, rng.randrange(0, 4)),
               'tp': rng.choice([0.5, 1.0, 4.0, 20.0, round(rng.uniform(0.1, 50), 2)]),
               'uops': rng.choice([None, 5, 17.0]), 'inc': size * rng.choice([1, 2, 4, 8, 16, -1, -4, 3]),
               'n': rng.randrange(1, cores + 1)}


def trivial(c):
    return c['cores'] == 1 or not (c['loads'][-1] or c['stores'][-1])


def check(c):
    import io
    import math
    from . import perf
    from .common import Args, close
    from kerncraft.models.ecm import ECM, ECMData
    m = perf.build(c)
    m['overlapping model']['ports']['OSACA'] = list(c['ol'])
    m['non-overlapping model']['ports']['OSACA'] = list(c['nol'])
    k, flops = perf.kernel_of(c)
    incore = {'throughput': c['tp'], 'port cycles': dict(c['ports']), 'uops': c['uops'], 'output': 'text'}
    k.incore_analysis = lambda *a, **kw: (dict(incore), c['inc'])
    out = io.StringIO()
    flags = [bool(h[4]) for h in c['h']]
    # overlapping levels have to precede the non-overlapping ones
    mixed = any(flags[i] and not all(flags[:i]) for i in range(len(flags)))
    try:
        with perf.traffic(c['loads'], c['stores']):
            args = Args(cores=c['n'], unit=c['unit'])
            model = ECM(k, m, args)
            try:
                model.analyze()
            except ValueError:
                if mixed:
                    return None
                raise
            if mixed:
                return 'overlap flags %r were accepted' % flags
            model.report(output_file=out)
            data = ECMData(k, m, args)
            data.analyze()
    finally:
        del k.incore_analysis
    r = model.results
    scale = c['cl'] / abs(c['inc'])
    lv, n = c['lv'], len(c['lv'])
    # in-core part, normalised to one cache line
    ports = {p: v * scale for p, v in c['ports'].items()}
    tp = c['tp'] * scale
    regl1 = max([0.0] + [v for p, v in ports.items() if p in c['nol']])
    comp = max([0.0] + [v for p, v in ports.items() if p in c['ol']])
    if regl1 < tp:
        comp = tp
    for name, w in (('T_comp', comp), ('T_RegL1', regl1)):
        if not close(r[name], w):
            return '%s is %r instead of %r' % (name, r[name], w)
    if sorted(r['port cycles']) != sorted(ports) or not all(close(r['port cycles'][p], ports[p]) for p in ports):
        return 'port cycles per cache line are %r instead of %r' % (r['port cycles'], ports)
    if (r['uops'] is None) != (c['uops'] is None) or c['uops'] is not None and not close(r['uops'], c['uops'] * scale):
        return 'uops per cache line are %r' % r['uops']
    e = perf.units(r['cl throughput'], c['cl'], k.bytes_per_iteration, c['clock'], flops, 'cl throughput')
    if e or not close(r['cl throughput']['cy/CL'], tp):
        return e or 'cl throughput is %r instead of %r' % (r['cl throughput']['cy/CL'], tp)
    # composition
    cyc = data.results['cycles']
    parts = [('T_RegL1', regl1)] + [('T_' + lv[i - 1] + lv[i], cyc[i - 1][1]) for i in range(1, n)]
    ol = [('T_comp', comp)] + [p for p, f in zip(parts, flags) if f]
    nol = [p for p, f in zip(parts, flags) if not f]
    pen = data.results['penalty']
    if pen != 0:
        nol.append(('T_penalty', pen))
    con, val = r['ECM Model Construction'], r['ECM']
    names = list(con[:-1]) + list(con[-1])
    if len(con) != len(val) or len(con[-1]) != len(val[-1]):
        return 'construction %r does not fit %r' % (con, val)
    if sorted(con[:-1]) != sorted(x for x, _ in ol) or sorted(con[-1]) != sorted(x for x, _ in nol):
        return 'construction %r instead of overlapping %r and non-overlapping %r' % (con, ol, nol)
    for got, want in ((dict(zip(con[:-1], val[:-1])), dict(ol)), (dict(zip(con[-1], val[-1])), dict(nol))):
        for p in want:
            if not close(got[p], want[p]):
                return '%s is %r instead of %r' % (p, got[p], want[p])
    total = max([sum(v for _, v in nol)] + [v for _, v in ol])
    e = perf.units(r['total cycles'], c['cl'], k.bytes_per_iteration, c['clock'], flops, 'total cycles')
    if e:
        return e
    if not close(r['total cycles']['cy/CL'], total):
        return 'single-core prediction is %r instead of %r' % (r['total cycles']['cy/CL'], total)
    # scaling
    sp = r['scaling prediction']
    if [s['cores'] for s in sp] != list(range(1, c['cores'] + 1)):
        return 'scaling predictions for the core counts %r instead of 1 to %d' % ([s['cores'] for s in sp], c['cores'])
    tmem = cyc[-1][1]
    numa = c['numa'] or c['cores']
    ps = []
    for s in sp:
        e = perf.units(s['performance'], c['cl'], k.bytes_per_iteration, c['clock'], flops, '%d cores' % s['cores'])
        if e:
            return e
        ps.append(float(s['performance']['cy/CL']))
    if total > 0 and not close(ps[0], total):
        return 'prediction for one core is %r, the single-core prediction %r' % (ps[0], total)
    u = [0.0]
    sat = math.inf
    for q in range(1, numa + 1):
        if tmem:
            d = total + u[q - 1] * (q - 1) * tmem / 2
            u.append(min(1.0, q * tmem / d))
            near = close(q * tmem, d)
            if q * tmem >= d or near:
                sat = min(sat, q)
            if near:
                sat = None
                break
    for q, p in enumerate(ps, 1):
        best = total / q
        if p < best * (1 - 1e-9):
            return 'prediction for %d cores, %r, is better than perfect scaling of %r' % (q, p, total)
        limit = tmem if q <= numa else tmem * numa / q
        if p < limit * (1 - 1e-9):
            return 'prediction for %d cores, %r, is better than its memory interfaces allow (%r)' % (q, p, limit)
        if not tmem and not close(p, best):
            return 'prediction for %d cores, %r, without memory transfers instead of %r' % (q, p, best)
    if sat is not None:
        got = r['scaling cores']
        if got != sat:
            return 'saturation at %r cores instead of %r' % (got, sat)
        if tmem:
            for q, p in enumerate(ps, 1):
                w = tmem / u[min(q, numa)] * min(1, numa / q)
                if not close(p, w):
                    return 'prediction for %d cores is %r instead of %r' % (q, p, w)
            first = [q for q, p in enumerate(ps, 1) if q <= numa and close(p, tmem)]
            if (first[0] if first else math.inf) != sat:
                return 'the memory interface is saturated from %r cores, reported %r' % (first[:1], sat)
    if r['multi-core'] is not sp[c['n'] - 1] and (
            r['multi-core']['cores'] != c['n'] or float(r['multi-core']['performance']['cy/CL']) != ps[c['n'] - 1]):
        return 'the prediction returned for %d cores is the one for %r' % (c['n'], r['multi-core'])
    text = out.getvalue()
    if '= %s' % r['total cycles'][c['unit']] not in text:
        return 'the report does not show the single-core prediction %s: %r' % (r['total cycles'][c['unit']], text)
    if 'prediction for %d cores' % c['n'] not in text or str(sp[c['n'] - 1]['performance'][c['unit']]) not in text:
        return 'the report does not show the prediction for %d cores: %r' % (c['n'], text)
    return None


# ------------------------------------------------------------------ proofs
class X(object):
    """Extended number: a value, or plus infinity."""
    def __init__(self, fin, v):
        self.fin, self.v = fin, v

    def _b(self):
        from engine.core import zb
        return zb(self.fin)

    def __gt__(self, o):
        import z3
        from engine.core import SBool, sreal
        return SBool(z3.simplify(z3.Or(z3.Not(self._b()), sreal(self.v) > sreal(o))))

    def __le__(self, o):
        return ~(self > o)

    def __lt__(self, o):
        import z3
        from engine.core import SBool, sreal
        return SBool(z3.simplify(z3.And(self._b(), sreal(self.v) < sreal(o))))

    def __ge__(self, o):
        return ~(self < o)

    def min(self, o):
        import z3
        from engine.core import mk, sint
        a, b = sint(self.v), sint(o)
        return X(True, mk(z3.If(z3.And(self._b(), a < b), a, b), 'int'))

    def __deepcopy__(self, memo):
        return self

    def __vflat__(self):
        return 'X', [self.fin, self.v]

    @classmethod
    def __vunflat__(cls, sk, leaves):
        return cls(*leaves)

    def __vsame__(self, o):
        from engine.loops import same
        return same(self.fin, o.fin) and same(self.v, o.v)

    def __vsubst__(self, pairs):
        from engine.loops import vsubst
        return X(vsubst(self.fin, pairs), vsubst(self.v, pairs))

    def __vleaves__(self):
        return [self.fin, self.v]


def _load(S):
    from engine import instr
    from .stubs import Q
    m = instr.load('kerncraft/models/ecm.py')
    m.PrefixedUnit = Q
    bi = m.__dict__['__builtins__']
    fl, mn = bi['float'], bi['min']

    class Float(object):
        def __call__(self, *a):
            if a and a[0] == 'inf' and isinstance(a[0], str):
                return X(False, 0)
            return fl(*a)

        def __getattr__(self, k):
            return getattr(fl, k)
    bi['float'] = Float()
    bi['min'] = lambda *a, **k: a[0].min(a[1]) if len(a) == 2 and isinstance(a[0], X) else \
        a[1].min(a[0]) if len(a) == 2 and isinstance(a[1], X) else mn(*a, **k)
    return m


def _model(S, m, n, flags, penalty=True):
    """ECM object with arbitrary component times for n levels; in-core and data parts as their contracts leave them."""
    from engine.core import SNum
    from engine.cont import VDict, VList
    from .stubs import Q, Plain, Rec, num
    names = ['L%d' % (i + 1) for i in range(n - 1)] + ['MEM']
    t = {'T_comp': S.real('T_comp'), 'T_RegL1': S.real('T_RegL1'), 'penalty': S.real('penalty') if penalty else 0.0}
    cyc = [S.real('cycles_%s' % l) for l in names[1:]]
    for v in list(t.values()) + cyc:
        S.assume(v >= 0)
    clock = S.real('clock')

    class Part(object):
        def __init__(self, results):
            self.r, self.results, self.runs = results, None, 0

        def analyze(self):
            self.runs += 1
            self.results = self.r

        def conv_cy(self, x):
            d = VDict()
            d['cy/CL'] = Q.of(num(x), 'cy/CL')
            return d
    o = object.__new__(m.ECM)
    o._CPU = Part(VDict([('T_comp', t['T_comp']), ('T_RegL1', t['T_RegL1'])]))
    o._data = Part(VDict([('cycles', VList([(l, c) for l, c in zip(names[1:], cyc)])), ('penalty', t['penalty'])]))
    o.results = None
    numa, cps = S.int('cores_per_numa_domain'), S.int('cores_per_socket')
    S.assume(numa >= 1)
    S.assume(cps >= 1)
    want = S.int('cores')
    S.assume((want >= 1) & (want <= cps))
    hier = VList([VDict([('level', l), ('transfers overlap', f)]) for l, f in zip(names, flags)])

    sockets = 1 + sum(flags) % 2

    class Mach(object):
        def __getitem__(self, k):
            return {'memory hierarchy': hier, 'cores per NUMA domain': numa, 'cores per socket': cps,
                    'sockets': sockets}[k]
    o.machine = Mach()
    o._args = Plain(cores=want, unit='cy/CL')
    parts = [('T_RegL1', t['T_RegL1'])] + [('T_%s%s' % (names[i - 1], names[i]), cyc[i - 1]) for i in range(1, n)]
    return o, t, parts, cyc, numa, cps, want


def proof_composition(S):
    composition(S, (2, 3, 4))


def proof_composition5(S):
    composition(S, (5,))


def composition(S, levels):
    """Composition: all component times and overlap flags, hierarchies of two to five levels."""
    import itertools
    from .stubs import bi
    for n in levels:
        m = _load(S)
        for flags in itertools.product((False, True), repeat=n):
            mixed = any(flags[i] and not all(flags[:i]) for i in range(n))

            def go(S):
                o, t, parts, cyc, numa, cps, want = _model(S, m, n, flags)
                # the scaling part has a proof of its own
                S.assume(cyc[-1] == 0)
                try:
                    o.analyze()
                except ValueError:
                    S.check('only interleaved overlap is refused', mixed)
                    return
                S.check('interleaved overlap is refused', not mixed)
                S.check('both parts are analysed once', o._CPU.runs == 1 and o._data.runs == 1)
                ol = [('T_comp', t['T_comp'])] + [p for p, f in zip(parts, flags) if f]
                nol = [p for p, f in zip(parts, flags) if not f]
                if bool(t['penalty'] != 0):
                    nol.append(('T_penalty', t['penalty']))
                con, val = o.results['ECM Model Construction'], o.results['ECM']
                con, val = [list(x.lit() if hasattr(x, 'lit') else x) for x in (con, val)]
                cn, vn = [list(x.lit() if hasattr(x, 'lit') else x) for x in (con[-1], val[-1])]
                names = sorted(x if isinstance(x, str) else repr(x) for x in con[:-1])
                S.check('every overlapping part appears exactly once', names == sorted(p for p, _ in ol) and
                        len(val) == len(con))
                S.check('every non-overlapping part appears exactly once', sorted(cn) == sorted(p for p, _ in nol) and
                        len(vn) == len(cn))
                for a, b, w in ((con[:-1], val[:-1], dict(ol)), (cn, vn, dict(nol))):
                    for k, v in zip(a, b):
                        S.check('every part carries its own time', v == w[k])
                total = 0
                for _, v in nol:
                    total = total + v
                for _, v in ol:
                    total = bi(m, 'max')(total, v)
                S.check('the prediction is the maximum over the sum of all non-overlapping and each overlapping part',
                        o.results['total cycles']['cy/CL'].bv == total)
            S.run(go, 'composition of %d levels, overlap %s' % (n, ''.join('ny'[f] for f in flags)))


def scaling(S, flags):
    """Scaling: any number of cores and NUMA domains, against the recurrence of the utilization."""
    import z3
    from engine.core import SNum, SBool, sint, sreal, ctx, mk, zb
    from engine.cont import VList, Seg
    from engine.loops import ListState
    from .stubs import bi
    S.cut_hints.append('analyze')
    S.feas_timeout = 250  # nonlinear: undecided branches are explored

    def bounds(S):
        prev, i, TE, TM = S.real('previous utilization'), S.int('n'), S.real('T_ECM'), S.real('T_MEM')
        S.assume((prev >= 0) & (prev <= 1) & (i >= 1) & (TM > 0) & (TE >= TM))
        den = TE + prev * (i - 1) * TM / 2
        S.lemma('the time between transfers is positive', den >= TE,
                using=[prev >= 0, i >= 1, TM > 0])
        new = mk(z3.If(sreal(i * TM) >= sreal(den), z3.RealVal(1), sreal(i * TM) / sreal(den)), 'float')
        facts = [den >= TE, TM > 0, TE >= TM, i >= 1]
        S.lemma('utilization is positive', new > 0, using=facts)
        S.lemma('utilization is at most one', new <= 1, using=facts)
    S.run(bounds, 'bounds of the utilization, by induction')
    def go(S):
        m = _load(S)
        o, t, parts, cyc, numa, cps, want = _model(S, m, 2, flags, penalty=not flags[0])
        TM = cyc[-1]
        S.assume(TM > 0)
        u = S.func('utilization', z3.IntSort(), z3.RealSort())
        TE = S.real('T_ECM')
        conv = o._CPU.conv_cy
        first = [True]

        def conv_cy(x):
            from .stubs import num, Q
            if first[0]:
                # name the single-core prediction, its value is settled by the proof of the composition
                first[0] = False
                S.assume(TE == num(x))
                S.lemma('the prediction for one core includes its memory transfers', TE >= TM)
                S.lemma('ratio of the ratio', te / (te / tm) == tm, using=[TE >= TM, TM > 0])
                return conv(Q.of(TE, 'cy/CL'))
            return conv(x)
        o._CPU.conv_cy = conv_cy
        te, tm = sreal(TE), sreal(TM)

        def den(i):
            return te + u(i - 1) * (z3.ToReal(i) - 1) * tm / 2

        def sat(i):
            return z3.ToReal(i) * tm >= den(i)

        def U(i):
            """Definition of the recurrence, instantiated, with the bounds proved below."""
            i = i if z3.is_expr(i) else sint(i)
            for j in (i, i - 1):
                S.define(z3.Implies(j == 0, u(j) == 0))
                S.define(z3.Implies(j >= 1, u(j) == z3.If(sat(j), z3.RealVal(1), z3.ToReal(j) * tm / den(j))))
                S.define(z3.Implies(j >= 0, z3.And(u(j) >= 0, u(j) <= 1)))
                S.define(z3.Implies(j >= 1, u(j) > 0))
            return mk(u(z3.simplify(i)), 'float')

        # the number of cores which saturates the memory interface, if any does
        some = S.bool('saturates')
        star = S.int('saturation')
        S.assume((star >= 1) & (star <= numa))

        def least(i):
            """Definition of the least such number, instantiated."""
            i = i if z3.is_expr(i) else sint(i)
            U(i)
            U(star)
            S.define(z3.Implies(zb(some), sat(sint(star))))
            S.define(z3.Implies(z3.And(i >= 1, i <= sint(numa), z3.Or(z3.Not(zb(some)), i < sint(star))),
                                z3.Not(sat(i))))

        def hint(L, slot, i, kind):
            if slot[-1] == 'scaling cores' and kind in ('bool', 'int'):
                def f(kk):
                    least(kk)
                    least(kk + 1)
                    reached = z3.And(zb(some), kk >= sint(star))
                    return SBool(reached) if kind == 'bool' else mk(z3.If(reached, sint(star), z3.IntVal(0)), 'int')
                return f
            if slot[0] == 'l' and slot[1] == ('v', 'utilization') and kind == 'list':
                return lambda kk: ListState([Seg(z3.simplify(kk + 1), lambda j: U(j))])
        S.closed_hints[:] = [hint]
        o.analyze()
        r = o.results
        sp = r['scaling prediction']
        S.example[:] = [TM == 1, TE == 4, numa == 2, cps == 3, want == 1]
        S.check('saturation is reported exactly if some number of cores in a NUMA domain saturates',
                z3.And(zb(some) == zb(r['scaling cores'].fin)))
        if some:
            S.check('the least number of cores that saturates is reported', r['scaling cores'].v == star)
        S.check('one entry per core count of the socket', sp.vlen() == cps)
        q = S.int('q')
        S.assume((q >= 1) & (q <= cps))
        near = bool(q <= numa)
        e = sp[q - 1]
        S.check('entry n-1 is for n cores', e['cores'] == q)
        U(q)
        U(numa)
        S.lemma('in-NUMA time', e['in-NUMA performance'].bv == TM)
        at = mk(u(sint(q if near else numa)), 'float')
        p = e['performance']['cy/CL'].bv
        P = S.real('prediction')
        S.assume(P == p)
        w = q if near else numa
        i, ti = sint(w), z3.simplify(sint(w))
        facts = [P == p, at > 0, q >= 1, TM > 0, TE >= TM, te / (te / tm) == tm,
                 (q <= numa) if near else (q > numa), numa >= 1, w >= 1]
        prev = mk(u(z3.simplify(i - 1)), 'float')
        S.lemma('a larger share is never faster', den(i) >= te, using=[prev >= 0, w >= 1, TM > 0, TE >= TM])
        S.lemma('utilization is no better than linear', at * TE <= TM * w, using=[
            den(i) >= te, TM > 0, TE >= TM, w >= 1,
            sreal(at) == z3.If(sat(i), z3.RealVal(1), z3.ToReal(i) * tm / den(i))])
        if near:
            S.lemma('prediction follows the utilization', P * at == TM, using=facts)
            S.lemma('no better than the memory interface', P >= TM, using=[P * at == TM, at > 0, at <= 1, TM > 0])
            S.lemma('no better than perfect scaling', P * q >= TE,
                    using=[P * at == TM, at * TE <= TM * q, at > 0, at <= 1, TM > 0, q >= 1])
        else:
            S.lemma('prediction beyond a NUMA domain', P * q * at == TM * numa, using=facts)
            S.lemma('no better than all memory interfaces', P * q >= TM * numa,
                    using=[P * q * at == TM * numa, at > 0, at <= 1, P > 0, q >= 1])
            S.lemma('no better than perfect scaling', P * q >= TE,
                    using=[P * q * at == TM * numa, at * TE <= TM * numa, at > 0, P > 0, q >= 1])
        if q == 1:
            S.check('one core gives the single-core prediction', P == TE)
        S.check('the entry returned is the one for the cores asked for', r['multi-core']['cores'] == want)
    S.run(go, 'scaling, overlap %s' % ''.join('ny'[f] for f in flags))


def proof_scaling_nn(S):
    scaling(S, (False, False))


def proof_scaling_yn(S):
    scaling(S, (True, False))


def proof_scaling_yy(S):
    scaling(S, (True, True))


def proof_incache(S):
    """Without memory transfers: perfect scaling."""
    from .stubs import num, Q
    S.cut_hints.append('analyze')
    for flags in ((False, False), (True, False), (True, True)):
        def go(S):
            m = _load(S)
            o, t, parts, cyc, numa, cps, want = _model(S, m, 2, flags, penalty=not flags[0])
            S.assume(cyc[-1] == 0)
            TE = S.real('T_ECM')
            conv = o._CPU.conv_cy
            first = [True]

            def conv_cy(x):
                if first[0]:
                    first[0] = False
                    S.assume(TE == num(x))
                    return conv(Q.of(TE, 'cy/CL'))
                return conv(x)
            o._CPU.conv_cy = conv_cy
            o.analyze()
            sp = o.results['scaling prediction']
            S.check('no saturation is reported', not o.results['scaling cores'].fin
                    if hasattr(o.results['scaling cores'], 'fin') else False)
            S.check('one entry per core count of the socket', sp.vlen() == cps)
            q = S.int('q')
            S.assume((q >= 1) & (q <= cps))
            S.check('entry n-1 is for n cores', sp[q - 1]['cores'] == q)
            P = S.real('prediction')
            p = sp[q - 1]['performance']['cy/CL'].bv
            S.assume(P == p)
            S.lemma('perfect scaling', P * q == TE, using=[P == p, q >= 1])
            S.check('the entry returned is the one for the cores asked for', o.results['multi-core']['cores'] == want)
        S.run(go, 'in-cache, overlap %s' % ''.join('ny'[f] for f in flags))


PROOFS = [('composition', proof_composition, ['ECM.analyze']), ('composition5', proof_composition5, ['ECM.analyze']),
          ('scaling-nn', proof_scaling_nn, ['ECM.analyze']), ('scaling-yn', proof_scaling_yn, ['ECM.analyze']),
          ('scaling-yy', proof_scaling_yy, ['ECM.analyze']), ('incache', proof_incache, ['ECM.analyze'])]
