"""C14: roofline bottlenecks."""
ID = 'C14'
TITLE = 'roofline'
LEVEL = 'proof'
ASSUMPTIONS = ['bandwidths are positive', 'the pointer increment is a multiple of the element size and not zero',
               'machine arithmetic treated as exact', 'the element offsets of one cache line are three fixed shapes in the proof of the first level']
BOUNDED = ['reports of RooflineFLOP and RooflineASM, and whole runs: generated hierarchies of 2 to 6 levels, traffic, element types and core counts']
TRUSTED = ['in-core analysis results (C18, C19), get_bandwidth (C16), cache predictors (C10, C11), addresses (C06), '
           'quantities with units (C01)']
RULE = 'random traffic (also none), bandwidths, element types and core counts; non-trivial: traffic in some level'


def cases(rng, tier):
    from . import perf
    for i in range(2500 if tier == 'quick' else 12000):
        lv = perf.levels(rng)
        n = len(lv)
        h = perf.hierarchy(rng, n)
        k = perf.kernel_case(rng)
        cores = rng.choice([1, 2, 4, 8, 12])
        loads, stores = perf.numbers(rng, n), perf.numbers(rng, n)
        if rng.random() < .1:
            loads, stores = [0] * n, [0] * n
        yield {'asm': rng.random() < .5, 'lv': lv, 'h': h, 'loads': loads, 'stores': stores,
               'clock': rng.choice([2.7e9, 1e9, 2.2e9]), 'cl': rng.choice([32, 64, 64, 128]), 'k': k, 'cores': cores,
               'n': rng.randrange(1, cores + 1), 'unit': rng.choice(['cy/CL', 'It/s', 'cy/It', 'FLOP/s']),
               'fp': {'SP': {'total': rng.choice([8, 16, 32, 4]), 'ADD': 8, 'MUL': 9},
                      'DP': {'total': rng.choice([4, 8, 16, 2]), 'ADD': 4, 'MUL': 5}},
               'tp': rng.choice([0.5, 1.0, 4.0, 200.0, round(rng.uniform(0.1, 50), 2)]),
               'inc': perf.DT[k['dt']] * rng.choice([1, 2, 4, 8, -1, -4, 3]), 'uops': rng.choice([None, 5]),
               'ports': {'0': 3.0, '1': 2.5, '2D': 8.0}}


def trivial(c):
    return not any(c['loads'][1:]) and not any(c['stores'][1:])


def check(c):
    import io
    import math
    from . import perf
    from .common import Args, close
    from kerncraft.models.roofline import RooflineFLOP, RooflineASM
    m = perf.build(c)
    k, flops = perf.kernel_of(c)
    cl, clock, bpi = float(c['cl']), c['clock'], float(k.bytes_per_iteration)
    incore = {'throughput': c['tp'], 'port cycles': dict(c['ports']), 'uops': c['uops'], 'output': 'text'}
    k.incore_analysis = lambda *a, **kw: (dict(incore), c['inc'])
    out = io.StringIO()
    try:
        with perf.traffic(c['loads'], c['stores']):
            model = (RooflineASM if c['asm'] else RooflineFLOP)(k, m, Args(cores=c['n'], unit=c['unit']))
            model.analyze()
            model.report(output_file=out)
    finally:
        del k.incore_analysis
    r = model.results
    mb = r['mem bottlenecks']
    if len(mb) != len(c['lv']):
        return '%d bottlenecks for %d levels' % (len(mb), len(c['lv']))
    if c['asm']:
        if mb[0] is not None:
            return 'the register-L1 level is considered next to the in-core model: %r' % (mb[0],)
    best = None
    for i, b in enumerate(mb):
        if b is None:
            if i or not c['asm']:
                return 'no bottleneck for level %s' % c['lv'][i]
            continue
        if b['level'] != c['lv'][i]:
            return 'bottleneck %d belongs to %s instead of %s' % (i, b['level'], c['lv'][i])
        if i == 0:
            # elements of one cache line's worth of iterations, stored elements counted once as load and once as store
            its = int(cl // perf.DT[c['k']['dt']])
            step = c['k']['step']
            rd = {(a, o + j * step) for a, o in c['k']['reads'] for j in range(its)}
            wr = {j * step for j in range(its)}
            if c['k']['rmw']:
                rd |= {('a', j) for j in wr}
            nbytes = (len(rd) + len(wr)) * perf.DT[c['k']['dt']]
            bw, bk = m.get_bandwidth(0, len(rd) + len(wr), 0, 1, cores=c['n'])
        else:
            its = cl / bpi
            nbytes = (c['loads'][i] + c['stores'][i]) * cl
            bw, bk = m.get_bandwidth(i, c['loads'][i], c['stores'][i], 1, cores=c['n'])
        want = float(bw) * its / nbytes if nbytes else math.inf
        e = perf.units(b['performance'], cl, bpi, clock, flops, b['level'])
        if e:
            return e
        got = float(b['performance']['It/s'])
        if not close(got, want):
            return 'level %s limits to %r It/s instead of %r' % (b['level'], got, want)
        if not close(b['bytes transfered'], nbytes) or not close(b['bandwidth'], bw) or b['bw kernel'] != bk:
            return 'level %s reports %r bytes at %r (%s) instead of %r bytes at %r (%s)' % (
                b['level'], b['bytes transfered'], b['bandwidth'], b['bw kernel'], nbytes, bw, bk)
        if not close(b['arithmetic intensity'], its / nbytes if nbytes else math.inf):
            return 'level %s has intensity %r' % (b['level'], b['arithmetic intensity'])
        if best is None or got < best:
            best = got
    if not close(r['min performance']['It/s'], best):
        return 'the reported minimum is %r It/s, the slowest level gives %r' % (r['min performance']['It/s'], best)
    e = perf.units(r['min performance'], cl, bpi, clock, flops, 'min performance')
    if e:
        return e
    bl = r['bottleneck level']
    if bl is None or mb[bl] is None or not close(mb[bl]['performance']['It/s'], best):
        return 'the reported bottleneck level %r is not the slowest' % (bl,)
    if c['asm']:
        cpu = r['cpu bottleneck']['performance throughput']
        want = clock / c['tp'] * (abs(c['inc']) / bpi) * c['n']
        scale = cl / abs(c['inc'])
        b = r['cpu bottleneck']
        if not close(b['cl throughput'], c['tp'] * scale) or (
                c['uops'] is not None and not close(b['uops'], c['uops'] * scale)) or any(
                not close(b['port cycles'][p], v * scale) for p, v in c['ports'].items()):
            return 'in-core results per cache line are %r' % (b,)
    else:
        cpu = r['max_perf']
        fp = c['fp']['DP' if c['k']['dt'].startswith('double') else 'SP']['total']
        want = clock * c['n'] * fp / flops if flops else math.inf
        if flops and not close(cpu['FLOP/s'], clock * c['n'] * fp):
            return 'compute limit %r instead of %r' % (cpu['FLOP/s'], clock * c['n'] * fp)
    e = perf.units(cpu, cl, bpi, clock, flops, 'compute limit')
    if e:
        return e
    if not close(cpu['It/s'], want):
        return 'compute limit is %r It/s instead of %r' % (cpu['It/s'], want)
    if (flops or c['asm']) and not close(want, best):
        text = out.getvalue()
        if ('CPU bound' in text) != (want < best):
            return 'compute limit %r, memory limit %r, report %r' % (want, best, text)
        if want >= best and 'due to %s transfer' % c['lv'][bl] not in text:
            return 'the report does not name level %s: %r' % (c['lv'][bl], text)
    return None


# ------------------------------------------------------------------ proofs
def _kit(m):
    """Contracts of PrefixedUnit (C01) and conv_perf (C15) over extended numbers."""
    from .stubs import QX, Perf, float_with_inf
    float_with_inf(m)
    m.PrefixedUnit = QX
    m.RooflineFLOP.conv_perf = lambda self, x: Perf(x)
    return QX, Perf


def _slowest(S):
    """Index of the slowest of levels 0..k: definition, and what it amounts to."""
    import z3
    I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
    P, U, K = S.func('performance', I, R), S.func('unlimited', I, B), S.func('slowest', I, I)
    # j is slower than i
    less = lambda j, i: z3.Or(z3.And(z3.Not(U(j)), U(i)), z3.And(z3.Not(U(j)), z3.Not(U(i)), P(j) < P(i)))

    def rec(k, first=0):
        for i in (k, z3.simplify(k + 1)):
            S.define(z3.Implies(i == first, K(i) == first))
            S.define(z3.Implies(i > first, K(i) == z3.If(less(i, K(i - 1)), i, K(i - 1))))
            S.define(z3.Implies(i >= first, z3.And(K(i) >= first, K(i) <= i)))

    def induction(S):
        from engine.core import sint
        k, j = sint(S.int('k')), sint(S.int('j'))
        for first in (0, 1):
            S.assume(z3.And(k >= first, j >= first, K(k) >= first, K(k) <= k))
            S.assume(z3.Implies(j <= k, z3.Not(less(j, K(k)))))
            S.assume(K(k + 1) == z3.If(less(k + 1, K(k)), k + 1, K(k)))
            S.check('the slowest is one of the levels', z3.And(K(k + 1) >= first, K(k + 1) <= k + 1))
            S.check('no level is slower', z3.Implies(j <= k + 1, z3.Not(less(j, K(k + 1)))))
    return P, U, K, rec, induction


def _hint(L, slot, kind, K, U, P, rec, shift):
    """Loop invariant: bottleneck and minimum after k iterations are those of level K(k + shift)."""
    import z3
    from engine.core import mk

    def f(kk):
        i = z3.simplify(kk + shift)
        rec(i)
        return K(i)
    if slot[-1] == 'bottleneck level' and kind == 'int':
        return lambda kk: mk(f(kk), 'int')
    if slot[-1] == 'min performance':
        if kind == 'int':
            return lambda kk: mk(z3.If(U(f(kk)), z3.IntVal(1), z3.IntVal(0)), 'int')
        return lambda kk: mk(z3.If(U(f(kk)), z3.RealVal(0), P(f(kk))), 'float')


def proof_access(S):
    """RooflineFLOP: any number of levels, traffic and bandwidths (two iterations per line in the first level)."""
    import z3
    from engine import instr
    from engine.core import SNum, SAtom, sint, sreal, mk, ctx
    from engine.cont import VList, VDict
    from .stubs import Ext, Bag, Plain, pos_real, pos_int, flops_seq, bi
    S.cut_hints.append('calculate_cache_access')
    S.feas_timeout = 300
    I, R = z3.IntSort(), z3.RealSort()
    P, U, K, rec, induction = _slowest(S)
    S.run(induction, 'slowest level, by induction')
    ld, st, bwf = S.func('loads', I, R), S.func('stores', I, R), S.func('bandwidth', I, R)
    lvl, ker = S.func('level', I, I), S.func('bw_kernel', I, I)
    for what, accesses in (('reads and writes', [([0, 8], [8]), ([8, 16], [16])]), ('reads only', [([0, 8], None)]),
                           ('neither', [(None, None)])):
        def go(S):
            m = instr.load('kerncraft/models/roofline.py')
            QX, Perf = _kit(m)
            n, cores = pos_int(S, 'levels'), pos_int(S, 'cores')
            bpi, clock = pos_int(S, 'bytes_per_iteration'), pos_real(S, 'clock')
            es = S.pick([8, 4])
            epl = pos_int(S, 'elements_per_line')
            cl = epl * es
            flops = flops_seq(S)
            nr = len({x for r, w in accesses for x in r or []})
            nw = len({x for r, w in accesses for x in w or []})

            class Kern(object):
                datatypes_size, datatype, bytes_per_iteration, _flops = {'double': es}, 'double', bpi, Bag(flops)

                def compile_global_offsets(self, iteration=0):
                    S.check('the iterations of one cache line are considered',
                            (bi(m, 'len')(iteration) == epl) & (iteration[0] == 0))
                    return list(accesses)

            class Mach(object):
                def __getitem__(self, k):
                    return {'cacheline size': QX.of(cl, 'B'), 'clock': QX.of(Ext(clock), 'Hz'),
                            'memory hierarchy': VList.sym(n, lambda i: VDict([('level', SAtom(lvl(sint(i))))])),
                            'FLOPs per cycle': {'DP': {'total': fp['DP']}, 'SP': {'total': fp['SP']}}}[k]

                def get_bandwidth(self, level, r, w, tpc, cores=None):
                    ok = (r == mk(ld(sint(level)), 'float')) & (w == mk(st(sint(level)), 'float')) \
                        if not (isinstance(level, int) and level == 0) else (r == nr + 2 * nw - nw) & (w == 0) & (level == 0)
                    S.check('bandwidth is asked for the traffic of that level, one thread per core, the cores asked for',
                            ok & (tpc == 1) & (cores == o.cores))
                    return QX.of(mk(bwf(sint(level)), 'float'), 'B/s'), SAtom(ker(sint(level)))
            fp = {k: pos_int(S, 'flops_' + k) for k in ('DP', 'SP')}
            o = object.__new__(m.RooflineFLOP)
            o.kernel, o.machine, o.cores = Kern(), Mach(), cores
            seq = lambda f: VList.sym(n, lambda i: mk(f(sint(i)), 'float'))
            o.predictor = Plain(get_loads=lambda: seq(ld), get_stores=lambda: seq(st), get_infos=lambda: None)
            q = z3.Int('ql')
            ctx().assume(z3.ForAll([q], z3.And(ld(q) >= 0, st(q) >= 0, bwf(q) > 0)))
            its = sreal(cl) / z3.ToReal(sint(bpi))

            def level(j):
                """Definition of the performance level j allows, instantiated."""
                b = (ld(j) + st(j)) * sreal(cl)
                S.define(z3.Implies(j >= 1, z3.And(U(j) == (b == 0), z3.Implies(b != 0, P(j) == bwf(j) * (1 / (b / its))))))

            def rec2(k):
                rec(k)
                level(k)
                level(z3.simplify(k + 1))
                level(K(k))
            first = Ext(mk(P(0), 'float'), mk(z3.If(U(0), z3.IntVal(1), z3.IntVal(0)), 'int'))
            streams = nr + nw
            ctx().assume(U(0) == (streams == 0))
            if streams:
                ctx().assume(P(0) == bwf(0) * (1 / (sreal(streams * es) / sreal(epl))))
            S.closed_hints[:] = [lambda L, slot, i, kind: _hint(L, slot, kind, K, U, P, rec2, 0)]
            S.example[:] = [n == 1, epl == 8, bpi == 8]
            o.calculate_cache_access()
            r = o.results
            mb = r['mem bottlenecks']
            S.check('one entry per level', mb.vlen() == n)
            j = S.int('j')
            S.assume((j >= 0) & (j < n))
            zj = sint(j)
            rec2(sint(n) - 1)
            e = mb[j]
            level(zj)
            S.check('the levels are reported in order', e['level'] == SAtom(lvl(zj)))
            S.check('the kernel of the bandwidth is reported', e['bw kernel'] == SAtom(ker(zj)))
            x = e['performance'].x
            S.check('unlimited exactly without traffic', x.is_kind(1) == U(zj))
            S.check('otherwise bandwidth times iterations per byte', z3.Implies(z3.Not(U(zj)), z3.And(
                x.is_kind(0), sreal(x.v) == P(zj))))
            if bool(j >= 1):
                S.check('bytes of one cache line of iterations', e['bytes transfered'] == mk(ld(zj) + st(zj), 'float') * cl)
            else:
                S.check('stored elements count as load and store', e['bytes transfered'] == (nr + nw) * es)
            S.check('the bandwidth is reported', e['bandwidth'].bv == mk(bwf(zj), 'float'))
            a = K(sint(n) - 1)
            S.check('the bottleneck is the slowest level', r['bottleneck level'] == mk(a, 'int'))
            y = r['min performance'].x
            S.check('the minimum is its performance', z3.And(y.is_kind(1) == U(a), z3.Implies(z3.Not(U(a)), z3.And(
                y.is_kind(0), sreal(y.v) == P(a)))))
        S.run(go, 'calculate_cache_access, ' + what)


def proof_asm(S):
    """RooflineASM.analyze: any number of levels, any in-core result (calculate_cache_access by its contract)."""
    import z3
    from engine import instr
    from engine.core import SAtom, sint, sreal, mk, ctx
    from engine.cont import VList, VDict
    from .stubs import Ext, Bag, Plain, pos_real, pos_int, flops_seq
    S.cut_hints.append('analyze')
    S.feas_timeout = 300
    I, R = z3.IntSort(), z3.RealSort()
    P, U, K, rec, induction = _slowest(S)
    S.run(induction, 'slowest level, by induction')
    lvl = S.func('level', I, I)

    def go(S):
        m = instr.load('kerncraft/models/roofline.py')
        QX, Perf = _kit(m)
        n, cores = pos_int(S, 'levels'), pos_int(S, 'cores')
        bpi, clock, cl = pos_int(S, 'bytes_per_iteration'), pos_real(S, 'clock'), pos_int(S, 'cacheline_size')
        es, inc = S.pick([8, 4]), S.int('pointer_increment')
        tp, port, uops = pos_real(S, 'block_throughput'), S.real('port_cycles'), S.pick([None, S.real('uops')])
        S.assume(inc != 0)
        calls = []

        class Kern(object):
            datatypes_size, datatype, bytes_per_iteration, _flops = {'double': es}, 'double', bpi, Bag(flops_seq(S))

            def incore_analysis(self, asm_block=None, pointer_increment=None, model=None, verbose=None):
                calls.append((asm_block, pointer_increment, model))
                return VDict([('throughput', tp), ('uops', uops), ('output', 'text'),
                              ('port cycles', VDict([('0', port)]))]), inc
        o = object.__new__(m.RooflineASM)
        o.kernel, o.cores, o.verbose = Kern(), cores, 0
        o.asm_block, o.pointer_increment, o._args = 'auto', 'manual', Plain(incore_model='OSACA')
        o.machine = {'cacheline size': QX.of(cl, 'B'), 'clock': QX.of(Ext(clock), 'Hz')}

        def perf(j):
            return Perf(Ext(mk(z3.If(U(j), z3.RealVal(0), P(j)), 'float'), mk(z3.If(U(j), z3.IntVal(1), z3.IntVal(0)), 'int')))
        entry = lambda i: VDict([('performance', perf(sint(i))), ('level', SAtom(lvl(sint(i))))])
        res = VDict([('mem bottlenecks', VList.sym(n, entry)), ('bottleneck level', S.int('l0')),
                     ('min performance', Perf(Ext(S.real('p0'))))])
        o.calculate_cache_access = lambda: res
        rec1 = lambda k: rec(k, 1)
        S.closed_hints[:] = [lambda L, slot, i, kind: _hint(L, slot, kind, K, U, P, rec1, -1)]
        S.example[:] = [n == 2, cl == 64, bpi == 8, inc == 8]
        o.analyze()
        r = o.results
        S.check('in-core analysis of the marked block, model and increment asked for',
                bool(calls == [('auto', 'manual', 'OSACA')]))
        b = r['cpu bottleneck']
        size = mk(z3.If(sint(inc) >= 0, sint(inc), -sint(inc)), 'int')
        ratio = cl / size
        S.check('throughput per cache line', b['cl throughput'] == tp * ratio)
        S.check('port cycles per cache line', b['port cycles']['0'] == port * ratio)
        S.check('micro-ops per cache line', bool(b['uops'] is None) if uops is None else b['uops'] == uops * ratio)
        x = b['performance throughput'].x
        S.check('in-core performance of all cores', z3.And(x.is_kind(0), sreal(x.v) == sreal(clock / tp * (size / bpi) * cores)))
        mb = r['mem bottlenecks']
        S.check('one entry per level', mb.vlen() == n)
        S.check('the first level is covered by the in-core model', bool(mb[0] is None))
        if bool(n == 1):
            S.check('no level, no bottleneck', bool(r['bottleneck level'] is None))
            S.check('no level, no limit', r['min performance'].x.is_kind(1))
        else:
            rec1(sint(n) - 1)
            a = K(sint(n) - 1)
            S.check('the bottleneck is the slowest level', r['bottleneck level'] == mk(a, 'int'))
            y = r['min performance'].x
            S.check('the minimum is its performance', z3.And(y.is_kind(1) == U(a), z3.Implies(z3.Not(U(a)), z3.And(
                y.is_kind(0), sreal(y.v) == P(a)))))
            j = S.int('j')
            S.assume((j >= 1) & (j < n))
            S.check('the other levels are unchanged', mb[j]['level'] == SAtom(lvl(sint(j))))
    S.run(go, 'analyze')


def proof_flop(S):
    """RooflineFLOP.analyze: the compute limit."""
    import z3
    from engine import instr
    from engine.core import sint, sreal
    from .stubs import Ext, Bag, pos_real, pos_int, flops_seq

    for flops, dt in ((True, 'double'), (True, 'float'), (True, 'double _Complex'), (False, 'float')):
        def go(S):
            m = instr.load('kerncraft/models/roofline.py')
            QX, Perf = _kit(m)
            clock, cores = pos_real(S, 'clock'), pos_int(S, 'cores')
            fp = {k: pos_int(S, 'flops_' + k) for k in ('DP', 'SP')}
            f = flops_seq(S) if flops else []
            total = m.__dict__['__builtins__']['sum'](Bag(f).values()) if flops else 0
            if flops:
                S.assume(total > 0)

            class Kern(object):
                datatype, _flops = dt, Bag(f)
            o = object.__new__(m.RooflineFLOP)
            o.kernel, o.cores = Kern(), cores
            o.machine = {'clock': QX.of(Ext(clock), 'Hz'),
                         'FLOPs per cycle': {k: {'total': v} for k, v in fp.items()}}
            o.results = {}
            calls = []
            o.calculate_cache_access = lambda: calls.append(1)
            o.analyze()
            S.check('the levels are analysed', bool(calls == [1]))
            x = o.results['max_perf'].x
            if flops:
                want = clock * cores * fp['DP' if dt.startswith('double') else 'SP'] / total
                S.check('clock, cores and operations per cycle limit the iterations',
                        z3.And(x.is_kind(0), sreal(x.v) == sreal(want)))
            else:
                S.check('no limit without operations', x.is_kind(1))
        S.run(go, 'compute limit, %s %s' % (dt, 'with operations' if flops else 'without'))


PROOFS = [('access', proof_access, ['RooflineFLOP.calculate_cache_access']),
          ('asm', proof_asm, ['RooflineASM.analyze']), ('flop', proof_flop, ['RooflineFLOP.analyze'])]
