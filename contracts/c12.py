"""C12: data cycles of the ECM model."""
ID = 'C12'
TITLE = 'ECM data cycles'
LEVEL = 'proof'
ASSUMPTIONS = ['the line size is a multiple of the element size', 'throughputs and bandwidths are positive',
               'proofs: machine arithmetic treated as exact; element sizes of 4, 8 and 16 bytes; level names differ from '
               'the keys of the results']
BOUNDED = ['ECMData: generated hierarchies of 2 to 6 levels, traffic, clocks and line sizes']
TRUSTED = ['get_bandwidth (C16), cache predictors (C10, C11), quantities with units (C01)']
RULE = ('random hierarchies (cache and memory-bandwidth levels, both kinds of duplexness and unknown ones, penalties), '
        'traffic and element types; non-trivial: some traffic')


def cases(rng, tier):
    from . import perf
    for i in range(1500 if tier == 'quick' else 8000):
        lv = perf.levels(rng)
        n = len(lv)
        yield {'lv': lv, 'h': perf.hierarchy(rng, n, .08 if i % 4 == 0 else 0), 'loads': perf.numbers(rng, n),
               'stores': perf.numbers(rng, n), 'clock': rng.choice([2.7e9, 1e9, 2.2e9, round(rng.uniform(5e8, 5e9))]),
               'cl': rng.choice([32, 64, 64, 128, 256]), 'k': perf.kernel_case(rng), 'cores': rng.choice([1, 2, 4, 8]),
               'unit': rng.choice(['cy/CL', 'It/s', 'cy/It', 'FLOP/s']), 'pred': rng.choice(['LC', 'SIM'])}


def trivial(c):
    return not any(c['loads'][1:]) and not any(c['stores'][1:])


def check(c):
    import io
    from . import perf
    from .common import Args, close
    from kerncraft.models.ecm import ECMData
    m = perf.build(c)
    k, flops = perf.kernel_of(c)
    loads, stores = c['loads'], c['stores']
    cl, clock = float(c['cl']), float(c['clock'])
    bad = any(h[1] not in ('half-duplex', 'full-duplex') for h in c['h'][1:])
    with perf.traffic(loads, stores):
        args = Args(cores=1, unit=c['unit'], cache_predictor=c['pred'], verbose=2)
        model = ECMData(k, m, args)
        try:
            model.analyze()
        except ValueError as e:
            if bad:
                return None
            raise
        if bad:
            return 'unknown duplexness %r was accepted' % ([h[1] for h in c['h'][1:]],)
        r = model.results
        out = io.StringIO()
        if r['penalty'] == 0:
            model.report(output_file=out)
    want, penalty, bw = [], 0.0, None
    for i in range(1, len(c['lv'])):
        t, duplex, pl, ps, _ = c['h'][i]
        lines = loads[i] + stores[i] if duplex == 'half-duplex' else max(loads[i], stores[i])
        if t is None:
            bw, bk = m.get_bandwidth(i, loads[i], stores[i], 1)
            cy = lines * cl * clock / float(bw)
            penalty += (pl or 0) * loads[i] + (ps or 0) * stores[i]
        else:
            cy = lines * cl / t
        want.append((c['lv'][i], cy))
    got = r['cycles']
    if [g[0] for g in got] != [w[0] for w in want]:
        return 'levels are reported as %r instead of %r' % ([g[0] for g in got], c['lv'][1:])
    for g, w in zip(got, want):
        if not close(g[1], w[1]):
            return 'level %s takes %r cycles instead of %r' % (w[0], g[1], w[1])
        if not close(r[w[0]], w[1]):
            return 'results[%r] is %r instead of %r' % (w[0], r[w[0]], w[1])
    if not close(r['penalty'], penalty):
        return 'penalty is %r instead of %r' % (r['penalty'], penalty)
    if bw is not None and (not close(r['memory bandwidth'], bw) or r['memory bandwidth kernel'] != bk):
        return 'memory bandwidth is reported as %r (%s) instead of %r (%s)' % (
            r['memory bandwidth'], r['memory bandwidth kernel'], bw, bk)
    if c['k']['step'] and not close(r['iterations per cacheline'], cl / k.bytes_per_iteration):
        return 'iterations per cacheline is %r' % r['iterations per cacheline']
    text = out.getvalue()
    if r['penalty'] == 0:
        for l, cy in want:
            if not any(x.startswith('%s = ' % l) for x in text.splitlines()):
                return 'level %s is missing in the report %r' % (l, text)
    return None


# ------------------------------------------------------------------ proofs
def _cycles_world(S, m, n):
    """Arbitrary machine hierarchy of n levels (n symbolic or a number) and traffic; returns model and the terms."""
    import z3
    from engine.core import SNum, SBool, SAtom, sint, ctx, SYM_ATOM_BASE
    from engine.cont import VList, SRec, VDict
    from .stubs import Q, Plain, Rec, pos_real, pos_int
    I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
    F = {k: S.func(k, I, s) for k, s in dict(bw=B, thr=R, dup=I, lvl=I, pl=R, ps=R, hpl=B, hps=B, loads=R, stores=R,
                                              mbw=R, mker=I).items()}

    def real(f):
        return lambda i: SNum(F[f](sint(i)), 'float')

    class Thr(object):
        """Upstream throughput: a quantity, or the text naming the memory bandwidth."""
        def __init__(self, i):
            self.i = i

        def is_bw(self):
            return SBool(F['bw'](sint(self.i)))

        def __vfloat__(self):
            S.check('only quantities are converted to numbers', ~self.is_bw())
            return real('thr')(self.i)

        def __float__(self):
            return self.__vfloat__()

        def __eq__(self, o):
            if o == 'full socket memory bandwidth':
                return self.is_bw()
            return NotImplemented

        def __vsubst__(self, pairs):
            from engine.loops import vsubst
            return Thr(vsubst(self.i, pairs))
    realtype = m.__dict__['__builtins__']['type']
    T = m.__dict__['__builtins__']['str']

    def typ(*a):
        if len(a) == 1 and isinstance(a[0], Thr):
            return T if a[0].is_bw() else Q
        return realtype(*a)
    m.__dict__['__builtins__']['type'] = typ
    realis = m.__dict__['__builtins__']['isinstance']

    def isin(x, c):
        if isinstance(x, Thr):
            return x.is_bw() if c is T else ~x.is_bw()
        return realis(x, c)
    m.__dict__['__builtins__']['isinstance'] = isin

    def info(i):
        return SRec({'level': SAtom(F['lvl'](sint(i))), 'upstream throughput': (Thr(i), SAtom(F['dup'](sint(i)))),
                     'penalty cycles per cacheline load': real('pl')(i),
                     'penalty cycles per cacheline store': real('ps')(i)},
                    {'penalty cycles per cacheline load': SBool(F['hpl'](sint(i))),
                     'penalty cycles per cacheline store': SBool(F['hps'](sint(i)))})
    clock, bpi = pos_real(S, 'clock'), pos_int(S, 'bytes_per_iteration')
    es = S.pick([8, 4, 16])
    cl = pos_int(S, 'elements_per_line') * es
    def seq(get):
        return VList([get(j) for j in range(n)]) if isinstance(n, int) else VList.sym(n, get)
    loads, stores, hier = seq(real('loads')), seq(real('stores')), seq(info)
    i = z3.Int('qi')
    c = ctx()
    nn = sint(n)
    rng = z3.And(i >= 0, i < nn)
    c.assume(z3.ForAll([i], z3.Implies(rng, z3.And(F['loads'](i) >= 0, F['stores'](i) >= 0, F['thr'](i) > 0,
                                                   F['mbw'](i) > 0, F['pl'](i) >= 0, F['ps'](i) >= 0,
                                                   F['lvl'](i) >= SYM_ATOM_BASE))))

    class Mach(object):
        def __getitem__(self, k):
            return {'cacheline size': Q.of(cl, 'B'), 'clock': Q.of(clock, 'Hz'), 'memory hierarchy': hier}[k]

        def get_bandwidth(self, level, r, w, tpc, cores=None):
            S.check('bandwidth is asked for the traffic of that level, one thread per core and any number of cores',
                    (r == loads[level]) & (w == stores[level]) & (tpc == 1) if cores is None else False)
            return Q.of(real('mbw')(level), 'B/s'), SAtom(F['mker'](sint(level)))

    class Pred(object):
        def get_loads(self):
            return loads

        def get_stores(self):
            return stores
    return dict(F=F, real=real, cl=cl, clock=clock, bpi=bpi, es=es, loads=loads, stores=stores, hier=hier, mach=Mach(),
                pred=Pred(), n=n, Plain=Plain)


def _expect(S, w, j):
    """Cycles of level j by the contract; also (is memory bandwidth, known duplexness)."""
    from engine.core import SNum, SBool, SAtom, sint
    real = w['real']
    dup = SAtom(w['F']['dup'](sint(j)))
    half, full = dup == 'half-duplex', dup == 'full-duplex'
    l, s = real('loads')(j), real('stores')(j)
    bw = SBool(w['F']['bw'](sint(j)))
    return l, s, half, full, bw


def _prepare(S, n):
    from engine import instr
    from engine.cont import VDict
    from .stubs import Q
    m = instr.load('kerncraft/models/ecm.py')
    m.PrefixedUnit = Q
    m.sympy = Sym
    w = _cycles_world(S, m, n)
    o = object.__new__(m.ECMData)
    o.kernel = w['Plain'](datatypes_size={'double': w['es']}, datatype='double', bytes_per_iteration=w['bpi'])
    o.machine, o.predictor = w['mach'], w['pred']
    o.results = VDict([('cycles', instr.RT.lst([]))])
    return m, w, o


def proof_cycles(S):
    """Any number of levels: each entry of the reported list."""
    from engine.core import SNum, SBool, SAtom, sint, ctx
    from engine.cont import VList
    from .stubs import Q, bi
    import z3
    S.cut_hints.append('calculate_cycles')

    def go(S):
        n = S.int('levels')
        S.assume(n >= 2)
        m, w, o = _prepare(S, n)
        o.results['memory bandwidth'] = Q.of(S.real('old bandwidth'), 'B/s')
        o.results['memory bandwidth kernel'] = S.atom('old kernel')
        o.results['penalty'] = S.real('old penalty')
        try:
            r = o.calculate_cycles()
        except ValueError:
            return
        cy = o.results['cycles']
        S.check('one entry per level', cy.vlen() == n - 1)
        F = w['F']

        def pen(t):
            i = sint(t) + 1
            z = z3.RealVal(0)
            return SNum(z3.If(F['bw'](i), z3.If(F['hpl'](i), F['loads'](i) * F['pl'](i), z) +
                              z3.If(F['hps'](i), F['stores'](i) * F['ps'](i), z), z), 'float')
        S.check('penalties are summed over the memory levels',
                o.results['penalty'] == bi(m, 'sum')(VList.sym(n - 1, pen)))
        j = S.int('j')
        S.assume((j >= 1) & (j < n))
        l, s, half, full, bw = _expect(S, w, j)
        S.check('unknown duplexness is refused', half | full)
        lines = (l + s) if half else bi(m, 'max')(l, s)
        if bw:
            exp = lines * w['cl'] * w['clock'] / w['real']('mbw')(j)
        else:
            exp = lines * w['cl'] / w['real']('thr')(j)
        lv, c = cy[j - 1]
        S.check('the levels are reported in order', lv == SAtom(w['F']['lvl'](sint(j))))
        S.check('cycles of a level follow from its traffic, width and duplexness', c == exp)
    S.run(go, 'calculate_cycles with any number of levels')


def proof_small(S):
    """Hierarchies of two levels, path by path: refusal, penalties, reported bandwidth and results by level."""
    from engine.core import SNum, SBool, SAtom, sint, ctx
    from .stubs import Q, bi
    import z3
    for n in (2, 3):
        def go(S):
            m, w, o = _prepare(S, n)
            known = True
            for j in range(1, n):
                l, s, half, full, bw = _expect(S, w, j)
                known = known & (half | full)
                for q in range(1, j):
                    ctx().assume(w['F']['lvl'](j) != w['F']['lvl'](q))
            if n > 2:
                # one representative each for the parts settled level by level
                S.assume(known)
                S.assume(w['es'] == 8)
            try:
                r = o.calculate_cycles()
            except ValueError:
                S.check('only unknown duplexness is refused', ~known if n > 1 else False)
                return
            S.check('unknown duplexness is refused', known)
            cy = o.results['cycles']
            S.check('one entry per level', cy.vlen() == n - 1)
            pen = 0
            mem = None
            for j in range(1, n):
                l, s, half, full, bw = _expect(S, w, j)
                lines = (l + s) if half else bi(m, 'max')(l, s)
                if bw:
                    exp = lines * w['cl'] * w['clock'] / w['real']('mbw')(j)
                    F = w['F']
                    pen = pen + (l * w['real']('pl')(j) if SBool(F['hpl'](z3.IntVal(j))) else 0)
                    pen = pen + (s * w['real']('ps')(j) if SBool(F['hps'](z3.IntVal(j))) else 0)
                    mem = j
                else:
                    exp = lines * w['cl'] / w['real']('thr')(j)
                lv, c = cy[j - 1]
                S.check('the levels are reported in order', lv == SAtom(w['F']['lvl'](z3.IntVal(j))))
                S.check('cycles of a level follow from its traffic, width and duplexness', c == exp)
                S.check('cycles are reported under the name of the level', o.results[SAtom(w['F']['lvl'](z3.IntVal(j)))] == exp)
            S.check('penalties are summed over the memory levels', o.results['penalty'] == pen)
            if mem is not None:
                S.check('the bandwidth used is reported', o.results['memory bandwidth'].bv == w['real']('mbw')(mem))
            S.check('iterations per line', o.results['iterations per cacheline'] * w['bpi'] == w['cl'])
        S.run(go, 'calculate_cycles with %d levels' % n)


class Sym(object):
    """sympy.Integer as an exact integer."""
    @staticmethod
    def Integer(x):
        from .stubs import Q
        from engine import core
        return x.__vint__() if isinstance(x, Q) else x


PROOFS = [('cycles', proof_cycles, ['ECMData.calculate_cycles']), ('small', proof_small, ['ECMData.calculate_cycles'])]
