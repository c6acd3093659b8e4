"""C16: bandwidth lookup."""
ID = 'C16'
TITLE = 'bandwidth lookup'
LEVEL = 'proof'
ASSUMPTIONS = ['the description holds the benchmark kernel "load" without write streams, a measurement for every core '
               'count asked for, and one for at least one core count within the shared level and NUMA domain',
               'machine arithmetic treated as exact']
BOUNDED = ['get_bandwidth: generated descriptions of up to 7 benchmark kernels, 5 levels and 24 cores']
TRUSTED = ['PrefixedUnit arithmetic (C01)']
RULE = 'random machine descriptions, stream counts, levels and core counts; non-trivial: more than one benchmark kernel'
SHARDS = 4


def cases(rng, tier):
    for lvl in (0, 1, 2, 3, -1):
        for r, w in ((1, 0), (0, 0), (0, 1), (1, 1), (2, 1), (3, 1), (1.5, 0.5), (0.25, 0), (7, 2), (0, 3.5), (1e-3, 1e3)):
            for cores in (None, 1, 2, 8):
                yield {'kern': 'std', 'r': r, 'w': w, 'lvl': lvl, 'cores': cores, 'seed': 1, 'n': 8, 'numa': 8,
                       'nlev': 4, 'list': None}
                yield {'kern': 'std', 'r': r, 'w': w, 'lvl': lvl, 'cores': cores, 'seed': 2, 'n': 8, 'numa': 4,
                       'nlev': 4, 'list': [8, 4, 2, 1]}
    for _ in range(1500 if tier == 'quick' else 30000):
        n = rng.choice([1, 2, 4, 8, 12, 24])
        numa = rng.choice([d for d in (1, 2, 3, 4, 6, 8, 12, 24) if n % d == 0])
        nlev = rng.choice([1, 2, 3, 4, 4, 5])
        lst = None
        if rng.random() < .5:
            lst = rng.sample(range(1, n + 1), rng.randrange(1, n + 1))
            if 1 not in lst:
                lst.append(1)
            if rng.random() < .3:
                lst.sort()
        kern = 'std'
        if rng.random() < .8:
            kern = [['load', rng.choice([1, 2]), 0, 0]]
            for nm in rng.sample(['a', 'copy', 'm', 'update', 'zz', 'Load', 'store'], rng.randrange(0, 7)):
                w = rng.choice([0, 1, 1, 1, 2, 3])
                rd = rng.choice([0, 1, 1, 2, 3, 4, 7])
                kern.append([nm, rd, rng.randrange(0, min(rd, w) + 1), w])
        r = rng.choice([0, 1, 2, 3, rng.randrange(0, 12), rng.random() * 5])
        w = rng.choice([0, 1, 1, 2, rng.randrange(0, 6), rng.random() * 5])
        yield {'kern': kern, 'r': r, 'w': w, 'lvl': rng.choice(list(range(nlev)) + [-1]),
               'cores': rng.choice([None, None] + (lst or list(range(1, n + 1)))), 'seed': rng.randrange(10 ** 6),
               'n': n, 'numa': numa, 'nlev': nlev, 'list': lst, 'tpc': rng.choice([1, 1, 1, 2])}


def trivial(c):
    return c['kern'] != 'std' and len(c['kern']) == 1


LEVELS = {1: ('MEM',), 2: ('L1', 'MEM'), 3: ('L1', 'L2', 'MEM'), 4: ('L1', 'L2', 'L3', 'MEM'),
          5: ('L1', 'L2', 'L3', 'L4', 'MEM')}


def check(c):
    import random
    from fractions import Fraction
    from .common import machine, close, BENCH_KERNELS, hash_
    rng = random.Random(c['seed'])
    levels = LEVELS[c['nlev']]
    kern = dict(BENCH_KERNELS) if c['kern'] == 'std' else {
        k[0]: (k[1], 8 * k[1], k[2], 8 * k[2], k[3], 8 * k[3]) for k in c['kern']}
    if c['seed'] % 3 == 0:
        # other element sizes
        kern = {k: (v[0], v[0] * s, v[2], v[2] * s, v[4], v[4] * s) for k, v in kern.items()
                for s in [rng.choice([4, 8, 16])]}
    lst = c['list'] or list(range(1, c['n'] + 1))

    def meas():
        return {lv: {k: [rng.randrange(1, 10 ** 6) * 1e6 for _ in lst] for k in kern} for lv in levels}
    res = meas()
    tpcs = (1, 2)
    res[2] = meas()
    shared = {lv: rng.choice([1, c['numa'], c['n'], 2]) for lv in levels}
    m = machine(levels=levels, cores=c['n'], numa_cores=c['numa'], bench_kernels=kern, results=res, cores_list=lst,
                shared=shared, tpcs=tpcs)
    if c['seed'] % 2:
        # order of the entries of the description must not matter
        ks = m['benchmarks']['kernels']
        for k in sorted(ks, reverse=True):
            ks[k] = ks.pop(k)
    before = repr(m._data)
    tpc = c.get('tpc', 1)
    args = (c['lvl'], c['r'], c['w'], tpc)
    bw, name = m.get_bandwidth(*args) if c['cores'] is None else m.get_bandwidth(*args, cores=c['cores'])
    if repr(m._data) != before:
        return 'the lookup changed the machine description'
    what = 'get_bandwidth(%r, %r, %r, %r, cores=%r) with kernels %r' % (*args, c['cores'], kern)
    if name not in kern:
        return '%s chooses unknown kernel %r' % (what, name)
    inf = Fraction(10 ** 30)

    def ratio(v):
        return Fraction(v[0] + v[4] - v[2]) / v[4] if v[4] else inf

    target = Fraction(c['r']) / Fraction(c['w']) if c['w'] else inf
    dist = {k: abs(ratio(v) - target) for k, v in kern.items()}
    if dist[name] > min(dist.values()) + Fraction(1, 10 ** 9):
        best = min(dist, key=dist.get)
        return '%s chooses %s (ratio %s) although %s (ratio %s) is closer to %s' % (
            what, name, float(ratio(kern[name])), best, float(ratio(kern[best])), float(target))
    lv = levels[c['lvl']]
    r = (res if tpc == 1 else res[2])[lv][name]
    if c['cores'] is not None:
        want = r[lst.index(c['cores'])]
    else:
        limit = min(shared[lv], c['numa'])
        want = max(b for n, b in zip(lst, r) if n <= limit)
    v = kern[name]
    factor = 1.0
    if c['lvl'] not in (0, -c['nlev']) and not (c['nlev'] == 1):
        factor = (v[1] + 2.0 * v[5] - v[3]) / (v[1] + v[5])
    elif c['nlev'] == 1 and c['lvl'] == -1:
        factor = None       # only level, addressed as last level: unspecified
    if factor is not None and not close(float(bw), want * factor):
        return '%s gives %r, expected %r (measured %r, factor %r, cores %r)' % (what, bw, want * factor, want, factor, lst)
    if getattr(bw, 'unit', 'B/s') != 'B/s':
        return '%s gives unit %r' % (what, bw)
    return None


# ------------------------------------------------------------------ proofs
def proof_bandwidth(S):
    """Any number of benchmark kernels, levels and measurements."""
    import z3
    from engine import instr
    from engine.core import SNum, SAtom, SBool, sint, sreal, mk, zb, SYM_ATOM_BASE, atom_id, ctx
    from engine.cont import VList, VDict
    from .stubs import Ext, INF, float_with_inf
    S.cut_hints.append('get_bandwidth')
    I, R = z3.IntSort(), z3.RealSort()
    name = S.func('kernel_name', I, I)
    cnt = {k: S.func('streams_' + k, I, R) for k in ('r', 'w', 'rw')}
    byt = {k: S.func('bytes_' + k, I, R) for k in ('r', 'w', 'rw')}
    A = S.func('closest', I, I)
    level = S.func('level', I, I)
    meas = S.func('measured', I, I, I, I, R)
    ncores = S.func('measured_cores', I, I, I, I)
    per_group = S.func('cores_per_group', I, I)

    def ratio(j):
        return (cnt['r'](j) + cnt['w'](j) - cnt['rw'](j)) / cnt['w'](j)

    class Info(object):
        """Description of benchmark kernel j."""
        def __init__(self, j):
            self.j = j

        def __getitem__(self, k):
            t = {'read streams': 'r', 'write streams': 'w', 'read+write streams': 'rw'}[k]
            j = sint(self.j)
            return VDict([('streams', Ext(mk(cnt[t](j), 'float'))), ('bytes', mk(byt[t](j), 'float'))])

        def __vflat__(self):
            return 'Info', [self.j]

        @classmethod
        def __vunflat__(cls, sk, leaves):
            return cls(*leaves)

        def __vleaves__(self):
            return [self.j]

        def __vsubst__(self, pairs):
            from engine.loops import vsubst
            return Info(vsubst(self.j, pairs))

        def __vsame__(self, o):
            from engine.loops import same
            return same(self.j, o.j)

        def __vmerge__(self, c, o):
            from engine.cont import merge
            return Info(merge(c, self.j, o.j))

        def __deepcopy__(self, memo):
            return self

    rs, ws = SNum(z3.Real('read_streams'), 'float'), SNum(z3.Real('write_streams'), 'float')

    def dist(j):
        d = ratio(j) - sreal(rs) / sreal(ws)
        return z3.If(d >= 0, d, -d)

    def better(j, a):
        """Definition: j is closer to the target than the best so far (a, or none if negative)."""
        return z3.And(sreal(ws) != 0, cnt['w'](j) != 0, z3.Or(a < 0, dist(j) < dist(a)))

    def rec(j):
        """Definition of the closest among the first j, instantiated."""
        for i in (j, z3.simplify(j + 1)):
            S.define(z3.Implies(i == 0, A(i) == -1))
            S.define(z3.Implies(i >= 1, A(i) == z3.If(better(i - 1, A(i - 1)), i - 1, A(i - 1))))
            S.define(z3.Implies(i >= 0, z3.And(A(i) >= -1, A(i) < z3.If(i >= 1, i, z3.IntVal(1)),
                                               z3.Implies(A(i) >= 0, z3.And(cnt['w'](A(i)) != 0, sreal(ws) != 0)))))

    def induction(S):
        """What the recurrence amounts to, by induction: nothing among the first k is closer."""
        S.assume((rs >= 0) & (ws >= 0))
        k, j = sint(S.int('k')), sint(S.int('j'))
        none_better = lambda a, j: z3.Not(better(j, a))
        S.assume(z3.And(k >= 0, A(k) >= -1, A(k) < z3.If(k >= 1, k, z3.IntVal(1)), j >= 0))
        S.assume(z3.Implies(A(k) >= 0, z3.And(cnt['w'](A(k)) != 0, sreal(ws) != 0)))
        S.assume(z3.Implies(j < k, none_better(A(k), j)))
        S.assume(A(k + 1) == z3.If(better(k, A(k)), k, A(k)))
        S.check('the choice is one of the kernels or none', z3.And(A(k + 1) >= -1, A(k + 1) < k + 1))
        S.check('the choice has a finite ratio', z3.Implies(A(k + 1) >= 0, z3.And(cnt['w'](A(k + 1)) != 0,
                                                                                  sreal(ws) != 0)))
        S.check('no kernel seen is closer', z3.Implies(j < k + 1, none_better(A(k + 1), j)))
    S.run(induction, 'closest ratio, by induction')

    for given in (False, True):
        def go(S):
            m = instr.load('kerncraft/machinemodel.py')
            float_with_inf(m)
            m.__dict__['__builtins__']['sorted'] = lambda x, **k: x    # the order of the kernels is arbitrary
            n, jl, nlev, nrun = S.int('n_kernels'), S.int('load'), S.int('n_levels'), S.int('n_runs')
            lvl, tpc, numa = S.int('cache_level'), S.int('threads_per_core'), S.int('cores_per_NUMA_domain')
            cores, at = S.int('cores'), S.int('index')
            S.assume((jl >= 0) & (jl < n) & (lvl >= 0) & (lvl < nlev) & (nrun >= 1) & (rs >= 0) & (ws >= 0))
            S.assume(name(sint(jl)) == atom_id('load'))
            S.assume(cnt['w'](sint(jl)) == 0)
            lv = level(sint(lvl))

            def nm(j):
                return SAtom(name(sint(j)))

            class Kernels(object):
                def __getitem__(self, k):
                    assert k == 'load'
                    return Info(jl)

                def items(self):
                    return VList.sym(n, lambda j: (nm(j), Info(j)))

            class Runs(object):
                def __init__(self, l, t):
                    self.l, self.t = l.t, sint(t)

                def __getitem__(self, k):
                    if k == 'threads per core':
                        return tpc
                    if k == 'cores':
                        v = VList.sym(nrun, lambda i: SNum(ncores(self.l, self.t, sint(i)), 'int'))

                        class Cores(object):
                            def index(s, c):
                                S.assume((at >= 0) & (at < nrun))
                                S.assume(ncores(self.l, self.t, sint(at)) == sint(c))
                                return at
                        return Cores() if given else v
                    outer = self

                    class Res(object):
                        def __getitem__(s, kern):
                            kk = kern.t if isinstance(kern, SAtom) else z3.IntVal(atom_id(kern))
                            return VList.sym(nrun, lambda i: mk(meas(outer.l, outer.t, kk, sint(i)), 'float'))
                    return Res()

            class Map(object):
                def __init__(self, f):
                    self.f = f

                def __getitem__(self, k):
                    return self.f(k)

            class Mach(object):
                def __getitem__(self, k):
                    return {'benchmarks': VDict([('kernels', Kernels()),
                                                 ('measurements', Map(lambda l: Map(lambda t: Runs(l, t))))]),
                            'memory hierarchy': Map(lambda i: VDict([
                                ('level', SAtom(level(sint(i)))),
                                ('cores per group', SNum(per_group(sint(i)), 'int'))])),
                            'cores per NUMA domain': numa}[k]

            def hint(L, slot, i, kind):
                def best(kk):
                    rec(kk)
                    return A(kk)
                sk = L.mods[slot][1] if len(L.mods[slot]) > 1 else None
                if kind == 'str':
                    return lambda kk: SAtom(z3.If(best(kk) < 0, z3.IntVal(atom_id('load')), name(A(kk))))
                if isinstance(sk, tuple) and sk[0] == 'O' and sk[1] is Info:
                    return lambda kk: mk(z3.If(best(kk) < 0, sint(jl), A(kk)), 'int')
                if isinstance(sk, tuple) and sk[0] == 'O' and sk[1] is Ext:
                    if kind == 'int':
                        return lambda kk: mk(z3.If(best(kk) < 0, z3.IntVal(1), z3.IntVal(0)), 'int')
                    return lambda kk: mk(z3.If(best(kk) < 0, z3.RealVal(0), ratio(A(kk))), 'float')
            S.closed_hints[:] = [hint]
            S.example[:] = [n == 1, jl == 0, nlev == 1, nrun == 1, rs == 1, ws == 1]
            if not given:
                S.assume(ncores(lv, sint(tpc), 0) <= z3.If(per_group(sint(lvl)) < sint(numa), per_group(sint(lvl)), sint(numa)))
            for j in (sint(jl), A(sint(n))):
                S.assume(z3.And(byt['r'](j) >= 0, byt['w'](j) >= 0, byt['r'](j) + byt['w'](j) > 0))
            o = Mach()
            from engine import reduce as red
            try:
                bw, kern = m.MachineModel.get_bandwidth(o, lvl, Ext(rs), Ext(ws), tpc, *([cores] if given else []))
            except ValueError:
                for r in ctx().reductions:
                    if r.op == 'any':
                        S.assume(red.bound(r, z3.IntVal(0)))
                S.check('a bandwidth is found if one was measured within a NUMA domain', False)
                return
            rec(sint(n))
            a = A(sint(n))
            chosen = z3.If(a < 0, sint(jl), a)
            S.check('the kernel reported is the one with the closest ratio, or load',
                    kern == SAtom(name(chosen)))
            factor = z3.If(sint(lvl) == 0, z3.RealVal(1),
                           (byt['r'](chosen) + 2 * byt['w'](chosen) - byt['rw'](chosen)) /
                           (byt['r'](chosen) + byt['w'](chosen)))
            t = sint(tpc)
            if given:
                S.check('the measurement for the cores asked for, corrected for write-allocates',
                        sreal(bw) == meas(lv, t, name(chosen), sint(at)) * factor)
            else:
                i = sint(S.int('i'))
                limit = z3.If(per_group(sint(lvl)) < sint(numa), per_group(sint(lvl)), sint(numa))
                ctx_reds = [r for r in ctx().reductions if r.op == 'max']
                S.check('one maximum over the measurements', len(ctx_reds) == 1)
                r = ctx_reds[0]
                S.assume(red.bound(r, i))
                top = r.term
                S.check('the bandwidth is the maximum, corrected for write-allocates', sreal(bw) == top * factor)
                S.check('no measurement of the chosen kernel within a NUMA domain exceeds it', z3.Implies(
                    z3.And(i >= 0, i < sint(nrun), ncores(lv, t, i) <= limit), top >= meas(lv, t, name(chosen), i)))
                S.check('it is one of these measurements', z3.Or(*[
                    z3.And(w >= 0, w < sint(nrun), ncores(lv, t, w) <= limit, top == meas(lv, t, name(chosen), w))
                    for w in witnesses(ctx())]))
        S.run(go, 'get_bandwidth, cores %s' % ('given' if given else 'not given'))


def witnesses(c):
    """Constants introduced by the contract of max() as the place where it is attained."""
    import z3
    out, seen, todo = {}, set(), list(c.pc)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith('arg!'):
            out[t.get_id()] = t
        todo.extend(t.children())
    return list(out.values())


PROOFS = [('bandwidth', proof_bandwidth, ['MachineModel.get_bandwidth'])]
