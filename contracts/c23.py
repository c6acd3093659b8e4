"""C23: the cache simulator of a machine description."""
ID = 'C23'
TITLE = 'cache simulator and machine queries'
LEVEL = 'proof'
ASSUMPTIONS = ['shared caches have at least as many sets as cores are asked for', 'the proof of get_cachesim covers eight '
               'shapes of hierarchies (up to four caches), any parameters']
BOUNDED = ['get_cachesim, get_identifier, get_compiler, get_incore_model, get_bandwidth: generated and shipped machine '
           'descriptions, histories of up to 12 requests']
TRUSTED = ['pycachesim']
RULE = ('random hierarchies (inclusive, victim and write-combining caches; private, partly and fully shared) and '
        'histories of requests, simulations and queries; non-trivial: at least two simulators are requested')
SHARDS = 4
FILES = ['SandyBridgeEP_E5-2680.yml', 'Zen_EPYC-7451.yml', 'SkylakeSP_Gold-6148.yml', 'A64FX_qpace4.yml',
         'ARMv8_ThunderX2-CN9980.yml', 'HaswellEP_E5-2695v3_CoD.yml', 'Zen2_EPYC-7452.yml']


def history(rng, cores):
    ops = []
    for _ in range(rng.choice([2, 3, 4, 8, 12])):
        r = rng.random()
        if r < .45:
            ops.append(['sim', rng.choice([1, 1, 2, rng.randrange(1, cores + 1), cores])])
        elif r < .52:
            ops.append(['reset'])
        elif r < .78:
            ops.append(['use', [[rng.randrange(1 << 16) for _ in range(rng.randrange(6))] for _ in range(2)]])
        else:
            ops.append([rng.choice(['id', 'compiler', 'incore', 'bw', 'new', 'item'])])
    return ops + [['sim', rng.choice([1, cores, rng.randrange(1, cores + 1)])]]


def cases(rng, tier):
    for f in FILES:
        for i in range(2 if tier == 'quick' else 20):
            yield {'file': f, 'ops': history(rng, 24)}
    for _ in range(500 if tier == 'quick' else 10000):
        cores = rng.choice([1, 2, 3, 4, 6, 8, 12, 16, 24])
        numa = rng.choice([d for d in range(1, cores + 1) if cores % d == 0])
        n = rng.choice([1, 2, 3, 3, 4])
        lv = []
        cl = rng.choice([32, 64, 64, 128])
        kind = rng.choice(['incl', 'incl', 'incl', 'victim'])
        for i in range(n):
            share = rng.choice([1, 1, cores, rng.choice([d for d in range(1, cores + 1) if cores % d == 0]), float(cores)])
            wb, wa = rng.choice([(True, True)] * 5 + [(True, False), (False, False)])
            lv.append({'n': 'L%d' % (i + 1), 'share': share, 'sets': rng.choice([64, 128, 192, 500, 1024]) * (1 + i),
                       'ways': rng.choice([1, 2, 4, 8, 20]), 'cl': cl, 'clpu': rng.random() < .4,
                       'pol': rng.choice(['LRU', 'FIFO', 'LRU', 'MRU', 'RR']), 'wb': wb, 'wa': wa,
                       'wc': bool(wb and not wa and rng.random() < .5)})
        yield {'lv': lv, 'cores': cores, 'numa': numa, 'kind': kind if n > 1 else 'incl', 'ops': history(rng, cores)}


def trivial(c):
    return sum(o[0] == 'sim' for o in c['ops']) < 2


def build(c):
    from collections import OrderedDict
    from .common import machine_dict, PU
    names = [l['n'] for l in c['lv']] + ['MEM']
    d = machine_dict(levels=tuple(names), cores=c['cores'], numa_cores=c['numa'])
    for h, l, nxt in zip(d['memory hierarchy'], c['lv'], names[1:]):
        h['cores per group'] = l['share']
        g = OrderedDict([('sets', l['sets']), ('ways', l['ways']), ('cl_size', PU(float(l['cl']), 'B') if l['clpu'] else l['cl']),
                         ('replacement_policy', l['pol']), ('write_allocate', l['wa']), ('write_back', l['wb'])])
        if l['wc']:
            g['write_combining'] = True
        if nxt != 'MEM':
            g['load_from'] = g['store_to'] = nxt
        h['cache per group'] = g
    if c['kind'] == 'victim':
        # the last cache holds victims of the one before, which loads from memory
        g = d['memory hierarchy'][len(c['lv']) - 2]['cache per group']
        del g['load_from'], g['store_to']
        g['victims_to'] = c['lv'][-1]['n']
        if len(c['lv']) > 2:
            pass
    return d


def describe(sim):
    """Observable configuration of a simulator, level by level."""
    out = []
    for l in sim.levels(with_mem=False):
        b = l.backend
        out.append({'name': l.name, 'sets': b.sets, 'ways': b.ways, 'cl_size': b.cl_size,
                    'replacement_policy': l.replacement_policy, 'write_back': bool(b.write_back),
                    'write_allocate': bool(b.write_allocate), 'write_combining': bool(b.write_combining),
                    'load_from': l.load_from.name if l.load_from else None,
                    'store_to': l.store_to.name if l.store_to else None,
                    'victims_to': l.victims_to.name if l.victims_to else None})
    return out


def check(c):
    import copy
    import os
    from kerncraft.machinemodel import MachineModel
    from .common import machine, Args
    if 'file' in c:
        import kerncraft
        p = os.path.join(os.path.dirname(os.path.dirname(kerncraft.__file__)), 'examples', 'machine-files', c['file'])
        if not os.path.exists(p):
            p = os.path.join(os.environ.get('KC_REPO', '/repo'), 'examples', 'machine-files', c['file'])
        make = lambda: MachineModel(p, args=Args(compiler='cc', compiler_flags='-O1 -g'))
    else:
        make = lambda: MachineModel(machine_yaml=copy.deepcopy(data), args=Args(compiler='cc', compiler_flags='-O1 -g'))
        data = build(c)
    m = make()
    before = repr(m._data)
    ident = m.get_identifier()
    hier = [h for h in copy.deepcopy(m['memory hierarchy']) if 'cache per group' in h]
    sim = None
    for op in c['ops']:
        if op[0] == 'sim':
            n = op[1]
            sim = m.get_cachesim(n) if n != 1 or len(c['ops']) % 2 else m.get_cachesim()
            got = {g['name']: g for g in describe(sim)}
            if sorted(got) != sorted(h['level'] for h in hier):
                return 'the simulator has the levels %r instead of %r' % (sorted(got), [h['level'] for h in hier])
            total = 0
            for h in hier:
                g = h['cache per group']
                share = int(min(h['cores per group'], m['cores per NUMA domain'], n))
                want = {'name': h['level'], 'sets': int(g['sets']) // max(1, share), 'ways': g['ways'],
                        'cl_size': int(g['cl_size']), 'replacement_policy': g.get('replacement_policy', 'LRU'),
                        'write_back': bool(g.get('write_back', True)), 'write_allocate': bool(g.get('write_allocate', True)),
                        'write_combining': bool(g.get('write_combining', False)), 'load_from': g.get('load_from'),
                        'store_to': g.get('store_to'), 'victims_to': g.get('victims_to')}
                if got[h['level']] != want:
                    return '%d cores: level %s is %r instead of %r' % (n, h['level'], got[h['level']], want)
                total += want['sets'] * want['ways']
            if sim.count_invalid_entries() != total:
                return '%d cores: the simulator starts with %d of %d entries filled' % (
                    n, total - sim.count_invalid_entries(), total)
            for s in list(sim.stats())[:-1]:
                if any(v for k, v in s.items() if k != 'name'):
                    return '%d cores: the simulator starts with counters %r' % (n, s)
        elif op[0] == 'use' and sim is not None and not any(l['wc'] for l in c.get('lv', [])):
            sim.load(op[1][0], length=8)
            # pycachesim itself crashes on stores without write-allocation and in write-combining caches
            if 'file' not in c and all(l['wb'] and l['wa'] for l in c['lv']):
                sim.store(op[1][1], length=8)
            else:
                sim.load(op[1][1], length=4)
        elif op[0] == 'reset' and sim is not None:
            sim.reset_stats()
        elif op[0] == 'id':
            pass
        elif op[0] == 'compiler':
            r = m.get_compiler()
            if r[0] != 'cc' or r[1] != ['-O1', '-g']:
                return 'compiler given as cc -O1 -g is reported as %r' % (r,)
        elif op[0] == 'incore':
            if m.get_incore_model() != next(iter(m['in-core model'])) or m.get_incore_model('X') != 'X':
                return 'in-core model is %r' % m.get_incore_model()
        elif op[0] == 'bw':
            m.get_bandwidth(0, 2, 1, 1)
        elif op[0] == 'new':
            m2 = make()
            if m2.get_identifier() != ident:
                return 'the same description has the identifiers %r and %r' % (ident, m2.get_identifier())
            if m2.get_cachesim(2) is sim:
                return 'two machines share one simulator'
        elif op[0] == 'item':
            if 'clock' not in m or m['clock'] is None:
                return 'clock is missing'
        if repr(m._data) != before:
            return '%r changes the machine description' % (op,)
        if m.get_identifier() != ident:
            return '%r changes the identifier from %r to %r' % (op, ident, m.get_identifier())
    if 'file' not in c:
        d2 = copy.deepcopy(data)
        d2['memory hierarchy'][0]['cache per group']['ways'] *= 2
        if MachineModel(machine_yaml=d2).get_identifier() == ident:
            return 'different descriptions share the identifier %r' % ident
    return None


# ------------------------------------------------------------------ proofs
class _Simulator(object):
    """Simulator returned by pycachesim: built from a description, in any state after use."""
    def __init__(self, desc):
        self.desc, self.empty, self.zero = desc, True, True

    def mark_all_invalid(self):
        self.empty = True

    def reset_stats(self):
        self.zero = True

    def use(self, emptied):
        self.empty, self.zero = emptied, False

    def levels(self, with_mem=True):
        raise AssertionError('not part of the contract')


def _machine(S, m, shape):
    """A machine description: one letter per level (p private, s shared cache, S either, M memory)."""
    from engine.cont import VList, VDict
    from .stubs import Q, pos_int
    levels, info = [], []
    for i, t in enumerate(shape):
        name = 'MEM' if t == 'M' else 'L%d' % (i + 1)
        cpg = 1 if t == 'p' else S.int('cores_per_group_%d' % i)
        if t == 's':
            S.assume(cpg >= 2)
        if t in 'SM':
            S.assume(cpg >= 1)
        d = [('level', name), ('cores per group', cpg), ('groups', pos_int(S, 'groups_%d' % i))]
        if t != 'M':
            cl = pos_int(S, 'cl_size_%d' % i)
            f = [('sets', pos_int(S, 'sets_%d' % i)), ('ways', pos_int(S, 'ways_%d' % i)), ('cl_size', Q.of(cl, 'B')),
                 ('replacement_policy', 'LRU'), ('write_allocate', S.bool('write_allocate_%d' % i)),
                 ('write_back', True)]
            if i:
                f += [('store_to', None)]
            else:
                f += [('load_from', 'L2'), ('store_to', 'L2')]
            d.append(('cache per group', VDict(f)))
            info.append((name, cpg, [(k, cl if k == 'cl_size' else v) for k, v in f]))
        levels.append(VDict(d))
    numa = pos_int(S, 'cores_per_numa_domain')
    o = object.__new__(m.MachineModel)
    o._data = VDict([('memory hierarchy', VList(levels)), ('cores per NUMA domain', numa), ('clock', S.real('clock'))])
    o._path, o._args = None, None
    return o, info, numa


def proof_cachesim(S):
    """get_cachesim: any parameters and cores, after any history; hierarchies of up to four caches."""
    import copy
    import z3
    from engine import instr
    from engine.core import sint, mk, floordiv_term
    from engine.cont import veq
    from .stubs import Plain, pos_int
    for shape in ('pM', 'SM', 'spM', 'pSM', 'ppSM', 'pssM', 'sSS', 'pppsM'):
        for history in ('first', 'again', 'later', 'other'):
            def go(S):
                m = instr.load('kerncraft/machinemodel.py')
                o, info, numa = _machine(S, m, shape)
                before = copy.deepcopy(o._data)
                made = []

                def from_dict(d):
                    s = _Simulator(copy.deepcopy(d))
                    made.append(s)
                    # what is done with the description given is up to the simulator
                    for k in list(d.keys()):
                        d[k]['sets'] = 'consumed'
                    return s, 'caches', 'memory'
                m.cachesim = Plain(CacheSimulator=Plain(from_dict=from_dict))
                cores = pos_int(S, 'cores')
                if history == 'later':
                    # any request and use before
                    c0 = pos_int(S, 'cores_before')
                    o.get_cachesim(c0).use(S.pick([True, False]))
                if history == 'other':
                    # a request to an equal description; its simulator stays its own
                    o2 = object.__new__(m.MachineModel)
                    o2._data, o2._path, o2._args = copy.deepcopy(o._data), None, None
                    other = o2.get_cachesim(cores)
                    other.use(S.pick([True, False]))
                if history == 'again':
                    o.get_cachesim(cores).use(S.pick([True, False]))
                s = o.get_cachesim(cores) if history != 'first' or S.pick([True, False]) else None
                if s is None:
                    s, want_cores = o.get_cachesim(), 1
                else:
                    want_cores = cores
                if history == 'other':
                    S.check('no simulator is shared between descriptions', bool(s is not other and other.zero is False))
                S.check('the simulator is empty', bool(s.empty))
                S.check('all counters are zero', bool(s.zero))
                S.check('exactly the caches described', bool(set(s.desc.keys()) == {n for n, _, _ in info}
                                                             and len(s.desc.keys()) == len(info)))
                for name, cpg, fields in info:
                    d = s.desc[name]
                    S.check('exactly the parameters described', bool(set(d.keys()) == {k for k, _ in fields}))
                    for k, v in fields:
                        if k == 'sets':
                            a, b, c = sint(want_cores), sint(cpg), sint(numa)
                            share = z3.If(a <= b, z3.If(a <= c, a, c), z3.If(b <= c, b, c))
                            v = mk(z3.If(b > 1, sint(v) / share, sint(v)), 'int')
                        S.check('%s as described' % k, veq(d[k], v))
                S.check('the description is unchanged', veq(o._data, before))
            S.run(go, 'get_cachesim, %s, %s request' % (shape, history))


PROOFS = [('cachesim', proof_cachesim, ['MachineModel.get_cachesim'])]
