"""C04: the sweep driver and the identifiers of stored results."""
import contextlib
import io
import itertools
import os
import pickle
import shutil
import tempfile

ID = 'C04'
TITLE = 'constant sweeps and result identifiers'
LEVEL = 'proof'
ASSUMPTIONS = ['models are replaced by recording stand-ins with the interface of PerformanceModel']
ASSUMPTIONS += ['in the proof the kernel, the machine, the models, pickle and the file system are contract stubs; kernels of six '
                'kinds (loop bounds, dimensions, read and written references with constants), at most three constants and '
                'four -D options of at most three values each (any values, any coincidences between them)']
BOUNDED = ['whole driver with its option parsing: directed and random command lines over six kernels']
TRUSTED = ['argparse, pickle']
RULE = ('random command lines (constants, ranges, defaults, duplicates, models, options) over kernels with 0-3 constants '
        'plus pairs of runs that differ in one option; non-trivial: at least two evaluations or two runs')

KERNELS = {
    'none': ('double a[100], b[100];\nfor(int i=0; i<100; i++)\n  a[i] = b[i];\n', []),
    'one': ('double a[N], b[N];\nfor(int i=0; i<N; i++)\n  a[i] = b[i];\n', ['N']),
    'two': ('double a[M][N], b[M][N];\nfor(int j=1; j<M-1; j++)\n  for(int i=1; i<N-1; i++)\n    b[j][i] = a[j][i-1];\n',
            ['M', 'N']),
    'three': ('double a[M][N][N], b[M][N][N];\ndouble s;\nfor(int k=P; k<M; k++)\n  for(int j=0; j<N; j++)\n'
              '    for(int i=0; i<N; i++)\n      b[k][j][i] = s * a[k][j][i];\n', ['M', 'N', 'P']),
    'idx': ('double a[1000];\nfor(int i=0; i<100; i++)\n  a[i+OFF] = a[i];\n', ['OFF']),
    'bound': ('double a[5000];\nfor(int i=L; i<H; i++)\n  a[i] = 1.0;\n', ['H', 'L']),
}
SERIAL = itertools.count()
MODELS = ['ECM', 'ECMData', 'ECMCPU', 'RooflineFLOP', 'RooflineASM', 'LC', 'Benchmark']
OPTIONS = {
    'cores': [[], ['--cores', '2'], ['-c', '4']],
    'predictor': [[], ['-P', 'LC']],
    'compiler': [[], ['-C', 'icc'], ['--compiler', 'clang']],
    'flags': [[], ['--compiler-flags=-O1'], ['--compiler-flags=-O2']],
    'incore': [[], ['-i', 'IACA'], ['-i', 'LLVM-MCA']],
    'block': [[], ['--asm-block', '1'], ['--asm-block', '2']],
    'incr': [[], ['--pointer-increment', '8'], ['--pointer-increment', '16'],
             ['--pointer-increment', 'auto_with_manual_fallback']],
    'machine': [[], ['MACHINE2'], ['MACHINE3']],
    'kernel': [[], ['KERNEL2'], ['KERNEL3']],
}
NEUTRAL = {
    'verbose': [[], ['-v'], ['-vv']],
    'unit': [[], ['-u', 'cy/It'], ['-u', 'It/s'], ['-u', 'cy/CL']],
    'store': [[], ['STORE']],
}


def rng_text(rng):
    r = rng.random()
    if r < .5:
        return str(rng.randrange(3, 9))
    if r < .8:
        a = rng.randrange(3, 7)
        return '%d-%d' % (a, a + rng.randrange(0, 3))
    a = rng.randrange(3, 7)
    return '%d-%d:%d' % (a, a + rng.randrange(1, 12), rng.randrange(2, 4))


def cases(rng, tier):
    yield {'k': 'run', 'kernel': 'none', 'D': [], 'p': ['ECMData']}
    yield {'k': 'run', 'kernel': 'none', 'D': [['N', '5']], 'p': ['ECMData', 'LC']}
    for kn in KERNELS:
        for d in ([['.', '3-5']], [['.', '5'], ['.', '6']], [['.', '3'], ['N', '3-4'], ['M', '9']], [['N', '5'], ['N', '5-6']],
                  [['M', '7'], ['.', '7']], []):
            yield {'k': 'run', 'kernel': kn, 'D': d, 'p': ['ECM', 'LC', 'ECM']}
    for o, vs in OPTIONS.items():
        for x, y in itertools.combinations(range(len(vs)), 2):
            yield {'k': 'opts', 'o': o, 'x': x, 'y': y, 'kernel': 'two', 'D': [['N', '5'], ['M', '4-5']],
                   'p': ['ECMData', 'LC']}
    for o, vs in NEUTRAL.items():
        for x, y in itertools.combinations(range(len(vs)), 2):
            yield {'k': 'opts', 'o': o, 'x': x, 'y': y, 'kernel': 'two', 'D': [['N', '5'], ['M', '4-5']],
                   'p': ['ECMData', 'LC']}
    for s in range(3):
        yield {'k': 'store', 'kernel': 'two', 'seq': [[['N', '5'], ['M', '4-5']], [['N', '6'], ['M', '4']],
                                                      [['N', '5'], ['M', '5-6']]], 'p': ['ECMData'], 'json': s == 1}
    for _ in range(120 if tier == 'quick' else 3000):
        kn = rng.choice(list(KERNELS))
        names = KERNELS[kn][1]
        d = []
        for n in names:
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                d.append([n, rng_text(rng)])
        if rng.random() < .4:
            d.append(['.', rng_text(rng)])
        if rng.random() < .2:
            d.append(['UNUSED', rng_text(rng)])
        rng.shuffle(d)
        p = [rng.choice(MODELS) for _ in range(rng.choice([1, 1, 2, 3]))]
        r = rng.random()
        if r < .7:
            yield {'k': 'run', 'kernel': kn, 'D': d, 'p': p}
        elif r < .85:
            g = rng.choice([OPTIONS, NEUTRAL])
            o = rng.choice(list(g))
            x, y = rng.sample(range(len(g[o])), 2)
            yield {'k': 'opts', 'o': o, 'x': x, 'y': y, 'kernel': kn, 'D': d, 'p': p}
        else:
            yield {'k': 'store', 'kernel': kn, 'seq': [d, [[n, rng_text(rng)] for n in names]], 'p': p,
                   'json': rng.random() < .3}


def trivial(c):
    return c['k'] == 'run' and not c['D']


def expand(t):
    from contracts.c03 import STRICT
    m = STRICT.fullmatch(t)
    a, b, n = int(m.group(1)), m.group(2), m.group(3)
    if b is None:
        return [a]
    if n is None:
        return list(range(a, int(b) + 1))
    n, b = int(n), int(b)
    return None  # spacing is C03's subject: taken from the parser


def wanted(kernel, D, values):
    """All combinations the command line asks for, or None if a constant has no value."""
    names = KERNELS[kernel][1]
    per = {n: [] for n in names}
    for key, vals in values:
        for n in names:
            if key in (n, '.'):
                for v in vals:
                    if v not in per[n]:
                        per[n].append(v)
    if any(n not in [k for k, _ in values] and '.' not in [k for k, _ in values] for n in names):
        return None
    return [dict(zip(names, t)) for t in itertools.product(*[per[n] for n in names])]


class World(object):
    """Scratch directory with machine files and kernels, models replaced by recorders."""
    def __init__(self):
        import kerncraft.models as models
        from kerncraft import kerncraft as kc
        from kerncraft import __version__
        from kerncraft.kernel import symbol_pos_int
        self.kc = kc
        self.dir = tempfile.mkdtemp()
        for n in ('m1.yml', 'm2.yml'):
            with open(os.path.join(self.dir, n), 'w') as f:
                f.write('kerncraft version: %s\nmodel name: %s\ncacheline size: 64 B\n' % (__version__, n))
        for n, (code, _) in KERNELS.items():
            for s in ('', '_2'):
                with open(os.path.join(self.dir, n + s + '.c'), 'w') as f:
                    f.write(code)
        sub = os.path.join(self.dir, 'other')
        os.mkdir(sub)
        for n in os.listdir(self.dir):
            if n != 'other':
                shutil.copy(os.path.join(self.dir, n), sub)
        self.log = []
        log = self.log
        self.saved = {}

        def recorder(name):
            class Rec(object):
                @classmethod
                def configure_arggroup(cls, parser):
                    pass

                def __init__(self, kernel, machine, args=None, parser=None, **kw):
                    self.kernel, self.results = kernel, {}

                def analyze(self):
                    consts = {str(k): int(v) for k, v in self.kernel.constants.items()}
                    seen = {n: self.kernel.subs_consts(symbol_pos_int(n)) for n in consts}
                    log.append((name, consts, {n: int(v) for n, v in seen.items()}))
                    self.results = {'model': name, 'consts': sorted(consts.items()), 'serial': next(SERIAL)}

                def report(self, output_file=None):
                    print('report', file=output_file)
            Rec.name = name
            Rec.__name__ = name
            return Rec
        for n in MODELS + ['PerformanceModel', 'RooflineIACA']:
            self.saved[n] = getattr(models, n)
            setattr(models, n, recorder(n))
        self.models = models

    def close(self):
        for n, v in self.saved.items():
            setattr(self.models, n, v)
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, kernel, D, p, extra=(), store=None, json=None):
        extra = list(extra)
        mf, kf = 'm1.yml', kernel + '.c'
        if extra == ['MACHINE2']:
            mf, extra = 'm2.yml', []
        if extra == ['KERNEL2']:
            kf, extra = kernel + '_2.c', []
        # files of the same name in another directory
        if extra == ['MACHINE3']:
            mf, extra = os.path.join('other', 'm1.yml'), []
        if extra == ['KERNEL3']:
            kf, extra = os.path.join('other', kernel + '.c'), []
        if extra == ['STORE']:
            store, extra = 'neutral.pickle', []
        argv = ['-m', os.path.join(self.dir, mf)]
        for m in p:
            argv += ['-p', m]
        for k, v in D:
            argv += ['-D', k, v]
        if store:
            argv += ['--store', os.path.join(self.dir, store)]
        if json:
            argv += ['--json', os.path.join(self.dir, json)]
        argv += extra + [os.path.join(self.dir, kf)]
        parser = self.kc.create_parser()
        args = parser.parse_args(argv)
        self.kc.check_arguments(args, parser)
        values = [(k, list(v)) for k, v in args.define]
        del self.log[:]
        out = io.StringIO()
        err = None
        res = None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                res = self.kc.run(parser, args, output_file=out)
        except ValueError as e:
            err = e
        return values, res, err, list(self.log)


def examine(c, values, res, err, log, D):
    want = wanted(c['kernel'], D, values)
    what = '%s -D %r -p %r' % (c['kernel'], D, c['p'])
    if want is None:
        if err is None:
            return '%s: a constant without value was not refused, evaluated %r' % (what, log[:4])
        if log:
            return '%s: models were evaluated although a constant has no value' % what
        return None
    if err is not None:
        return '%s: refused with %r' % (what, err)
    models = []
    for m in c['p']:
        if m not in models:
            models.append(m)
    exp = sorted((m, sorted(w.items())) for w in want for m in models)
    got = sorted((m, sorted(cs.items())) for m, cs, _ in log)
    if exp != got:
        return '%s: evaluated %r, expected %r' % (what, got[:8], exp[:8])
    for m, cs, seen in log:
        if cs != seen:
            return '%s: constants %r in force while %r was requested' % (what, seen, cs)
    return None


def fresh(res, log):
    """Results of this very run, by content."""
    return {k: v for k, v in res.items()}


def check(c):
    w = World()
    try:
        if c['k'] == 'run':
            v, r, e, log = w.run(c['kernel'], c['D'], c['p'])
            msg = examine(c, v, r, e, log, c['D'])
            if msg or e is not None:
                return msg
            if len(r) != len(log):
                return '%d evaluations but %d stored results' % (len(log), len(r))
            found = sorted((x['model'], x['consts']) for x in r.values())
            exp = sorted((m, sorted(cs.items())) for m, cs, _ in log)
            if found != exp:
                return 'stored results %r do not belong to the evaluations %r' % (found, exp)
            for key, x in r.items():
                pickle.dumps((key, x))
            return None
        if c['k'] == 'opts':
            g = OPTIONS if c['o'] in OPTIONS else NEUTRAL
            v1, r1, e1, l1 = w.run(c['kernel'], c['D'], c['p'], g[c['o']][c['x']])
            msg = examine(c, v1, r1, e1, l1, c['D'])
            v2, r2, e2, l2 = w.run(c['kernel'], c['D'], c['p'], g[c['o']][c['y']])
            msg = msg or examine(c, v2, r2, e2, l2, c['D'])
            if msg or e1 or e2:
                return msg
            a = {k: (x['model'], x['consts']) for k, x in r1.items()}
            b = {k: (x['model'], x['consts']) for k, x in r2.items()}
            if g is OPTIONS and set(a) & set(b):
                return 'results with %r and %r share the identifier %r' % (
                    g[c['o']][c['x']], g[c['o']][c['y']], sorted(set(a) & set(b), key=repr)[0])
            if g is NEUTRAL and a != b:
                return 'identifiers with %r and %r differ: %r' % (
                    g[c['o']][c['x']], g[c['o']][c['y']], sorted(set(a) ^ set(b), key=repr)[:2])
            return None
        # history of runs into one store
        total = {}
        for i, D in enumerate(c['seq']):
            v, r, e, log = w.run(c['kernel'], D, c['p'], store='s.pickle', json='s.json' if c['json'] else None)
            msg = examine(c, v, r, e, log, D)
            if msg:
                return 'run %d: %s' % (i, msg)
            if e is not None:
                return None
            path = os.path.join(w.dir, 's.pickle')
            if not os.path.exists(path) or os.path.getsize(path) == 0:
                if log:
                    return 'run %d stored nothing' % i
                continue
            with open(path, 'rb') as f:
                stored = pickle.load(f)
            if log and stored != r:
                return 'run %d: the stored results are not the returned ones' % i
            for k, x in total.items():
                if k not in stored:
                    return 'run %d lost the stored result %r' % (i, k)
                n = [l for l in log if l[0] == x['model'] and sorted(l[1].items()) == x['consts']]
                if not n and stored[k] != x:
                    return 'run %d altered the stored result %r' % (i, k)
            new = sorted((x['model'], x['consts']) for k, x in stored.items()
                         if k not in total or stored[k] != total[k])
            exp = sorted((m, sorted(cs.items())) for m, cs, _ in log)
            for m in exp:
                if m not in [(x['model'], x['consts']) for x in stored.values()]:
                    return 'run %d: result of %r not stored' % (i, m)
            if len({(x['model'], tuple(x['consts'])) for x in stored.values()}) != len(stored):
                pass
            total = stored
        return None
    finally:
        w.close()


# ------------------------------------------------------------------ proofs
NEUTRAL_DESTS = ('verbose', 'unit', 'store')
FREE_DESTS = ('clean_intermediates', 'json')    # the statement says nothing about these


def proof_to_tuple(S):
    """to_tuple: lists of any length and nesting (induction: shorter lists and elements by the contract itself)."""
    import z3
    from engine import instr
    from engine.core import SNum, sint, ctx, is_num, mk
    from engine.cont import VList
    S.cut_hints.append('to_tuple')
    I = z3.IntSort()
    elem, T = S.func('element', I, I), S.func('converted', I, I)

    class Elem(object):
        """An element: something else than a list or tuple, or a list handled by induction."""
        def __init__(self, t):
            self.t = t

        def __veq__(self, o):
            return self.t == o.t if isinstance(o, Elem) else z3.BoolVal(False)

        def __visinstance__(self, cls):
            return False

    for kind in ('list', 'tuple', 'else'):
        def go(S):
            m = instr.load('kerncraft/kerncraft.py')
            f = m.to_tuple
            n = S.int('n')
            S.assume(n >= 0)
            seq = VList.sym(n, lambda i: Elem(elem(sint(i))))
            if kind == 'tuple':
                seq = instr.b_tuple(seq)

            def contract(x):
                if isinstance(x, Elem):
                    return Elem(T(x.t))
                if not isinstance(x, VList):
                    S.fail('something else than a part of the list is converted: %r' % (x,))
                S.check('only shorter lists are converted first', x.vlen() < n)
                r = instr.b_tuple(VList.sym(x.vlen(), lambda i: Elem(T(x.at(i).t))))
                return r
            m.to_tuple = contract
            if kind == 'else':
                x = Elem(z3.Int('x'))
                S.check('anything else stays as it is', bool(f(x) is x))
                return
            r = f(seq)
            tup = isinstance(r, (instr.VTuple, tuple))
            S.check('a tuple', tup)
            r = r if isinstance(r, VList) else VList(list(r))
            S.check('of the same length', r.vlen() == n)
            j = S.int('j')
            S.assume((j >= 0) & (j < n))
            S.check('of the converted elements', r.at(j).__veq__(Elem(T(elem(sint(j))))))
        S.run(go, 'to_tuple of %s' % kind)


class _Args(object):
    pass


def _options(S, names, tag, both=()):
    """Arbitrary values for all options; those in both are shared by all runs."""
    a = _Args()
    for k, v in names:
        t = '%s%s' % (k, '' if k in both else tag)
        if isinstance(v, bool):
            x = S.bool(t)
        elif isinstance(v, int):
            x = S.int(t)
        elif isinstance(v, io.IOBase) or k in ('store', 'json'):
            x = _stream(S.atom('name_of_' + t))
        elif isinstance(v, list):
            x = [S.atom(t)]
        else:
            x = S.atom(t)
        setattr(a, k, x)
    return a


def _stream(name):
    class File(io.IOBase):
        pass
    f = File()
    f.name = name
    f.seek = lambda n: None
    return f


def _dests():
    """The options of the real command line parser and the kind of their values."""
    from kerncraft import kerncraft as kc
    w = World()
    try:
        parser = kc.create_parser()
        argv = ['-m', os.path.join(w.dir, 'm1.yml'), '-p', 'ECMData', '-D', 'N', '5', os.path.join(w.dir, 'one.c')]
        a = parser.parse_args(argv)
        r = sorted(a.__dict__.items())
        for _, v in r:
            if isinstance(v, io.IOBase):
                v.close()
        return r
    finally:
        w.close()


def proof_identifier(S):
    """identifier_from_arguments: any values of all options the command line has."""
    import z3
    from engine import instr
    from engine.core import zb, SBool, ctx
    from engine.cont import veq, VList
    names = _dests()
    lists = [k for k, v in names if isinstance(v, list)]
    rel = [k for k, _ in names if k not in NEUTRAL_DESTS + FREE_DESTS + ('define', 'pmodel')]

    def val(x):
        return x.name if isinstance(x, io.IOBase) else x

    def combination(S, tag, shape):
        return tuple((S.atom('const%d%s' % (i, tag)), S.int('value%d%s' % (i, tag))) for i in range(shape))

    def plain(x):
        if isinstance(x, (tuple, VList, list)):
            return tuple(plain(y) for y in (x if isinstance(x, (tuple, list)) else x.lit()))
        return x

    for shape in range(4):
        def go(S):
            m = instr.load('kerncraft/kerncraft.py')
            a, b = _options(S, names, '_1'), _options(S, names, '_2')
            d1, d2 = combination(S, '_1', shape), combination(S, '_2', shape)
            p1, p2 = S.atom('model_1'), S.atom('model_2')
            i1 = plain(m.identifier_from_arguments(a, define=d1, pmodel=p1))
            i2 = plain(m.identifier_from_arguments(b, define=d2, pmodel=p2))
            same = [veq(val(getattr(a, k)), val(getattr(b, k))) for k in rel] + [veq(d1, d2), veq(p1, p2)]
            for k, c in zip(rel + ['combination', 'model'], same):
                S.check('results that differ in %s have different identifiers' % k, z3.Implies(veq(i1, i2), c))
            c = _options(S, names, '_3', both=[k for k, _ in names if k not in NEUTRAL_DESTS])
            d = _options(S, names, '_4', both=[k for k, _ in names if k not in NEUTRAL_DESTS])
            i3 = plain(m.identifier_from_arguments(c, define=d1, pmodel=p1))
            i4 = plain(m.identifier_from_arguments(d, define=d1, pmodel=p1))
            S.check('verbosity, unit and store do not matter', veq(i3, i4))

            def hashable(x):
                return all(hashable(y) for y in x) if isinstance(x, tuple) else not isinstance(x, (list, dict, set))
            S.check('usable as a key', hashable(m.identifier_from_arguments(a, define=d1, pmodel=p1)))
        S.run(go, '%d constants' % shape)


class _Kernel(object):
    """Kernel with the interface that the driver uses; constants in force are recorded."""
    def __init__(self, consts, stack, variables, sources, destinations):
        from collections import OrderedDict
        self.consts, self.stack, self.variables = consts, stack, variables
        self.sources, self.destinations = sources, destinations
        self.inforce = [('left over', 1)]

    def get_loop_stack(self, subs_consts=False):
        return [dict(l) for l in self.stack]

    def clear_state(self):
        self.inforce = []

    def set_constant(self, k, v):
        self.inforce = [e for e in self.inforce if e[0] != str(k)] + [(str(k), v)]

    def print_kernel_code(self, output_file=None):
        pass
    print_variables_info = print_kernel_info = print_constants_info = print_kernel_code


class _SymSet(object):
    """set() whose members may be symbolic numbers."""
    def __init__(self, x=()):
        self.m = []
        for e in x:
            self.add(e)

    def __contains__(self, e):
        return any(bool(e == y) for y in self.m)

    def add(self, e):
        if e not in self:
            self.m.append(e)

    def __iter__(self):
        return iter(self.m)

    def __len__(self):
        return len(self.m)

    def __sub__(self, o):
        return _SymSet(e for e in self.m if e not in o)

    def __or__(self, o):
        return _SymSet(list(self.m) + list(o))

    def difference(self, *os):
        r = self
        for o in os:
            r = r - o
        return r

    def union(self, *os):
        r = self
        for o in os:
            r = r | o
        return r

    def update(self, *os):
        for o in os:
            for e in o:
                self.add(e)

    def issubset(self, o):
        return all(e in o for e in self.m)

    def discard(self, e):
        self.m = [y for y in self.m if not bool(e == y)]

    def __eq__(self, o):
        return all(e in o for e in self) and all(e in self for e in o)

    def __le__(self, o):
        return self.issubset(o)

    __hash__ = None


SWEEPS = [
    # loop bounds and dimensions with constants, values given per constant (0: none given, -1: not mentioned)
    ('none', [], []),
    ('none', [('N', 2)], []),
    ('N', [('N', 3)], []),
    ('N', [('N', 2), ('N', 1)], []),
    ('N', [('.', 2)], []),
    ('N', [('.', 1), ('N', 2)], []),
    ('N', [('X', 1)], []),
    ('MN', [('N', 2), ('M', 1)], []),
    ('MN', [('M', 2), ('.', 1)], []),
    ('MN', [('M', 1)], []),
    ('MN', [('M', 1), ('Z', 2), ('N', 1), ('.', 1)], []),
    ('index', [('OFF', 2)], []),
    ('bound', [('L', 1), ('H', 2)], []),
    ('bound', [('H', 1)], []),
    ('dest', [('OFF', 1), ('.', 1)], []),
    ('MNP', [('N', 1), ('M', 2), ('P', 1)], []),
    ('MNP', [('.', 2)], []),
]


def _kernel(kind):
    from collections import OrderedDict
    from kerncraft.kernel import symbol_pos_int as s
    import sympy
    I = sympy.Integer
    N, M, P, L, H, OFF, i, j, k = map(s, ['N', 'M', 'P', 'L', 'H', 'OFF', 'i', 'j', 'k'])
    one = [{'index': 'i', 'start': I(0), 'stop': N, 'increment': I(1)}]
    if kind == 'none':
        return _Kernel([], [{'index': 'i', 'start': I(0), 'stop': I(100), 'increment': I(1)}],
                       OrderedDict([('a', ('double', (I(100),))), ('s', ('double', None))]),
                       {'a': [(i,)], 's': [None]}, {'a': [(i,)]})
    if kind == 'N':
        return _Kernel(['N'], one, OrderedDict([('a', ('double', (N,))), ('s', ('double', None))]),
                       {'a': [(i,), (i + 1,)]}, {'s': [None]})
    if kind == 'MN':
        return _Kernel(['M', 'N'], [{'index': 'j', 'start': I(1), 'stop': M - 1, 'increment': I(1)},
                                    {'index': 'i', 'start': I(1), 'stop': N - 1, 'increment': I(1)}],
                       OrderedDict([('a', ('double', (M, N))), ('b', ('double', (M, N)))]),
                       {'a': [(j, i - 1)]}, {'b': [(j, i)]})
    if kind == 'index':
        return _Kernel(['OFF'], [{'index': 'i', 'start': I(0), 'stop': I(100), 'increment': I(1)}],
                       OrderedDict([('a', ('double', (I(1000),)))]), {'a': [(i + OFF,)]}, {'a': [(i,)]})
    if kind == 'dest':
        return _Kernel(['OFF'], [{'index': 'i', 'start': I(0), 'stop': I(100), 'increment': I(1)}],
                       OrderedDict([('a', ('double', (I(1000),)))]), {'a': [(i,)]}, {'a': [(i * OFF,)]})
    if kind == 'bound':
        return _Kernel(['H', 'L'], [{'index': 'i', 'start': L, 'stop': H, 'increment': I(1)}],
                       OrderedDict([('a', ('double', (I(1000),)))]), {'a': [(i,)]}, {'a': [(i,)]})
    return _Kernel(['M', 'N', 'P'], [{'index': 'j', 'start': P, 'stop': M, 'increment': I(1)},
                                     {'index': 'i', 'start': I(0), 'stop': N, 'increment': I(1)}],
                   OrderedDict([('a', ('double', (M, N)))]), {'a': [(j, i)]}, {'a': [(j, i)]})


class _Disk(object):
    """Files and what was pickled into them; every state the store passes through is kept."""
    def __init__(self, S):
        self.S, self.f, self.states = S, {}, {}

    def open(self, name, mode='r', *a, **k):
        disk = self

        class F(io.IOBase):
            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False
        f = F()
        f.name, f.mode = name, mode
        if 'w' in mode:
            disk.set(name, None)
        return f

    def set(self, name, c):
        self.f[name] = c
        self.states.setdefault(name, []).append(c)

    def dump(self, obj, f, *a, **k):
        import copy
        self.S.check('results are pickled into a binary file', bool('b' in f.mode))
        self.set(f.name, copy.copy(obj))

    def load(self, f):
        if f.name not in self.f:
            raise EOFError
        import copy
        return copy.copy(self.f[f.name])

    def move(self, a, b):
        if a not in self.f:
            self.S.fail('a file that does not exist is moved')
        self.set(b, self.f.pop(a))


def proof_sweep(S):
    """run: kernels with up to three constants, up to three values per option, any values; store of any content."""
    import sys
    import z3
    from engine import instr
    from engine.core import zb, SBool, ctx
    from engine.cont import veq, VList, VDict, _unwrap
    names = _dests()
    S.cut_hints.append('run')

    def go(S, nr, sweep, pmodels, verbose, stored):
        kind, defs, _ = sweep
        m = instr.load('kerncraft/kerncraft.py')
        kernel = _kernel(kind)
        log, reports = [], []

        class Model(object):
            def __init__(self, kernel, machine, args=None, parser=None):
                self.kernel, self.state = kernel, 0
                S.check('the model gets the kernel and the machine', bool(kernel is the and machine is mach))

            def analyze(self):
                S.check('analysed once', bool(self.state == 0))
                self.state = 1
                self.results = {'result': len(log)}
                log.append((self.name, list(self.kernel.inforce), self.results))

            def report(self, output_file=None):
                S.check('reported after the analysis', bool(self.state == 1))
                reports.append(self.name)
                self.state = 2

        class Models(object):
            pass
        for n in ('LC', 'ECM', 'Roofline'):
            setattr(Models, n, type(n, (Model,), {'name': n}))
        the, mach = kernel, object()
        m.models = Models
        m.MachineModel = lambda name, args=None: mach
        m.KernelCode = lambda code, filename=None, machine=None, keep_intermediates=True: kernel
        m.clean_code = lambda c, *a, **k: c
        bi = m.__dict__['__builtins__']
        bi['set'] = _SymSet
        disk = _Disk(S)
        bi['open'] = disk.open

        class Pickle(object):
            dump, load = staticmethod(disk.dump), staticmethod(disk.load)
        m.pickle = Pickle

        class Shutil(object):
            move = staticmethod(disk.move)
        m.shutil = Shutil
        bi['print'] = lambda *a, **k: None
        args = _options(S, names, '')
        args.kernel_description = False
        args.verbose = verbose
        args.code_file, args.machine = _stream('kernel.c'), _stream('machine.yml')
        args.code_file.read = lambda: 'code'
        args.json = None
        args.store = None
        old = []
        if stored:
            args.store = _stream('results')
            if stored == 'old':
                old = [(S.atom('an older identifier'), 'older result')]
                import engine.core as core
                S.assume(SBool(old[0][0].t > core.SYM_ATOM_BASE))
                disk.f['results'] = VDict([((('cores', old[0][0]),), 'older result')])
        vals = [(n, [S.int('value_%d_%d' % (a, b)) for b in range(c)]) for a, (n, c) in enumerate(defs)]
        args.define = [(n, list(v)) for n, v in vals]
        args.pmodel = list(pmodels)
        # what is asked for
        wants = []
        for c in kernel.consts:
            l = []
            for n, v in vals:
                if n in (c, '.'):
                    for x in v:
                        if not any(bool(x == y) for y in l):
                            l.append(x)
            wants.append(l)
        missing = any(not l for l in wants)
        try:
            r = m.run(None, args, output_file=None)
        except ValueError:
            S.check('only runs without values for a constant are refused', missing)
            S.check('nothing is evaluated in a refused run', bool(not log))
            S.check('the store is as it was', bool(not disk.states))
            return
        S.check('a run without value for a constant is refused', not missing)
        distinct = [n for i, n in enumerate(pmodels) if n not in pmodels[:i]]
        combos = list(itertools.product(*wants))
        S.check('as many evaluations as combinations and models', bool(len(log) == len(combos) * len(distinct)))
        S.check('every result is reported', bool(len(reports) == len(log)))
        r = r if isinstance(r, VDict) else VDict(list(r.items()))
        got = [(_unwrap(k), v) for k, v in r.d.items()]
        for combo in combos:
            for n in distinct:
                hits = []
                for name, inforce, res in log:
                    if name == n and sorted(k for k, _ in inforce) == sorted(kernel.consts) and all(
                            bool(v == dict(zip(kernel.consts, combo))[k]) for k, v in inforce):
                        hits.append(res)
                S.check('each combination is evaluated once by each model, with its very values in force', bool(len(hits) == 1))
                hits = [k for k, v in got if v is hits[0]]
                S.check('its result is stored once', bool(len(hits) == 1))
        S.check('one stored result per evaluation', bool(len(got) == len(log) + len(old)))
        if stored:
            S.check('nothing else is left behind', bool(sorted(disk.f) == ['results']))
            f = disk.f['results']
            S.check('all results are in the store', bool(len(f.d) == len(got) and all(
                any(_unwrap(a) == b and v is w or v == w for b, w in got) for a, v in f.d.items())))
            for st in disk.states['results']:
                S.check('the store is always complete', bool(isinstance(st, VDict) and (not old or any(
                    v == 'older result' for v in st.d.values()))))

    for nr, sweep in enumerate(SWEEPS):
        pm = [['LC'], ['LC', 'ECM', 'LC'], ['Roofline', 'ECM']][nr % 3]
        st = [None, 'new', 'old'][(nr // 2) % 3]
        S.run(lambda S: go(S, nr, sweep, pm, nr % 4, st), 'sweep %s' % (sweep,))


PROOFS = [('to_tuple', proof_to_tuple, ['to_tuple']), ('identifier', proof_identifier, ['identifier_from_arguments']),
          ('sweep', proof_sweep, ['run', 'uniquify', 'to_tuple', 'identifier_from_arguments'])]
