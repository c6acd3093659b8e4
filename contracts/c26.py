"""C26: benchmark metrics."""
ID = 'C26'
TITLE = 'benchmark metrics'
LEVEL = 'proof'
ASSUMPTIONS = ['one repetition takes less than the required runtime of 1.5 s or is measured as such in the first run',
               'counters of one event on interchangeable registers agree between measurements']
BOUNDED = ['perfctr, report, and Benchmark.analyze with real metrics: generated runtimes, counters, kernels and machine descriptions, with a stand-in '
           'for likwid-perfctr']
TRUSTED = ['sympy expressions', 'scheduling of counters (C17), get_bandwidth (C16), quantities with units (C01)']
RULE = ('random runtimes per repetition (also below the timer resolution), loop nests, counters and groups; '
        'non-trivial: several measurements or counters')
SHARDS = 6
BUDGET = 60

FAKE = r'''#!/usr/bin/python3 -SE
import sys, os, json
cfg = json.load(open(os.environ['KC_FAKE']))
a = sys.argv[1:]
if a == ['-a']:
    print('Group name\tDescription\n' + '-' * 40)
    for g in cfg['groups']:
        print('  %s\tsome text' % g)
    sys.exit(0)
log = open(os.environ['KC_FAKE'] + '.log', 'a+')
log.seek(0)
n = len(log.readlines())
group = a[a.index('-g') + 1]
reps = float(a[a.index('x.bench') + 1])
noise = cfg['noise'][n % len(cfg['noise'])]
runtime = round(cfg['base'] * reps * noise, cfg['digits'])
out = ['TABLE,Region x,Group 1 Raw,%s,,' % group, 'CPU name:,Some CPU,', 'CPU type:,Some type,',
       'CPU clock:,%s GHz,' % cfg['ghz'], 'TABLE,Group 1 Raw', 'Region Info,Core 0', 'Event,Counter,Core 0']
vals = {}
if ':' in group:
    for e in group.split(','):
        ev, reg = e.split(':', 1)
        key = ev + ':' + (reg if not reg.startswith('PMC') else 'PMC' + reg[4:])
        vals[key] = cfg['counters'][key]
        v = cfg['counters'][key]
        out.append('%s,%s,%s' % (ev, reg, '-' if v == 0 else v))
else:
    out.append('INSTR_RETIRED_ANY,FIXC0,123456789')
    out.append('CPU_CLK_UNHALTED_CORE,FIXC1,nan')
out += ['TABLE,Group 1 Metric,%s,' % group, 'Metric,Core 0', 'Runtime (RDTSC) [s],%r' % runtime,
        'Clock [MHz],%s' % (cfg['ghz'] * 1000)]
vol = None
if not ':' in group and cfg['vol'] is not None:
    vol = round(cfg['vol'] * reps * (1 + n), 9)
    out.append('%s,%r' % (cfg['bwname'], cfg['bw'] * (1 + n)))
    out.append('Memory data volume [GBytes],%r' % vol)
print('\n'.join(out))
log.write(json.dumps({'a': a, 'runtime': runtime, 'vol': vol, 'reps': a[a.index('x.bench') + 1], 'n': n}) + '\n')
'''

EVENTS = ['UOPS_A', 'UOPS_AB', 'L1D_REPL', 'L2_IN', 'CAS_RD', 'CAS_WR', 'LOADS_ALL', 'STORES', 'L2_OUT', 'VICTIMS']
REGS = ['PMC0', 'PMC1', 'PMC[0-3]', 'PMC[0-1]', 'PMC2|PMC3', 'PMC[2-3]:T=0x1', 'PMC0:T=0x1:I=1', 'MBOX0C0', 'MBOX[0-1]C1',
        'CBOX0C1', 'FIXC1']


def cases(rng, tier):
    for i in range(350 if tier == 'quick' else 2500):
        names = rng.sample(EVENTS, rng.randrange(2, 8))
        ev = []
        for n in names:
            for r in rng.sample(REGS, rng.choice([1, 1, 1, 2])):
                ev.append('%s:%s' % (n, r))

        def metric():
            t = [rng.choice(ev) for _ in range(rng.choice([1, 1, 2, 3]))]
            s = t[0]
            for x in t[1:]:
                s += rng.choice([' + ', ' + ', ' - 2 * ', ' + 3*']) + x
            if rng.random() < .2:
                s = 'Max(%s, %s)' % (s, rng.choice(ev))
            return s
        pos = lambda: '%s%s' % (rng.choice(['', '2*']), rng.choice(ev))
        nd = rng.choice([1, 1, 2, 3])
        loops = []
        for d in range(nd):
            a = rng.choice([0, 0, 1, 2])
            loops.append([a, a + rng.choice([1, 7, 10, 50, 999, 4000]), rng.choice([1, 1, 1, 2, 3, 4])])
        mult = rng.choice([1e-9, 1e-7, 1e-5, 1e-3, 0.02, 0.1, 0.19])
        yield {'base': float('%.4g' % (mult * rng.uniform(.2, 5))),
               'noise': [round(rng.uniform(.8, 1.3), 3) for _ in range(rng.choice([1, 1, 3, 7]))],
               'digits': rng.choice([3, 6, 9]), 'cores': rng.choice([1, 1, 1, 2, 4]), 'pheno': rng.random() < .6,
               'groups': rng.choice([['MEM'], ['L2', 'L3', 'MEM', 'FLOPS_DP'], ['L2', 'L3'], ['CLOCK']]),
               'vol': rng.choice([None, 1e-9, 0.001, 0.5]), 'bw': rng.choice([0.0, 12345.67, 99.5]),
               'bwname': rng.choice(['Memory bandwidth [MBytes/s]', 'Memory BW [MBytes/s]', 'Other [MBytes/s]']),
               'ol': metric(), 'nol': metric(), 'loops': loops, 'dt': rng.choice(['double', 'float', 'double _Complex']),
               'flops': rng.choice([0, 1, 3]), 'cl': rng.choice([32, 64, 128]),
               'clock': rng.choice([2.7e9, 1e9, 2.2e9]), 'iters': rng.choice([10, 10, 1, 100, 25]),
               'levels': {l: {m: pos() if rng.random() < .8 else pos() + ' + ' + pos()
                              for m in ('loads', 'stores', 'misses', 'evicts')} for l in ('L1', 'L2', 'L3')},
               'mem': {m: pos() for m in ('loads', 'stores')}, 'tp': [rng.choice([16.0, 32.0, 64.0]) for _ in range(2)],
               'seed': rng.randrange(10 ** 6), 'verbose': rng.choice([0, 1, 2])}


def trivial(c):
    return c['base'] > .01 and not c['pheno']


def code(c):
    dims, idx, decl = [], [], ''
    head = ''
    for d, (a, b, s) in enumerate(c['loops']):
        head += 'for(int i%d=%d; i%d<N%d; %s)\n' % (d, a, d, d, '++i%d' % d if s == 1 else 'i%d+=%d' % (d, s))
        idx.append('[i%d]' % d)
        dims.append('[N%d]' % d)
    e = 'b' + ''.join(idx)
    for _ in range(c['flops']):
        e = '(%s)*s' % e
    return '%s a%s, b%s, s;\n%s  a%s = %s;\n' % (c['dt'], ''.join(dims), ''.join(dims), head, ''.join(idx), e)


def counters(c):
    """Value of every event in the description, by event, parameters and register."""
    import random
    from kerncraft.models.benchmark import register_options
    rng = random.Random(c['seed'])
    out = {}
    for n in EVENTS:
        for r in REGS:
            reg, _, par = r.partition(':')
            for o in register_options(reg):
                key = n + ':' + ('PMC' if o.startswith('PMC') else o) + (':' + par if par else '')
                if key not in out:
                    out[key] = rng.choice([rng.randrange(1, 1000), rng.randrange(1, 10 ** 12)])
    return out


def check(c):
    import contextlib
    import io
    import json
    import math
    import os
    import re
    import sys
    from .common import machine, kernel_code, Args, Stub, close, PU
    from kerncraft.models.benchmark import Benchmark, register_options
    d = os.path.abspath('fake%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, 'likwid-perfctr')
    if not os.path.exists(exe):
        with open(exe, 'w') as f:
            f.write(FAKE.replace('/usr/bin/python3', os.path.realpath(sys.executable)))
        os.chmod(exe, 0o755)
    cfg = os.path.join(d, 'cfg')
    if os.path.exists(cfg + '.log'):
        os.unlink(cfg + '.log')
    ctr = counters(c)
    with open(cfg, 'w') as f:
        json.dump(dict({k: c[k] for k in ('base', 'noise', 'digits', 'groups', 'vol', 'bw', 'bwname')},
                       ghz=c['clock'] / 1e9, counters=ctr), f)
    m = machine(cl=c['cl'], clock=c['clock'], tput={'L2': [PU(c['tp'][0], 'B/cy'), 'half-duplex'],
                                                    'L3': [PU(c['tp'][1], 'B/cy'), 'half-duplex']})
    m['overlapping model']['performance counter metric'] = c['ol']
    m['non-overlapping model']['performance counter metric'] = c['nol']
    for h in m['memory hierarchy']:
        h['performance counter metrics'] = dict(c['levels'].get(h['level'], c['mem']))
    m.current_system = lambda print_diff=False: True
    k = kernel_code(code(c), m, **{'N%d' % i: l[1] for i, l in enumerate(c['loops'])})
    lock = io.StringIO()
    built = []
    k.build_executable = lambda *a, **kw: (built.append(kw), ('x.bench', lock))[1]
    env = dict(os.environ)
    out = io.StringIO()
    try:
        os.environ['PATH'] = d + os.pathsep + env.get('PATH', '')
        os.environ['KC_FAKE'] = cfg
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            b = Benchmark(k, m, Args(cores=c['cores'], no_phenoecm=not c['pheno'], iterations=c['iters'],
                                     verbose=c['verbose'], ignore_warnings=False))
            b.analyze()
            b.report(output_file=out)
    finally:
        os.environ.clear()
        os.environ.update(env)
    r = b.results
    calls = [json.loads(l) for l in open(cfg + '.log')]
    pheno = c['pheno'] and c['cores'] == 1
    meas = [x for x in calls if ':' not in x['a'][x['a'].index('-g') + 1]]
    evs = calls[len(meas):]
    # measurements
    if any(x['runtime'] >= 1.5 for x in meas[:-1]) or meas[-1]['runtime'] < 1.5:
        return 'measured runtimes %r' % [x['runtime'] for x in meas]
    group = 'MEM' if 'MEM' in c['groups'] else c['groups'][0]
    cpu = 'S0:0' if c['cores'] == 1 else 'S0:0-%d' % (c['cores'] - 1)
    for x in calls:
        a = x['a']
        if a[a.index('-C') + 1] != cpu or '-m' not in a:
            return 'measured on the wrong cores or without markers: %r' % a
        if a[a.index('x.bench') + 2:] != [str(v) for v in k.constants.values()]:
            return 'measured with other constants: %r' % a
    if any(x['a'][x['a'].index('-g') + 1] != group for x in meas):
        return 'measured group %r' % meas[0]['a']
    if any(x['reps'] != meas[-1]['reps'] for x in evs):
        return 'counters are measured with %r repetitions, the runtime with %r' % ([x['reps'] for x in evs], meas[-1]['reps'])
    if bool(evs) != pheno:
        return 'counters were measured %d times' % len(evs)
    reps, rt = float(meas[-1]['reps']), meas[-1]['runtime']
    if reps != int(reps) or reps < 1:
        return '%r repetitions' % reps
    if 'openmp' in built[0] and bool(built[0]['openmp']) != (c['cores'] > 1):
        return 'built with openmp=%r for %d cores' % (built[0]['openmp'], c['cores'])
    # derived metrics
    size = {'double': 8, 'float': 4, 'double _Complex': 16}[c['dt']]
    its = 1
    for a, e, s in c['loops']:
        its *= max(0, -(-(e - a) // s))
    itcl = c['cl'] / (size * c['loops'][-1][2])
    tpr = rt / reps
    want = {'Runtime (per repetition) [s]': tpr, 'Iterations per repetition': its, 'Iterations per cacheline': itcl,
            'Runtime (per cacheline update) [cy/CL]': c['clock'] * tpr / its * itcl,
            'Performance [MIt/s]': its / tpr / 1e6, 'Performance [MLUP/s]': its / tpr / 1e6,
            'Performance [MFLOP/s]': its / tpr / 1e6 * c['flops'],
            'MEM volume (per repetition) [B]': meas[-1]['vol'] * 1e9 / reps if c['vol'] is not None else math.nan,
            'MEM BW [MByte/s]': c['bw'] * len(meas) if c['vol'] is not None and c['bwname'].startswith('Memory') else math.nan}
    for n, w in want.items():
        if not close(r[n], w):
            return '%s is %r instead of %r' % (n, r[n], w)
    text = out.getvalue()
    for fmt, n in (('Performance: {:.2f} MFLOP/s', 'Performance [MFLOP/s]'), ('Performance: {:.2f} MIt/s', 'Performance [MIt/s]'),
                   ('Runtime (per cacheline update): {:.2f} cy/CL', 'Runtime (per cacheline update) [cy/CL]')):
        if fmt.format(float(r[n])) not in text:
            return 'the report lacks %r: %r' % (fmt.format(float(r[n])), text)
    if not pheno:
        if r['ECM'] is not None or r['data transfers'] is not None:
            return 'counter results %r without counters' % (r['ECM'],)
        return None

    # counters
    def value(metric):
        def one(mm):
            ev, reg, par = (mm.group(0) + '::').split(':', 2)
            par = par.rstrip(':')
            o = next(iter(register_options(reg)))
            opts = set()
            for o in register_options(reg):
                opts.add(ctr[ev + ':' + ('PMC' if o.startswith('PMC') else o) + (':' + par if par else '')])
            if len(opts) > 1:
                amb.append(metric)
            return str(min(opts))
        amb = []
        v = eval(re.sub(r'[A-Z][A-Z0-9_]*:[A-Z0-9\[\]|\-]+(?::[A-Za-z0-9\-_=]+)*', one, metric), {'Max': max})
        return None if amb else v
    lines = its * reps / itcl
    tr = r['data transfers']
    tot = {}
    for h in m['memory hierarchy']:
        for n, e in h['performance counter metrics'].items():
            w = value(e)
            tot[h['level'], n] = w
            if w is not None and not close(tr[h['level']][n], w / lines):
                return 'transfers %s %s (%s) per line are %r instead of %r' % (h['level'], n, e, tr[h['level']][n], w / lines)
    ecm = r['ECM']
    cmp = [('T_OL', value(c['ol']), lambda v: v / lines)]
    cmp.append(('T_nOL', tot['L1', 'loads'], lambda v: v / lines * .5))
    for n, l, tp in (('T_L1L2', 'L2', c['tp'][0]), ('T_L2L3', 'L3', c['tp'][1])):
        if tot[l, 'loads'] is not None and tot[l, 'stores'] is not None:
            cmp.append((n, tot[l, 'loads'] + tot[l, 'stores'], lambda v, tp=tp: v / lines * c['cl'] / tp))
    if all(tot[x] is not None for x in (('L3', 'misses'), ('L3', 'evicts'), ('MEM', 'loads'), ('MEM', 'stores'))):
        bw, _ = m.get_bandwidth(-1, tot['L3', 'misses'], tot['L3', 'evicts'], 1)
        cmp.append(('T_MEM', tot['MEM', 'loads'] + tot['MEM', 'stores'],
                    lambda v: v * c['cl'] / lines / float(bw) * c['clock']))
    for n, v, f in cmp:
        if v is not None and not close(ecm[n], f(v), rel=1e-8):
            return '%s is %r instead of %r' % (n, ecm[n], f(v))
    return None


# ------------------------------------------------------------------ proofs
class _Measured(object):
    """Result of a measurement: ghost fields hold the repetitions asked for and the runtime measured."""
    __shadow__ = True

    def __init__(self, S, names):
        self.reps, self.runtime, self.volume, self.calls = 1, 0.0, 0.0, 0
        self._S, self._names = S, names

    def __contains__(self, k):
        return k in self._names

    def __getitem__(self, k):
        if k == 'Runtime (RDTSC) [s]':
            return self.runtime
        if k not in self._names:
            raise KeyError(k)
        return self.volume if 'volume' in k else 17.0 if 'bandwidth' in k else 19.0


class _Text(object):
    def __init__(self, v):
        self.v = v


def proof_metrics(S):
    """Benchmark.analyze: any runtimes, number of measurements, iterations, sizes, clocks and counters."""
    import z3
    from engine import instr
    from engine.core import SNum, mk, sint, sreal, ctx
    from .stubs import Q, Plain, pos_int, pos_real, num
    S.cut_hints.append('analyze')
    S.feas_timeout = 300
    R = z3.RealSort()

    def templates(L, leaves, opened):
        by = {}
        for lk in leaves:
            by[lk[0][-1]] = lk
        c = []
        r, t, n = by.get('runtime'), None, None
        vs = [lk for lk in leaves if lk[0][0] == 'v']
        g = {x: lk for x, lk in by.items()}
        reps = [lk for lk in leaves if lk[0][0] == 'a' and lk[0][-1] == 'reps']
        run = [lk for lk in leaves if lk[0][0] == 'a' and lk[0][-1] == 'runtime']
        if not reps or not run:
            return c
        reps, run = reps[0], run[0]
        c.append(('repetitions measured', lambda k, lv: sreal(lv[reps]) >= 1))
        c.append(('runtime measured', lambda k, lv: sreal(lv[run]) >= 0))
        for v in vs:
            if leaves[v][3] not in ('int', 'float'):
                continue
            c.append(('%s is the runtime' % v[0][1], lambda k, lv, v=v: sreal(lv[v]) == sreal(lv[run])))
            c.append(('%s is the number of repetitions' % v[0][1], lambda k, lv, v=v: sreal(lv[v]) == sreal(lv[reps])))
            c.append(('%s is the runtime of a repetition' % v[0][1],
                      lambda k, lv, v=v: sreal(lv[v]) * sreal(lv[reps]) == sreal(lv[run])))
        return c
    S.templates.append(templates)
    LEVELS = {'L1': ['loads', 'stores', 'misses', 'evicts'], 'L2': ['loads', 'stores', 'misses', 'evicts'],
              'L3': ['loads', 'stores', 'misses', 'evicts'], 'MEM': ['loads', 'stores']}

    def go(S):
        m = instr.load('kerncraft/models/benchmark.py')
        m.__dict__['__builtins__']['str'] = lambda x: _Text(x) if isinstance(x, SNum) else str(x)
        m.PrefixedUnit = Q
        names = S.pick([(), ('Memory data volume [GBytes]', 'Memory bandwidth [MBytes/s]'), ('Memory BW [MBytes/s]',)])
        pheno = S.pick([False, True])
        groups = S.pick([['L2', 'MEM'], ['L2', 'L3']])
        cl, cpl, its = pos_real(S, 'bytes_per_line'), pos_int(S, 'bytes_per_iteration'), pos_int(S, 'iterations')
        clock, flops = pos_real(S, 'clock'), [S.int('adds'), S.int('muls')]
        tp, bw = [pos_real(S, 'throughput%d' % q) for q in (1, 2)], pos_real(S, 'bandwidth')
        S.assume((flops[0] >= 0) & (flops[1] >= 0))
        m.get_supported_likwid_groups = lambda: list(groups)
        closed = []

        class Kern(object):
            datatypes_size, datatype, _flops = {'double': 8}, 'double', {'+': flops[0], '*': flops[1]}
            constants, bytes_per_iteration = {'N': 100}, cpl

            def build_executable(self, verbose=False, openmp=False):
                return 'x.bench', Plain(close=lambda: closed.append(1))

            def iteration_length(self, dimension=None):
                S.check('all loops', bool(dimension is None))
                return its
        values = {}

        class Metric(object):
            def __init__(self, name):
                self.name = name

            def subs(self, results):
                x, y = results['first ' + self.name], results['second ' + self.name]
                v = S.func('metric_' + self.name.replace(' ', '_'), R, R, R)
                return mk(v(sreal(x), sreal(y)), 'float')

        def total(name):
            # metric of the counters measured
            v = S.func('metric_' + name.replace(' ', '_'), R, R, R)
            return mk(v(sreal(values['A_' + name, 'PMC0']), sreal(values['B_' + name, 'PMC3:E=1'])), 'float')

        class Mach(object):
            def __getitem__(self, k):
                if k == 'memory hierarchy':
                    return [{'level': l, 'performance counter metrics': {x: l + ' ' + x for x in xs},
                             'upstream throughput': [None if l == 'L1' else num(tp[l == 'L3']), 'x']} for l, xs in LEVELS.items()]
                return {'clock': Q.of(clock, 'Hz'), 'cacheline size': Q.of(cl, 'B'),
                        'overlapping model': {'performance counter metric': 'OL'},
                        'non-overlapping model': {'performance counter metric': 'nOL'}}[k]

            def parse_perfmetric(self, text):
                return Metric(text), {'first ' + text: ('A_' + text, 'PMC[0-1]', ()),
                                      'second ' + text: ('B_' + text, 'PMC3', ('E=1',))}

            def get_bandwidth(self, level, loads, stores, threads, cores=None):
                S.check('bandwidth of the last level, for one core', bool(level == -1 and threads == 1 and cores is None))
                S.check('bandwidth of the streams', (loads == total('L3 misses')) & (stores == total('L3 evicts')))
                return num(bw), 'load'
        res = _Measured(S, names)
        o = object.__new__(m.Benchmark)
        o.kernel, o.machine, o._args, o.no_phenoecm, o.verbose = Kern(), Mach(), Plain(cores=1), not pheno, 0
        o.iterations = pos_int(S, 'first_iterations')

        # contract of build_minimal_runs (C17): every event once on one of its registers
        def runs(events):
            out = []
            for e in events:
                if e not in out:
                    out.append(e)
            return [[(e[0], 'PMC0' if 'A_' in e[0] else 'PMC3', e[2])] for e in out]
        m.build_minimal_runs = runs
        m.eventstr = lambda e: ':'.join([e[0], e[1]] + list(e[2]))
        last = []

        def measure(cmd, group='MEM', code_markers=True):
            S.check('the kernel with its constants', bool(cmd[0] == 'x.bench' and list(cmd[2:]) == ['100'] and code_markers))
            reps = cmd[1].v if isinstance(cmd[1], _Text) else float(cmd[1])
            if ':' in group:
                S.check('counters of as many repetitions', mk(sreal(reps), 'float') == mk(sreal(last[0]), 'float'))
                ev, _, reg = group.partition(':')
                v = S.real('counter_%s_%s' % (ev.replace(' ', '_'), reg[:4]))
                values[ev, reg] = v
                return {'other': 1.0, ev: {reg: v}}
            S.check('measured group', bool(group == ('MEM' if 'MEM' in groups else groups[0])))
            S.check('at least one repetition', mk(sreal(reps), 'float') >= 1)
            t, v = ctx().fresh('runtime', 'real') if False else z3.FreshReal('runtime'), z3.FreshReal('volume')
            ctx().assume(z3.And(t >= 0, v >= 0))
            res.reps, res.runtime, res.volume = mk(sreal(reps), 'float'), mk(t, 'float'), mk(v, 'float')
            return res
        real = measure

        def perfctr(cmd, group='MEM', code_markers=True):
            if ':' in group and not last:
                last.append(res.reps)
            return real(cmd, group, code_markers)
        o.perfctr = perfctr
        o.analyze()
        r = o.results
        reps, t = res.reps, res.runtime
        S.check('the measurement lasts long enough', t >= 1.5)
        S.check('the lock is released once', bool(len(closed) == 1))
        S.check('runtime of a repetition', r['Runtime (per repetition) [s]'] * reps == t)
        S.check('iterations of a repetition', r['Iterations per repetition'] == its)
        ipc = r['Iterations per cacheline']
        S.check('iterations per line', ipc * cpl == cl)
        S.check('cycles per line', z3.And(sreal(r['Runtime (per cacheline update) [cy/CL]']) ==
                                          sreal(clock) * (sreal(t) / sreal(reps)) * sreal(ipc) / sreal(its)))
        speed = sreal(its) / (sreal(t) / sreal(reps)) / 1000000
        for k in ('Performance [MIt/s]', 'Performance [MLUP/s]'):
            S.check(k, sreal(r[k]) == speed)
        S.check('operations', sreal(r['Performance [MFLOP/s]']) == speed * (sreal(flops[0]) + sreal(flops[1])))
        vol, b = r['MEM volume (per repetition) [B]'], r['MEM BW [MByte/s]']
        if len(names) == 2:
            S.check('memory volume', sreal(vol) == sreal(res.volume) * 1000000000 / sreal(reps))
            S.check('memory bandwidth', bool(b == 17.0))
        else:
            S.check('unknown volume', bool(not isinstance(vol, SNum) and vol != vol))
            S.check('memory bandwidth', bool(b == 19.0) if names else bool(b != b))
        if not pheno:
            S.check('no counters', bool(r['ECM'] is None and r['data transfers'] is None))
            return
        lines = sreal(its) * sreal(reps) / sreal(ipc)
        for l, xs in LEVELS.items():
            for x in xs:
                S.check('transfers per line', sreal(num(r['data transfers'][l][x])) == sreal(total(l + ' ' + x)) / lines)
        e = r['ECM']
        S.check('overlapping time', sreal(e['T_OL']) == sreal(total('OL')) / lines)
        S.check('time of loads', sreal(e['T_nOL']) == sreal(total('L1 loads')) / lines / 2)
        for n, l, p in (('T_L1L2', 'L2', tp[0]), ('T_L2L3', 'L3', tp[1])):
            S.check(n, sreal(e[n]) == (sreal(total(l + ' loads')) + sreal(total(l + ' stores'))) / lines * sreal(cl) / sreal(p))
        S.check('T_MEM', sreal(num(e['T_MEM'])) == (sreal(total('MEM loads')) + sreal(total('MEM stores'))) / lines * sreal(cl) /
                sreal(bw) * sreal(clock))
    S.run(go, 'analyze')


PROOFS = [('metrics', proof_metrics, ['Benchmark.analyze'])]
