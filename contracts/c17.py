"""C17: counter scheduling."""
ID = 'C17'
TITLE = 'counter scheduling and notations'
LEVEL = 'proof'
ASSUMPTIONS = ['every register description denotes at least one register',
               'metrics separate counters from operators by white space or parentheses']
ASSUMPTIONS += ['the proof of build_minimal_runs covers up to five events with up to three registers each (any names and '
                'coincidences), that of the notation up to six parameters; register descriptions and metrics, whose '
                'functions match regular expressions, are only explored']
BOUNDED = ['build_minimal_runs, register_options, group_iterator, eventstr, parse_perfctr_event, parse_perfmetric: random event sets '
           'of up to 14 events']
TRUSTED = ['sympy expression parsing']
RULE = 'random event sets, register descriptions, event texts and metrics; non-trivial: competing events, groups or parameters'
SHARDS = 4
REGS = ['PMC0', 'PMC[0-3]', 'PMC[0-1]', 'PMC[01]', 'PMC0|PMC2', 'PMC[0-1]|PMC[23]', 'FIXC0', 'MBOX0C[01]', 'CBOX[0-3]C[01]',
        'CBOX2C1', 'PMC[1-3]', 'PMC[3-3]', 'MBOX[0-1]C1|MBOX5C[0-2]', 'X[a-c]', 'PMC3|PMC[0-3]', 'PMC[0-1][2-3]', 'X[9A]',
        'PMC[7-9]', 'A|B|C', '[AB]0', '', None]
EVENTS = ['L1D_REPLACEMENT', 'L2_LINES', 'MEM_UOPS_RETIRED_LOADS', 'CAS_COUNT_RD', 'A', 'A1', 'B_2', 'L1D', 'INSTR_RETIRED_ANY']
PARAMS = [[], [], [], ['EDGEDETECT'], ['THRESHOLD=0x926'], ['EDGEDETECT', 'THRESHOLD=0x926'], ['MATCH0=0x38D', 'NID=0x1'], ['A=1']]


def cases(rng, tier):
    for r in REGS:
        yield {'k': 'reg', 'r': r}
    for g in ('a-f', '148', '7-9ab', '0B-A1', 'B-A', '9-0', 'x-z0-2', '0-9', 'A-C', '-', 'a-', '-a', 'z', 'y-C', '8-9'):
        yield {'k': 'reg', 'r': 'P[%s]' % g if expand('P[%s]' % g) else 'P0'}
        yield {'k': 'grp', 'g': g}
    yield {'k': 'runs', 'e': []}
    for e in EVENTS:
        for p in PARAMS:
            for r in ('PMC0', 'MBOX0C1', 'FIXC2'):
                yield {'k': 'ev', 'e': [e, r, p]}
    n = 3500 if tier == 'quick' else 60000
    for _ in range(n):
        z = rng.random()
        if z < .6:
            pool = rng.choice([REGS[:4], REGS[:-2], ['PMC[0-3]'], ['PMC0', 'PMC1', 'PMC[0-1]'], REGS[:-2]])
            ev = [[rng.choice(EVENTS), rng.choice(pool), rng.choice(PARAMS + [None])] for _ in range(rng.randrange(1, 15))]
            for e in list(ev):
                if rng.random() < .2:
                    ev.insert(rng.randrange(len(ev) + 1), list(e))
            yield {'k': 'runs', 'e': ev}
        elif z < .8:
            parts = []
            for _ in range(rng.randrange(1, 4)):
                t = rng.choice(['PMC', 'M', 'CBOX', ''])
                for _ in range(rng.randrange(1, 4)):
                    a, b = sorted(rng.sample('0123456789', 2))
                    t += rng.choice(['[%s-%s]' % (a, b), '[%s%s]' % (a, b), a, 'C', '[%s-%s%s]' % (a, b, 'xyz'), '[a-c]',
                                     '[A-B7]'])
                parts.append(t)
            yield {'k': 'reg', 'r': '|'.join(parts)}
        else:
            evs = rng.sample(EVENTS, rng.randrange(1, 5))
            cs = []
            for e in evs:
                t = e + ':' + rng.choice([r for r in REGS if r and not any(ch.islower() for ch in r)])
                p = rng.choice(PARAMS)
                cs.append(':'.join([t] + p))
                if rng.random() < .3:
                    cs.append(e + ':' + 'PMC0')
            yield {'k': 'metric', 'c': cs, 'op': [rng.choice(['+', '-', '*', '/']) for _ in cs],
                   'f': [rng.choice(['', '2 * ', '0.5 * ', '64 / ']) for _ in cs], 'par': rng.random() < .3,
                   'rep': rng.random() < .4}


def trivial(c):
    return c['k'] == 'runs' and len(c['e']) < 2 or c['k'] == 'ev' and not c['e'][2]


ORDER = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'


def group(g):
    out, i = [], 0
    while i < len(g):
        if i + 2 < len(g) and g[i + 1] == '-' and g[i] in ORDER and g[i + 2] in ORDER:
            out += list(ORDER[ORDER.index(g[i]):ORDER.index(g[i + 2]) + 1])
            i += 3
        else:
            out.append(g[i])
            i += 1
    return out


def expand(desc):
    """Names a register description denotes, in order."""
    if not desc:
        return [None]
    res = []
    for u in desc.split('|'):
        cur, i = [''], 0
        while i < len(u):
            if u[i] == '[' and ']' in u[i + 2:]:
                e = u.index(']', i + 1)
                cur = [a + b for a in cur for b in group(u[i + 1:e])]
                i = e + 1
            else:
                cur = [a + u[i] for a in cur]
                i += 1
        res += cur
    return res


def check(c):
    from kerncraft.models import benchmark
    from kerncraft.machinemodel import MachineModel
    if c['k'] == 'grp':
        r = list(benchmark.group_iterator(c['g']))
        return None if r == group(c['g']) else 'group %r expands to %r instead of %r' % (c['g'], r, group(c['g']))
    if c['k'] == 'reg':
        r = list(benchmark.register_options(c['r']))
        if r != expand(c['r']):
            return 'register description %r expands to %r instead of %r' % (c['r'], r, expand(c['r']))
        return None
    if c['k'] == 'ev':
        e, r, p = c['e']
        text = ':'.join([e, r] + p)
        for q in (p, tuple(p)):
            for t in ([(e, r, q)] + ([(e, r), (e, r, None)] if not p else [])):
                keep = list(q)
                g = benchmark.eventstr(t)
                if g != text:
                    return 'eventstr(%r) is %r instead of %r' % (t, g, text)
                if list(q) != keep:
                    return 'eventstr changed its argument'
            g = benchmark.eventstr(event=e, register=r, parameters=q)
            if g != text:
                return 'eventstr by keywords is %r instead of %r' % (g, text)
        back = MachineModel.parse_perfctr_event(text)
        if not (back[0] == e and back[1] == r and list(back[2] or []) == p):
            return 'parse_perfctr_event(%r) is %r' % (text, back)
        if benchmark.eventstr(tuple(back)) != text:
            return 'eventstr(parse_perfctr_event(%r)) is %r' % (text, benchmark.eventstr(tuple(back)))
        # group descriptions are kept as text
        return None
    if c['k'] == 'metric':
        return check_metric(c, MachineModel)
    events = [(e, r, None if p is None else tuple(p)) for e, r, p in c['e']]
    keep = list(events)
    runs = benchmark.build_minimal_runs(events)
    if events != keep:
        return 'build_minimal_runs changed its argument'
    if not isinstance(runs, (list, tuple)):
        return 'runs are %r' % (runs,)
    distinct = []
    for e in events:
        if e not in distinct:
            distinct.append(e)
    what = 'runs %r of events %r' % (runs, events)
    got = [(i, x) for i, r in enumerate(runs) for x in r]
    if any(not r for r in runs):
        return 'empty run in ' + what
    if len(got) != len(distinct):
        return '%d distinct events but %d scheduled: %s' % (len(distinct), len(got), what)
    for i, r in enumerate(runs):
        regs = [x[1] for x in r]
        if len(set(regs)) != len(regs):
            return 'register used twice in run %d of %s' % (i, what)
    # every scheduled entry belongs to one distinct event: matching per (event, parameters) class
    classes = {}
    for e in distinct:
        classes.setdefault((e[0], e[2]), []).append(e)
    for i, x in got:
        if (x[0], x[2]) not in classes:
            return 'scheduled %r was not requested: %s' % (x, what)
    for key, evs in classes.items():
        slots = [(i, x[1]) for i, x in got if (x[0], x[2]) == key]
        if len(slots) != len(evs):
            return 'event %r scheduled %d times instead of %d: %s' % (key, len(slots), len(evs), what)
        # assignment of events to slots such that registers are allowed and later runs are justified
        used = {i: {x[1] for x in r} for i, r in enumerate(runs)}

        def ok(e, slot):
            i, reg = slot
            o = expand(e[1])
            return reg in o and all(set(o) <= used[j] for j in range(i))

        def match(rest, free):
            if not rest:
                return True
            return any(ok(rest[0], s) and match(rest[1:], free[:n] + free[n + 1:]) for n, s in enumerate(free))
        if len(evs) <= 7 and not match(evs, slots):
            allowed = any(any(s[1] in expand(e[1]) for s in slots) for e in evs)
            return 'events %r are on registers or runs %r, not allowed or later than needed: %s' % (evs, slots, what)
    return None


def check_metric(c, MachineModel):
    import sympy
    text = ''
    used = list(c['c'])
    if c['rep']:
        used = used + [used[0]]
    ops = (c['op'] + c['op'])[:len(used)]
    fs = (c['f'] + c['f'])[:len(used)]
    for i, (o, f, x) in enumerate(zip(ops, fs, used)):
        part = f + x
        text += part if not text else ' %s %s' % (o, '(%s)' % part)
    if c['par']:
        text = '(' + text + ') / 2'
    expr, events = MachineModel.parse_perfmetric(text)
    distinct = list(dict.fromkeys(used))
    # value: counters replaced by numbers
    vals = {x: 3 + 2 * i + (i * i) for i, x in enumerate(distinct)}
    ptext = text
    for x in sorted(distinct, key=len, reverse=True):
        ptext = ptext.replace(x, '\0%d\0' % vals[x])
    ptext = ptext.replace('\0', '')
    from fractions import Fraction
    import re
    want = eval(re.sub(r'\d+(\.\d+)?', lambda m: "Fraction('%s')" % m.group(), ptext), {'Fraction': Fraction})
    names = sorted(s.name for s in events)
    present = sorted(s.name for s in expr.free_symbols)
    if not set(names) <= set(distinct) or names != present:
        return 'metric %r refers to %r instead of %r' % (text, names, sorted(distinct))
    for s, ev in events.items():
        p = s.name.split(':')
        if not (ev[0] == p[0] and ev[1] == p[1] and list(ev[2] or []) == p[2:]):
            return 'counter %r of metric %r is event %r' % (s.name, text, ev)
    got = expr.subs({s: vals[s.name] for s in events})
    if abs(float(got) - float(want)) > 1e-9 * max(1, abs(float(want))):
        return 'metric %r has value %r instead of %r for %r' % (text, got, float(want), vals)
    # nothing lost: a counter may only vanish if it does not matter
    for x in distinct:
        if x not in names:
            v2 = dict(vals)
            v2[x] += 17
            pt = text
            for y in sorted(distinct, key=len, reverse=True):
                pt = pt.replace(y, '\0%d\0' % v2[y])
            w2 = eval(re.sub(r'\d+(\.\d+)?', lambda m: "Fraction('%s')" % m.group(), pt.replace('\0', '')),
                      {'Fraction': Fraction})
            if w2 != want:
                return 'counter %r of metric %r is lost' % (x, text)
    return None


# ------------------------------------------------------------------ proofs
def _partitions(k):
    """All ways to give k things the same or different labels."""
    out = [[]]
    for _ in range(k):
        out = [p + [x] for p in out for x in range(max(p + [-1]) + 2)]
    return out


def _runs(S, shapes):
    """build_minimal_runs: any names of events, registers and parameters, coincidences included."""
    from engine import instr, core
    from engine.core import SAtom, SBool
    from engine.cont import VList

    def native(x):
        return x.lit() if isinstance(x, VList) else list(x)

    def go(S, count, noptions, labels):
        m = instr.load('kerncraft/models/benchmark.py')
        options = {}
        for d in sorted(set(labels)):
            n = noptions[d % len(noptions)]
            options['D%d' % d] = [S.atom('register_%d_%d' % (d, i)) for i in range(n)] if n else [None]
        events = []
        for i in range(count):
            par = None if i == 2 else S.atom('parameters_%d' % i)
            events.append((S.atom('event_%d' % i), 'D%d' % labels[i], par))
        for a in list(options.values()) + [[e[0], e[2]] for e in events]:
            for x in a:
                if x is not None:
                    S.assume(SBool(x.t > core.SYM_ATOM_BASE))
        m.register_options = lambda d: iter(list(options[d]))

        def same(a, b):
            if a is None or b is None:
                return a is b
            return bool(a == b)

        given = VList(list(events))
        runs = [native(r) for r in native(m.build_minimal_runs(given))]
        S.check('the events given are left alone', bool(len(given.lit()) == count and all(
            x is y for x, y in zip(given.lit(), events))))
        distinct = []
        for e in events:
            if not any(e[1] == d[1] and same(e[0], d[0]) and same(e[2], d[2]) for d in distinct):
                distinct.append(e)
        S.check('no empty run', bool(all(runs)))
        S.check('each distinct event is scheduled once', bool(sum(map(len, runs)) == len(distinct)))
        for r in runs:
            for i, x in enumerate(r):
                for y in r[:i]:
                    S.check('one event per register and run', not same(x[1], y[1]))
        slots = [(i, x) for i, r in enumerate(runs) for x in r]

        def ok(e, i, x):
            return same(x[0], e[0]) and same(x[2], e[2]) and any(same(x[1], o) for o in options[e[1]]) and all(
                any(same(o, y[1]) for y in runs[j]) for j in range(i) for o in options[e[1]])

        def match(rest, free):
            if not rest:
                return True
            return any(ok(rest[0], *s) and match(rest[1:], free[:n] + free[n + 1:]) for n, s in enumerate(free))
        S.check('each on a register of its own, in the first run that has one free', match(distinct, slots))

    if (0, [1]) in shapes:
        S.run(lambda S: go(S, 0, [1], []), 'no event')
    for count, opts in shapes:
        for labels in _partitions(count) if count else []:
            if count >= 4 and len(set(labels)) > 6 - count:
                continue
            S.run(lambda S: go(S, count, opts, labels), '%d events, descriptions %s of %s registers' % (count, labels, opts))


def proof_runs(S):
    """Up to three events of up to three registers each."""
    _runs(S, [(0, [1]), (1, [1]), (1, [3]), (2, [1, 2]), (2, [2, 3]), (2, [0, 1]), (3, [1, 1]), (3, [2, 1]), (3, [0, 2]),
              (3, [3, 1]), (4, [1, 0])])


def proof_runs4(S):
    """Four events with up to two descriptions, of two registers and one."""
    _runs(S, [(4, [2, 1])])


def proof_runs5(S):
    """Five events on one register."""
    _runs(S, [(5, [1])])


def proof_notation(S):
    """eventstr and parse_perfctr_event: any texts, up to six parameters."""
    from engine import instr
    from engine.core import SText, SAtom
    from engine.cont import VList, veq

    class Text(object):
        """A text of fields without colons."""
        def __init__(self, fields):
            self.fields = fields

        def split(self, sep=None, maxsplit=-1):
            if sep != ':':
                S.fail('split at something else than colons')
            if 0 <= maxsplit < len(self.fields) - 1:
                return VList(list(self.fields[:maxsplit]) + [Text(self.fields[maxsplit:])])
            return VList(list(self.fields))

        def partition(self, sep):
            if sep != ':':
                S.fail('split at something else than colons')
            if len(self.fields) == 1:
                return (self.fields[0], '', '')
            return (self.fields[0], ':', self.fields[1] if len(self.fields) == 2 else Text(self.fields[1:]))

        def count(self, sep):
            return len(self.fields) - 1

    def native(x):
        return x.lit() if isinstance(x, VList) else list(x)

    def go(S, n, kind):
        m = instr.load('kerncraft/models/benchmark.py')
        mm = instr.load('kerncraft/machinemodel.py')
        fields = [S.atom('event'), S.atom('register')] + [S.atom('parameter_%d' % i) for i in range(n)]
        pars = {'tuple': tuple(fields[2:]), 'list': VList(fields[2:]), 'none': None}[kind]
        whole = []
        for i, f in enumerate(fields):
            whole += ([':'] if i else []) + [f]
        want = SText(whole)
        t = (fields[0], fields[1], pars)
        S.check('text of an event', m.eventstr(t) == want)
        S.check('text by keywords', m.eventstr(event=fields[0], register=fields[1], parameters=pars) == want)
        if kind == 'none':
            S.check('text of an event without parameters', m.eventstr((fields[0], fields[1])) == want)
        S.check('parameters are left alone', bool(pars is None or len(native(pars)) == n))
        back = native(mm.MachineModel.parse_perfctr_event(Text(fields)))
        S.check('three parts', bool(len(back) == 3))
        S.check('event and register', (back[0] == fields[0]) & (back[1] == fields[1]))
        p = native(back[2] or ())
        S.check('all parameters', bool(len(p) == n))
        for a, b in zip(p, fields[2:]):
            S.check('each parameter', a == b)
        S.check('there and back', m.eventstr(instr.b_tuple(VList(back))) == want)
    for n in range(7):
        for kind in ('tuple', 'list') + (('none',) if not n else ()):
            S.run(lambda S: go(S, n, kind), '%d parameters as %s' % (n, kind))


PROOFS = [('runs', proof_runs, ['build_minimal_runs']), ('runs of four', proof_runs4, ['build_minimal_runs']),
          ('runs of five', proof_runs5, ['build_minimal_runs']), ('notation', proof_notation, ['eventstr', 'MachineModel.parse_perfctr_event'])]
