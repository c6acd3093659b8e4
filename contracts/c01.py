"""C01: arithmetic on quantities with units."""
import math
import operator
import re

ID = 'C01'
TITLE = 'quantities with units'
LEVEL = 'proof'
ASSUMPTIONS = [
    'machine floats are treated as exact reals in the proofs; rounding is covered by the executable contract only',
    'units are opaque strings in the proofs',
    'text round trip: for units not starting with a prefix letter and without blanks (otherwise the notation itself is '
    'ambiguous)',
]
BOUNDED = ['textual round trip and parsing (regular expressions): random and directed quantities only']
TRUSTED = []
RULE = ('directed prefix x prefix x operator grid plus random quantities; non-trivial: operands differ in prefix or the '
        'operation is not the identity')

SI = {'': 0, 'k': 3, 'M': 6, 'G': 9, 'T': 12, 'P': 15, 'E': 18, 'Z': 21, 'Y': 24}
UNITS = ['B', 'FLOP', 'cy', 'It', 'Hz', 'B/s', 's', '']
OPS = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'truediv': operator.truediv,
       'floordiv': operator.floordiv, 'mod': operator.mod}
CMP = {'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge, 'eq': operator.eq,
       'ne': operator.ne}


def cases(rng, tier):
    pre = list(SI)
    for p in pre:
        for u in UNITS:
            yield {'k': 'table', 'p': p, 'u': u}
    vals = [0.0, 1.0, -1.0, 2.5, 999.0, 1000.0, 1024.0, 1500.0, 0.001, 123456.0, -7.25, 3e7, 9.004, 0.9, 0.895,
            999.994, 999.996, 1e-5, 64.0]
    for v in vals:
        for p in pre:
            yield {'k': 'prefix', 'a': [v, p, 'B'], 't': rng.choice(pre)}
            yield {'k': 'text', 'a': [v, p, 'B/s' if p else 'cy']}
    for o in OPS:
        for p in pre[:7]:
            for q in pre[:7]:
                for va, vb in ((7.0, 2.0), (1500.0, 3.0), (-7.0, 2.0), (1.0, 1000.0), (0.0, 5.0), (2.5, 2.5),
                               (7.0, -2.0)):
                    yield {'k': 'op', 'o': o, 'a': [va, p, 'B'], 'b': [vb, q, 'B']}
        for va in (7.0, -3.0, 12000.0):
            for s in (2, 3.0, -4, 1000):
                yield {'k': 'op', 'o': o, 'a': [va, rng.choice(pre), 'Hz'], 'b': s}
        yield {'k': 'op', 'o': o, 'a': [8.0, 'k', 'B'], 'b': [2.0, 'k', 's']}
        yield {'k': 'op', 'o': o, 'a': [8.0, 'M', 'It'], 'b': [2.0, '', 'FLOP']}
        yield {'k': 'op', 'o': o, 'a': [8.0, 'M', ''], 'b': [2.0, '', 'FLOP']}
        yield {'k': 'op', 'o': o, 'a': [8.0, 'M', 'B'], 'b': [2.0, '', '']}
    for p in pre:
        for q in pre:
            for va, vb in ((1.0, 1000.0), (1000.0, 1.0), (1.0, 1.0), (-2.0, 3.0), (5.0, 4999.0), (0.0, 0.0),
                           (1.0, 1000000.0)):
                yield {'k': 'cmp', 'a': [va, p, 'B'], 'b': [vb, q, rng.choice(['B', 'cy'])]}
    for v in ('inf', '-inf'):
        for p in pre:
            yield {'k': 'text', 'a': [v, p, 'It/s']}
            yield {'k': 'prefix', 'a': [v, p, 'It/s'], 't': rng.choice(pre)}
            yield {'k': 'op', 'o': 'mul', 'a': [v, p, 'It/s'], 'b': 2}
            yield {'k': 'op', 'o': 'add', 'a': [v, p, 'It/s'], 'b': [3.0, 'k', 'It/s']}
            yield {'k': 'cmp', 'a': [v, p, 'It/s'], 'b': [3.0, 'G', 'It/s']}
    n = 6000 if tier == 'quick' else 120000
    for _ in range(n):
        def q(exact):
            if exact:
                v = float(rng.randrange(-40, 4000))
            else:
                v = rng.choice([rng.uniform(0, 10), rng.uniform(-1000, 1000), rng.expovariate(1e-4),
                                rng.randrange(1, 100000) / 100, rng.randrange(1, 10 ** 7) / 8])
            return [v, rng.choice(pre[:6] if exact else pre), rng.choice(UNITS)]
        k = rng.random()
        if k < .35:
            o = rng.choice(list(OPS))
            ex = o in ('floordiv', 'mod')
            a, b = q(ex), q(ex)
            if ex:
                a[1], b[1] = rng.choice(pre[:4]), rng.choice(pre[:4])
            if rng.random() < .7:
                b[2] = a[2]
            if rng.random() < .2:
                b = rng.choice([rng.randrange(1, 100), float(rng.randrange(-5, 50)), rng.randrange(1, 9)])
            yield {'k': 'op', 'o': o, 'a': a, 'b': b}
        elif k < .5:
            a, b = q(True), q(True)
            if rng.random() < .3:
                b = [a[0] * 1000, pre[max(0, pre.index(a[1]) - 1)], b[2]]
            yield {'k': 'cmp', 'a': a, 'b': b}
        elif k < .6:
            yield {'k': 'abs', 'a': q(False)}
        elif k < .8:
            yield {'k': 'prefix', 'a': q(False), 't': rng.choice(pre)}
        else:
            a = q(False)
            yield {'k': 'text', 'a': a}


def trivial(c):
    return c['k'] == 'table' and c['p'] == ''


def _f(v):
    return float(v)


def base(a):
    return _f(a[0]) * 10.0 ** SI[a[1]]


def close(x, y, scale=None, rel=1e-11):
    if math.isnan(y):
        return math.isnan(x)
    if math.isinf(y) or math.isinf(x):
        return x == y
    return abs(x - y) <= rel * max(abs(x), abs(y), scale or 0.0)


def check(c):
    from kerncraft.prefixedunit import PrefixedUnit as PU
    k = c['k']
    if k == 'table':
        p, u = c['p'], c['u']
        for q, how in ((PU(1.0, p, u), '3 arguments'), (PU('1 ' + p + u), 'text')) if u else \
                ((PU(1.0, p, u), '3 arguments'),):
            if q.base_value() != 10.0 ** SI[p]:
                return 'prefix %r stands for %r (%s)' % (p, q.base_value(), how)
            if q.unit != u:
                return 'unit of 1 %s%s is %r (%s)' % (p, u, q.unit, how)
        if u and p in 'kMGTP' and p:
            q = PU(1.0, p + u)
            if q.base_value() != 10.0 ** SI[p] or q.unit != u:
                return 'PrefixedUnit(1, %r) is %r' % (p + u, q)
        if int(PU(3.0, p, u)) != int(3.0 * 10.0 ** SI[p]):
            return 'int() of 3 %s%s is %d' % (p, u, int(PU(3.0, p, u)))
        return None
    a = PU(_f(c['a'][0]), c['a'][1], c['a'][2])
    ba = base(c['a'])
    if not close(a.base_value(), ba) or not close(float(a), ba):
        return 'base value of %r is %r, expected %r' % (c['a'], a.base_value(), ba)
    if math.isfinite(ba):
        i = int(a)
        if i != int(a.base_value()) and not close(i, ba, rel=1e-11) or abs(i - ba) > 1 + 1e-11 * abs(ba):
            return 'int() of %r is %r, its base value is %r' % (a, i, ba)
    if k == 'op':
        f = OPS[c['o']]
        if isinstance(c['b'], list):
            b, bb, ub = PU(_f(c['b'][0]), c['b'][1], c['b'][2]), base(c['b']), c['b'][2]
        else:
            b, bb, ub = c['b'], float(c['b']), None
        ua = c['a'][2]
        if c['o'] in ('add', 'sub', 'mod') and ub is not None and ub != ua:
            try:
                r = f(a, b)
            except ValueError:
                return None
            return '%s of units %r and %r was not refused but gave %r' % (c['o'], ua, ub, r)
        if bb == 0 and c['o'] in ('truediv', 'floordiv', 'mod'):
            try:
                r = f(a, b)
            except ZeroDivisionError:
                return None
            return '%s by zero gave %r' % (c['o'], r)
        exp = f(ba, bb)
        r = f(a, b)
        unit = ua
        if ub is not None:
            unit = {'mul': ua + ub, 'truediv': ua + '/' + ub, 'floordiv': ua + '/' + ub}.get(c['o'], ua)
        sc = max(abs(ba), abs(bb)) if c['o'] in ('add', 'sub') else None
        if not close(r.base_value(), exp, sc):
            return '%r %s %r = %r, base value %r, expected %r' % (a, c['o'], b, r, r.base_value(), exp)
        if r.unit != unit:
            return '%r %s %r has unit %r, expected %r' % (a, c['o'], b, r.unit, unit)
        if (a.base_value(), a.unit) != (float(a), ua) or not close(a.base_value(), ba):
            return 'operand changed'
        return None
    if k == 'cmp':
        b = PU(_f(c['b'][0]), c['b'][1], c['b'][2])
        bb = base(c['b'])
        if ba != bb and close(ba, bb, rel=1e-9):
            return None
        if ba == bb and float(a) != float(b):
            return None  # equal only up to rounding
        for o, f in CMP.items():
            if bool(f(a, b)) != f(ba, bb):
                return '%r %s %r is %r' % (a, o, b, f(a, b))
        if bool(a == bb) != (ba == bb):
            return 'comparison with a number differs'
        return None
    if k == 'abs':
        r = abs(a)
        if not close(r.base_value(), abs(ba)) or r.unit != c['a'][2]:
            return 'abs(%r) = %r' % (a, r)
        return None
    if k == 'prefix':
        r = a.with_prefix(c['t'])
        if not close(r.base_value(), ba) or r.unit != c['a'][2] or r.prefix != c['t']:
            return '%r with prefix %r is %r' % (a, c['t'], r)
        r = a.reduced()
        if not close(r.base_value(), ba) or r.unit != c['a'][2]:
            return '%r reduced is %r' % (a, r)
        if r.prefix not in SI:
            return 'unknown prefix chosen: %r' % r
        g = a.good_prefix()
        if g not in SI:
            return 'good_prefix of %r is %r' % (a, g)
        return None
    if k == 'text':
        s = str(a)
        u = c['a'][2]
        m = re.match(r'^(-?(?:[0-9]+(?:\.[0-9]+)?|inf|nan))(?: ([kMGTPEZY]?)(%s))?$' % re.escape(u), s)
        if not m:
            return 'printed form of %r is %r' % (a, s)
        if u and m.group(3) != u:
            return 'printed form of %r is %r: unit lost' % (a, s)
        pf = m.group(2) or ''
        shown = float(m.group(1)) * 10.0 ** SI[pf]
        tol = 0.00501 * 10.0 ** SI[pf] + 1e-11 * (abs(ba) if math.isfinite(ba) else 0)
        if not (shown == ba or abs(shown - ba) <= tol):
            return 'printed form of %r is %r, off by %r' % (a, s, shown - ba)
        b = PU(s)
        if not close(b.base_value(), shown) or b.unit != u:
            return '%r printed as %r reads back as %r' % (a, s, b)
        return None
    raise AssertionError(k)



# ------------------------------------------------------------------ proofs
def _load():
    from engine import instr
    return instr.load('kerncraft/prefixedunit.py')


def _obj(S, m, name, prefix=None):
    v = S.real(name)
    p = S.pick(list(SI)) if prefix is None else prefix
    o = m.PrefixedUnit(v, p, S.atom('u_' + name))
    return o, v * 10.0 ** SI[p]


def proof_base(S):
    """base_value/float/int/constructor: prefix p stands for 10**p."""
    m = _load()

    def go(S):
        o, b = _obj(S, m, 'a')
        S.check('base value is value times ten to the prefix', o.base_value() == b)
        S.check('float() is the base value', m.__dict__['__builtins__']['float'](o) == b)
        S.check('constructor keeps the unit', o.unit == S.atom('u_a'))
    S.run(go, 'constructor, base_value')

    def bad(S):
        try:
            m.PrefixedUnit(S.real('a'), 'x', 'B')
        except AssertionError:
            S.check('unknown prefixes are refused', True)
        else:
            S.fail('unknown prefixes are refused')
    S.run(bad, 'constructor refuses')


def proof_prefix(S):
    """with_prefix/reduced keep the represented value; good_prefix returns a known prefix."""
    m = _load()

    def wp(S):
        o, b = _obj(S, m, 'a')
        p = S.pick(list(SI))
        r = o.with_prefix(p)
        S.check('with_prefix keeps the base value', r.base_value() == b)
        S.check('with_prefix keeps the unit', r.unit == S.atom('u_a'))
        S.check('with_prefix sets the prefix', r.prefix == p)
        S.check('with_prefix leaves its operand alone', o.base_value() == b)
    S.run(wp, 'with_prefix')

    P = m.PrefixedUnit
    real_gp = P.good_prefix
    P.good_prefix = lambda self, *a, **kw: S.pick(list(SI))

    def red(S):
        o, b = _obj(S, m, 'a')
        r = o.reduced()
        S.check('reduced keeps the base value', r.base_value() == b)
        S.check('reduced keeps the unit', r.unit == S.atom('u_a'))
        a = abs(o)
        S.check('abs has the absolute base value', a.base_value() == abs(b))
        S.check('abs keeps the unit', a.unit == S.atom('u_a'))
    S.run(red, 'reduced, abs (against the contract of good_prefix)')
    P.good_prefix = real_gp

    def gp(S):
        P.PREFIXES = {k: P.PREFIXES[k] for k in ('', 'k', 'M')}
        o = m.PrefixedUnit(S.real('a'), '', 'B')
        err = S.pick([0.0, 0.01])
        g = o.good_prefix(max_error=err)
        S.check('good_prefix returns a known prefix', g in P.PREFIXES)
    full = P.PREFIXES
    S.run(gp, 'good_prefix (prefix table cut to three entries)')
    P.PREFIXES = full


def proof_ops(S):
    """Every operator against the contract of reduced()."""
    m = _load()
    P = m.PrefixedUnit

    def reduced(self):
        r = object.__new__(P)
        r.value, r.prefix, r.unit = S.real('reduced_value'), S.atom('reduced_prefix'), self.unit
        r.ghost = self.base_value()
        return r
    P.reduced = reduced
    from engine.core import SText
    import z3

    def operand(S, scalar):
        if scalar:
            k = S.real('b')
            return k, k, None
        o, b = _obj(S, m, 'b')
        return o, b, o.unit

    for name, f in OPS.items():
        for scalar in (False, True):
            def go(S):
                a, ba = _obj(S, m, 'a')
                b, bb, ub = operand(S, scalar)
                needs = name in ('add', 'sub', 'mod') and ub is not None
                div = name in ('truediv', 'floordiv', 'mod')
                if needs:
                    same = a.unit == ub
                try:
                    r = f(a, b)
                except ValueError:
                    S.check('%s refuses exactly differing units' % name, ~same if needs else False)
                    return
                except ZeroDivisionError:
                    S.check('%s refuses exactly division by zero' % name, (bb == 0) if div else False)
                    return
                if needs:
                    S.check('%s refuses differing units' % name, same)
                if div:
                    S.check('%s refuses division by zero' % name, bb != 0)
                    S.assume(bb != 0)
                S.check('%s gives the base value of real arithmetic' % name, _bv(r) == f(ba, bb))
                unit = a.unit
                if ub is not None:
                    if name == 'mul':
                        unit = a.unit + ub
                    elif name in ('truediv', 'floordiv'):
                        unit = a.unit + '/' + ub
                S.check('%s composes the unit' % name, r.unit == unit)
                S.check('%s leaves its operands alone' % name, a.base_value() == ba)
            S.run(go, 'PrefixedUnit.%s %s' % (name, 'number' if scalar else 'quantity'))
    for name, f in CMP.items():
        for scalar in (False, True):
            def go(S):
                a, ba = _obj(S, m, 'a')
                b, bb, ub = operand(S, scalar)
                S.check('%s compares base values only' % name, _iff(f(a, b), f(ba, bb)))
            S.run(go, 'PrefixedUnit.%s' % name)


def _bv(r):
    return r.ghost if hasattr(r, 'ghost') else r.base_value()


def _iff(a, b):
    from engine.core import zb
    return zb(a) == zb(b)


PROOFS = [
    ('base', proof_base, ['PrefixedUnit.__init__ (3 arguments)', 'PrefixedUnit.base_value', 'PrefixedUnit.__float__']),
    ('prefix', proof_prefix, ['PrefixedUnit.with_prefix', 'PrefixedUnit.reduced', 'PrefixedUnit.__abs__',
                              'PrefixedUnit.good_prefix']),
    ('operators', proof_ops, ['PrefixedUnit.__add__', '__sub__', '__mul__', '__truediv__', '__floordiv__', '__mod__',
                              '__lt__', '__le__', '__gt__', '__ge__', '__eq__', '__ne__']),
]
