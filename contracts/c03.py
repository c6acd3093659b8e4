"""C03: parameter ranges."""
import argparse
import contextlib
import io
import math
import re
from fractions import Fraction

ID = 'C03'
TITLE = 'parameter ranges'
LEVEL = 'proof'
ASSUMPTIONS = ['float division and multiplication treated as real arithmetic in the proof; base ** log(x) handled by '
               'the executable contract',
               'texts using the undocumented extra colons (1-9:3:log:2) are neither required nor forbidden']
BOUNDED = ['parsing of the notation (regular expression) and logarithmic spacing: directed and random texts']
TRUSTED = ['round(): result within one half of its argument']
RULE = 'directed and random range texts, direct generator calls and malformed texts; non-trivial: not a single number'

STRICT = re.compile(r'(\d+)(?:-(\d+)(?::(\d+)(?:log(\d+)?)?)?)?', re.A)
LENIENT = re.compile(r'(\d+)(?:-(\d+)(?::(\d+)(?::?log(?::?\d+)?)?)?)?', re.A)

BAD = ['', '-', '5-', '-5', '5--7', '1-2-3', '1-9:', '1-9:3x', '1-9:3log2x', '1-9:3ln', '1-9:3log-2', '1.5', '1e3',
       '0x10', 'abc', '10 ', ' 10', '10\n', '1-10\n', '1,2', '1-10:3 log', '10:3', '1-10:3log2 ', '1-10:3lo', '1:2',
       '1-10:3log2log3', '+5', '5+', '1-10x', '3x', '1-10:2:', '1-10-20:3', '1 - 10', 'N', '1-N', '1-10:log',
       '1-10log2', '10log2', '1-10:3log10.5']


def cases(rng, tier):
    for t in ('5', '0', '12345678901234567890', '1-1', '1-5', '5-1', '0-3', '1-5:2', '1-5:3', '1-5:5', '5-1:3', '0-10:4',
              '1-1000:4log', '1-1000:4log10', '1-1024:11log2', '1-8:4log2', '10-10:2', '10-10:3log', '7-9:9',
              '1-1000000:7log', '1-3:2log', '100-10000:20log', '1-100:10', '2-2000:13log3', '00-010:3', '1-5:0', '1-5:1',
              '9007199254740993-9007199254740995:3', '1-100000000000000000:2', '3-123456789012345678:4', '1000-1:4log',
              '20-1000000:33log3', '1-243:6log3', '1-125:4log5', '1-10000000000:11log10'):
        yield {'k': 'text', 't': [t]}
    for t in BAD:
        yield {'k': 'bad', 't': t}
    yield {'k': 'text', 't': ['1-3', '7', '10-20:3'], 'reuse': True}
    yield {'k': 'text', 't': ['1-3', '7', '10-20:3'], 'names': ['N', 'M', 'N']}
    for n in range(2, 12):
        for a, b in ((0, 10), (1, 100), (5, 5), (100, 1), (3, 10 ** 6), (0, 1)):
            yield {'k': 'space', 'a': a, 'b': b, 'n': n, 'end': True}
            yield {'k': 'space', 'a': a, 'b': b, 'n': n, 'end': False}
            if a:
                for base in (2, 3, 7, 10):
                    yield {'k': 'space', 'a': a, 'b': b, 'n': n, 'end': True, 'log': True, 'base': base}
                    yield {'k': 'space', 'a': a, 'b': b, 'n': n, 'end': False, 'log': True, 'base': base}
    for _ in range(3000 if tier == 'quick' else 60000):
        a = rng.choice([rng.randrange(0, 20), rng.randrange(0, 2000), rng.randrange(0, 10 ** rng.randrange(1, 18))])
        b = a + rng.choice([0, 1, rng.randrange(0, 50), rng.randrange(0, 10 ** rng.randrange(1, 18))])
        n = rng.choice([2, 3, 5, rng.randrange(2, 40), rng.randrange(2, 300)])
        if rng.random() < .15:
            a, b = b, a
        base = rng.choice([2, 3, 4, 7, 10, 16, 1000])
        r = rng.random()
        if r < .3:
            yield {'k': 'space', 'a': a, 'b': b, 'n': n, 'end': rng.random() < .5,
                   **({'log': True, 'base': base} if rng.random() < .5 and min(a, b) > 0 else {})}
        elif r < .8:
            def text():
                x, y = a + rng.randrange(3), b + rng.randrange(3)
                z = rng.random()
                if z < .2:
                    return '%d' % x
                if z < .4:
                    return '%d-%d' % (x, x + rng.randrange(0, 60))
                if z < .7 or min(x, y) == 0:
                    return '%d-%d:%d' % (x, y, n)
                return '%d-%d:%dlog%s' % (x, y, n, rng.choice(['', str(base)]))
            yield {'k': 'text', 't': [text() for _ in range(rng.choice([1, 1, 2, 3]))], 'reuse': rng.random() < .2}
        else:
            t = list(rng.choice(['%d' % a, '%d-%d' % (a, b), '%d-%d:%d' % (a, b, n), '%d-%d:%dlog%d' % (a, b, n, base)]))
            for _ in range(rng.choice([1, 1, 2])):
                t.insert(rng.randrange(len(t) + 1), rng.choice(['-', ':', 'x', ' ', '\n', '.', 'log', 'l', ',', '+', '\t']))
            t = ''.join(t)
            if not LENIENT.fullmatch(t):
                yield {'k': 'bad', 't': t}


def trivial(c):
    return c['k'] == 'text' and all(t.isdigit() for t in c['t'])


def spaced(vals, a, b, n, end, log, what):
    """The contract of evenly spaced integers."""
    vals = list(vals)
    if len(vals) != n:
        return '%s gives %d values instead of %d: %r' % (what, len(vals), n, vals[:10])
    if not all(type(v) is int for v in vals):
        return '%s gives non-integers: %r' % (what, vals[:10])
    if vals[0] != a:
        return '%s starts at %r' % (what, vals[0])
    if end and vals[-1] != b:
        return '%s ends at %r' % (what, vals[-1])
    parts = n - 1 if end else n
    for i, v in enumerate(vals):
        if not log:
            exact = Fraction(a) + Fraction(b - a) * i / parts
            tol = Fraction(1, 2) + Fraction(max(abs(a), abs(b), 1)) / 10 ** 13
            if abs(v - exact) > tol:
                return '%s: value %d is %r, expected %s' % (what, i, v, float(exact))
        else:
            exact = math.exp(math.log(a) + (math.log(b) - math.log(a)) * i / parts)
            if abs(v - exact) > .5 + 1e-9 * max(a, b):
                return '%s: value %d is %r, expected %r' % (what, i, v, exact)
        if not end and a != b and v == b and abs(b - a) >= 2 * n:
            return '%s contains its excluded end' % what
    return None


def check(c):
    from kerncraft import kerncraft as kc
    if c['k'] == 'space':
        kw = {k: c[k] for k in ('log', 'base') if k in c}
        what = 'space(%d, %d, %d, endpoint=%r, %r)' % (c['a'], c['b'], c['n'], c['end'], kw)
        e = spaced(kc.space(c['a'], c['b'], c['n'], endpoint=c['end'], **kw), c['a'], c['b'], c['n'], c['end'],
                   c.get('log', False), what)
        if e:
            return e
        if c['end']:
            if list(kc.space(c['a'], c['b'], c['n'], **kw)) != list(kc.space(c['a'], c['b'], c['n'], True, **kw)):
                return 'the end point is not included by default'
        return None

    def parser(dest_default=True):
        p = argparse.ArgumentParser(prog='x')
        p.add_argument('-D', '--define', nargs=2, metavar=('KEY', 'VALUE'), default=[], action=kc.AppendStringRange)
        return p

    def parse(p, argv):
        err = io.StringIO()
        with contextlib.redirect_stderr(err):
            try:
                return p.parse_args(argv)
            except SystemExit as e:
                return 'refused'
            except (ValueError, AssertionError, ArithmeticError) as e:
                return 'refused'
    if c['k'] == 'bad':
        r = parse(parser(), ['-D', 'N', c['t']] if not c['t'].startswith('-') else ['--define', 'N', c['t']])
        if r != 'refused':
            return 'malformed range %r was accepted as %r' % (c['t'], r.define)
        return None
    names = c.get('names') or ['N%d' % i for i in range(len(c['t']))]
    argv = []
    for n, t in zip(names, c['t']):
        argv += ['-D', n, t]
    p = parser()
    r = parse(p, argv)
    invalid = False
    for t in c['t']:
        m = STRICT.fullmatch(t)
        if m.group(3) is not None and int(m.group(3)) < 2:
            invalid = True
    if r == 'refused':
        return None if invalid else 'range %r was refused' % (c['t'],)
    if invalid:
        return 'range %r with fewer than two values was accepted: %r' % (c['t'], r.define)
    if [d[0] for d in r.define] != names:
        return 'options %r accumulate as %r' % (argv, r.define)
    for t, d in zip(c['t'], r.define):
        m = STRICT.fullmatch(t)
        a, b, n = int(m.group(1)), m.group(2), m.group(3)
        got = d[1]
        if b is None:
            e = None if list(got) == [a] else '%r expands to %r' % (t, got)
        elif n is None:
            e = None if list(got) == list(range(a, int(b) + 1)) else '%r expands to %r' % (t, got)
        else:
            e = spaced(got, a, int(b), int(n), True, 'log' in t, repr(t))
        if e:
            return e
    if c.get('reuse'):
        first = repr(r.define)
        r2 = parse(p, argv)
        if repr(r2.define) != first or repr(r.define) != first:
            return 'a second use of the parser gives %r after %s' % (r2.define, first)
    return None



# ------------------------------------------------------------------ proofs
def proof_space(S):
    """space() with a linear scale, for every start, stop and number of values."""
    import z3
    from engine import instr
    from engine.core import SNum, zb
    m = instr.load('kerncraft/kerncraft.py')
    S.cut_hints.append('space')
    for end in (True, False):
        def go(S):
            a, b, n = S.int('start'), S.int('stop'), S.int('num')
            S.assume(n >= 2)
            r = m.space(a, b, n, endpoint=end)
            r = m.__dict__['__builtins__']['list'](r)
            S.check('linear: exactly num values', r.vlen() == n)
            i = S.int('i')
            S.assume((i >= 0) & (i < n))
            v = r.at(i)
            S.check('linear: values are integers', v.kind == 'int' if isinstance(v, SNum) else isinstance(v, int))
            parts = (n - 1) if end else n
            ra, rb, rp, ri, rv = [z3.ToReal(x.t) for x in (a, b, parts, i, v)]
            S.check('linear: the first value is start', zb(r.at(0) == a))
            exact = ra + ri * ((rb - ra) / rp)
            d = rv - exact
            S.check('linear: every value is within one half of even spacing',
                    z3.And(d <= z3.RealVal('1/2'), -d <= z3.RealVal('1/2')))
            if end:
                S.check('linear: the last value is stop', zb(r.at(n - 1) == b))
        S.run(go, 'space(endpoint=%s)' % end)


PROOFS = [('space', proof_space, ['kerncraft.space (linear scale)'])]
