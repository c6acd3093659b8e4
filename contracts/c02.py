"""C02: interval sets are the canonical union of their ranges."""
import itertools

ID = 'C02'
TITLE = 'interval sets'
LEVEL = 'proof'
ASSUMPTIONS = ['proofs: up to three ranges with arbitrary real or integer bounds (construction, union 2+1, length, '
               'membership); longer lists by the executable contract']
BOUNDED = ['lists of four and more ranges: exhaustive up to four ranges over a small grid, random beyond']
TRUSTED = ['list.sort / sorted: stable sorted permutation']
RULE = ('all lists of up to 3 ranges over points 0..5 (quick: sampled), random longer lists, pairs for the union; '
        'non-trivial: at least two non-empty ranges')


def cases(rng, tier):
    rs = [(a, b) for a in range(0, 5) for b in range(0, 6)]
    for a in rs:
        yield {'a': [a]}
    pairs = list(itertools.product(rs, rs))
    for p in pairs:
        yield {'a': list(p)}
    n3 = 4000 if tier == 'quick' else 40000
    for _ in range(n3):
        yield {'a': [rng.choice(rs) for _ in range(3)], 'b': [rng.choice(rs) for _ in range(rng.randrange(0, 3))]}
    n = 8000 if tier == 'quick' else 100000
    for _ in range(n):
        w = rng.choice([6, 20, 60])

        def lst():
            out = []
            for _ in range(rng.randrange(0, rng.choice([4, 9]))):
                lo = rng.randrange(-w // 3, w)
                out.append([lo, lo + rng.choice([0, 1, 2, 3, rng.randrange(-3, w)])])
            return out
        c = {'a': lst(), 'b': lst()}
        if rng.random() < .1:
            c = {k: [[x / 4 for x in r] for r in v] for k, v in c.items()}
        yield c


def trivial(c):
    return sum(r[0] < r[1] for r in c['a'] + c.get('b', [])) < 2


def points(ranges):
    """Sorted elementary segments covered by the ranges."""
    ends = sorted({x for r in ranges for x in r})
    return [(lo, hi) for lo, hi in zip(ends, ends[1:]) if any(r[0] <= lo and hi <= r[1] for r in ranges)]


def canonical(ranges):
    out = []
    for lo, hi in points(ranges):
        if out and out[-1][1] == lo:
            out[-1][1] = hi
        else:
            out.append([lo, hi])
    return out


def probe(ranges):
    ps = set()
    for r in ranges:
        for x in r:
            ps.update((x - 1, x - .5, x - .125, x, x + .125, x + .5, x + 1))
    return sorted(ps)


def valid(iv, ranges, what):
    exp = canonical(ranges)
    data = [list(d) for d in iv.data]
    if data != exp:
        return '%s of %r stores %r, expected %r' % (what, ranges, data, exp)
    n = sum(hi - lo for lo, hi in exp)
    if len(iv) != int(n):
        return 'length of %s of %r is %d, expected %d' % (what, ranges, len(iv), n)
    for p in probe(ranges):
        e = any(r[0] <= p < r[1] for r in ranges)
        if (p in iv) != e:
            return '%r in %s of %r is %r' % (p, what, ranges, p in iv)
    return None


def check(c):
    from kerncraft.intervals import Intervals
    a = [list(r) for r in c['a']]
    given = [list(r) for r in a]
    A = Intervals(*given)
    e = valid(A, a, 'set')
    if e:
        return e
    if given != a:
        return 'ranges of the caller changed from %r to %r' % (a, given)
    T = Intervals(*[tuple(r) for r in a])
    if not (T == A):
        return 'set of tuples differs from set of lists: %r' % a
    if not (A == Intervals(*[list(r) for r in reversed(a)])):
        return 'order of the ranges matters: %r' % a
    if 'b' in c:
        b = [list(r) for r in c['b']]
        B = Intervals(*[list(r) for r in b])
        sa, sb = [list(d) for d in A.data], [list(d) for d in B.data]
        U = A & B
        e = valid(U, a + b, 'union')
        if e:
            return e
        if [list(d) for d in A.data] != sa or [list(d) for d in B.data] != sb:
            return 'union of %r and %r altered an operand: %r, %r' % (a, b, A.data, B.data)
        # combining further sets (histories) must not reach back either
        V = U & Intervals([-100, 100])
        e = valid(A, a, 'operand') or valid(B, b, 'operand') or valid(U, a + b, 'intermediate union') or \
            valid(V, a + b + [[-100, 100]], 'second union')
        if e:
            return 'after a second union: ' + e
        W = B & A
        if not (W == (A & B)):
            return 'union of %r and %r depends on the order' % (a, b)
    return None


# ------------------------------------------------------------------ proofs
def _load():
    from engine import instr
    return instr.load('kerncraft/intervals.py')


def _ranges(S, n, real, tag='r'):
    mk = S.real if real else S.int
    return [[mk('%s%d_lo' % (tag, i)), mk('%s%d_hi' % (tag, i))] for i in range(n)]


def _covered(p, rs):
    from engine.core import zb
    import z3
    return z3.Or([z3.And(zb(r[0] <= p), zb(p < r[1])) for r in rs] or [z3.BoolVal(False)])


def _measure(rs):
    """Number of points of at most three ranges by inclusion and exclusion."""
    from engine.core import zb, SNum
    import z3

    def t(x):
        return x.t if isinstance(x, SNum) else z3.IntVal(x)

    def inter(sub):
        lo, hi = t(sub[0][0]), t(sub[0][1])
        for r in sub[1:]:
            lo = z3.If(t(r[0]) > lo, t(r[0]), lo)
            hi = z3.If(t(r[1]) < hi, t(r[1]), hi)
        return z3.If(hi > lo, hi - lo, 0)
    total = z3.IntVal(0)
    for k in range(1, len(rs) + 1):
        for sub in itertools.combinations(rs, k):
            total = total + (1 if k % 2 else -1) * inter(sub)
    return SNum(total, 'int')


def _post(S, iv, rs, p, what):
    data = [list(d) for d in iv.data]
    for d in data:
        S.check('%s: every stored range is non-empty' % what, d[0] < d[1])
    for d, e in zip(data, data[1:]):
        S.check('%s: stored ranges are sorted, disjoint and do not touch' % what, d[1] < e[0])
    from engine.core import zb
    S.check('%s: a point is covered exactly if an input range covers it' % what,
            _covered(p, data) == _covered(p, rs))


def proof_init(S):
    m = _load()
    for n in (0, 1, 2, 3):
        for real in (False, True):
            def go(S):
                rs = _ranges(S, n, real)
                given = [list(r) for r in rs]
                iv = m.Intervals(*given)
                p = S.real('p') if real else S.int('p')
                _post(S, iv, rs, p, 'construction')
                S.check('construction leaves the ranges of the caller alone',
                        all(g[0] is r[0] and g[1] is r[1] for g, r in zip(given, rs)) and len(given) == n)
                S.check('membership is coverage', _iff(iv.__contains__(p), _covered(p, rs)))
                if not real:
                    S.check('length is the number of points', iv.__len__() == _measure(rs) if n else iv.__len__() == 0)
            S.run(go, 'Intervals of %d %s ranges' % (n, 'real' if real else 'integer'))


def proof_union(S):
    m = _load()
    for na, nb in ((1, 1), (2, 1), (1, 2), (0, 1), (1, 0)):
        def go(S):
            ra, rb = _ranges(S, na, False, 'a'), _ranges(S, nb, False, 'b')
            A, B = m.Intervals(*[list(r) for r in ra]), m.Intervals(*[list(r) for r in rb])
            sa, sb = [list(d) for d in A.data], [list(d) for d in B.data]
            U = A & B
            _post(S, U, ra + rb, S.int('p'), 'union')
            for X, sx in ((A, sa), (B, sb)):
                now = [list(d) for d in X.data]
                ok = len(now) == len(sx) and all(x[0] is y[0] and x[1] is y[1] for x, y in zip(now, sx))
                S.check('union leaves its operands alone', ok)
        S.run(go, 'union of %d and %d ranges' % (na, nb))


def _iff(a, b):
    from engine.core import zb
    return zb(a) == zb(b)


PROOFS = [
    ('construction', proof_init, ['Intervals.__init__', '_enforce_order', '_enforce_no_overlap', '__len__',
                                  '__contains__']),
    ('union', proof_union, ['Intervals.__and__', 'Intervals.__init__', '_enforce_no_overlap']),
]
