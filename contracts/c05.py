"""C05: numbering of the iterations of a loop nest."""
import itertools
from . import kgen

ID = 'C05'
TITLE = 'global iteration numbering'
LEVEL = 'proof'
ASSUMPTIONS = ['loop bounds are independent of other loops\' counters and every loop runs at least once',
               'the numbering is proved for nests of one to four loops, over the values of bounds and steps']
BOUNDED = ['subs_consts, set_constant, clear_state (histories of constants), and all functions on sympy expressions: '
           'generated loop nests of up to 4 loops and histories of up to 8 assignments of constants']
TRUSTED = ['sympy (substitution commutes with arithmetic)']
RULE = ('random loop nests from C code and from descriptions, with histories of constants; all iterations of small nests '
        'and random and boundary ones of large nests; non-trivial: more than one loop or a step above one')
SHARDS = 6


def loops(rng, consts):
    n = rng.choice([1, 2, 2, 3, 3, 4])
    out = []
    for i in rng.sample(['i', 'j', 'k', 'l', 'x'], n):
        c = rng.choice(list(consts))
        s = rng.choice([0, 0, 1, 2, 5])
        if rng.random() < .12:
            s = rng.choice(list(consts))
            e = ['+', s, rng.choice([1, 3, 7, c])]
        else:
            f = rng.random()
            if f < .3:
                e = ['+', c, s]
            elif f < .55:
                e = ['+', ['*', rng.choice([1, 2]), c], s + rng.choice([0, 1, 3])]
            elif f < .7:
                e = ['-', ['+', ['*', c, c], s], 1] if rng.random() < .5 else ['+', s, ['*', c, rng.choice(list(consts))]]
            else:
                e = s + rng.choice([1, 1, 2, 3, 7, 10])
        st = rng.choice([1, 1, 2, 3, 4, 7, 16])
        out.append({'i': i, 's': s, 'e': e, 'st': st, 'nx': '+=' if st > 1 else rng.choice(['++', 'p++', '+='])})
    return out


def cases(rng, tier):
    for _ in range(900 if tier == 'quick' else 25000):
        names = rng.sample(['N', 'M', 'O', 'E', 'S', 'size'], rng.choice([1, 1, 2, 3]))
        big = rng.random() < .2
        hist = []
        base = {n: rng.randint(2, 10 ** 6 if big else rng.choice([9, 9, 60, 500])) for n in names}
        for _ in range(rng.choice([0, 0, 1, 2, 4, 7])):
            hist.append([rng.choice(names), rng.randint(2, 10 ** 6 if big else 9), rng.choice('snq')])
        yield {'l': loops(rng, base), 'c': base, 'h': hist, 'big': big, 'desc': rng.random() < .3,
               'r': rng.randrange(1 << 30), 'clear': rng.random() < .3}


def trivial(c):
    return len(c['l']) == 1 and c['l'][0]['st'] == 1


def build(c):
    from .common import kernel_code
    k = {'type': 'double', 'arrays': {'a': [10]}, 'scalars': ['s'], 'loops': c['l'], 'style': c['r'], 'consts': {},
         'body': [{'l': ['s'], 'op': '=', 'r': ['ref', 'a', c['l'][-1]['i']]}]}
    if not c['desc']:
        return kernel_code(kgen.text(k))
    from kerncraft.kernel import KernelDescription

    def t(e):
        return e if isinstance(e, int) else kgen.itext(e)
    return KernelDescription({
        'loops': [{'index': l['i'], 'start': t(l['s']), 'stop': t(l['e']), 'step': l['st']} for l in c['l']],
        'arrays': {'a': {'type': ('double',), 'dimension': ['N']}, 's': {'type': ('double',), 'dimension': None}},
        'data sources': {'a': [['i']]}, 'data destinations': {'s': [None]}, 'flops': {'+': 1}})


def verify(kc, c, consts, rng, full):
    import numpy
    from kerncraft.kernel import symbol_pos_int
    ls = c['l']
    starts = [kgen.ev(l['s'], consts) for l in ls]
    lens = [max(0, -(-(kgen.ev(l['e'], consts) - s) // l['st'])) for l, s in zip(ls, starts)]
    n = 1
    for x in lens:
        n *= x
    if n >= 2 ** 62:        # beyond the integers of numpy
        return None
    where = ' (loops %r, constants %r)' % (ls, consts)
    if int(kc.iteration_length()) != n:
        return 'iteration_length() is %s instead of %d%s' % (kc.iteration_length(), n, where)
    for d in list(range(len(ls))) + [-1]:
        if int(kc.iteration_length(d)) != lens[d]:
            return 'iteration_length(%d) is %s instead of %d%s' % (d, kc.iteration_length(d), lens[d], where)
    if int(kc.max_global_iteration()) != n - 1:
        return 'max_global_iteration() is %s instead of %d%s' % (kc.max_global_iteration(), n - 1, where)
    st = list(kc.get_loop_stack(subs_consts=True))
    for r, l, s in zip(st, ls, starts):
        if (int(r['start']), int(r['stop']), int(r['increment'])) != (s, kgen.ev(l['e'], consts), l['st']):
            return 'get_loop_stack reports %r%s' % (r, where)
    if n <= 20000:
        # executed loop nest, in order
        k = {'loops': ls, 'consts': consts}
        want = [[it[l['i']] for l in ls] for it in kgen.iterations(k)]
        assert len(want) == n
        nums = list(range(n))
    else:
        nums = sorted({0, 1, n - 1, n - 2, n // 2} | {rng.randrange(n) for _ in range(20)}
                      | {min(n - 1, max(0, lens[-1] * rng.randrange(max(1, n // lens[-1])) + d)) for d in (-1, 0)})
        want = []
        for g in nums:
            row = []
            for l, s, x in list(zip(ls, starts, lens))[::-1]:
                row.append(s + (g % x) * l['st'])
                g //= x
            want.append(row[::-1])
    f = kc.global_iterator_to_indices()
    names = {str(s): s for s in f}
    if set(names) != {l['i'] for l in ls}:
        return 'indices reported for %r%s' % (sorted(names), where)
    arr = numpy.array(nums, dtype='int64')
    cols = []
    for l in ls:
        v = f[names[l['i']]](arr)
        cols.append(numpy.broadcast_to(numpy.asarray(v), arr.shape))
    got = [[int(x) for x in row] for row in zip(*cols)]
    if got != want:
        b = next(i for i in range(len(nums)) if got[i] != want[i])
        return 'iteration %d converted to %r instead of %r%s' % (nums[b], got[b], want[b], where)
    some = range(len(nums)) if full and len(nums) < 30 else sorted(
        {0, len(nums) - 1} | {rng.randrange(len(nums)) for _ in range(6)})
    for b in some:
        ind = {symbol_pos_int(l['i']): v for l, v in zip(ls, want[b])}
        g = kc.indices_to_global_iterator(ind)
        if int(g) != nums[b] or g != nums[b]:
            return 'indices %r converted to iteration %r instead of %d%s' % (want[b], g, nums[b], where)
        back = kc.global_iterator_to_indices(nums[b])
        if [int(back[names[l['i']]]) for l in ls] != want[b]:
            return 'iteration %d converted to %r instead of %r%s' % (nums[b], back, want[b], where)
    return None


def check(c):
    import random
    import sympy
    from kerncraft.kernel import symbol_pos_int
    rng = random.Random(c['r'])
    kc = build(c)
    consts = dict(c['c'])
    for n, v in consts.items():
        kc.set_constant(n, v)
    m = verify(kc, c, consts, rng, not c['h'])
    if m:
        return m
    other = build(c) if rng.random() < .5 else None        # a second kernel with constants of its own
    oc = {n: v + 1 for n, v in consts.items()}
    if other is not None:
        for n, v in oc.items():
            other.set_constant(n, v)
    N = symbol_pos_int(c['h'][0][0]) if c['h'] else None
    for i, (n, v, how) in enumerate(c['h']):
        consts[n] = v
        kc.set_constant(symbol_pos_int(n) if how == 's' else n, v)
        e = symbol_pos_int(n) * 3 + 1
        if kc.subs_consts(e) != 3 * v + 1:
            return 'after setting %s to %d, %s*3+1 is %s' % (n, v, n, kc.subs_consts(e))
        if kc.constants.get(symbol_pos_int(n)) != v or [str(x) for x in kc.constants] != sorted(consts):
            return 'after setting %s to %d the constants are %r' % (n, v, kc.constants)
        if how == 'q' or i == len(c['h']) - 1:
            m = verify(kc, c, consts, rng, False)
            if m:
                return m + ', after %r' % c['h'][:i + 1]
        if other is not None and int(other.iteration_length()) != int(kc.subs_consts(kc.iteration_length())):
            m = verify(other, c, oc, rng, False)
            if m:
                return m + ' in another kernel, after %r' % c['h'][:i + 1]
    if c['clear'] and c['h']:
        kc.clear_state()
        if kc.subs_consts(N) != N or len(kc.constants):
            return 'constants remain after clear_state: %r, %s' % (kc.constants, kc.subs_consts(N))
        again = {n: v + 2 for n, v in consts.items()}
        for n, v in again.items():
            kc.set_constant(n, v)
        m = verify(kc, c, again, rng, False)
        if m:
            return m + ', after clear_state'
    if kc.subs_consts(7) != 7 or kc.subs_consts(sympy.Integer(5)) != 5:
        return 'subs_consts changes numbers'
    return None


# ------------------------------------------------------------------ proofs
def proof_divisions(S):
    """int_ceil and int_floor on numbers: any integers, positive divisors."""
    import z3
    from engine import instr
    from engine.core import SNum, mk, sint, sreal

    class Num(object):
        is_Number = True

        def __init__(self, v):
            self.v = v

        def __truediv__(self, o):
            return Num(mk(sreal(self.v) / sreal(o.v), 'float'))

        def __floordiv__(self, o):
            return Num(mk(sint(self.v // o.v), 'int'))

        def __neg__(self):
            return Num(-self.v)

        def __add__(self, o):
            return Num(self.v + (o.v if isinstance(o, Num) else o))

        def __sub__(self, o):
            return Num(self.v - (o.v if isinstance(o, Num) else o))

    class Sym(object):
        is_Number = False
    for name in ('int_ceil', 'int_floor'):
        def go(S):
            m = instr.load('kerncraft/symbolic/utils.py')
            x, y = S.int('x'), S.int('y')
            S.assume(y > 0)
            m.sympy.ceiling = lambda a: Num(mk(-z3.ToInt(-sreal(a.v)), 'int'))
            m.sympy.floor = lambda a: Num(mk(z3.ToInt(sreal(a.v)), 'int'))
            cls = getattr(m, name)
            r = cls.eval(Num(x), Num(y))
            S.check('a number', bool(isinstance(r, Num)))
            q = r.v
            if name == 'int_ceil':
                S.check('least integer not below the quotient', (q * y >= x) & ((q - 1) * y < x))
            else:
                S.check('greatest integer not above the quotient', (q * y <= x) & ((q + 1) * y > x))
            for a, b in ((Sym(), Num(y)), (Num(x), Sym()), (Sym(), Sym())):
                S.check('symbols stay', bool(cls.eval(a, b) is None))
        S.run(go, name)


def nest(S, n):
    """Kernel with n loops (any starts, steps, lengths) and the digits of one of its iterations."""
    import z3
    from engine import instr
    from engine.core import mk, sint, ctx
    from .stubs import pos_int, Plain, Ex, Counter
    m = instr.load('kerncraft/kernel.py')
    names = ['m', 'l', 'k', 'j', 'i'][-n:]
    L = [pos_int(S, 'length_' + x) for x in names]
    inc = [pos_int(S, 'step_' + x) for x in names]
    start = [S.int('start_' + x) for x in names]
    last = [S.int('rest_' + x) for x in names]
    d = [S.int('digit_' + x) for x in names]
    end = []
    for q in range(n):
        S.assume((last[q] >= 1) & (last[q] <= inc[q]) & (d[q] >= 0) & (d[q] < L[q]) & (start[q] >= 0))
        end.append(start[q] + (L[q] - 1) * inc[q] + last[q])

    def ceil(x, y):
        # contract of int_ceil
        r = ctx().fresh('ceil')
        x_, y_ = sint(x), sint(y)
        ctx().assume(z3.And(r * y_ >= x_, (r - 1) * y_ < x_))
        for q in range(n):
            if z3.is_true(z3.simplify(z3.And(x_ - sint(end[q] - start[q]) == 0, y_ == sint(inc[q])), som=True)):
                a, b, l = r, sint(inc[q]), sint(L[q])
                S.lemma('length of loop %s' % names[q], r == l)
                return L[q]
        return mk(r, 'int')

    def floor(x, y):
        # contract of int_floor
        def f(a, b):
            r = ctx().fresh('floor')
            ctx().assume(z3.And(r * sint(b) <= sint(a), (r + 1) * sint(b) > sint(a)))
            for q in range(n):
                for t, v in ((sint(end[q] - 1 - start[q]), sint(L[q]) - 1), (sint(d[q] * inc[q]), sint(d[q]))):
                    if z3.is_true(z3.simplify(z3.And(sint(a) - t == 0, sint(b) == sint(inc[q])), som=True)):
                        S.lemma('steps of loop %s' % names[q], r == v)
            return mk(r, 'int')
        return x.map(f, y) if isinstance(x, Ex) else f(x, y)
    sym = {}
    m.symbol_pos_int = lambda name: sym.setdefault(name, Counter(name))
    m.int_ceil, m.int_floor = ceil, floor
    m.sympy = Plain(Integer=lambda x: x)
    o = object.__new__(m.Kernel)
    o._loop_stack = [(x, a, b, c) for x, a, b, c in zip(names, start, end, inc)]
    o.subs_consts = lambda e: e
    total = [1]
    for x in reversed(L):
        total.append(total[-1] * x)
    V = []
    g = d[0]
    V.append(g)
    for q in range(1, n):
        g = g * L[q] + d[q]
        V.append(g)
    V.reverse()                  # V[q]: the iteration without the q innermost loops
    T = total
    for q in range(1, n + 1):
        S.lemma('iterations of the %d innermost loops' % q, T[q] >= 1)
    for q in range(n):
        S.lemma('no negative iteration', V[q] >= 0)
    return m, o, names, L, inc, start, end, d, V, T, sym


def division_lemmas(S, n, L, d, V, T):
    import z3
    from engine.core import sint
    G, low = sint(V[0]), 0
    for q in range(n):
        t, l, dg = sint(T[q]), sint(L[n - 1 - q]), sint(d[n - 1 - q])
        S.lemma('iterations below loop %d' % q, z3.And(sint(low) >= 0, sint(low) < t))
        S.lemma('iteration split at loop %d' % q, G == t * sint(V[q]) + sint(low))
        S.lemma('quotient at loop %d' % q, G / t == sint(V[q]))
        up = sint(V[q + 1]) if q + 1 < n else z3.IntVal(0)
        S.lemma('digit split at loop %d' % q, sint(V[q]) == up * l + dg)
        S.lemma('digit at loop %d' % q, z3.And(sint(V[q]) % l == dg, sint(V[q]) / l == up))
        low = low + d[n - 1 - q] * T[q]


def proof_numbering(S):
    """Iteration numbers to counters and back: nests of one to four loops, any starts, ends, steps and iterations."""
    import z3
    from engine.core import sint
    from .stubs import pos_int
    for n in (1, 2, 3, 4):
        def to_indices(S):
            m, o, names, L, inc, start, end, d, V, T, sym = nest(S, n)
            division_lemmas(S, n, L, d, V, T)
            how = S.pick(['given', 'function'])
            if how == 'given':
                r = o.global_iterator_to_indices(V[0])
            else:
                r = {k: f(V[0]) for k, f in o.global_iterator_to_indices().items()}
            S.check('one counter per loop', bool(len(r) == n))
            for q, x in enumerate(names):
                v = r[m.symbol_pos_int(x)]
                S.check('counter of loop %d from inside' % (n - 1 - q), v == start[q] + d[q] * inc[q])
        S.run(to_indices, 'indices of an iteration, %d loops' % n)

        def back(S):
            m, o, names, L, inc, start, end, d, V, T, sym = nest(S, n)
            it = {m.symbol_pos_int(x): start[q] + d[q] * inc[q] for q, x in enumerate(names)}
            S.check('the iteration of the counters', o.indices_to_global_iterator(it) == V[0])
        S.run(back, 'iteration of indices, %d loops' % n)

        def last(S):
            m, o, names, L, inc, start, end, d, V, T, sym = nest(S, n)
            S.check('the last iteration', o.max_global_iteration() == T[n] - 1)
            S.check('the number of iterations', o.iteration_length() == T[n])
            for q in range(n):
                S.check('iterations of one loop', o.iteration_length(q) == L[q])
            S.check('iterations of the inner loop', o.iteration_length(-1) == L[n - 1])
            for subs in (True, False):
                st = list(o.get_loop_stack(subs_consts=subs))
                S.check('all loops', bool(len(st) == n))
                for q, e in enumerate(st):
                    S.check('the loops in order', bool(e['index'] == names[q]))
                    S.check('bounds and steps', (e['start'] == start[q]) & (e['stop'] == end[q]) & (e['increment'] == inc[q]))
        S.run(last, 'lengths, %d loops' % n)

        def digits(S):
            # every iteration number is covered by the digits above, by those of one iteration only
            L = [pos_int(S, 'length%d' % q) for q in range(n)]
            g, T = S.int('g'), 1
            for l in L:
                T = T * l
            S.assume((g >= 0) & (g < T))
            rest = T
            for q in range(n):
                g, rest = S.int('quotient%d' % q), 1
                for l in L[q + 1:]:
                    rest = rest * l
                r, before = S.int('digit%d' % q), (S.int('quotient%d' % (q - 1)) if q else S.int('g'))
                S.assume((r >= 0) & (r < L[q]) & (before == g * L[q] + r))
                S.lemma('quotient %d is not negative' % q, g >= 0)
                S.lemma('quotient %d is below the remaining iterations' % q, g < rest)
            S.check('nothing is left', g == 0)
        S.run(digits, 'digits of an iteration, %d loops' % n)


PROOFS = [('divisions', proof_divisions, ['int_ceil.eval', 'int_floor.eval']),
          ('numbering', proof_numbering, ['Kernel.global_iterator_to_indices', 'Kernel.global_iterator',
                                          'Kernel.indices_to_global_iterator', 'Kernel.max_global_iteration',
                                          'Kernel.iteration_length', 'Kernel.get_loop_stack'])]
