"""C06: address streams of a kernel."""
from . import kgen

ID = 'C06'
TITLE = 'generated address streams'
LEVEL = 'proof'
ASSUMPTIONS = ['cache line sizes are powers of two', 'at least one reference depends on a loop counter',
               'distinct references have distinct index expressions',
               'proved for arrays of up to four dimensions, up to three arrays, two loops, lists of up to three iterations and ranges of any '
               'length with positive steps, over the values of the expressions']
BOUNDED = ['compile_global_offsets, array_sizes, access_to_sympy on sympy expressions and numpy arrays: generated kernels and descriptions of up to 3 loops, '
           '4 arrays and 6000 iterations']
TRUSTED = ['sympy (substitution and lambdify)', 'numpy']
RULE = ('random kernels (C code and descriptions), cache line sizes, spacings and iteration requests (all, single, ranges '
        'with steps, lists, out of range); non-trivial: at least two arrays')
SHARDS = 6


def cases(rng, tier):
    for _ in range(900 if tier == 'quick' else 25000):
        k = kgen.rand(rng, maxit=3000)
        reqs = [['all', 0]]
        for _ in range(rng.choice([1, 2, 3])):
            reqs.append([rng.choice(['one', 'range', 'step', 'list', 'last', 'neg', 'over', 'overrange', 'tuple', 'np']),
                         rng.choice([0, 0, 1, 8, 63, 64, 65, 100, 4096])])
        # a constant may get another value between requests
        yield {'k': k, 'reqs': reqs, 'cl': rng.choice([None, 32, 64, 64, 128, 256]), 'desc': rng.random() < .25,
               'r': rng.randrange(1 << 30), 'change': rng.random() < .25}


def trivial(c):
    return len(c['k']['arrays']) < 2


def description(k):
    t = lambda e: e if isinstance(e, int) else kgen.itext(e)
    rd, wr = kgen.refs(k)
    src, dst = {}, {}
    for d, l in ((src, rd), (dst, wr)):
        for r in l:
            d.setdefault(r[0], []).append([str(t(i)) for i in r[1:]])
    for s in k['scalars']:
        src[s] = [None]
    ty = tuple(k['type'].split())
    arrays = {n: {'type': ty, 'dimension': [t(x) for x in d]} for n, d in k['arrays'].items()}
    arrays.update({n: {'type': ty, 'dimension': None} for n in k['scalars']})
    return {'loops': [{'index': l['i'], 'start': t(l['s']), 'stop': t(l['e']), 'step': l['st']} for l in k['loops']],
            'arrays': arrays, 'data sources': src, 'data destinations': dst, 'flops': {'+': 1}}


def layout(k, consts, cl, spacing):
    """The packed layout: array -> base."""
    base, b = {}, 0
    for n in sorted(k['arrays']):
        base[n] = b
        b += -(-(size(k, n, consts) + spacing) // cl) * cl
    return base


def size(k, n, consts):
    s = kgen.SIZES[k['type']]
    for d in k['arrays'][n]:
        s *= kgen.ev(d, consts)
    return s


def legal(k, consts, base, cl, spacing):
    prev = None
    for n in sorted(k['arrays']):
        if base.get(n) is None:
            continue
        if base[n] % cl or base[n] < 0:
            return 'array %s starts at %d, not at a multiple of %d' % (n, base[n], cl)
        if prev and base[n] < base[prev] + size(k, prev, consts) + spacing:
            return 'array %s at %d is closer than %d bytes to array %s at %d of %d bytes' % (
                n, base[n], spacing, prev, base[prev], size(k, prev, consts))
        prev = n
    return None


def match(cols, want, base0, k, consts, cl, spacing):
    """None if the columns are the references' addresses under some legal layout."""
    if sorted(cols) == sorted([x + base0[n] for x in v] for n, v in want):
        return None
    if len(cols) != len(want):
        return '%d columns instead of %d' % (len(cols), len(want))
    base, left = {}, list(cols)
    for n, v in sorted(want):
        for i, c in enumerate(left):
            d = c[0] - v[0] if c else 0
            if base.get(n, d) == d and [x + d for x in v] == c and legal(k, consts, dict(base, **{n: d}), cl, spacing) is None:
                base[n] = d
                del left[i]
                break
        else:
            return 'no column holds the addresses of the reference to %s with element offsets %r..., columns are %r' % (
                n, v[:4], [c[:4] for c in cols])
    return None


def check(c):
    import random
    import collections
    import numpy
    from .common import kernel_code, machine, PU
    k = c['k']
    rng = random.Random(c['r'])
    mach = machine()
    if c['cl']:
        mach._data['cacheline size'] = PU(float(c['cl']), 'B')
    cl = c['cl'] or 64
    if c['desc']:
        from kerncraft.kernel import KernelDescription
        kc = KernelDescription(description(k), machine=mach if c['cl'] else None)
    else:
        kc = kernel_code(kgen.text(k), mach)
    consts = dict(k['consts'])
    for n, v in consts.items():
        kc.set_constant(n, v)
    size_ = kgen.SIZES[k['type']]
    idx = {l['i'] for l in k['loops']}
    rd, wr = kgen.refs(k)

    def varies(ref):
        """depends on a counter (as polynomial of the flattened index)"""
        e = 0
        for d, i in zip(k['arrays'][ref[0]], ref[1:]):
            e = ['+', ['*', e, d], i]
        return any(idx & set(m) for m in kgen.poly(e))
    rd, wr = [r for r in rd if varies(r)], [r for r in wr if varies(r)]
    if not rd and not wr:
        return None
    where = ' (constants %%r, cache line size %d)\n%s' % (cl, kgen.text(k))
    its = None
    for n_req, (kind, spacing) in enumerate(c['reqs']):
        if its is None:
            its = list(kgen.iterations(k, consts))
            total = len(its)
        w = where % (consts,)
        if kind == 'all':
            req, sel = range(total), list(range(total))
        elif kind == 'one':
            req = rng.randrange(total)
            sel = [req]
        elif kind == 'last':
            req, sel = total - 1, [total - 1]
        elif kind in ('range', 'step'):
            a = rng.randrange(total)
            b = rng.randrange(a, total) + 1
            req = range(a, b, 1 if kind == 'range' else rng.choice([1, 2, 3, 7]))
            sel = list(req)
        elif kind in ('list', 'tuple', 'np'):
            sel = [rng.randrange(total) for _ in range(rng.choice([1, 2, 5]))]
            req = sel if kind != 'tuple' else tuple(sel)
        else:
            req = {'neg': rng.choice([-1, [-1, 0], range(-2, total)]), 'over': rng.choice([total, total + 5, [0, total]]),
                   'overrange': range(max(0, total - 2), total + rng.choice([1, 2, 50]))}[kind]
            try:
                r = kc.compile_global_offsets(iteration=req, spacing=spacing)
            except Exception:
                continue
            return 'iterations %r beyond the %d existing ones give %r%s' % (req, total, r, w)
        r = kc.compile_global_offsets(iteration=req, spacing=spacing)
        if len(r) != len(sel):
            return '%d iterations requested, %d returned%s' % (len(sel), len(r), w)
        base = layout(k, consts, cl, spacing)
        rows = [its[s] for s in sel]
        # loads and stores together, since they share the bases
        cols, want = [], []
        for name, refs in (('load', rd), ('store', wr)):
            a = r[name]
            if a.shape != (len(sel), len(refs)):
                return '%s offsets of shape %r for %d iterations and %d varying references%s' % (
                    name, a.shape, len(sel), len(refs), w)
            if a.dtype.kind != 'i':
                return '%s offsets are no integers but %r%s' % (name, a.dtype, w)
            cs = [[int(x) for x in a[:, i]] for i in range(len(refs))]
            ws = [(f[0], [size_ * kgen.element(k, f, dict(env, **consts)) for env in rows]) for f in refs]
            m = match(cs, ws, base, k, consts, cl, spacing)
            if m:
                return '%s offsets of iterations %r, spacing %d: %s%s' % (name, req, spacing, m, w)
            cols += cs
            want += ws
        m = match(cols, want, base, k, consts, cl, spacing)
        if m:
            return 'offsets of iterations %r, spacing %d: %s%s' % (req, spacing, m, w)
        if c['change'] and n_req == 0:
            n = rng.choice(list(consts))
            consts[n] += rng.choice([1, 2, 7])
            kc.set_constant(n, consts[n])
            its = None
            if any(kgen.ev(l['e'], consts) <= kgen.ev(l['s'], consts) for l in k['loops']):
                return None
    sizes = kc.array_sizes(in_bytes=True, subs_consts=True)
    got = {n: int(s) for n, s in sizes.items()}
    if got != {n: size(k, n, consts) for n in k['arrays']}:
        return 'array sizes %r%s' % (got, where % (consts,))
    elems = {n: int(s) * size_ for n, s in kc.array_sizes(subs_consts=True).items()}
    if elems != got:
        return 'array sizes in elements %r do not fit those in bytes %r%s' % (elems, got, where % (consts,))
    return None


# ------------------------------------------------------------------ proofs
class _Arr(object):
    """Integer array: its value at one (any) position, bounds of its values, its number of elements."""
    __shadow__ = True
    __module__ = 'numpy'

    def __init__(self, at, n, lo=None, hi=None):
        self.at, self.n, self.lo, self.hi = at, n, lo, hi

    def __iter__(self):
        raise TypeError('elements of the array')

    def min(self):
        return self.lo

    def max(self):
        return self.hi

    def astype(self, t):
        assert t == 'int64'
        return self

    def _op(self, f):
        return _Arr(f(self.at), self.n)

    def __add__(self, o):
        return self._op(lambda a: a + (o.at if isinstance(o, _Arr) else o))
    __radd__ = __add__

    def __sub__(self, o):
        return self._op(lambda a: a - (o.at if isinstance(o, _Arr) else o))

    def __rsub__(self, o):
        return self._op(lambda a: o - a)

    def __mul__(self, o):
        return self._op(lambda a: a * (o.at if isinstance(o, _Arr) else o))
    __rmul__ = __mul__

    def __floordiv__(self, o):
        return self._op(lambda a: a // o)

    def __mod__(self, o):
        return self._op(lambda a: a % o)


class _Rows(object):
    """Arrays of one length, side by side or below each other."""
    __shadow__ = True

    def __init__(self, arrays, transposed=False):
        self.arrays, self.transposed = list(arrays), transposed
        self.dtype = 'int64'

    @property
    def T(self):
        return _Rows(self.arrays, not self.transposed)

    def astype(self, t):
        assert t == 'int64'
        return self

    @property
    def shape(self):
        if not self.arrays:
            return (0,)
        s = (len(self.arrays), self.arrays[0].n)
        return s[::-1] if self.transposed else s


class _Table(object):
    __shadow__ = True

    def __init__(self, n, dtype):
        self.n, self.width, self.rows = n, {f: w for f, t, (w,) in dtype}, {}

    def __setitem__(self, f, rows):
        self.rows[f] = rows


class _Numpy(object):
    int64 = 'int64'

    def __init__(self, S, request):
        self.S, self.request = S, request

    def _given(self, x, dtype):
        self.S.check('64-bit iteration numbers', bool(dtype == 'int64'))
        return self.request(x)

    def array(self, x, dtype=None):
        return self._given(x, dtype)

    def arange(self, start, stop, step=1, dtype=None):
        return self._given(('range', start, stop, step), dtype)

    def asarray(self, x):
        return _Rows(x)

    def empty(self, n, dtype):
        return _Table(n, dtype)


def _layout(S, shapes):
    """Kernel with arrays of the given numbers of dimensions, any extents; a reference is a tuple of any expressions."""
    from engine import instr
    from .stubs import pos_int, Plain, Ex, Counter
    import z3
    I = z3.IntSort()
    m = instr.load('kerncraft/kernel.py')
    es, ty = pos_int(S, 'bytes_of_element'), 'double'
    o = object.__new__(m.Kernel)
    o.subs_consts = lambda e: e
    o.datatypes_size = {'double': es, 'float': pos_int(S, 'bytes_of_other_element')}
    o.datatype = ty
    o.variables = {n: (ty, tuple(pos_int(S, '%s%d' % (n, q)) for q in range(d))) for n, d in shapes}
    o.variables['s'] = (ty, None)
    m.sympy = Plain(Number=lambda x: x, Integer=lambda x: x)
    return m, o, es


def _flat(dims, index):
    r = index[0]
    for d, i in zip(dims[1:], index[1:]):
        r = r * d + i
    return r


def proof_flatten(S):
    """access_to_sympy and array_sizes: arrays of one to four dimensions, any extents and index expressions."""
    import z3
    from .stubs import Ex, Counter
    for n in (1, 2, 3, 4):
        def go(S):
            m, o, es = _layout(S, [('b', n), ('a', 1 + n % 2)])
            i = Counter('i')
            env = {i: S.int('i')}
            ix = [S.int('index%d' % q) for q in range(n)]
            ref = tuple(Ex(lambda e, q=q: ix[q] + e[i] * q, [i]) if q % 2 else ix[q] for q in range(n))
            dims = o.variables['b'][1]
            r = o.access_to_sympy('b', ref)
            v = r.subs(env) if isinstance(r, Ex) else r
            S.check('row-major offset', v == _flat(dims, [x.subs(env) if isinstance(x, Ex) else x for x in ref]))
            for b in (False, True):
                for subs in (False, True):
                    z = o.array_sizes(in_bytes=b, subs_consts=subs)
                    S.check('arrays only', bool(sorted(z) == ['a', 'b']))
                    for name in z:
                        t = es if b else 1
                        for d in o.variables[name][1]:
                            t = t * d
                        S.check('product of the extents', z[name] == t)
        S.run(go, '%d dimensions' % n)


def proof_offsets(S):
    """compile_global_offsets: any extents, index expressions, iterations and spacing; up to three arrays."""
    import z3
    from engine.core import sint, mk, ctx
    from .stubs import Ex, Counter, pos_int, Plain
    I = z3.IntSort()
    SHAPES = [[('a', 1)], [('b', 2), ('a', 1)], [('c', 1), ('a', 3), ('b', 2)]]

    def go(S):
        shapes = S.pick(SHAPES)
        m, o, es = _layout(S, shapes)
        how = S.pick(['one', 'list', 'range', 'range of one'])
        # lengths of the shapes with one array decide everything else only once
        cl = S.pick([None, 32, 64, 128, 256]) if how == 'one' else 128
        o._machine = None if cl is None else {'cacheline size': cl}
        line = cl or 64
        counters = [Counter('j'), Counter('i')]
        total = pos_int(S, 'iterations')
        C = {c: S.func('counter_' + c.name, I, I) for c in counters}
        o.iteration_length = lambda dimension=None: total
        # contract of global_iterator_to_indices (C05)
        o.global_iterator_to_indices = lambda git=None: {
            c: (lambda it, f=f: _Arr(mk(f(sint(it.at)), 'int'), it.n)) for c, f in C.items()}
        g, n = S.int('iteration'), 1
        lo = hi = g
        if how == 'one':
            it = g
        elif how == 'list':
            n = S.pick([2, 3])
            it = [S.int('iteration%d' % q) for q in range(n)]
            q = S.pick(list(range(n)))
            g = it[q]
            lo, hi = m.__dict__['__builtins__']['min'](it), m.__dict__['__builtins__']['max'](it)
        else:
            a, st, n = S.int('first'), pos_int(S, 'step'), (1 if how == 'range of one' else pos_int(S, 'requested'))
            p = S.int('position')
            S.assume((p >= 0) & (p < n))
            it = m.__dict__['__builtins__']['range'](a, a + st * n, st)
            g, lo, hi = a + p * st, a, a + st * (n - 1)
            S.lemma('positions of a range', z3.And(sint(lo) <= sint(g), sint(g) <= sint(hi)))

        def request(x):
            if isinstance(x, tuple) and x and x[0] == 'range':
                S.check('the range requested', z3.And(sint(x[1]) == sint(it.start), sint(x[2]) == sint(it.stop), sint(x[3]) == sint(it.step)))
            elif how == 'one':
                S.check('the iteration requested', bool(len(x) == 1))
                S.check('the iteration requested', x[0] == it)
            else:
                S.check('the iterations requested', bool(x is it or all(a is b for a, b in zip(x, it)) and len(x) == len(it)))
            return _Arr(g, n, lo, hi)
        m.numpy = _Numpy(S, request)

        def lambdify(args, expr, modules):
            args = list(args)

            def f(*values):
                env = dict(zip(args, [v.at for v in values]))
                r = expr.subs(env)
                return _Arr(r, values[0].n)
            return f
        m.sympy.lambdify = lambdify
        index, refs = {}, {'sources': {}, 'destinations': {}}

        def ref(name, q):
            fs = [S.func('index_%s_%s_%d' % (name, q, d), I, I, I) for d in range(dict(shapes)[name])]
            r = tuple(Ex(lambda e, f=f: mk(f(*[sint(e[c]) for c in counters]), 'int'), counters) for f in fs)
            index[name, q] = _flat(o.variables[name][1], [mk(f(*[C[c](sint(g)) for c in counters]), 'int') for f in fs])
            return r
        want = {'sources': [], 'destinations': []}
        for what, used in (('sources', [(shapes[-1][0], 0), (shapes[-1][0], 1), (shapes[0][0], 2)]), ('destinations', [(shapes[0][0], 3)])):
            if what == 'destinations' and how == 'range of one':
                used = []
            for name, q in used:
                refs[what].setdefault(name, []).append(ref(name, q))
            refs[what].setdefault(shapes[0][0], []).append(tuple(S.int('fixed%d' % d) for d in range(shapes[0][1])))
            refs[what]['s'] = [None]
            for name in [x for x in o.variables if o.variables[x][1]]:
                want[what] += [(name, index[name, q]) for x, q in used if x == name]
        # a constant reference has no counters
        refs = {w: {n_: [tuple(Ex.of(x) for x in r) if r is not None else None for r in l] for n_, l in v.items()} for w, v in refs.items()}
        o.sources, o.destinations = refs['sources'], refs['destinations']
        spacing = S.int('spacing')
        S.assume(spacing >= 0)
        ok = (lo >= 0) & (hi < total)
        sizes = {}
        for name, (t, dims) in o.variables.items():
            if dims:
                sizes[name] = es
                for d in dims:
                    sizes[name] = sizes[name] * d
                S.lemma('no array is empty', sizes[name] >= es)
        try:
            r = o.compile_global_offsets(it, spacing=spacing) if S.pick([True, False]) else None
            if r is None:
                r = o.compile_global_offsets(iteration=it)
                spacing = 0
        except AssertionError:
            S.check('iterations within the loops are not refused', ~ok)
            return
        S.check('iterations beyond the loops are refused', ok)
        S.check('one entry per iteration', r.n == n)
        bases = {}
        for f, what in (('load', 'sources'), ('store', 'destinations')):
            rows, w = r.rows[f], want[what]
            S.check('one column per reference depending on counters', bool(len(rows.arrays) == len(w) and r.width[f] == len(w)))
            S.check('one row per iteration', bool(not w or rows.transposed))
            for got, (name, x) in zip(rows.arrays, w):
                b = got.at - x * es
                if name in bases:
                    S.check('one address for each array', b == bases[name])
                bases[name] = b
        order = sorted(bases)
        for x in order:
            S.check('arrays start with a line', z3.And(sint(bases[x]) >= 0, sint(bases[x]) % line == 0))
        for x, y in zip(order, order[1:]):
            S.check('arrays do not overlap', bases[y] >= bases[x] + sizes[x] + spacing)
    S.run(go, 'offsets')


PROOFS = [('flatten', proof_flatten, ['Kernel.access_to_sympy', 'Kernel.array_sizes']),
          ('offsets', proof_offsets, ['Kernel.compile_global_offsets'])]
