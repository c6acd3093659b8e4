"""Loop kernels as data: their C text, their meaning, and random ones.

A kernel is {'type', 'arrays': {name: [extent, ..]}, 'scalars': [..], 'loops': [{'i','s','e','st','nx'}, ..],
'body': [{'l': ref, 'op': '=', 'r': expr}, ..], 'consts': {name: int}, 'style': int}.
Integer expressions are numbers, names or [op, a, b]; references are [name, index, ..]; right hand sides are
['ref', name, index, ..], ['c', text], ['b', op, l, r] or ['u', op, e].
"""
import random

SIZES = {'double': 8, 'float': 4, 'float _Complex': 8, 'double _Complex': 16}


# -- integer expressions ------------------------------------------------------------------------------------
def ev(e, env):
    if isinstance(e, int):
        return e
    if isinstance(e, str):
        return env[e]
    a, b = ev(e[1], env), ev(e[2], env)
    return a + b if e[0] == '+' else a - b if e[0] == '-' else a * b


def names(e):
    return set() if isinstance(e, int) else {e} if isinstance(e, str) else names(e[1]) | names(e[2])


def itext(e, r=None, top=True):
    if isinstance(e, int):
        return ('0x%x' % e if r and r.random() < .15 else str(e)) if e >= 0 else '(0-%d)' % -e
    if isinstance(e, str):
        return e
    s = itext(e[1], r, False) + (' %s ' if r and r.random() < .3 else '%s') % e[0] + itext(e[2], r, False)
    return s if top and not (r and r.random() < .15) else '(%s)' % s


def poly(e):
    """Integer expression as polynomial {sorted names: coefficient}, independent of its form."""
    if isinstance(e, int):
        return {(): e} if e else {}
    if isinstance(e, str):
        return {(e,): 1}
    a, b = poly(e[1]), poly(e[2])
    r = {}
    if e[0] == '*':
        for m, x in a.items():
            for n, y in b.items():
                k = tuple(sorted(m + n))
                r[k] = r.get(k, 0) + x * y
    else:
        r.update(a)
        for n, y in b.items():
            r[n] = r.get(n, 0) + (y if e[0] == '+' else -y)
    return {k: v for k, v in r.items() if v}


def poly_sympy(e):
    import sympy
    r = {}
    for t in sympy.Add.make_args(sympy.expand(sympy.sympify(e))):
        c, rest = t.as_coeff_Mul()
        mono = []
        for b, x in rest.as_powers_dict().items():
            if b != 1:
                mono += [str(b)] * int(x)
        k = tuple(sorted(mono))
        r[k] = r.get(k, 0) + int(c)
    return {k: v for k, v in r.items() if v}


def frozen(p):
    return tuple(sorted(p.items()))


# -- text ---------------------------------------------------------------------------------------------------
def reftext(ref, r=None):
    return ref[0] + ''.join('[%s]' % itext(i, r) for i in ref[1:])


def rtext(e, r=None, top=True):
    if e[0] == 'ref':
        return reftext(e[1:], r)
    if e[0] == 'c':
        return e[1]
    if e[0] == 'b':
        s = '%s %s %s' % (rtext(e[2], r, False), e[1], rtext(e[3], r, False))
        return s if top else '(%s)' % s
    if e[1] in ('p++', 'p--'):
        return '%s%s' % (rtext(e[2], r, False), e[1][1:])
    s = '%s%s' % (e[1], rtext(e[2], r, False))
    return s if top else '(%s)' % s


def text(k, pragmas=True):
    r = random.Random(k.get('style', 0))
    out = []
    groups = [(n, ''.join('[%s]' % itext(d, r) for d in dims)) for n, dims in k['arrays'].items()] + \
             [(n, '') for n in k['scalars']]
    if k.get('style'):
        r.shuffle(groups)
    while groups:
        m = 1 if r.random() < .5 else 2
        out.append('%s %s;' % (k['type'], ', '.join(n + d for n, d in groups[:m])))
        groups = groups[m:]
    comment = (lambda: ' // c[i] = d;' if k.get('style') and r.random() < .3 else '')
    out[-1] += comment()
    if k.get('style') and pragmas and r.random() < .4:
        out.append(r.choice(['#pragma ivdep', '#pragma omp parallel for', '#pragma omp for schedule(static)']))
    close = []
    it = k.get('itype', 'int')
    for n, l in enumerate(k['loops']):
        nx = {'++': '++%s', 'p++': '%s++'}.get(l['nx'], '%%s+=%d' % l['st']) % l['i']
        h = 'for(%s %s=%s; %s<%s; %s)' % (it, l['i'], itext(l['s'], r), l['i'], itext(l['e'], r), nx)
        inner = n == len(k['loops']) - 1
        if r.random() < .6 or (inner and (len(k['body']) > 1 or k.get('braces'))):
            out.append(h + ' {' + comment())
            close.append('}')
            if not inner and k.get('style') and pragmas and r.random() < .3:
                out.append('#pragma vector aligned')
        else:
            out.append(h)
    for s in k['body']:
        out.append('%s %s %s;%s' % (reftext(s['l'], r), s['op'], rtext(s['r'], r), comment()))
    out += close
    for a, b in k.get('swaps', ()):
        out.append('swap(%s, %s);' % (a, b))
    return '\n'.join(out) + '\n'


# -- meaning ------------------------------------------------------------------------------------------------
def iterations(k, consts=None):
    """Index values of all executed iterations, by executing the loops."""
    env = dict(k['consts'] if consts is None else consts)

    def run(n):
        if n == len(k['loops']):
            yield {l['i']: env[l['i']] for l in k['loops']}
            return
        l = k['loops'][n]
        v = ev(l['s'], env)
        while v < ev(l['e'], env):
            env[l['i']] = v
            yield from run(n + 1)
            v += l['st']
    return run(0)


def accesses(k):
    """(destinations, sources: {name: {reference}}, operations {op: count})"""
    dst, src, ops = {}, {}, {}

    def put(d, ref):
        d.setdefault(ref[0], set()).add(None if len(ref) == 1 else tuple(frozen(poly(i)) for i in ref[1:]))

    def op(o):
        ops[o] = ops.get(o, 0) + 1

    def read(e):
        if e[0] == 'ref':
            put(src, e[1:])
        elif e[0] == 'b':
            read(e[2])
            read(e[3])
            op(e[1])
        elif e[0] == 'u':
            read(e[2])
            op(e[1][-1])
            if e[1] != '-':
                put(dst, e[2][1:])
    for s in k['body']:
        put(dst, s['l'])
        if s['op'] != '=':
            put(src, s['l'])
            op(s['op'][:-1])
        read(s['r'])
    return dst, src, ops


def refs(k):
    """(reads, writes) of arrays as lists of distinct [name, index, ..]."""
    rd, wr = {}, {}

    def put(d, ref):
        if ref[0] in k['arrays']:
            d.setdefault((ref[0],) + tuple(frozen(poly(i)) for i in ref[1:]), list(ref))

    def read(e):
        if e[0] == 'ref':
            put(rd, e[1:])
        elif e[0] == 'b':
            read(e[2])
            read(e[3])
        elif e[0] == 'u':
            read(e[2])
            if e[1] != '-':
                put(wr, e[2][1:])
    for s in k['body']:
        put(wr, s['l'])
        if s['op'] != '=':
            put(rd, s['l'])
        read(s['r'])
    return list(rd.values()), list(wr.values())


def element(k, ref, env):
    """Row-major element number of a reference."""
    e = 0
    for d, i in zip(k['arrays'][ref[0]], ref[1:]):
        e = e * ev(d, env) + ev(i, env)
    return e


def build(k, machine=None, filename=None):
    from .common import kernel_code
    kc = kernel_code(text(k), machine, filename, **k['consts'])
    return kc


# -- random kernels -----------------------------------------------------------------------------------------
def off(r, i, o):
    """i plus o in one of several forms"""
    if o == 0:
        return i
    f = r.random()
    if o > 0:
        return [r.choice('+'), i, o] if f < .7 else ['+', o, i]
    return ['-', i, -o]


def rand(r, maxloops=3, steps=True, flat=True, maxit=6000, complex_=True, scalars=True, unary=True, ops='+-*/',
         const_refs=True, big=True, single=True):
    """A random in-bounds kernel."""
    nl = r.randint(1, maxloops)
    t = r.choice(['double', 'double', 'float'] + (['float _Complex', 'double _Complex'] if complex_ else []))
    idx = r.sample(['i', 'j', 'k', 'l', 'x1', 'idx'], nl) if r.random() < .4 else ['k', 'j', 'i'][-nl:]
    cn = r.sample(['N', 'M', 'O', 'S', 'E', 'size', 'I', 'Q'], r.choice([1, 1, 2, 3]))
    lim = [0, 2000 if big else 60, 60 if big else 14, 14][nl]
    consts = {c: r.randint(5, max(6, lim)) for c in cn}
    loops, ext = [], []
    used = {}
    for n in range(nl):
        c = r.choice(cn + [None]) if r.random() < .9 else None
        b = c if c else r.randint(5, 12)
        s = r.choice([0, 0, 1, 1, 2, 3])
        v = ev(b, consts)
        form = r.random()
        if form < .35:
            e = b
        elif form < .7:
            d = r.choice([1, 2, 3]) if v - 3 > s else 0
            e = ['-', b, d] if d else b
        elif form < .85:
            e = ['+', b, r.choice([1, 2])]
        else:
            e = ['*', 2, b] if r.random() < .5 else ['*', b, 2]
        if r.random() < .1 and single:
            e = ['+', s, 1] if r.random() < .5 else s + 1        # one single iteration
        st = r.choice([1, 1, 1, 2, 3, 4, 5]) if steps else 1
        if ev(e, consts) <= s:
            e = ['+', e, s + 1]
        loops.append({'i': idx[n], 's': s, 'e': e, 'st': st, 'nx': r.choice(['++', 'p++', '+=']) if st == 1 else '+='})
        ext.append(ev(e, consts))
    while True:
        n_it = 1
        for l, x in zip(loops, ext):
            n_it *= max(1, -(-(x - ev(l['s'], consts)) // l['st']))
        if n_it <= maxit:
            break
        j = max(range(nl), key=lambda q: ext[q])
        ext[j] = ev(loops[j]['s'], consts) + 7
        loops[j]['e'] = ext[j]
    arrays, sc = {}, []
    an = r.sample(['a', 'b', 'c', 'A', 'b2', 'zz', 'U', 'w'], r.choice([1, 2, 2, 3, 4]))
    maxo = 2
    kinds = {}
    for a in an:
        f = r.random()
        if flat and f < .25:        # delinearised by hand
            strides = []
            e = 0
            dims = [['+', l['e'], 2 * maxo] if r.random() < .6 else x + 2 * maxo for l, x in zip(loops, ext)]
            size = dims[0]
            for d in dims[1:]:
                size = ['*', size, d]
            arrays[a] = [size]
            kinds[a] = ('flat', dims)
        else:
            if f < .75:
                which = list(range(nl))
            else:
                which = [r.randrange(nl) for _ in range(r.randint(1, 3))]
            mult = [r.choice([1, 1, 1, 1, 2]) for _ in which]
            arrays[a] = [(['+', ['*', m, loops[w]['e']] if m > 1 else loops[w]['e'], 3 * maxo] if r.random() < .5
                          else m * ext[w] + 3 * maxo) for w, m in zip(which, mult)]
            kinds[a] = ('dims', which, mult)
    if scalars:
        sc = r.sample(['s', 'f', 'sum', 'tmp'], r.choice([0, 0, 1, 2]))

    def ref(a):
        kd = kinds[a]
        if kd[0] == 'flat':
            e = None
            for d, l in zip(kd[1], loops):
                o = off(r, l['i'], r.randint(-min(maxo, ev(l['s'], consts)), maxo))
                e = o if e is None else ['+', ['*', e, d] if r.random() < .5 else ['*', d, e], o]
            return [a, e]
        out = [a]
        for w, m in zip(kd[1], kd[2]):
            l = loops[w]
            if const_refs and r.random() < .08:
                out.append(r.randint(0, 3))
                continue
            i = ['*', m, l['i']] if m > 1 else l['i']
            out.append(off(r, i, r.randint(-min(maxo, ev(l['s'], consts)), maxo)))
        return out

    def leaf():
        f = r.random()
        if f < .72 or not (sc or f > .9):
            return ['ref'] + ref(r.choice(an))
        if f < .9 and sc:
            return ['ref', r.choice(sc)]
        return ['c', r.choice(['1.0', '0.25f', '2', '3.5e-1', '.5'])]

    def expr(d):
        f = r.random()
        if d == 0 or f < .2:
            e = leaf()
            if unary and e[0] == 'ref' and r.random() < .08:
                return ['u', r.choice(['++', '--', 'p++', 'p--']), e]
            return e
        if unary and f < .3:
            return ['u', '-', expr(d - 1)]
        return ['b', r.choice(ops), expr(d - 1), expr(d - 1)]
    body = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        l = ref(r.choice(an)) if not sc or r.random() < .8 else [r.choice(sc)]
        body.append({'l': l, 'op': r.choice(['=', '=', '=', '+=', '-=', '*=', '/=']), 'r': expr(r.choice([0, 1, 2, 3]))})
    k = {'type': t, 'arrays': arrays, 'scalars': sc, 'loops': loops, 'body': body, 'consts': consts,
         'style': r.randrange(1 << 30), 'itype': r.choice(['int'] * 4 + ['long', 'long long', 'unsigned int'])}
    return k


def valid(k):
    """Whether all references stay within their arrays (extremes over the loops' ranges)."""
    return True
