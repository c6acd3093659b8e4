"""C10: layer conditions."""
from . import kgen

ID = 'C10'
TITLE = 'layer condition prediction'
LEVEL = 'proof'
ASSUMPTIONS = ['references are within their arrays, extents exceed the offsets used',
               'the selection is proved for hierarchies of one to four caches']
BOUNDED = ['LayerConditionPredictor (build_symbolic_LCs: sums over sympy expressions sorted by degree; desymbolize, getters): generated stencils of up to 3 loops and 3 '
           'arrays, cache sizes at and around the requirements, up to 4 sets of constants each']
TRUSTED = ['sympy', 'pycachesim (sizes of its levels)']
RULE = ('random stencils with symbolic and numeric extents, and kernels violating one precondition; cache sizes exactly at '
        'and one step around the requirement of some option; non-trivial: two or more finite reuse distances')
SHARDS = 6
VIOL = ['step', 'transposed', 'stride2', 'reverse', 'innerfirst', 'product', 'wrongloop', 'strideflat', 'step-outer',
        'halfstore']


def stencil(rng):
    nl = rng.choice([1, 2, 2, 3, 3])
    idx = ['k', 'j', 'i'][-nl:]
    names = rng.sample(['N', 'M', 'O', 'E'], rng.choice([1, 1, 2, 3]))
    lim = {1: 4000, 2: 400, 3: 90}[nl]
    consts = {n: rng.randint(20, lim) for n in names}
    dims = [rng.choice(names) if rng.random() < .8 else rng.randint(12, lim) for _ in range(nl)]
    loops = [{'i': i, 's': 3, 'e': ['-', d, 3], 'st': 1, 'nx': rng.choice(['++', 'p++'])} for i, d in zip(idx, dims)]
    arrays, form = {}, {}
    for a in rng.sample(['a', 'b', 'c', 'U', 'w'], rng.choice([1, 2, 2, 3])):
        f = rng.random()
        if f < .15 and nl > 1:
            n = rng.randint(1, nl - 1)       # only the innermost loops
            arrays[a], form[a] = dims[-n:], ('part', n)
        elif f < .35:
            e = dims[0]
            for d in dims[1:]:
                e = ['*', e, d]
            arrays[a], form[a] = [e], ('flat', nl)
        else:
            arrays[a], form[a] = list(dims), ('full', nl)
        if rng.random() < .15 and form[a][0] == 'full':
            arrays[a] = [rng.choice([2, 3])] + arrays[a]
            form[a] = ('lead', nl, arrays[a][0])

    def ref(a, spread=3):
        kind, n = form[a][:2]
        offs = [0] * n
        for _ in range(rng.choice([0, 1, 1, 2])):
            offs[rng.randrange(n)] = rng.randint(-spread, spread)
        ix = [kgen.off(rng, i, o) for i, o in zip(idx[-n:], offs)]
        if kind == 'flat':
            e = None
            for q, (x, o) in enumerate(zip(idx, offs)):
                for t, sg in ((x, '+'), (abs(o), '+' if o > 0 else '-')):
                    if t:
                        for d in dims[q + 1:]:
                            t = ['*', t, d]
                        e = t if e is None else [sg, e, t]
            ix = [e]
        if kind == 'lead':
            ix = [rng.randrange(form[a][2])] + ix
        return [a] + ix
    an = list(arrays)
    wr = rng.choice(an)
    terms = [['ref'] + ref(rng.choice(an)) for _ in range(rng.choice([1, 2, 3, 5, 7, 9]))]
    e = terms[0]
    for t in terms[1:]:
        e = ['b', rng.choice('+*'), e, t]
    l = ref(wr) if rng.random() < .93 else ['s']
    body = [{'l': l, 'op': rng.choice(['=', '=', '=', '+=']), 'r': e}]
    if rng.random() < .2:
        body.append({'l': ref(rng.choice(an)), 'op': '=', 'r': ['ref'] + ref(rng.choice(an))})
    return {'type': rng.choice(['double', 'double', 'float', 'double _Complex']), 'arrays': arrays, 'scalars': ['s'],
            'loops': loops, 'body': body, 'consts': consts, 'style': 0,
            # forms that are refused in some cases
            'may': any(f[0] in ('flat', 'lead') for f in form.values()) or any(isinstance(d, int) for d in dims)}


def cases(rng, tier):
    yield {'k': {'type': 'double', 'arrays': {}, 'scalars': ['s', 't'], 'loops': [{'i': 'i', 's': 0, 'e': 'N', 'st': 1, 'nx': '++'}],
                 'body': [{'l': ['s'], 'op': '+=', 'r': ['ref', 't']}], 'consts': {'N': 100}, 'style': 0},
           'h': [], 'cl': 8, 'lv': 2, 'r': 1, 'file': False, 'v': None, 'desc': False}
    for _ in range(500 if tier == 'quick' else 15000):
        k = stencil(rng)
        h = [{n: max(12, v + rng.choice([-40, -7, -1, 1, 2, 9, 100, v])) for n, v in k['consts'].items()}
             for _ in range(rng.choice([0, 1, 2, 3]))]
        yield {'k': k, 'h': h, 'cl': rng.choice([8, 8, 64]), 'lv': rng.choice([1, 2, 3]), 'r': rng.randrange(1 << 30),
               'file': rng.random() < .3, 'v': None, 'desc': rng.random() < .2}
        if rng.random() < .35:
            yield {'k': violate(rng, k, rng.choice(VIOL)), 'h': [], 'cl': 64, 'lv': 2, 'r': 0, 'file': False, 'v': True,
                   'desc': False}


def violate(rng, k, how):
    import copy
    k = copy.deepcopy(k)
    nl = len(k['loops'])
    inner = k['loops'][-1]['i']
    if nl == 1 and how in ('transposed', 'wrongloop', 'product', 'step-outer'):
        how = rng.choice(['step', 'stride2', 'reverse', 'innerfirst'])
    if how == 'step':
        k['loops'][-1].update(st=rng.choice([2, 3]), nx='+=')
        return k
    if how == 'step-outer':
        k['loops'][rng.randrange(nl - 1)].update(st=2, nx='+=')
        return k
    k['arrays'].update({'x': ['N2', 'N2'], 'y': ['N2'], 'z': ['N2', 'N2', 'N2']})
    k['consts']['N2'] = 1000
    outer = k['loops'][0]['i']
    bad = {'transposed': ['x', inner, outer], 'stride2': ['y', ['*', 2, inner]], 'reverse': ['y', ['-', 50, inner]],
           'innerfirst': ['x', inner, 0], 'product': ['y', ['*', inner, outer]],
           'wrongloop': ['x', inner, inner], 'strideflat': ['y', ['+', ['*', inner, 'N2'], 1]],
           'halfstore': ['y', ['*', 3, inner]]}[how]
    if how == 'halfstore':
        k['body'].append({'l': bad, 'op': '=', 'r': ['c', '1.0']})
    else:
        k['body'][0]['r'] = ['b', '+', k['body'][0]['r'], ['ref'] + bad]
    return k


def accesses(k):
    """{array: [reads and writes depending on the inner counter]}"""
    rd, wr = kgen.refs(k)
    inner = k['loops'][-1]['i']
    out = {}
    for r in rd + wr:
        out.setdefault(r[0], []).append(r)
    return {a: rs for a, rs in out.items() if any(inner in kgen.names(i) for r in rs for i in r[1:])}


def trivial(c):
    return not c['v'] and sum(len(r) - 1 for r in accesses(c['k']).values()) < 2


def distances(k, consts):
    """Finite reuse distances in bytes (sorted), number of infinite ones."""
    es = kgen.SIZES[k['type']]
    env = dict(consts, **{l['i']: 1000 for l in k['loops']})
    fin, inf = [], 0
    for a, rs in accesses(k).items():
        o = sorted((kgen.element(k, r, dict(env)) for r in rs), reverse=True)
        fin += [es * (x - y) for x, y in zip(o, o[1:])]
        inf += 1
    return sorted(fin), inf


def total_size(k, consts):
    es = kgen.SIZES[k['type']]
    t = 0
    for d in k['arrays'].values():
        s = es
        for x in d:
            s *= kgen.ev(x, consts)
        t += s
    return t


def check(c):
    import os
    import random
    import shutil
    import tempfile
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        return run(c, d, random.Random(c['r']))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def truth(cond, consts):
    from kerncraft.kernel import symbol_pos_int
    if isinstance(cond, bool):
        return cond
    r = cond.subs({symbol_pos_int(n): v for n, v in consts.items()})
    if r == True or r == False:     # noqa
        return bool(r)
    raise ValueError('condition %s stays undecided' % r)


def run(c, d, rng):
    import os
    import math
    import sympy
    from .common import machine_dict, kernel_code
    from . import c06
    from kerncraft.machinemodel import MachineModel
    from kerncraft.kernel import symbol_pos_int
    from kerncraft import cacheprediction as cp
    k = c['k']
    consts = dict(k['consts'])
    text = kgen.text(k)
    where = '\n' + text
    es = kgen.SIZES[k['type']]
    if any(kgen.ev(x, consts) < 12 for x in sum(k['arrays'].values(), []) if not isinstance(x, int)):
        return None
    # cache sizes around requirements
    fin, inf = distances(k, consts)
    reqs = [total_size(k, consts)]
    for t in set(fin):
        s = [x for x in fin if x <= t]
        reqs.append(sum(s) + t * (len(fin) - len(s) + inf))
    sizes = []
    for _ in range(c['lv']):
        r = rng.choice(reqs) + rng.choice([-1, 0, 0, 1, 5]) * c['cl']
        sizes.append(max(1, -(-r // c['cl'])))
    if rng.random() < .8:
        sizes.sort()
    md = machine_dict(levels=tuple(['L1', 'L2', 'L3'][:c['lv']]) + ('MEM',), cl=c['cl'])
    for h, s in zip(md['memory hierarchy'], sizes):
        h['cache per group'].update(sets=s, ways=1, cl_size=c['cl'])
        h['cores per group'] = 1
    mach = MachineModel(machine_yaml=md)
    fn = os.path.join(d, 'k.c') if c['file'] else None
    if fn:
        with open(fn, 'w') as f:
            f.write(text)

    def kern(cs):
        if c['desc']:
            from kerncraft.kernel import KernelDescription
            kc = KernelDescription(c06.description(k), machine=mach)
        else:
            kc = kernel_code(text, mach, fn)
        for n, v in cs.items():
            kc.set_constant(n, v)
        return kc
    if c['v']:
        for sym in (False, True):
            try:
                p = cp.LayerConditionPredictor(kern(consts), mach, symbolic=sym)
            except (ValueError, NotImplementedError, AssertionError):
                continue
            return 'kernel violating the preconditions gives %r%s' % (p.results['cache'], where)
        return None
    sizes = [s * c['cl'] for s in sizes]
    try:
        sym = cp.LayerConditionPredictor(kern(consts), mach, symbolic=True).results
    except ValueError as e:
        if c['k'].get('may'):
            return None     # not accepted
        raise
    allc = [consts] + [x for x in c['h'] if all(kgen.ev(l['e'], x) > kgen.ev(l['s'], x) for l in k['loops'])]
    x0 = 10 ** 9

    def at(e, cs):
        e = sympy.sympify(e).subs({symbol_pos_int(n): v for n, v in cs.items()})
        return math.inf if e == sympy.oo else int(e)
    same = {n: x0 for n in consts}
    db = sorted(sym['distances_bytes'], key=lambda e: at(e, same))
    if len(sym['cache']) != c['lv']:
        return '%d levels predicted for %d caches%s' % (len(sym['cache']), c['lv'], where)
    for cs in allc:
        fin, inf = distances(k, cs)
        for key, f in (('distances_bytes', 1), ('distances', es)):
            got = sorted(at(e, cs) * f for e in sym[key])
            if got != fin + [math.inf] * inf:
                return 'reuse distances %s at %r are %r instead of %r%s' % (key, cs, got, fin + [math.inf] * inf, where)
    for lv, (opts, size) in enumerate(zip(sym['cache'], sizes)):
        w = ' (level %d of %d bytes)%s' % (lv, size, where)
        for n, o in enumerate(opts):
            if o['hits'] + o['misses'] != len(db):
                return 'option %r: %d hits and %d misses for %d reuse distances%s' % (
                    o, o['hits'], o['misses'], len(db), w)
            if o['misses'] == 0 and o['tail'] == sympy.oo:
                for cs in allc:
                    t = total_size(k, cs)
                    if t != size and truth(o['condition'], cs) != (t < size):
                        return 'full caching %r does not fit total array size %d at %r%s' % (o, t, cs, w)
                continue
            served = db[:o['hits']]
            for cs in allc:
                req = sum(at(e, cs) for e in served) + (at(o['tail'], cs) * o['misses'] if o['misses'] else 0)
                if o['hits'] and at(o['tail'], same) != at(served[-1], same):
                    return 'option %r serves %d distances, whose largest is %r%s' % (o, o['hits'], served[-1], w)
                if truth(o['condition'], cs) != (req <= size) and not (n == len(opts) - 1 and not o['hits']):
                    return 'option %r at %r is %s with a requirement of %d bytes%s' % (
                        o, cs, truth(o['condition'], cs), req, w)
        last = opts[-1]['condition']
        if not (last is True or last == sympy.true):
            return 'options do not end in one that always holds: %r%s' % (opts, w)
    for cs in allc:
        kc = kern(cs)
        p = cp.LayerConditionPredictor(kc, mach)
        want = []
        for opts in sym['cache']:
            want.append(next(o for o in opts if truth(o['condition'], cs)))
        w = ' (constants %r, caches of %r bytes)%s' % (cs, sizes, where)
        for got, o in zip(p.get_infos()['cache'], want):
            if not isinstance(got, dict) or any(got[x] != o[x] for x in ('hits', 'misses', 'evicts', 'tail')):
                return 'prediction %r, although %r is the first true option%s' % (got, o, w)
        hits, miss, ev = ([o[x] for o in want] for x in ('hits', 'misses', 'evicts'))
        for name, exp in (('get_loads', [None] + miss), ('get_hits', hits + [miss[-1]]), ('get_misses', miss + [0]),
                          ('get_stores', [None] + ev), ('get_evicts', ev + [0])):
            got = list(getattr(p, name)())
            if len(got) != len(exp) or any(e is not None and g != e for g, e in zip(got, exp)):
                return '%s() is %r instead of %r%s' % (name, got, exp, w)
        # evicted lines of a partly caching level are those of the distinct stored references
        nst = len([r for r in kgen.refs(k)[1] if r[0] in accesses(k)])
        for o in want:
            if o['evicts'] != (0 if o['tail'] == sympy.oo else nst):
                return 'option %r evicts other than %d stored references%s' % (o, nst, w)
    return None


# ------------------------------------------------------------------ proofs
def proof_getters(S):
    """get_loads, get_hits, get_misses, get_stores, get_evicts: any number of levels, any choice for each."""
    import z3
    from engine import instr
    from engine.core import sint, mk
    from engine.cont import VList, VDict
    from .stubs import pos_int
    I = z3.IntSort()
    for name, what, at_memory in (('get_loads', 'misses', None), ('get_hits', 'hits', 'last'), ('get_misses', 'misses', 0),
                                  ('get_stores', 'evicts', None), ('get_evicts', 'evicts', 0)):
        def go(S):
            m = instr.load('kerncraft/cacheprediction.py')
            n = pos_int(S, 'levels')
            F = {k: S.func(k, I, I) for k in ('hits', 'misses', 'evicts')}
            o = object.__new__(m.LayerConditionPredictor)
            o.results = VDict([('cache', VList.sym(sint(n), lambda i: VDict([(k, mk(v(sint(i)), 'int')) for k, v in F.items()])))])
            j = S.int('j')
            S.assume((j >= 0) & (j < n))
            r = getattr(o, name)()
            S.check('one number per cache and one for registers or memory', r.vlen() == n + 1)
            v = mk(F[what](sint(j)), 'int')
            if at_memory is None:
                S.check('of the cache below', r[j + 1] == v)
                S.check('nothing is known about the registers', bool(r[0] != r[0]))
            else:
                S.check('of each cache', r[j] == v)
                S.check('at memory', r[n] == (mk(F['misses'](sint(n) - 1), 'int') if at_memory == 'last' else at_memory))
        S.run(go, name)


def proof_desymbolize(S):
    """desymbolize: any options and truth of their conditions; hierarchies of one to four caches."""
    import z3
    from engine import instr
    from engine.core import sint, mk, SAtom, SBool
    from engine.cont import VList, VDict
    from .stubs import pos_int
    S.cut_hints.append('desymbolize')
    I = z3.IntSort()

    def go(S):
        m = instr.load('kerncraft/cacheprediction.py')
        levels = S.pick([1, 2, 3, 4])
        T = [S.func('holds%d' % q, I, z3.BoolSort()) for q in range(levels)]
        N = [pos_int(S, 'options%d' % q) for q in range(levels)]
        q_ = z3.Int('oq')
        for t, n in zip(T, N):
            # contract of build_symbolic_LCs: one of the options holds
            S.define(z3.Exists([q_], z3.And(q_ >= 0, q_ < sint(n), t(q_))))

        class Cond(object):
            def __init__(self, q, i):
                self.q, self.i = q, i

        class Kern(object):
            def subs_consts(self, c):
                return SBool(T[c.q](sint(c.i)))
        o = object.__new__(m.LayerConditionPredictor)
        o.kernel = Kern()
        o.results = {'cache': [VList.sym(sint(n), lambda i, q=q: VDict([('condition', Cond(q, i)), ('number', mk(sint(i), 'int')), ('of', q)]))
                               for q, n in enumerate(N)], 'distances': 'other results'}
        S.example[:] = [n == 2 for n in N]
        o.desymbolize()
        c = o.results['cache']
        S.check('one choice per level', bool(len(c) == levels))
        S.check('other results stay', bool(o.results['distances'] == 'other results'))
        for q, e in enumerate(c):
            if isinstance(e, VList):
                S.fail('no option was chosen')
                return
            k = sint(e['number'])
            S.check('an option of this level', bool(e['of'] == q))
            S.check('it holds', T[q](k))
            S.check('no option before it holds', z3.Not(z3.Exists([q_], z3.And(q_ >= 0, q_ < k, T[q](q_)))))
    S.run(go, 'desymbolize')


PROOFS = [('getters', proof_getters, ['LayerConditionPredictor.get_loads, get_hits, get_misses, get_stores, get_evicts']),
          ('desymbolize', proof_desymbolize, ['LayerConditionPredictor.desymbolize'])]
