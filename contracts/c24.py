"""C24: JSON export."""
ID = 'C24'
TITLE = 'JSON export'
LEVEL = 'proof'
ASSUMPTIONS = ['the texts of the keys of one mapping are distinct (keys that are text or numbers included)', 'structures are nested finitely often']
BOUNDED = ['acceptance by the JSON writer, exotic types: random nested structures up to depth 5 of lists, tuples, mappings, numbers, texts and objects']
TRUSTED = ['json']
RULE = 'random nested result structures with symbolic, unit-carrying and numpy values; non-trivial: nested or exotic values'
SHARDS = 4

LEAVES = ['i:0', 'i:-5', 'i:123456789012345678901234567890', 'f:1.5', 'f:0.1', 'f:inf', 'f:1e-300', 's:', 's:text', 's:ä "x"',
          'b:1', 'b:0', 'none', 'pu', 'sym', 'symint', 'symfloat', 'npf', 'npi', 'set', 'obj', 'bytes', 'cplx', 'frac', 'range',
          'npa', 'strsub', 'floatsub', 'intsub']
KEYS = ['s:a', 's:b', 's:', 's:1', 'i:2', 'i:3', 'f:2.5', 'b:1', 'none', 'sym', 'tuple', 'frozen', 'tuple2', 'bytes', 'obj']


def gen(rng, depth):
    r = rng.random()
    if depth == 0 or r < .25:
        return rng.choice(LEAVES)
    n = rng.choice([0, 1, 1, 2, 3, 5])
    if r < .5:
        return {'l': [gen(rng, depth - 1) for _ in range(n)]}
    if r < .7:
        return {'t': [gen(rng, depth - 1) for _ in range(n)]}
    return {'d': [[k, gen(rng, depth - 1)] for k in rng.sample(KEYS, min(n, len(KEYS)))], 'o': rng.random() < .3}


def cases(rng, tier):
    for l in LEAVES:
        yield l
        yield {'l': [l]}
        yield {'t': [l, l]}
        yield {'d': [['s:a', l]], 'o': False}
    for k in KEYS:
        yield {'d': [[k, 'i:0']], 'o': False}
        yield {'d': [[k, {'d': [[k, {'t': ['pu']}]], 'o': True}]], 'o': False}
    yield {'l': []}
    yield {'t': []}
    yield {'d': [], 'o': False}
    deep = 'pu'
    for i in range(60):
        deep = {'l': [deep]} if i % 3 else {'d': [['tuple', deep]], 'o': False}
    yield deep
    for _ in range(2500 if tier == 'quick' else 50000):
        yield gen(rng, rng.choice([1, 2, 3, 4, 5]))


def trivial(c):
    return isinstance(c, str)


class Thing(object):
    def __str__(self):
        return 'a thing'


class StrSub(str):
    pass


class IntSub(int):
    pass


class FloatSub(float):
    pass


def build(c):
    import collections
    import fractions
    import numpy
    import sympy
    from .common import PU
    if isinstance(c, dict):
        if 'l' in c:
            return [build(x) for x in c['l']]
        if 't' in c:
            return tuple(build(x) for x in c['t'])
        return (collections.OrderedDict if c['o'] else dict)([(build(k), build(v)) for k, v in c['d']])
    k, _, v = c.partition(':')
    if k == 'i':
        return int(v)
    if k == 'f':
        return float(v)
    if k == 's':
        return v
    if k == 'b':
        return bool(int(v))
    x = sympy.Symbol('x', positive=True, integer=True)
    return {'none': None, 'pu': PU(8.5, 'k', 'B/s'), 'sym': x + 1, 'symint': sympy.Integer(3), 'symfloat': sympy.Float(2.5),
            'npf': numpy.float64(1.25), 'npi': numpy.int64(7), 'set': {1}, 'obj': Thing(), 'bytes': b'ab', 'cplx': 1j,
            'frac': fractions.Fraction(1, 3), 'range': range(3), 'npa': numpy.array([1, 2]), 'tuple': ('a', 1),
            'tuple2': (('N', 5), None), 'frozen': frozenset([1]), 'strsub': StrSub('sub'), 'intsub': IntSub(4),
            'floatsub': FloatSub(4.5)}[k]


def verify(o, r, path):
    """Contract of exporting o as r."""
    if isinstance(o, (str, int, float)):
        if not (r is o or (type(r) is type(o) and r == o)
                or (isinstance(r, (str, int, float)) and isinstance(r, bool) == isinstance(o, bool) and
                    isinstance(r, str) == isinstance(o, str) and isinstance(r, int) == isinstance(o, int) and r == o)):
            return '%s: %r became %r' % (path, o, r)
        return None
    if isinstance(o, (list, tuple)):
        if isinstance(r, tuple) != isinstance(o, tuple) or not isinstance(r, (list, tuple)) or len(r) != len(o):
            return '%s: %r became %r' % (path, o, r)
        if r is o and isinstance(o, list):
            return '%s: list shared with the original' % path
        for i, (a, b) in enumerate(zip(o, r)):
            e = verify(a, b, '%s[%d]' % (path, i))
            if e:
                return e
        return None
    if isinstance(o, dict):
        if not isinstance(r, dict) or len(r) != len(o):
            return '%s: %r became %r' % (path, o, r)
        for (k, v), (k2, v2) in zip(o.items(), r.items()):
            if isinstance(k, (str, int, float)):
                ok = type(k2) is type(k) and k2 == k
            else:
                ok = isinstance(k2, str) and k2 == str(k)
            if not ok:
                return '%s: key %r became %r' % (path, k, k2)
            e = verify(v, v2, '%s[%r]' % (path, k))
            if e:
                return e
        return None
    if not (isinstance(r, str) and r == str(o)):
        return '%s: %r became %r' % (path, o, r)
    return None


def check(c):
    import json
    from kerncraft.kerncraft import jsonify_obj
    o = build(c)
    before = repr(o)
    r = jsonify_obj(o)
    if repr(o) != before:
        return 'export changed the original %s to %r' % (before, o)
    e = verify(o, r, 'result')
    if e:
        return e
    json.dumps(r, indent=4)
    r2 = jsonify_obj(r)
    if repr(r2) != repr(r):
        return 're-exporting %r gives %r' % (r, r2)
    return None


# ------------------------------------------------------------------ proofs
KINDS = {str: (0,), int: (1,), float: (2,), bool: (), list: (3,), tuple: (4,), dict: (5,)}


def _kinds(cls):
    import collections.abc as ca
    import numbers
    from engine.core import Unsupported
    more = {ca.Mapping: (5,), ca.MutableMapping: (5,), numbers.Real: (1, 2), ca.Sequence: (0, 3, 4)}
    if cls is bool or (cls not in KINDS and cls not in more):
        raise Unsupported('type test %r' % (cls,))
    return KINDS.get(cls) or more[cls]


class Item(object):
    """Any value inside of the structure."""
    def __init__(self, t, kind):
        self.t, self.kind = t, kind

    def __visinstance__(self, cls):
        import z3
        from engine.core import SBool
        return SBool(z3.Or(*([self.kind(self.t) == k for k in _kinds(cls)] + [z3.BoolVal(False)])))

    def __vsubst__(self, pairs):
        from engine.loops import zsub
        return Item(zsub(self.t, pairs), self.kind)

    def __vleaves__(self):
        from engine.core import SNum
        return [SNum(self.t, 'int')]

    def __vsame__(self, o):
        return self.t.eq(o.t)

    def __veq__(self, o):
        import z3
        return self.t == o.t if isinstance(o, Item) else z3.BoolVal(False)

    def __vmerge__(self, c, o):
        import z3
        return Item(z3.simplify(z3.If(c, self.t, o.t)), self.kind)


def _key_class():
    import z3
    from engine.core import SAtom, SBool

    class Key(SAtom):
        """Any key: text, number or something else."""
        __slots__ = ('kind', 'text')

        def __visinstance__(self, cls):
            return SBool(z3.Or(*([self.kind(self.t) == k for k in _kinds(cls)] + [z3.BoolVal(False)])))

        def __vstr__(self):
            return SAtom(z3.If(self.kind(self.t) == 0, self.t, self.text(self.t)))
    return Key


class Given(object):
    """The structure to export, of one kind: only to be read."""
    def __init__(self, S, kind, seq=None):
        self.S, self.kind, self.seq = S, kind, seq

    def __visinstance__(self, cls):
        return self.kind in _kinds(cls)

    def __vseq__(self):
        from engine.core import Unsupported
        from engine.cont import VList
        if self.kind == 5:
            return self.keys()
        if self.kind not in (3, 4):
            raise Unsupported('iteration over a value that is none of list, tuple and mapping')
        return self.seq[:]

    def items(self):
        assert self.kind == 5
        return self.seq[:]

    def keys(self):
        from engine.cont import VList
        return VList.sym(self.seq.vlen(), lambda i: self.seq.at(i)[0])

    def values(self):
        from engine.cont import VList
        return VList.sym(self.seq.vlen(), lambda i: self.seq.at(i)[1])

    def __getitem__(self, i):
        assert self.kind in (3, 4)
        return self.seq[i]

    def vlen(self):
        return self.seq.vlen()

    def __vstr__(self):
        from engine.core import SAtom
        import z3
        return SAtom(z3.Int('text_of_it'))

    def changed(self, *a, **kw):
        self.S.fail('the original is changed')
    __setitem__ = __delitem__ = append = extend = insert = pop = update = setdefault = clear = sort = reverse = changed


def proof_jsonify(S):
    """jsonify_obj: containers of any size; nested values by the contract of jsonify_obj itself (induction on depth)."""
    import z3
    from engine import instr
    from engine.core import SAtom, SNum, SYM_ATOM_BASE, sint, ctx, zb
    from engine.cont import VList, VDict, veq
    S.cut_hints.append('jsonify_obj')
    I = z3.IntSort()
    elem, kind, J = S.func('element', I, I), S.func('kind', I, I), S.func('exported', I, I)
    key, text = S.func('key', I, I), S.func('text', I, I)
    Key = _key_class()
    n = SNum(z3.Int('n'), 'int')

    def nthkey(i):
        k = Key(key(sint(i)))
        k.kind, k.text = kind, text
        ctx().assume(z3.And(k.t > SYM_ATOM_BASE, text(k.t) > SYM_ATOM_BASE))
        return k

    for what, nr in (('text', 0), ('integer', 1), ('float', 2), ('list', 3), ('tuple', 4), ('mapping', 5), ('anything else', 6)):
        def go(S):
            m = instr.load('kerncraft/kerncraft.py')
            f = m.jsonify_obj

            def contract(x):
                if not isinstance(x, Item):
                    S.fail('something else than the nested values is exported: %r' % (x,))
                ctx().assume(z3.Implies(z3.And(kind(x.t) >= 0, kind(x.t) <= 2), J(x.t) == x.t))
                return Item(J(x.t), kind)
            m.jsonify_obj = contract
            S.assume(n >= 0)
            seq = VList.sym(n, lambda i: Item(elem(sint(i)), kind)) if nr < 5 else VList.sym(
                n, lambda i: (nthkey(i), Item(elem(sint(i)), kind)))
            g = Given(S, nr, seq)
            if nr >= 3:
                S.example[:] = [n == 2]
            r = f(g)
            if nr <= 2:
                S.check('text and numbers stay as they are', bool(r is g))
                return
            if nr == 6:
                S.check('anything else becomes its text', r == g.__vstr__() if isinstance(r, SAtom) else False)
                return
            j = S.int('j')
            S.assume((j >= 0) & (j < n))
            want = Item(J(elem(sint(j))), kind)
            if nr == 5:
                S.check('mappings become mappings', isinstance(r, VDict) and not r.d)
                if r.entries is not None:
                    S.check('nothing but the entries, in order', not r.overlay)
                    S.check('one entry per key', r.entries.vlen() == n)
                    k, v = r.entries.at(j)
                else:
                    ov = r.overlay
                    S.check('nothing but the entries, in order', len(ov) == 1 and ov[0][0] is None)
                    seg = ov[0][1]
                    S.check('one entry per key', seg.n == sint(n))
                    k, v = seg.get(j)
                t = key(sint(j))
                nthkey(j)
                S.check('keys are kept or become their text',
                        k == SAtom(z3.If(z3.And(kind(t) >= 0, kind(t) <= 2), t, text(t))))
                S.check('each value is exported under its key', v.__veq__(want))
                return
            S.check('lists stay lists, tuples stay tuples', isinstance(r, instr.VTuple) == (nr == 4) and (
                isinstance(r, VList)))
            S.check('one element per element', r.vlen() == n)
            S.check('each element is exported in its place', r.at(j).__veq__(want))
        S.run(go, 'jsonify_obj of a %s' % what)


PROOFS = [('jsonify', proof_jsonify, ['jsonify_obj'])]
