"""C22: merging of result files."""
ID = 'C22'
TITLE = 'merging of results'
LEVEL = 'proof'
ASSUMPTIONS = ['pickled content consists of plain values and dictionaries, nested finitely often']
BOUNDED = ['real files: random nested dictionaries, chains of up to five files']
TRUSTED = ['pickle']
RULE = 'random nested dictionaries with shared keys, tuple keys and empty mappings; non-trivial: a shared key'
SHARDS = 4


def gen(rng, depth, keys):
    d = []
    for k in keys:
        if rng.random() < .55:
            r = rng.random()
            if r < .5 and depth > 0:
                v = gen(rng, depth - 1, keys)
            else:
                v = rng.choice([0, 1, 2.5, 'x', None, [1, 2], ['a', {}], '', False])
            d.append([k, v if isinstance(v, dict) and 'D' in v else {'V': v}])
    rng.shuffle(d)
    return {'D': d}


def cases(rng, tier):
    E = {'D': []}
    V = lambda x: {'V': x}
    D = lambda *kv: {'D': [list(x) for x in kv]}
    for a in (E, D(('a', V(1))), D(('a', E)), D(('a', D(('b', V(1)))))):
        for b in (E, D(('a', V(2))), D(('a', E)), D(('a', D(('b', V(2))))), D(('a', D(('c', V(2))))),
                  D(('b', V(None))), D(('a', V(None))), D(('a', V([])))):
            yield {'k': 'update', 'd': [a, b]}
            yield {'k': 'file', 'd': [a, b]}
    for _ in range(1500 if tier == 'quick' else 30000):
        keys = rng.sample(['a', 'b', 'c', 'd', 1, 2, 't1', 't2', 'n'], rng.choice([1, 2, 3, 4]))
        n = rng.choice([2, 2, 2, 3, 4, 5])
        yield {'k': 'file' if rng.random() < .15 else 'update',
               'd': [gen(rng, rng.choice([0, 1, 2, 3, 4]), keys) for _ in range(n)],
               'ordered': rng.random() < .2}


def trivial(c):
    ks = [set(str(k) for k, v in d['D']) for d in c['d']]
    return not any(ks[0] & k for k in ks[1:])


def build(x, typ):
    if 'V' in x:
        return x['V']
    return typ([({'t1': ('x', 1), 't2': ('x', 1, ()), 'n': None}.get(k, k), build(v, typ)) for k, v in x['D']])


def spec(d, u):
    """At every key path: the source's value where it has one, the destination's otherwise."""
    r = dict(d)
    for k, v in u.items():
        if isinstance(v, dict):
            r[k] = spec(d[k] if isinstance(d.get(k), dict) else {}, v)
        else:
            r[k] = v
    return r


def same(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b


def check(c):
    import collections
    import copy
    import io
    import os
    import pickle
    import shutil
    import sys
    import tempfile
    from kerncraft import picklemerge
    typ = collections.OrderedDict if c.get('ordered') else dict
    ds = [build(d, typ) for d in c['d']]
    if c['k'] == 'update':
        want = ds[0]
        dest = copy.deepcopy(ds[0])
        snap = copy.deepcopy(ds[1:])
        for u in ds[1:]:
            before = copy.deepcopy(u)
            want = spec(want, u)
            r = picklemerge.update(dest, u)
            if not same(u, before):
                return 'update changed its source %r to %r' % (before, u)
            if not same(dest, want):
                return 'update(%r, %r) makes %r instead of %r' % (ds[0], ds[1:], dest, want)
            if r is not dest and not same(r, want):
                return 'update returns %r' % (r,)
        if not same(snap, ds[1:]):
            return 'merging changed an earlier source: %r instead of %r' % (ds[1:], snap)
        return None
    tmp = tempfile.mkdtemp(prefix='kc_c22_')
    argv, out = sys.argv, sys.stdout
    try:
        names = []
        for i, d in enumerate(ds):
            names.append(os.path.join(tmp, '%d.pickle' % i))
            with open(names[-1], 'wb') as f:
                pickle.dump(d, f)
        raw = [open(n, 'rb').read() for n in names]
        sys.argv = ['picklemerge'] + names
        sys.stdout = io.StringIO()
        picklemerge.main()
        import gc
        gc.collect()
        sys.stdout = out
        want = ds[0]
        for u in ds[1:]:
            want = spec(want, u)
        blob = open(names[0], 'rb').read()
        f = io.BytesIO(blob)
        got = pickle.load(f)
        if f.read():
            return 'the destination holds more than the merged dictionary'
        if not same(got, want):
            return 'merging %r gives %r instead of %r' % (ds, got, want)
        for n, r in zip(names[1:], raw[1:]):
            if open(n, 'rb').read() != r:
                return 'a source file was changed'
        if sorted(os.listdir(tmp)) != sorted(os.path.basename(n) for n in names):
            return 'other files were written: %r' % os.listdir(tmp)
        return None
    finally:
        sys.argv, sys.stdout = argv, out
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------ proofs
class Val(object):
    """Any value of a dictionary: known by an identity, whether it is a mapping, and where it is stored."""
    def __init__(self, W, t, home):
        self.W, self.t, self.home = W, t, home

    def __visinstance__(self, cls):
        import collections.abc as ca
        from engine.core import SBool
        if cls in (ca.Mapping, ca.MutableMapping):
            return SBool(self.W.ismap(self.t))
        if cls is dict:
            raise_unsupported('isinstance(.., dict): only a Mapping is promised')
        raise_unsupported('type test %r' % (cls,))

    def __deepcopy__(self, memo):
        return Val(self.W, self.t, ('fresh', None))


def raise_unsupported(what):
    from engine.core import Unsupported
    raise Unsupported(what)


class World(object):
    """Symbols of one merge, seen at one arbitrary key q."""
    def __init__(self, S):
        import z3
        I, B = z3.IntSort(), z3.BoolSort()
        self.S = S
        self.ismap, self.key, self.sv = S.func('is_mapping', I, B), S.func('key', I, I), S.func('source_value', I, I)
        self.merged = S.func('merged', I, I, I)
        self.q, self.pos, self.n = z3.Int('q'), z3.Int('position_of_q'), z3.Int('source_keys')
        self.empty = z3.Int('empty_mapping')
        from engine.core import SYM_ATOM_BASE
        S.assume(z3.And(self.n >= 0, self.ismap(self.empty), self.pos >= -1, self.pos < self.n, self.q > SYM_ATOM_BASE))

    def nth(self, i):
        """The i-th key: distinct keys, so q is at its position only."""
        from engine.core import SAtom, ctx, sint, SYM_ATOM_BASE
        import z3
        t = sint(i)
        ctx().assume(z3.And((self.key(t) == self.q) == (t == self.pos), self.key(t) > SYM_ATOM_BASE))
        return SAtom(self.key(t))


class Source(object):
    """The mapping merged from: must not change."""
    def __init__(self, W):
        from engine.cont import VList
        self.W, self.V = W, VList

    def value(self, k):
        return Val(self.W, self.W.sv(k.t), ('source', k))

    def items(self):
        from engine.core import SNum

        def nth(i):
            k = self.W.nth(i)
            return k, self.value(k)
        return self.V.sym(SNum(self.W.n, 'int'), nth)

    def keys(self):
        from engine.core import SNum
        return self.V.sym(SNum(self.W.n, 'int'), self.W.nth)

    __vseq__ = keys

    def __getitem__(self, k):
        return self.value(k)

    def __setitem__(self, k, v):
        self.W.S.fail('the source is changed')

    __delitem__ = pop = update = setdefault = clear = lambda self, *a: self.W.S.fail('the source is changed')


class Dest(object):
    """The mapping merged into, as seen at q; at every other key anything may be stored."""
    __shadow__ = True
    def __init__(self, W):
        import z3
        from engine.core import SBool, SNum
        self.W = W
        self.p0, self.v0 = z3.Bool('stored'), z3.Int('stored_value')
        self.present, self.value = SBool(self.p0), SNum(self.v0, 'int')

    def _val(self, k):
        """1-tuple with the value at k, or None."""
        from engine.core import SAtom, SBool, ctx, sint
        if bool(k == SAtom(self.W.q)):
            return (Val(self.W, sint(self.value), ('dest', k)),) if bool(self.present) else None
        return (Val(self.W, ctx().fresh('other'), ('dest', k)),) if self.W.S.pick([False, True]) else None

    def get(self, k, d=None):
        r = self._val(k)
        return d if r is None else r[0]

    def __getitem__(self, k):
        r = self._val(k)
        if r is None:
            raise KeyError(k)
        return r[0]

    def __contains__(self, k):
        return self._val(k) is not None

    def setdefault(self, k, d):
        r = self._val(k)
        if r is None:
            self[k] = d
            return d
        return r[0]

    def __setitem__(self, k, v):
        import z3
        from engine.core import SAtom, SBool, SNum
        from engine.cont import VDict
        if isinstance(v, Val):
            if v.home[0] == 'source':
                self.W.S.check('destination and source share no mapping', z3.Not(self.W.ismap(v.t)))
            t = v.t
            v.home = ('dest', k)
        elif isinstance(v, VDict) and v.plain() and not v.d:
            t = self.W.empty
        else:
            self.W.S.fail('a value from neither is stored: %r' % (v,))
        if bool(k == SAtom(self.W.q)):
            self.present, self.value = SBool(z3.BoolVal(True)), SNum(t, 'int')

    def __delitem__(self, k):
        import z3
        from engine.core import SAtom, SBool
        if bool(k == SAtom(self.W.q)):
            self.present = SBool(z3.BoolVal(False))

    def update(self, *a):
        raise_unsupported('update of the destination')


def proof_update(S):
    """update: dictionaries of any size, any key; nested merges by the contract of update itself (induction on depth)."""
    import z3
    from engine import instr
    from engine.core import SAtom, SBool, SNum, mk, ctx
    from engine.cont import VDict
    S.cut_hints.append('update')

    def go(S):
        m = instr.load('kerncraft/picklemerge.py')
        update = m.update
        W = World(S)
        d, u = Dest(W), Source(W)

        def contract(r, v):
            if not isinstance(v, Val):
                raise_unsupported('merge of %r' % (v,))
            S.check('only mappings are merged', W.ismap(v.t))
            if isinstance(r, VDict):
                S.check('nothing but an empty mapping is made up', bool(r.plain() and not r.d))
                out = Val(W, W.merged(W.empty, v.t), ('fresh', None))
            else:
                S.check('only mappings are merged into', W.ismap(r.t))
                S.check('nested mappings of the source are not merged into', bool(r.home[0] != 'source'))
                r.t = W.merged(r.t, v.t)
                out = r
                if r.home[0] == 'dest' and bool(r.home[1] == SAtom(W.q)):
                    d.value = SNum(r.t, 'int')
            ctx().assume(W.ismap(out.t))
            return out
        m.update = contract
        v = W.sv(W.q)
        result = z3.If(W.ismap(v), W.merged(z3.If(z3.And(d.p0, W.ismap(d.v0)), d.v0, W.empty), v), v)
        seen = lambda kk: z3.And(W.pos >= 0, W.pos < kk)

        def hint(L, slot, i, kind):
            if slot[-1] == 'present':
                return lambda kk: SBool(z3.simplify(z3.Or(seen(kk), d.p0)))
            if slot[-1] == 'value':
                return lambda kk: mk(z3.If(seen(kk), result, d.v0), 'int')
        S.closed_hints[:] = [hint]
        S.example[:] = [W.n == 2, W.pos == 1]
        r = update(d, u)
        S.check('the merged destination is returned', bool(r is d))
        S.check('keys of either are kept', d.present.t == z3.Or(W.pos >= 0, d.p0))
        S.check('the source wins at its keys', z3.Implies(W.pos >= 0, d.value.t == result))
        S.check('others are untouched', z3.Implies(z3.And(W.pos < 0, d.p0), d.value.t == d.v0))
    S.run(go, 'update')


class Loaded(object):
    """A dictionary read from a file."""
    __shadow__ = True

    def __init__(self, t, ismap):
        self.t, self._ismap = t, ismap

    def __visinstance__(self, cls):
        import collections.abc as ca
        from engine.core import SBool, sint
        if cls in (ca.Mapping, ca.MutableMapping):
            return SBool(self._ismap(sint(self.t)))
        raise_unsupported('type test %r' % (cls,))


class File(object):
    """An open file: content of a load, position, length, and the last dump."""
    def __init__(self, S, t, pos, length):
        self.S, self.t, self.pos, self.length, self.dumps = S, t, pos, length, []

    def seek(self, x, whence=0):
        if whence:
            raise_unsupported('seek from elsewhere')
        self.pos = x

    def truncate(self, *a):
        self.length = a[0] if a else self.pos

    def tell(self):
        return self.pos

    def flush(self):
        pass

    close = flush


def proof_main(S):
    """main: any number of source files; update by its contract."""
    import z3
    from engine import instr
    from engine.core import SNum, mk, sint, ctx
    from engine.cont import VList
    from .stubs import Plain
    S.cut_hints.append('main')
    I, B = z3.IntSort(), z3.BoolSort()
    ismap, content, merged, fold = (S.func('is_mapping', I, B), S.func('content', I, I), S.func('merged', I, I, I),
                                    S.func('fold', I, I))
    n = SNum(z3.Int('sources'), 'int')

    def go(S):
        S.assume(n >= 1)
        dest = File(S, S.int('content_of_destination'), 0, S.int('old_length'))
        blob = S.int('length_of_dump')
        m = instr.load('kerncraft/picklemerge.py')
        S.assume((dest.length > 0) & (blob > 0))

        def load(f):
            if f is dest:
                S.check('the destination is read from its start', f.pos == 0)
                f.pos = S.int('position_after_load')
                S.assume((f.pos > 0) & (f.pos <= dest.length))
            return Loaded(f.t, ismap)

        def dump(x, f, *a):
            S.check('only the destination is written', bool(f is dest))
            f.dumps.append((x.t, f.pos))
            end = f.pos + blob
            f.length = mk(z3.If(sint(end) > sint(f.length), sint(end), sint(f.length)), 'int')
            f.pos = end

        def contract(d, u):
            S.check('the result so far is merged into', bool(isinstance(d, Loaded) and isinstance(u, Loaded)))
            d.t = mk(merged(sint(d.t), sint(u.t)), 'int')
            ctx().assume(ismap(sint(d.t)))
            return d
        args = Plain(destination=dest, source=VList.sym(n, lambda i: File(S, mk(content(sint(i)), 'int'), 0, None)))
        m.argparse = Plain(ArgumentParser=lambda *a, **kw: Plain(add_argument=lambda *a, **kw: None, parse_args=lambda *a: args),
                           FileType=lambda *a, **kw: None)
        m.pickle = Plain(load=load, dump=dump)
        m.update = contract

        def rec(k):
            for i in (k, z3.simplify(k - 1)):
                S.define(fold(0) == sint(args.destination.t))
                S.define(z3.Implies(i >= 0, fold(i + 1) == merged(fold(i), content(i))))
            return fold(k)
        S.closed_hints[:] = [lambda L, slot, i, kind: (lambda kk: mk(rec(kk), 'int')) if slot[-1] == 't' else None]
        S.example[:] = [n == 2]
        try:
            m.main()
        except AssertionError:
            S.check('nothing is written without mappings', bool(not dest.dumps))
            return
        S.check('the result is written once', bool(len(dest.dumps) == 1))
        S.check('to the start of the destination', dest.dumps[0][1] == 0)
        S.check('and nothing is left behind it', dest.length == blob)
        S.check('all sources are merged in order', dest.dumps[0][0] == mk(rec(sint(n)), 'int'))
    S.run(go, 'main')


PROOFS = [('update', proof_update, ['picklemerge.update']), ('main', proof_main, ['picklemerge.main'])]
