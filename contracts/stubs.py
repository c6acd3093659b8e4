"""Contracts standing in for callees while a caller is proved (each is proved or checked under its own property)."""
import math
import z3


def bi(m, name):
    return m.__dict__['__builtins__'][name]


def num(x):
    """Base value of a number or quantity, as the language's float() would give."""
    return x.bv if isinstance(x, Q) else x


def finite(x):
    return not (isinstance(x, float) and (math.isinf(x) or math.isnan(x)))


def is_inf(x):
    return isinstance(x, float) and math.isinf(x)


class Q(object):
    """Contract of PrefixedUnit (C01): a base value and a unit; immutable apart from the unit attribute."""
    __slots__ = ('bv', 'unit')
    SCALE = {'': 1.0, 'k': 1e3, 'M': 1e6, 'G': 1e9, 'T': 1e12, 'P': 1e15, 'E': 1e18, 'Z': 1e21, 'Y': 1e24}

    def __init__(self, *args):
        if len(args) == 1 and isinstance(args[0], str):
            v, _, u = args[0].partition(' ')
            args = [float(v), u]
        if len(args) == 1:
            args = [args[0], '', '']
        v = num(args[0])
        if len(args) == 2:
            u = args[1]
            assert u, 'Could not parse unit parameter'
            p = u[0] if isinstance(u, str) and u[0] in 'kMGTP' and len(u) > 1 else ''
            v, u = v * self.SCALE[p], u[len(p):] if p else u
        else:
            v, u = v * self.SCALE[args[1] or ''], args[2]
        object.__setattr__(self, 'bv', v)
        object.__setattr__(self, 'unit', u)

    @classmethod
    def of(cls, bv, unit):
        r = object.__new__(cls)
        r.bv, r.unit = bv, unit
        return r

    def base_value(self):
        return self.bv

    def __float__(self):
        return self.bv

    def __vfloat__(self):
        from engine.core import SNum, sreal
        return SNum(sreal(self.bv), 'float') if isinstance(self.bv, SNum) else float(self.bv)

    def __vint__(self):
        from engine import core
        return core.vtrunc(self.bv) if isinstance(self.bv, core.SNum) else int(self.bv)

    def _join(self, o, sep):
        return self.unit + sep + o.unit if isinstance(o, Q) else self.unit

    def _same(self, o):
        if isinstance(o, Q) and not (self.unit == o.unit):
            raise ValueError('Units need to match.')
        return self.unit

    def __mul__(self, o):
        return type(self).of(self.bv * num(o), self._join(o, ''))

    def __truediv__(self, o):
        return type(self).of(self.bv / num(o), self._join(o, '/'))

    def __floordiv__(self, o):
        return type(self).of(self.bv // num(o), self._join(o, '/'))

    def __add__(self, o):
        u = self._same(o)
        return type(self).of(self.bv + num(o), u)

    def __sub__(self, o):
        u = self._same(o)
        return type(self).of(self.bv - num(o), u)

    def __mod__(self, o):
        u = self._same(o)
        return type(self).of(self.bv % num(o), u)

    def __abs__(self):
        return type(self).of(abs(self.bv), self.unit)

    def __lt__(self, o):
        return self.bv < num(o)

    def __le__(self, o):
        return self.bv <= num(o)

    def __gt__(self, o):
        return self.bv > num(o)

    def __ge__(self, o):
        return self.bv >= num(o)

    def __eq__(self, o):
        return self.bv == num(o)

    def __ne__(self, o):
        return self.bv != num(o)

    __hash__ = None

    # engine protocol: value object
    def __vflat__(self):
        return ('unit', self.unit if isinstance(self.unit, str) else None), [self.bv] + (
            [] if isinstance(self.unit, str) else [self.unit])

    @classmethod
    def __vunflat__(cls, sk, leaves):
        return cls.of(leaves[0], sk[1] if sk[1] is not None else leaves[1])

    def __vleaves__(self):
        return [self.bv, self.unit] if not isinstance(self.unit, str) else [self.bv]

    def __vsubst__(self, pairs):
        from engine.loops import vsubst
        return type(self).of(vsubst(self.bv, pairs), vsubst(self.unit, pairs))

    def __vsame__(self, o):
        from engine.loops import same
        return same(self.bv, o.bv) and same(self.unit, o.unit)

    def __vmerge__(self, c, o):
        from engine.cont import merge
        return type(self).of(merge(c, self.bv, o.bv), merge(c, self.unit, o.unit))

    def __veq__(self, o):
        import z3
        from engine.cont import veq
        return z3.And(veq(self.bv, o.bv), veq(self.unit, o.unit)) if isinstance(o, Q) else z3.BoolVal(False)

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return 'Q(%r, %r)' % (self.bv, self.unit)


class Bag(object):
    """Mapping seen only through its values (any number of them)."""
    def __init__(self, seq):
        self.seq = seq

    def values(self):
        return self.seq


class Plain(object):
    """Stand-in object: attributes from keyword arguments."""
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Rec(object):
    """Machine description or results: fixed keys, anything else is an error."""
    def __init__(self, **kw):
        self.d = {k.replace('_', ' '): v for k, v in kw.items()}

    def __getitem__(self, k):
        return self.d[k]


def flops_seq(S):
    from engine.cont import VList
    from engine.core import SNum, sint
    f = S.func('flops', z3.IntSort(), z3.IntSort())
    n = S.int('n_flops')
    S.assume(n >= 0)
    i = z3.Int('fi')
    from engine.core import ctx
    ctx().assume(z3.ForAll([i], f(i) >= 0))
    return VList.sym(n, lambda j: SNum(f(sint(j)), 'int'))


def pos_real(S, name):
    v = S.real(name)
    S.assume(v > 0)
    return v


def pos_int(S, name):
    v = S.int(name)
    S.assume(v > 0)
    return v


class Ext(object):
    """Extended real as IEEE floats order them: kind 0 finite (value v), 1 plus infinity, -1 minus infinity, 2 NaN."""
    def __init__(self, v, kind=0):
        self.v, self.kind = v, kind

    @staticmethod
    def of(x):
        return x if isinstance(x, Ext) else Ext(x)

    def is_kind(self, k):
        from engine.core import sint
        return z3.BoolVal(self.kind == k) if isinstance(self.kind, int) else sint(self.kind) == k

    def _arith(self, o, f, name):
        from engine.core import Unsupported
        o = Ext.of(o)
        if self.kind == 0 and o.kind == 0 and isinstance(self.kind, int) and isinstance(o.kind, int):
            return Ext(f(self.v, o.v))
        raise Unsupported('%s of infinities' % name)

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b, 'sum')

    def __radd__(self, o):
        return Ext.of(o) + self

    def __mul__(self, o):
        if isinstance(o, (int, float)) and 0 < o < math.inf:
            return Ext(self.v * o, self.kind)
        return self._arith(o, lambda a, b: a * b, 'product')

    def __rmul__(self, o):
        return Ext.of(o) * self

    def __truediv__(self, o):
        return self._arith(o, lambda a, b: a / b, 'quotient')

    def __rtruediv__(self, o):
        return Ext.of(o) / self

    def __sub__(self, o):
        from engine.core import sint, sreal, mk
        o = Ext.of(o)
        if isinstance(self.kind, int) and isinstance(o.kind, int) and self.kind == o.kind == 0:
            return Ext(self.v - o.v)
        a, b = [z3.IntVal(x.kind) if isinstance(x.kind, int) else sint(x.kind) for x in (self, o)]
        k = z3.If(z3.Or(a == 2, b == 2), 2, z3.If(a == 0, -b, z3.If(b == 0, a, z3.If(a == b, 2, a))))
        return Ext(self.v - o.v, mk(z3.simplify(k), 'int'))

    def __rsub__(self, o):
        return Ext.of(o) - self

    def __abs__(self):
        from engine.core import sint, mk, sreal
        v = abs(self.v) if not hasattr(self.v, 't') else mk(z3.If(sreal(self.v) >= 0, sreal(self.v), -sreal(self.v)), 'float')
        if isinstance(self.kind, int):
            return Ext(v, abs(self.kind))
        k = sint(self.kind)
        return Ext(v, mk(z3.simplify(z3.If(k == -1, z3.IntVal(1), k)), 'int'))

    def _lt(self, o):
        from engine.core import sreal, SBool
        o = Ext.of(o)
        fin = z3.And(self.is_kind(0), o.is_kind(0), sreal(self.v) < sreal(o.v))
        return z3.simplify(z3.Or(fin, z3.And(self.is_kind(0), o.is_kind(1)),
                                 z3.And(self.is_kind(-1), z3.Or(o.is_kind(0), o.is_kind(1)))))

    def _le(self, o):
        from engine.core import sreal
        o = Ext.of(o)
        fin = z3.And(self.is_kind(0), o.is_kind(0), sreal(self.v) <= sreal(o.v))
        return z3.simplify(z3.Or(fin, z3.And(self.is_kind(1), o.is_kind(1)), z3.And(self.is_kind(0), o.is_kind(1)),
                                 z3.And(self.is_kind(-1), z3.Not(o.is_kind(2)))))

    def __lt__(self, o):
        from engine.core import SBool
        return SBool(self._lt(o))

    def __le__(self, o):
        from engine.core import SBool
        return SBool(self._le(o))

    def __gt__(self, o):
        return Ext.of(o) < self

    def __ge__(self, o):
        return Ext.of(o) <= self

    def _eq(self, o):
        from engine.core import sreal
        o = Ext.of(o)
        return z3.simplify(z3.Or(z3.And(self.is_kind(0), o.is_kind(0), sreal(self.v) == sreal(o.v)),
                                 z3.And(self.is_kind(1), o.is_kind(1)), z3.And(self.is_kind(-1), o.is_kind(-1))))

    def __eq__(self, o):
        from engine.core import SBool
        return SBool(self._eq(o))

    def __veq__(self, o):
        return self._eq(o)

    def __ne__(self, o):
        from engine.core import SBool
        return SBool(z3.Not(self._eq(o)))

    __hash__ = None

    def __vfloat__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __vflat__(self):
        return 'Ext', [self.v, self.kind]

    @classmethod
    def __vunflat__(cls, sk, leaves):
        return cls(*leaves)

    def __vleaves__(self):
        return [self.v, self.kind]

    def __vsubst__(self, pairs):
        from engine.loops import vsubst
        return Ext(vsubst(self.v, pairs), vsubst(self.kind, pairs))

    def __vsame__(self, o):
        from engine.loops import same
        return same(self.v, o.v) and same(self.kind, o.kind)

    def __vmerge__(self, c, o):
        from engine.cont import merge
        o = Ext.of(o)
        return Ext(merge(c, self.v, o.v), merge(c, self.kind, o.kind))

    def __repr__(self):
        return 'Ext(%r, %r)' % (self.v, self.kind)


INF = Ext(0.0, 1)


def float_with_inf(m, inf=INF):
    """float of the shadow module, with float('inf') as an extended number."""
    fl = bi(m, 'float')

    class Float(object):
        def __call__(self, *a):
            if a and isinstance(a[0], str) and a[0] in ('inf', '+inf', 'Inf', 'infinity'):
                return inf
            if a and isinstance(a[0], Ext):
                return a[0]
            return fl(*a)

        def __getattr__(self, k):
            return getattr(fl, k)
    m.__dict__['__builtins__']['float'] = Float()


class QX(Q):
    """A quantity whose value may be infinite."""
    __slots__ = ()

    def __init__(self, *a):
        Q.__init__(self, *a)
        object.__setattr__(self, 'bv', Ext.of(self.bv))

    def __vfloat__(self):
        return self.bv if not (isinstance(self.bv.kind, int) and self.bv.kind == 0) else self.bv.v


class Perf(object):
    """Result of conv_perf: the performance in It/s; the other units follow from it (C15)."""
    def __init__(self, x):
        self.x = Ext.of(x.bv if isinstance(x, Q) else x)

    def __getitem__(self, k):
        assert k == 'It/s'
        return QX.of(self.x, 'It/s')

    def __vflat__(self):
        return 'Perf', [self.x]

    @classmethod
    def __vunflat__(cls, sk, leaves):
        return cls(*leaves)

    def __vleaves__(self):
        return [self.x]

    def __vsubst__(self, pairs):
        return Perf(self.x.__vsubst__(pairs))

    def __vsame__(self, o):
        return self.x.__vsame__(o.x)

    def __veq__(self, o):
        return self.x._eq(o.x) if isinstance(o, Perf) else z3.BoolVal(False)

    def __vmerge__(self, c, o):
        return Perf(self.x.__vmerge__(c, o.x))

    def __deepcopy__(self, memo):
        return self


class Ex(object):
    """Expression over loop counters, known by its value for every assignment of the counters."""
    __shadow__ = True

    def __init__(self, f, syms=()):
        self.f, self.syms = f, frozenset(syms)

    @staticmethod
    def of(x):
        return x if isinstance(x, Ex) else Ex(lambda env: x)

    def _op(self, o, f):
        o = Ex.of(o)
        return Ex(lambda env: f(self.f(env), o.f(env)), self.syms | o.syms)

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)

    def __radd__(self, o):
        return Ex.of(o)._op(self, lambda a, b: a + b)

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return Ex.of(o)._op(self, lambda a, b: a - b)

    def __mul__(self, o):
        return self._op(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return Ex.of(o)._op(self, lambda a, b: a * b)

    def __neg__(self):
        return Ex.of(0) - self

    def map(self, f, *o):
        o = [Ex.of(x) for x in o]
        return Ex(lambda env: f(self.f(env), *[x.f(env) for x in o]), self.syms.union(*[x.syms for x in o]))

    @property
    def free_symbols(self):
        return set(self.syms)

    def subs(self, assignment):
        env = {k: v for k, v in assignment.items()}
        left = [s for s in self.syms if s not in env]
        if left:
            raise ValueError('%r remain' % [s.name for s in left])
        return self.f(env)


class Counter(Ex):
    """Loop counter."""
    def __init__(self, name):
        self.name = name
        Ex.__init__(self, lambda env: env[self], [self])

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __str__(self):
        return self.name
