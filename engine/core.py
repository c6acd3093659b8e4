"""Path exploration and symbolic values (z3 terms) executed under CPython."""
import math
import time
from fractions import Fraction
import z3


class PathEnd(BaseException):
    """Path finished on purpose (infeasible, or arbitrary loop iteration completed)."""


class Unsupported(BaseException):
    """The code left the subset the engine can reason about: obligation undecided."""


class DropHint(BaseException):
    """A suggested loop invariant does not hold."""


class Restart(BaseException):
    pass


class Unbound(object):
    def __repr__(self):
        return '<UNBOUND>'


UNB = Unbound()
CTX = None  # current path context


def ctx():
    if CTX is None:
        raise Unsupported('symbolic value used outside of an exploration')
    return CTX


# ---------------------------------------------------------------- atoms (interned strings)
_ATOMS = {}
_ATOM_NAMES = []
SYM_ATOM_BASE = 10 ** 6  # symbolic atoms that must differ from all literals start here


def atom_id(s):
    if s not in _ATOMS:
        _ATOMS[s] = len(_ATOM_NAMES)
        _ATOM_NAMES.append(s)
    return _ATOMS[s]


class Ctx(object):
    def __init__(self, session, prefix):
        self.session = session
        self.prefix = prefix
        self.taken = []          # list of [choice, remaining alternatives]
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', session.feas_timeout)
        self.n = 0
        self.reductions = []
        self.loop_versions = ()
        self.loop_count = 0
        self.discover = None     # (key) of loop currently in discovery
        self.notes = []
        self.axioms_done = set()
        self.witness = {}        # name -> term, for countermodel replay

    # -- fresh names, deterministic along a path
    def fresh(self, base, sort='int'):
        self.n += 1
        name = '%s!%d' % (base, self.n)
        return {'int': z3.Int, 'real': z3.Real, 'bool': z3.Bool}[sort](name)

    def freshfun(self, base, *sorts):
        self.n += 1
        return z3.Function('%s!%d' % (base, self.n), *sorts)

    def assume(self, c):
        c = zb(c)
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)

    def feasible(self, c):
        t = time.time()
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        self.session.solver_s += time.time() - t
        self.session.queries += 1
        return r != z3.unsat

    def choose(self, conds):
        """Multi-way fork; conds: list of z3 Bools (exhaustive). Returns the index taken."""
        i = len(self.taken)
        if i < len(self.prefix):
            c, forked = self.prefix[i]
            self.taken.append([c, [], forked])
            self.assume(conds[c])
            return c
        feas = [j for j, c in enumerate(conds) if not z3.is_false(c) and self.feasible(c)]
        if not feas:
            raise PathEnd('infeasible')
        if len(self.taken) > self.session.max_depth:
            raise Unsupported('path too deep')
        self.taken.append([feas[0], feas[1:], len(feas) > 1])
        self.assume(conds[feas[0]])
        return feas[0]

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.choose([c, z3.Not(c)]) == 0

    def decisions(self):
        return [(t[0], t[2]) for t in self.taken]


def zb(c):
    if isinstance(c, SBool):
        return c.t
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if z3.is_bool(c):
        return c
    raise Unsupported('not a condition: %r' % (c,))


# ---------------------------------------------------------------- values
class SBool(object):
    __slots__ = ('t',)
    vkind = 'bool'

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().decide(self.t)

    def __invert__(self):
        return SBool(z3.Not(self.t))

    def __and__(self, o):
        return SBool(z3.And(self.t, zb(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.t, zb(o)))
    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return SBool(self.t == zb(o))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (SBool, bool)):
            return SBool(self.t != zb(o))
        return NotImplemented

    def __hash__(self):
        raise Unsupported('hash of symbolic bool')

    def __repr__(self):
        return '<%s>' % z3.simplify(self.t)

    def _num(self):
        return SNum(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)), 'int')

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__

    def __deepcopy__(self, memo):
        return self


def is_num(x):
    return isinstance(x, (int, float, SNum, Fraction)) or isinstance(x, SBool)


def sreal(x):
    """z3 Real term of a finite number."""
    if isinstance(x, SNum):
        return z3.ToReal(x.t) if x.t.sort() == z3.IntSort() else x.t
    if isinstance(x, SBool):
        return sreal(x._num())
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported('non-finite number in arithmetic')
        return z3.RealVal(Fraction(x))
    if hasattr(x, '__float__') and hasattr(x, 'bv'):
        return sreal(x.bv)
    try:
        import sympy
        if isinstance(x, sympy.Rational):
            return z3.RealVal(Fraction(int(x.p), int(x.q)))
    except ImportError:
        pass
    raise Unsupported('not a number: %r' % (x,))


def sint(x):
    if isinstance(x, SNum):
        if x.t.sort() != z3.IntSort():
            raise Unsupported('int expected')
        return x.t
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SBool):
        return x._num().t
    raise Unsupported('int expected, got %r' % (x,))


def isint(x):
    return (isinstance(x, SNum) and x.kind == 'int') or isinstance(x, int) or isinstance(x, SBool)


def nonfinite(x):
    return isinstance(x, float) and (math.isinf(x) or math.isnan(x))


def mk(t, kind=None):
    if kind is None:
        kind = 'int' if t.sort() == z3.IntSort() else 'float'
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long() if kind == 'int' else SNum(z3.ToReal(t), 'float')
    return SNum(t, kind)


def _foreign(o):
    return not (is_num(o) or _is_sympy_num(o))


def _is_sympy_num(o):
    return type(o).__module__.startswith('sympy') and getattr(o, 'is_Rational', False)


def floordiv_term(a, b):
    """Python floor division on z3 Ints (b != 0); z3 div is Euclidean."""
    if z3.is_int_value(b):
        if b.as_long() > 0:
            return a / b
        return (-a) / (-b)
    return z3.If(b > 0, a / b, (-a) / (-b))


class SNum(object):
    """Symbolic int (mathematical) or float (modelled as a real number)."""
    __slots__ = ('t', 'kind')

    def __init__(self, t, kind=None):
        self.t = t
        self.kind = kind or ('int' if t.sort() == z3.IntSort() else 'float')

    def __hash__(self):
        raise Unsupported('hash of symbolic number')

    def __repr__(self):
        return '<%s>' % z3.simplify(self.t)
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __bool__(self):
        return ctx().decide(self.t != 0)

    def _bin(self, o, fi, fr):
        if _foreign(o):
            return NotImplemented
        if isint(self) and isint(o):
            return mk(fi(self.t, sint(o)), 'int')
        return mk(fr(sreal(self), sreal(o)), 'float')

    def __add__(self, o):
        if nonfinite(o):
            return o
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        if nonfinite(o):
            return -o
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        if nonfinite(o):
            return o
        return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)

    def _shift(self, o):
        if not isint(self) or isinstance(o, bool) or not isinstance(o, int) or o < 0:
            raise Unsupported('shift by an unknown or negative count')
        return 1 << o

    def __rshift__(self, o):
        return mk(self.t / self._shift(o), 'int')

    def __lshift__(self, o):
        return mk(self.t * self._shift(o), 'int')

    def __and__(self, o):
        if not isint(self) or not isinstance(o, int):
            raise Unsupported('bitwise and')
        if o >= 0 and not o & (o + 1):
            return mk(self.t % (o + 1), 'int')              # 2**k - 1
        if o < 0 and not -o & (-o - 1):
            return mk(self.t / -o * -o, 'int')              # -2**k
        raise Unsupported('bitwise and')
    __rand__ = __and__

    def __mul__(self, o):
        if nonfinite(o):
            if o != o:
                return o
            c = ctx().choose([sreal(self) > 0, sreal(self) == 0, sreal(self) < 0])
            return [o, float('nan'), -o][c]
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if nonfinite(o):
            return o if o != o else 0.0
        if _foreign(o):
            return NotImplemented
        d = sreal(o)
        if ctx().decide(d == 0):
            raise ZeroDivisionError('division by zero')
        return mk(sreal(self) / d, 'float')

    def __rtruediv__(self, o):
        if _foreign(o):
            return NotImplemented
        if ctx().decide(sreal(self) == 0):
            raise ZeroDivisionError('division by zero')
        if nonfinite(o):
            return o if o != o or ctx().decide(sreal(self) > 0) else -o
        return mk(sreal(o) / sreal(self), 'float')

    def __floordiv__(self, o):
        if nonfinite(o):
            raise Unsupported('floordiv by non-finite')
        if _foreign(o):
            return NotImplemented
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        if _foreign(o):
            return NotImplemented
        return floordiv(o, self)

    def __mod__(self, o):
        if _foreign(o):
            return NotImplemented
        return self - floordiv(self, o) * o

    def __rmod__(self, o):
        if _foreign(o):
            return NotImplemented
        return o - floordiv(o, self) * self

    def __divmod__(self, o):
        return (self // o, self % o)

    def __neg__(self):
        return mk(-self.t, self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(z3.If(self.t >= 0, self.t, -self.t), self.kind)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported('power')

    def __rpow__(self, o):
        return spow(o, self)

    def _cmp(self, o, f, inf_pos, inf_neg, nan):
        if nonfinite(o):
            return nan if o != o else (inf_pos if o > 0 else inf_neg)
        if _foreign(o):
            return NotImplemented
        if isint(self) and isint(o):
            t = f(self.t, sint(o))
        else:
            t = f(sreal(self), sreal(o))
        return SBool(z3.simplify(t))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, True, False, False)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, True, False, False)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, False, True, False)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, False, True, False)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, False, False, False)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, True, True, True)

    # these must return native values: only reachable from un-instrumented code
    def __int__(self):
        raise Unsupported('native int() of symbolic number')

    def __float__(self):
        raise Unsupported('native float() of symbolic number')

    def __index__(self):
        raise Unsupported('symbolic number used as native index')

    def __round__(self, n=None):
        return vround(self, n)

    # sympy-like predicates used by the code on plain numbers
    @property
    def is_Integer(self):
        return self.kind == 'int'


def spow(base, exp):
    """base ** exp with a symbolic exponent: uninterpreted, positive for positive base."""
    c = ctx()
    f = c.session.func('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
    b, e = sreal(base), sreal(exp)
    r = f(b, e)
    c.assume(z3.Implies(b > 0, r > 0))
    for h in c.session.pow_hooks:
        h(c, b, e, r)
    return mk(r, 'float')


def floordiv(a, b):
    c = ctx()
    if isint(a) and isint(b):
        if c.decide(sint(b) == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        return mk(floordiv_term(sint(a), sint(b)), 'int')
    if c.decide(sreal(b) == 0):
        raise ZeroDivisionError('float floor division by zero')
    return mk(z3.ToReal(z3.ToInt(sreal(a) / sreal(b))), 'float')


def vround(x, n=None):
    """round(): modelled by its contract, |round(x, n) - x| <= 10**-n / 2, integral multiple."""
    if not isinstance(x, SNum):
        return round(x) if n is None else round(x, n)
    if x.kind == 'int' and (n is None or n >= 0):
        return x
    c = ctx()
    if n is None:
        v = sreal(x)
        fl = z3.ToInt(v)
        d = v - z3.ToReal(fl)
        half = z3.RealVal('1/2')
        return mk(z3.If(d < half, fl, z3.If(d > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1))), 'int')
    key = ('round', x.t.get_id(), n)
    scale = Fraction(1) if n is None else Fraction(10) ** -n
    f = c.session.func('round_%s' % n, z3.RealSort(), z3.IntSort())
    v = sreal(x)
    q = f(v)
    s = z3.RealVal(scale)
    if key not in c.axioms_done:
        c.axioms_done.add(key)
        c.assume(z3.And(z3.ToReal(q) * s - v <= s / 2, v - z3.ToReal(q) * s <= s / 2))
        c.assume(z3.Implies(z3.ToReal(z3.ToInt(v / s)) * s == v, z3.ToReal(q) * s == v))
    if n is None:
        return mk(q, 'int')
    return mk(z3.ToReal(q) * s, 'float')


def vtrunc(x):
    """int(x) on a real: truncation toward zero."""
    if isinstance(x, SNum):
        if x.kind == 'int':
            return x
        t = x.t
        return mk(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)), 'int')
    if isinstance(x, SBool):
        return x._num()
    return int(x)


class SAtom(object):
    """Opaque string known only up to equality (z3 Int; literals are interned)."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        raise Unsupported('hash of symbolic string')

    def __bool__(self):
        return ctx().decide(self.t != z3.IntVal(atom_id('')))

    def _term(self, o):
        if isinstance(o, SAtom):
            return o.t
        if isinstance(o, str):
            return z3.IntVal(atom_id(o))
        return None

    def __eq__(self, o):
        if isinstance(o, SText):
            return NotImplemented
        t = self._term(o)
        return False if t is None else SBool(z3.simplify(self.t == t))

    def __ne__(self, o):
        if isinstance(o, SText):
            return NotImplemented
        t = self._term(o)
        return True if t is None else SBool(z3.simplify(self.t != t))

    def __add__(self, o):
        return SText([self]) + o

    def __radd__(self, o):
        return SText([o]) + self

    def __repr__(self):
        return '<atom %s>' % z3.simplify(self.t)
    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def __deepcopy__(self, memo):
        return self


class SText(object):
    """Concatenation of literal and opaque strings."""
    def __init__(self, parts):
        self.parts = []
        for p in parts:
            if isinstance(p, SText):
                self.parts += p.parts
            elif isinstance(p, str) and self.parts and isinstance(self.parts[-1], str):
                self.parts[-1] += p
            elif p != '' if isinstance(p, str) else True:
                self.parts.append(p)

    def __add__(self, o):
        return SText([self, o])

    def __radd__(self, o):
        return SText([o, self])

    def __eq__(self, o):
        if isinstance(o, (str, SAtom)):
            o = SText([o])
        if not isinstance(o, SText):
            return False
        if len(o.parts) != len(self.parts):
            raise Unsupported('comparison of structurally different texts')
        c = [zb(a == b) for a, b in zip(self.parts, o.parts)]
        return SBool(z3.And(*c)) if c else True

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        raise Unsupported('hash of symbolic text')

    def __repr__(self):
        return '+'.join(map(repr, self.parts))

    def __deepcopy__(self, memo):
        return self


# ---------------------------------------------------------------- session
class Obligation(object):
    def __init__(self, name, status, detail=None, secs=0.0):
        self.name, self.status, self.detail, self.secs = name, status, detail, secs


def linear_abstraction(fs):
    """Formulas with every nonlinear term generalised to a variable (unsat carries over to the originals)."""
    fs = [z3.simplify(f) for f in fs]
    table, seen, todo = {}, set(), list(fs)
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            return None
        if not z3.is_app(t):
            return None
        k = t.decl().kind()
        if k == z3.Z3_OP_MUL:
            non = [a for a in t.children() if not (z3.is_rational_value(a) or z3.is_int_value(a))]
            if len(non) > 1:
                table[i] = (t, z3.FreshConst(t.sort()))
        elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER):
            a = t.arg(1)
            if not (z3.is_rational_value(a) or z3.is_int_value(a)):
                table[i] = (t, z3.FreshConst(t.sort()))
        todo.extend(t.children())
    if not table:
        return None
    return [z3.substitute(f, *table.values()) for f in fs]


DEFS = {}                    # id -> instance of a definition (see Session.define)


class Session(object):
    """All obligations of one contracted function."""

    def __init__(self, name, max_paths=3000, feas_timeout=2000, prove_timeout=20000, max_depth=400,
                 budget_s=200):
        self.name = name
        self.obligations = []
        self.max_paths = max_paths
        self.feas_timeout = feas_timeout
        self.prove_timeout = prove_timeout
        self.max_depth = max_depth
        self.funcs = {}
        self.pow_hooks = []
        self.loops = {}
        self.inprogress = {}
        self.cutkeys = set()
        self.templates = []
        self.example = []        # restriction under which a model of the path is easy to find
        self.closed_hints = []     # invariants supplied by the contract: (loop, slot, leaf, kind) -> function of k
        self.flags = False
        self.dropped = set()       # suggested invariants found not to hold
        self.cut_hints = []
        self.thunk = None
        self.label = name
        self.solver_s = 0.0
        self.queries = 0
        self.paths = 0
        self.reached = {}
        self.deadline = time.time() + budget_s
        self.errors = []
        self.depth = 0
        self.covers = {}

    def func(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self.funcs:
            self.funcs[k] = z3.Function(name, *sorts)
        return self.funcs[k]

    # ---- symbolic inputs
    def int(self, name):
        c = ctx()
        t = z3.Int(name)
        c.witness[name] = t
        return SNum(t, 'int')

    def real(self, name):
        c = ctx()
        t = z3.Real(name)
        c.witness[name] = t
        return SNum(t, 'float')

    def bool(self, name):
        t = z3.Bool(name)
        ctx().witness[name] = t
        return SBool(t)

    def atom(self, name, fresh_from_literals=False):
        t = z3.Int('atom_' + name)
        a = SAtom(t)
        if fresh_from_literals:
            ctx().assume(t >= SYM_ATOM_BASE)
        return a

    def assume(self, c):
        ctx().assume(zb(c))

    def define(self, c):
        """Assume an instance of a definition: true for every argument, so no condition of the path it is met on."""
        c = zb(c)
        DEFS[c.get_id()] = c
        ctx().assume(c)

    def pick(self, options):
        """Nondeterministic choice between concrete alternatives (forks)."""
        i = ctx().fresh('pick')
        k = ctx().choose([i == j for j in range(len(options))])
        return options[k]

    # ---- obligations
    def check(self, name, cond, extra=()):
        c = ctx()
        if c.discover is not None:
            return
        cond = zb(cond)
        t0 = time.time()
        ext = []
        from . import reduce as _red
        s = z3.Solver()
        s.set('timeout', self.prove_timeout)
        s.add(*c.pc)
        s.add(*[zb(e) for e in extra])
        neg = z3.Not(cond)
        r = None
        lin = linear_abstraction(list(c.pc) + [zb(e) for e in extra] + [neg])
        if lin is not None:
            s0 = z3.Solver()
            s0.set('timeout', min(3000, self.prove_timeout))
            s0.add(*lin)
            r = s0.check()
        if r != z3.unsat:
            r = s.check(neg)
        if r != z3.unsat and c.reductions:
            ext = _red.congruences(c, s)
            s.add(*ext)
            r = s.check(neg)
        if r == z3.unknown:
            s2 = z3.SolverFor('QF_UFNRA') if False else z3.Tactic('smt').solver()
            s2.set('timeout', self.prove_timeout)
            s2.add(*c.pc)
            s2.add(*[zb(e) for e in extra])
            s2.add(*ext)
            r = s2.check(neg)
            s = s2
        dt = time.time() - t0
        self.solver_s += dt
        self.queries += 1
        if r == z3.unsat:
            self.obligations.append(Obligation(name, 'proved', None, dt))
        elif r == z3.sat:
            m = s.model()
            d = {}
            for k, t in c.witness.items():
                d[k] = str(m.eval(t, model_completion=True))
            self.obligations.append(Obligation(name, 'failed', {'model': d, 'path': c.decisions(),
                                                                'goal': str(z3.simplify(cond))[:400]}, dt))
        else:
            self.obligations.append(Obligation(name, 'unknown', {'reason': s.reason_unknown(),
                                                                 'goal': str(z3.simplify(cond))[:400]}, dt))
        self.covers[name] = True

    def lemma(self, name, cond, using=None):
        """Obligation that may be used afterwards on this path; with `using`, derived from those facts alone
        (each of them an obligation, too), with maximal uninterpreted terms generalised to variables."""
        c = ctx()
        cond = zb(cond)
        if c.discover is not None:
            c.assume(cond)
            return
        if using is None:
            self.check(name, cond)
        else:
            hyps = [zb(h) for h in using]
            for h in hyps:
                self.check('%s: premise' % name, h)
            fs = [z3.simplify(f) for f in hyps + [cond]]
            abst, seen, todo = [], set(), list(fs)
            while todo:
                t = todo.pop()
                if t.get_id() in seen or not z3.is_app(t):
                    continue
                seen.add(t.get_id())
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
                    abst.append((t, z3.FreshConst(t.sort())))
                else:
                    todo.extend(t.children())
            fs = [z3.substitute(f, *abst) if abst else f for f in fs]
            t0 = time.time()
            for mk_solver in (lambda: z3.Solver(), lambda: z3.Tactic('qfnra-nlsat').solver()):
                s = mk_solver()
                s.set('timeout', self.prove_timeout)
                s.add(*fs[:-1])
                r = s.check(z3.Not(fs[-1]))
                if r != z3.unknown:
                    break
            dt = time.time() - t0
            self.solver_s += dt
            self.queries += 1
            self.covers[name] = True
            self.obligations.append(Obligation(name, {'unsat': 'proved', 'sat': 'failed'}.get(str(r), 'unknown'),
                                               None if r == z3.unsat else {'goal': str(z3.simplify(cond))[:400],
                                                                           'path': c.decisions()}, dt))
        c.assume(cond)

    def fail(self, name, detail=''):
        """Reached a point that must be unreachable."""
        if ctx().discover is not None:
            return
        self.check(name, z3.BoolVal(False))
        if detail and self.obligations and self.obligations[-1].status != 'proved':
            (self.obligations[-1].detail or {}).update(info=detail)

    def note_reach(self, name):
        self.reached[name] = self.reached.get(name, 0) + 1

    # ---- exploration
    def explore(self, thunk, prefix=(), setup=None, on_end=None):
        global CTX
        work = [list(prefix)]
        base = len(prefix)
        outcomes = []
        while work:
            if time.time() > self.deadline:
                raise Unsupported('time budget exhausted')
            p = work.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported('too many paths')
            saved = CTX
            c = Ctx(self, p)
            if setup:
                setup(c)
            CTX = c
            try:
                try:
                    r = ('return', thunk(self))
                except Restart:
                    work.append(p)
                    continue
                except PathEnd as e:
                    r = ('end', e)
                except NameError as e:
                    raise Unsupported('read of a variable the loop rule left unbound: %s' % e)
                except RecursionError as e:
                    raise Unsupported('recursion: %s' % e)
                except Exception as e:
                    r = ('raise', e)
                if on_end:
                    on_end(c, r)
                outcomes.append((c, r))
            finally:
                CTX = saved
            for i in range(max(base, len(p)), len(c.taken)):
                for alt in c.taken[i][1]:
                    work.append([(t[0], t[2]) for t in c.taken[:i]] + [(alt, True)])
        return outcomes

    def run(self, thunk, label=None):
        """Verify one contract: thunk(S) builds the pre-state, calls the function, states the post."""
        label = label or getattr(thunk, '__name__', 'contract')
        n_end = [0]

        def on_end(c, r):
            if r[0] == 'raise':
                import traceback
                tb = traceback.extract_tb(r[1].__traceback__)
                where = '; '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in tb[-3:])
                self.fail('%s: no exception escapes' % label,
                          '%s: %s at %s' % (type(r[1]).__name__, r[1], where))
            elif r[0] == 'return':
                # vacuity guard: the completed path must be satisfiable
                if n_end[0] < 3:
                    r = c.solver.check()
                    if r == z3.unknown and self.example:
                        s = z3.Solver()
                        s.set('timeout', 5000)
                        s.add(*c.pc)
                        s.add(*[zb(e) for e in self.example])
                        r = s.check()
                    if r == z3.sat:
                        n_end[0] += 1
        before = len(self.obligations)
        self.thunk, self.label = thunk, label
        self.dropped = set()
        try:
            while True:
                self.loops, self.inprogress, self.cutkeys = {}, {}, set()
                try:
                    self.explore(thunk, on_end=on_end)
                    break
                except DropHint as e:
                    self.dropped.add(e.args[0])
                    del self.obligations[before:]
                    n_end[0] = 0
        except Unsupported as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            where = '; '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in tb[-4:])
            self.obligations.append(Obligation(label, 'unsupported', {'reason': str(e), 'where': where}))
            return False
        except z3.Z3Exception as e:
            self.obligations.append(Obligation(label, 'unsupported', {'reason': 'z3: %s' % e}))
            return False
        new = self.obligations[before:]
        if not any(o.status == 'proved' for o in new):
            self.obligations.append(Obligation(label, 'vacuous', {'reason': 'no obligation generated'}))
            return False
        if n_end[0] == 0:
            self.obligations.append(Obligation(label, 'vacuous', {'reason': 'no feasible completed path'}))
            return False
        return all(o.status == 'proved' for o in new)
