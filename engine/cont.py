"""Containers with symbolic length, merging, and structural equality."""
import z3
from . import core
from .core import (SNum, SBool, SAtom, SText, Unsupported, PathEnd, ctx, zb, sreal, sint, mk, is_num, isint,
                   nonfinite, UNB)


class SubCtx(core.Ctx):
    """Exploration of a pure expression inside the current path."""
    def __init__(self, outer, prefix):
        self.outer = outer
        self.session = outer.session
        self.prefix = prefix
        self.taken = []
        self.pc = list(outer.pc)
        self.solver = outer.solver
        self.n = outer.n
        self.reductions = outer.reductions
        self.loop_versions = outer.loop_versions
        self.loop_count = 10 ** 6
        self.discover = outer.discover
        self.notes = outer.notes
        self.axioms_done = set(outer.axioms_done)
        self.witness = outer.witness
        self.conds = []
        self.facts = []
        self._deciding = False

    def assume(self, c):
        c = zb(c)
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)
        (self.conds if self._deciding else self.facts).append(c)

    def choose(self, conds):
        self._deciding = True
        try:
            return core.Ctx.choose(self, conds)
        finally:
            self._deciding = False


def merge_eval(fn, extra=()):
    """Value of fn() as one merged value over all its internal forks."""
    outer = ctx()
    work = [[]]
    res = []
    nmax = outer.n
    while work:
        p = work.pop()
        outer.solver.push()
        sub = SubCtx(outer, p)
        for e in extra:
            sub.solver.add(e)
            sub.pc.append(e)
        core.CTX = sub
        try:
            try:
                v = fn()
                res.append((z3.And(*sub.conds) if sub.conds else z3.BoolVal(True), v, list(sub.facts)))
            except PathEnd:
                pass
            except Exception as e:
                raise Unsupported('exception in a pure expression over symbolic data: %s: %s'
                                  % (type(e).__name__, e))
        finally:
            core.CTX = outer
            outer.solver.pop()
        nmax = max(nmax, sub.n)
        for i in range(len(p), len(sub.taken)):
            for alt in sub.taken[i][1]:
                work.append([(t[0], t[2]) for t in sub.taken[:i]] + [(alt, True)])
        if len(res) > 200:
            raise Unsupported('too many cases in a pure expression')
    outer.n = nmax
    if not res:
        raise PathEnd('infeasible')
    for cond, v, facts in res:
        for f in facts:
            outer.assume(z3.Implies(cond, f))
    val = res[-1][1]
    for cond, v, _ in reversed(res[:-1]):
        val = merge(cond, v, val)
    return val


def merge(c, a, b):
    """If(c, a, b) lifted to values."""
    if a is b:
        return a
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return SBool(z3.simplify(z3.If(c, zb(a), zb(b))))
    if is_num(a) and is_num(b):
        if nonfinite(a) or nonfinite(b):
            if nonfinite(a) and nonfinite(b) and a == b:
                return a
            raise Unsupported('merge of finite and infinite values')
        if isint(a) and isint(b):
            return mk(z3.If(c, sint(a), sint(b)), 'int')
        return mk(z3.If(c, sreal(a), sreal(b)), 'float')
    if isinstance(a, (str, SAtom)) and isinstance(b, (str, SAtom)):
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        t = lambda x: x.t if isinstance(x, SAtom) else z3.IntVal(core.atom_id(x))
        return SAtom(z3.simplify(z3.If(c, t(a), t(b))))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, VDict) and isinstance(b, VDict) and a.plain() and b.plain() \
            and list(a.d) == list(b.d):
        r = VDict()
        for k in a.d:
            r.d[k] = merge(c, a.d[k], b.d[k])
        return r
    if isinstance(a, VList) and isinstance(b, VList) and a.concrete and b.concrete:
        x, y = a.lit(), b.lit()
        if len(x) == len(y):
            return VList([merge(c, p, q) for p, q in zip(x, y)])
    if hasattr(a, '__vmerge__') and (type(a) is type(b) or is_num(b)):
        return a.__vmerge__(c, b)
    if hasattr(b, '__vmerge__') and is_num(a):
        return b.__vmerge__(z3.Not(c), a)
    try:
        if type(a) is type(b) and a == b:
            return a
    except Exception:
        pass
    raise Unsupported('cannot merge %r and %r' % (a, b))


def veq(a, b):
    """Structural equality as a z3 Bool (for use in obligations)."""
    if is_num(a) and is_num(b):
        if nonfinite(a) or nonfinite(b):
            return z3.BoolVal(bool(nonfinite(a) and nonfinite(b) and (a == b)))
        if isint(a) and isint(b):
            return sint(a) == sint(b)
        return sreal(a) == sreal(b)
    if isinstance(a, (SAtom, SText)) or isinstance(b, (SAtom, SText)):
        r = (a == b)
        return zb(r) if not isinstance(r, type(NotImplemented)) else z3.BoolVal(False)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And(*([veq(x, y) for x, y in zip(a, b)] + [z3.BoolVal(True)]))
    if isinstance(a, (VList, list)) and isinstance(b, (VList, list)):
        a, b = VList.of(a), VList.of(b)
        if a.concrete and b.concrete:
            x, y = a.lit(), b.lit()
            if len(x) != len(y):
                return z3.BoolVal(False)
            return z3.And(*([veq(p, q) for p, q in zip(x, y)] + [z3.BoolVal(True)]))
        i = ctx().fresh('idx')
        n, m = sint(a.vlen()), sint(b.vlen())
        ex = [i >= 0, i < n, i < m]
        av = merge_eval(lambda: a.at(SNum(i, 'int')), ex)
        bv = merge_eval(lambda: b.at(SNum(i, 'int')), ex)
        return z3.And(n == m, z3.Implies(z3.And(*ex), veq(av, bv)))
    if isinstance(a, VDict) and isinstance(b, VDict):
        if not (a.plain() and b.plain()) or set(a.d) != set(b.d):
            return z3.BoolVal(False)
        return z3.And(*([veq(a.d[k], b.d[k]) for k in a.d] + [z3.BoolVal(True)]))
    if hasattr(a, '__veq__'):
        return a.__veq__(b)
    return z3.BoolVal(bool(a == b))


# ---------------------------------------------------------------- lists
class Seg(object):
    """n elements: get(i) for 0 <= i < n; filtered by pred(i) if given."""
    __slots__ = ('n', 'get', 'pred')

    def __init__(self, n, get, pred=None):
        self.n, self.get, self.pred = n, get, pred


class VList(object):
    """List of literal runs (python lists) and symbolic segments."""
    __vlist__ = True

    def __init__(self, items=()):
        self.segs = [list(items)] if not isinstance(items, _Segs) else list(items.segs)

    @classmethod
    def of(cls, x):
        if isinstance(x, VList):
            return x
        if isinstance(x, VDict):
            return x.keys()
        if isinstance(x, (list, tuple)):
            return cls(x)
        if isinstance(x, VIter):
            return x.seq
        if hasattr(x, '__vseq__'):
            return x.__vseq__()
        return cls(list(x))

    @classmethod
    def sym(cls, n, get, pred=None):
        return cls(_Segs([Seg(n if z3.is_expr(n) else sint(n), get, pred)]))

    # -- structure
    @property
    def concrete(self):
        return all(isinstance(s, list) for s in self.segs)

    def lit(self):
        if not self.concrete:
            raise Unsupported('symbolic list used where a concrete one is needed')
        return [x for s in self.segs for x in s]

    def filtered(self):
        return any(isinstance(s, Seg) and s.pred is not None for s in self.segs)

    def vlen(self):
        n = 0
        for s in self.segs:
            if isinstance(s, list):
                n = n + len(s)
            elif s.pred is None or getattr(s.pred, 'unknown_items', False):
                n = n + SNum(s.n, 'int') if z3.is_expr(s.n) else n + s.n
            else:
                from . import reduce as red
                n = n + red.count(s)
        return n

    def at(self, i):
        """Element i (0 <= i < len must hold), forking over segments."""
        if isinstance(i, int) and self.concrete:
            return self.lit()[i]
        c = ctx()
        off = i
        for j, s in enumerate(self.segs):
            if isinstance(s, list):
                if isinstance(off, int):
                    if 0 <= off < len(s):
                        return s[off]
                    off = off - len(s)
                    continue
                for x in s:
                    if c.decide(sint(off) == 0):
                        return x
                    off = off - 1
            else:
                if s.pred is not None:
                    raise Unsupported('index into a filtered list')
                last = all(isinstance(q, list) and not q for q in self.segs[j + 1:])
                if last or c.decide(sint(off) < s.n):
                    return s.get(off if isinstance(off, SNum) else SNum(z3.IntVal(off), 'int'))
                off = off - SNum(s.n, 'int')
        raise IndexError('list index out of range')

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        n = self.vlen()
        if isinstance(i, SBool):
            i = i._num()
        if isinstance(i, int) and isinstance(n, int):
            return self.lit()[i]
        neg = (i < 0)
        if neg if isinstance(neg, bool) else bool(neg):
            i = n + i
            if bool(i < 0):
                raise IndexError('list index out of range')
        if bool(i >= n):
            raise IndexError('list index out of range')
        return self.at(i)

    def _slice(self, s):
        if self.concrete and all(x is None or isinstance(x, int) for x in (s.start, s.stop, s.step)):
            return VList(self.lit()[s])
        n = self.vlen()
        if s.step is not None and not (isinstance(s.step, int) and s.step == 1):
            if isinstance(s.step, int) and s.step == -1 and s.start is None and s.stop is None:
                return self.reversed()
            raise Unsupported('slice step')
        lo, hi = 0 if s.start is None else s.start, n if s.stop is None else s.stop

        def clamp(v):
            if bool(v < 0):
                v = v + n
                if bool(v < 0):
                    v = 0
            if bool(v > n):
                v = n
            return v
        lo, hi = clamp(lo), clamp(hi)
        if isinstance(lo, int) and lo == 0 and hi is n:
            return VList(_Segs([list(x) if isinstance(x, list) else x for x in self.segs]))
        ln = hi - lo
        if bool(ln <= 0):
            return VList()
        me = VList(_Segs([list(x) if isinstance(x, list) else x for x in self.segs]))
        return VList.sym(sint(ln), lambda i: me.at(i + lo))

    def reversed(self):
        if self.concrete:
            return VList(self.lit()[::-1])
        me = VList(_Segs([list(x) if isinstance(x, list) else x for x in self.segs]))
        n = self.vlen()
        return VList.sym(sint(n), lambda i: me.at(n - 1 - i))

    # -- mutation
    def append(self, x):
        if not self.segs or not isinstance(self.segs[-1], list):
            self.segs.append([])
        self.segs[-1] = self.segs[-1] + [x]
        self.segs = list(self.segs)

    def extend(self, o):
        self.segs = list(self.segs) + [list(s) if isinstance(s, list) else s for s in VList.of(o).segs]

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        if not isinstance(o, (VList, list)):
            return NotImplemented
        r = VList(_Segs([list(s) if isinstance(s, list) else s for s in self.segs]))
        r.extend(o)
        return r

    def __radd__(self, o):
        return VList(o) + self

    def __mul__(self, n):
        if isinstance(n, int):
            return VList(self.lit() * n)
        if self.concrete and len(self.lit()) == 1:
            x = self.lit()[0]
            if bool(n < 0):
                n = 0
            return VList.sym(sint(n), lambda i: x)
        raise Unsupported('list repetition')
    __rmul__ = __mul__

    def __setitem__(self, i, v):
        if self.concrete and isinstance(i, (int, slice)):
            l = self.lit()
            l[i] = list(v) if isinstance(i, slice) else v
            self.segs = [l]
            return
        if isinstance(i, slice):
            raise Unsupported('slice assignment')
        if self.concrete:
            l = self.lit()
            for j in range(len(l)):
                if bool(i == j):
                    l[j] = v
                    self.segs = [l]
                    return
            raise IndexError('list assignment index out of range')
        n = self.vlen()
        if bool(i < 0):
            i = i + n
        if bool(i < 0) or bool(i >= n):
            raise IndexError('list assignment index out of range')
        old = VList(_Segs(self.segs))
        if isinstance(i, int) and 0 <= i <= 3:
            self.segs = [[old.at(j) for j in range(i)] + [v], Seg(z3.simplify(sint(n) - (i + 1)), lambda j: old.at(j + (i + 1)))]
            return
        it = sint(i)
        self.segs = [Seg(sint(n), lambda j: merge(z3.simplify(sint(j) == it), v, old.at(j)))]

    def __delitem__(self, i):
        if self.concrete and isinstance(i, (int, slice)):
            l = self.lit()
            del l[i]
            self.segs = [l]
            return
        if isinstance(i, slice):
            raise Unsupported('slice deletion')
        n = self.vlen()
        if bool(i < 0):
            i = i + n
        if bool(i < 0) or bool(i >= n):
            raise IndexError('list assignment index out of range')
        old = VList(_Segs(self.segs))
        it = sint(i)
        self.segs = [Seg(sint(n - 1), lambda j: old.at(mk(z3.If(sint(j) < it, sint(j), sint(j) + 1), 'int')))]

    def insert(self, i, x):
        l = self.lit()
        l.insert(i, x)
        self.segs = [l]

    def pop(self, i=-1):
        x = self[i]
        del self[i]
        return x

    def remove(self, x):
        l = self.lit()
        for j, y in enumerate(l):
            if bool(y == x):
                del l[j]
                self.segs = [l]
                return
        raise ValueError('list.remove(x): x not in list')

    def sort(self, key=None, reverse=False):
        self.segs = [sorted(self.lit(), key=key, reverse=reverse)]

    def reverse(self):
        self.segs = [self.lit()[::-1]]

    def index(self, x):
        for j, y in enumerate(self.lit()):
            if bool(y == x):
                return j
        raise ValueError('not in list')

    def count(self, x):
        n = 0
        for y in self.lit():
            if bool(y == x):
                n += 1
        return n

    def copy(self):
        return self[:]

    def __iter__(self):
        return iter(self.lit())

    def __len__(self):
        return len(self.lit())

    def __bool__(self):
        if self.concrete:
            return bool(self.lit())
        return bool(self.vlen() > 0)

    def __contains__(self, x):
        if self.concrete:
            for y in self.lit():
                if y is x or bool(y == x):
                    return True
            return False
        from . import reduce as red
        return bool(red.vany(VList(_Segs([([y == x for y in s] if isinstance(s, list) else
                    Seg(s.n, (lambda g: lambda i: g(i) == x)(s.get), s.pred)) for s in self.segs]))))

    def __eq__(self, o):
        if not isinstance(o, (VList, list)):
            return False
        o = VList.of(o)
        if self.concrete and o.concrete:
            a, b = self.lit(), o.lit()
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if not bool(x == y):
                    return False
            return True
        raise Unsupported('equality of symbolic lists in code')

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __deepcopy__(self, memo):
        import copy
        return VList(_Segs([[copy.deepcopy(x, memo) for x in s] if isinstance(s, list) else
                            Seg(s.n, (lambda g: lambda i: copy.deepcopy(g(i)))(s.get), s.pred)
                            for s in self.segs]))

    def __copy__(self):
        return self[:]

    def __repr__(self):
        return 'VList(%s)' % ', '.join(repr(s) if isinstance(s, list) else 'sym[%s]' % s.n for s in self.segs)


class _Segs(object):
    def __init__(self, segs):
        self.segs = segs


class VIter(object):
    """Result of an iterator-producing builtin (zip, enumerate, generator expression...)."""
    def __init__(self, seq):
        self.seq = seq
        self.pos = 0

    def __iter__(self):
        return iter(self.seq)

    def __vnext__(self):
        n = self.seq.vlen()
        if bool(self.pos >= n) if not isinstance(self.pos >= n, bool) else self.pos >= n:
            raise StopIteration
        v = self.seq.at(self.pos)
        self.pos += 1
        return v

    def __next__(self):
        return self.__vnext__()


# ---------------------------------------------------------------- dicts
class TKey(object):
    """Key that is a tuple with symbolic components (compared one by one, never hashed)."""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __deepcopy__(self, memo):
        return self


def _plain_tuple(k):
    """Tuple displays of the code may be VLists: bring keys into native form."""
    if isinstance(k, (tuple, VList)):
        return tuple(_plain_tuple(x) for x in (k if isinstance(k, tuple) else k.lit()))
    return k


def _symk(k):
    return isinstance(k, (SNum, SAtom, SText))


def _unwrap(k):
    return k.k if isinstance(k, TKey) else k


class VDict(object):
    """Dict with concrete keys, optionally symbolic entries, and writes under symbolic (non-literal) keys."""
    __vdict__ = True

    def __init__(self, pairs=()):
        self.d = {}
        self.entries = None      # VList of (key, value) pairs, keys distinct
        self.overlay = []        # writes under symbolic keys, latest last; None entry = unknown writes
        for k, v in pairs:
            self[k] = v

    def plain(self):
        return self.entries is None and not self.overlay

    def _tuple_key(self, k):
        """(key as it is stored, is it present) for a tuple that has or may meet symbolic components."""
        from .instr import contains_sym
        k = _plain_tuple(k)
        sym = contains_sym(k)
        for kk in list(self.d):
            u = _unwrap(kk)
            if isinstance(u, tuple) and (sym or isinstance(kk, TKey)) and ctx().decide(veq(u, k)):
                return kk, True
        if sym:
            return TKey(k), False
        return k, k in self.d

    def __setitem__(self, k, v):
        if isinstance(k, (tuple, VList)) and self.entries is None:
            self.d[self._tuple_key(k)[0]] = v
            return
        if _symk(k):
            if isinstance(k, SAtom):
                if ctx().feasible(k.t < core.SYM_ATOM_BASE):
                    raise Unsupported('write under a symbolic key that may be a literal')
                self.overlay = self.overlay + [(k, v)]
                return
            for kk in list(self.d):
                if is_num(kk) and bool(k == kk):
                    self.d[kk] = v
                    return
            raise Unsupported('write under a symbolic key')
        if self.entries is not None:
            raise Unsupported('write into a symbolic dict')
        self.d[k] = v

    def lookup(self, k):
        """Value or None if absent, as a 1-tuple."""
        if isinstance(k, (tuple, VList)) and self.entries is None:
            k, there = self._tuple_key(k)
            return (self.d[k],) if there else None
        if _symk(k):
            if isinstance(k, SAtom):
                for kk, v in reversed(self.overlay):
                    if kk is None:
                        raise Unsupported('lookup behind unknown writes')
                    if bool(kk == k):
                        return (v,)
                for kk in self.d:
                    if isinstance(kk, str) and bool(k == kk):
                        return (self.d[kk],)
            elif isinstance(k, SNum):
                for kk in self.d:
                    if is_num(kk) and bool(k == kk):
                        return (self.d[kk],)
            else:
                raise Unsupported('lookup of %r' % (k,))
        else:
            try:
                if k in self.d:
                    return (self.d[k],)
            except TypeError as e:
                raise Unsupported('key %s' % e)
        if self.entries is not None:
            return self._lookup_entries(k)
        return None

    def _lookup_entries(self, k):
        raise Unsupported('lookup in a symbolic dict')

    def __getitem__(self, k):
        r = self.lookup(k)
        if r is None:
            raise KeyError(k)
        return r[0]

    def get(self, k, default=None):
        r = self.lookup(k)
        return default if r is None else r[0]

    def setdefault(self, k, default=None):
        r = self.lookup(k)
        if r is None:
            self[k] = default
            return default
        return r[0]

    def __contains__(self, k):
        return self.lookup(k) is not None

    def __delitem__(self, k):
        if not self.plain():
            raise Unsupported('delete in a symbolic dict')
        del self.d[k]

    def pop(self, k, *default):
        r = self.lookup(k)
        if r is None:
            if default:
                return default[0]
            raise KeyError(k)
        if isinstance(k, (tuple, VList)):
            k = self._tuple_key(k)[0]
        del self[k]
        return r[0]

    def update(self, *a, **kw):
        for o in a:
            if isinstance(o, VDict):
                if o.entries is not None:
                    raise Unsupported('update from a symbolic dict')
                for k, v in o.d.items():
                    self[_unwrap(k)] = v
                self.overlay = self.overlay + list(o.overlay)
            elif isinstance(o, dict):
                for k, v in o.items():
                    self[k] = v
            else:
                for k, v in VList.of(o).lit():
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def items(self):
        if self.entries is not None:
            if self.d or self.overlay:
                raise Unsupported('mixed dict')
            return self.entries
        r = [(_unwrap(k), v) for k, v in self.d.items()]
        for k, v in self.overlay:
            if not isinstance(k, SAtom):
                raise Unsupported('items() of a dict with symbolic keys')
            for n, (kk, _) in enumerate(r):
                if isinstance(kk, (str, SAtom)) and bool(k == kk):
                    r[n] = (kk, v)
                    break
            else:
                r.append((k, v))
        return VList(r)

    def keys(self):
        it = self.items()
        if it.concrete:
            return VList([k for k, _ in it.lit()])
        return VList(_Segs([[k for k, _ in s] if isinstance(s, list) else
                            Seg(s.n, (lambda g: lambda i: g(i)[0])(s.get), s.pred) for s in it.segs]))

    def values(self):
        it = self.items()
        if it.concrete:
            return VList([v for _, v in it.lit()])
        return VList(_Segs([[v for _, v in s] if isinstance(s, list) else
                            Seg(s.n, (lambda g: lambda i: g(i)[1])(s.get), s.pred) for s in it.segs]))

    def __iter__(self):
        return iter(self.keys().lit())

    def __len__(self):
        return len(self.items().lit())

    def __vseq__(self):
        return self.keys()

    def vlen(self):
        return self.items().vlen()

    def __bool__(self):
        if self.plain():
            return bool(self.d)
        return bool(self.items())

    def copy(self):
        import copy
        return copy.copy(self)

    def clear(self):
        self.d.clear()
        self.entries, self.overlay = None, []

    def __copy__(self):
        r = VDict()
        r.d = dict(self.d)
        r.entries, r.overlay = self.entries, list(self.overlay)
        return r

    def __deepcopy__(self, memo):
        import copy
        r = VDict()
        memo[id(self)] = r
        r.d = {k: copy.deepcopy(v, memo) for k, v in self.d.items()}
        r.entries = None if self.entries is None else copy.deepcopy(self.entries, memo)
        r.overlay = [(k, copy.deepcopy(v, memo)) for k, v in self.overlay]
        return r

    def __eq__(self, o):
        if not isinstance(o, (VDict, dict)):
            return False
        od = o.d if isinstance(o, VDict) else o
        if not self.plain() or (isinstance(o, VDict) and not o.plain()):
            raise Unsupported('equality of symbolic dicts')
        if any(isinstance(k, TKey) for k in list(self.d) + list(od)):
            raise Unsupported('equality of dicts with symbolic tuples as keys')
        if set(self.d) != set(od):
            return False
        return all(bool(self.d[k] == od[k]) for k in self.d)

    __hash__ = None

    def __repr__(self):
        return 'VDict(%r%s)' % (self.d, ', sym' if not self.plain() else '')


class SRec(object):
    """Read-only record of a symbolic sequence: concrete keys mapped to lazily computed values."""
    def __init__(self, fields, present=None):
        self.fields = fields        # key -> callable() or value
        self.present = present or {}  # key -> condition (SBool) that the key is present

    def __getitem__(self, k):
        if k not in self.fields:
            raise KeyError(k)
        if k in self.present and not bool(self.present[k]):
            raise KeyError(k)
        v = self.fields[k]
        return v() if callable(v) else v

    def get(self, k, default=None):
        try:
            return self[k]
        except KeyError:
            return default

    def __contains__(self, k):
        if k not in self.fields:
            return False
        return bool(self.present[k]) if k in self.present else True

    def __setitem__(self, k, v):
        raise Unsupported('write into the machine description')

    def __deepcopy__(self, memo):
        return self
