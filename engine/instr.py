"""Mechanical extraction: the real module source, transformed node by node, executed as a shadow module.

What the transformation changes (and nothing else):
  - builtins that inspect or build containers and numbers are replaced by versions that accept symbolic values;
  - list/dict displays and comprehensions build VList/VDict;
  - every loop head calls the loop rule (native iteration for concrete sequences);
  - str.format / '%' on symbolic values give an opaque text; print() has no effect;
  - bare 'except:' becomes 'except Exception:' (the engine's control exceptions pass).
"""
import ast
import builtins
import math
import os
import sys
import types
import z3
from . import core, cont, reduce as red
from .core import SNum, SBool, SAtom, SText, Unsupported, PathEnd, ctx, UNB, is_num, mk, sint, sreal
from .cont import VList, VDict, VIter, Seg, SRec, merge_eval, _Segs
from . import loops

REPO = os.environ.get('KC_REPO', '/repo')


# ------------------------------------------------------------------ runtime helpers used by generated code
def is_sym(x):
    return isinstance(x, (SNum, SBool, SAtom, SText))


class Opaque(object):
    """Text whose content is not modelled."""
    n = 0

    def __init__(self):
        Opaque.n += 1

    def __eq__(self, o):
        if self is not o:
            raise Unsupported('comparison of unknown texts')
        return True

    __hash__ = object.__hash__


def as_text(v):
    """str() of a value, unknown where it depends on more than symbolic strings."""
    if isinstance(v, (SAtom, SText)):
        return v
    return SText([Opaque()]) if contains_sym(v) else str(_native(v))


def text(parts):
    parts = [p for p in parts if not (isinstance(p, str) and p == '')]
    if not parts:
        return ''
    if len(parts) == 1:
        return parts[0]
    t = SText(parts)
    return t.parts[0] if len(t.parts) == 1 and isinstance(t.parts[0], str) else t


def fmt_text(s, args, kw):
    import string
    r, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        r.append(lit)
        if field is None:
            continue
        if spec or conv not in (None, 's'):
            return SText([Opaque()])
        if field == '':
            v, auto = args[auto], auto + 1
        elif field.isdigit():
            v = args[int(field)]
        elif field.isidentifier():
            v = kw[field]
        else:
            return SText([Opaque()])
        r.append(as_text(v))
    return text(r)


class RT(object):
    forloop = staticmethod(lambda *a: loops.ForLoop(*a))
    whileloop = staticmethod(lambda *a: loops.WhileLoop(*a))

    @staticmethod
    def lst(items):
        return VList(items)

    @staticmethod
    def dct(pairs):
        r = VDict()
        for k, v in pairs:
            if k is RT:
                r.update(v)
            else:
                r[k] = v
        return r

    @staticmethod
    def unpack(v, n):
        if isinstance(v, (tuple, list)):
            t = tuple(v)
        elif isinstance(v, str):
            t = tuple(v)
        else:
            t = tuple(VList.of(v).lit())
        if len(t) != n:
            raise ValueError('unpack: expected %d, got %d' % (n, len(t)))
        return t

    @staticmethod
    def comp(kind, seq, cond, elt):
        """Comprehension with one generator."""
        s = loops.as_seq(seq)
        if s is None:         # native concrete iterable
            vals = [elt(x) for x in seq if cond is None or cond(x)]
        elif s.concrete:
            vals = [elt(x) for x in list(s.lit()) if cond is None or cond(x)]
        else:
            r = sym_comp(s, cond, elt)
            if kind == 'dict':
                d = VDict()
                d.entries = r
                return d
            if kind == 'set':
                raise Unsupported('set comprehension over a symbolic sequence')
            return r if kind == 'list' else VIter(r)
        if kind == 'list':
            return VList(vals)
        if kind == 'dict':
            return VDict(vals)
        if kind == 'set':
            return set(vals)
        return VIter(VList(vals))

    @staticmethod
    def flat(seq, cond, sub):
        """Comprehension with several generators: concatenation of the inner lists."""
        s = loops.as_seq(seq)
        items = seq if s is None else s.lit()
        out = VList()
        for x in items:
            if cond is None or cond(x):
                out.extend(VList.of(sub(x)))
        return out

    @staticmethod
    def wrap(kind, l):
        if kind == 'list':
            return l
        if kind == 'dict':
            return VDict(l.lit())
        if kind == 'set':
            return set(l.lit())
        return VIter(l)

    @staticmethod
    def fmt(s, *args, **kw):
        if isinstance(s, str):
            if any(contains_sym(a) for a in args) or any(contains_sym(a) for a in kw.values()):
                return fmt_text(s, args, kw)
            return s.format(*[_native(a) for a in args], **{k: _native(v) for k, v in kw.items()})
        if isinstance(s, SText):
            return SText([Opaque()])
        return s.format(*args, **kw)

    @staticmethod
    def mod(a, b):
        if isinstance(a, str):
            if contains_sym(b):
                return SText([Opaque()])
            return a % b
        return a % b

    @staticmethod
    def fstr(parts):
        if any(contains_sym(p) for p in parts):
            return text(parts)
        return ''.join(parts)

    @staticmethod
    def fval(v, conv, spec):
        if contains_sym(v):
            return as_text(v) if not spec and conv in (-1, 115) else SText([Opaque()])
        if conv == 114:
            v = repr(v)
        elif conv == 115:
            v = str(v)
        return format(v, spec)

    @staticmethod
    def join(sep, *a):
        if isinstance(sep, str) and len(a) == 1:
            s = loops.as_seq(a[0])
            if s is None:
                return sep.join(a[0])
            if s.concrete and any(contains_sym(x) for x in s.lit()) and all(
                    isinstance(x, (str, SAtom, SText)) for x in s.lit()):
                parts = []
                for x in s.lit():
                    parts += ([sep] if parts else []) + [x]
                return text(parts)
            if not s.concrete or any(contains_sym(x) for x in s.lit()):
                return SText([Opaque()])
            return sep.join(s.lit())
        return sep.join(*a)

    DICTUPD = None


RT.STAR = RT


def _native(a):
    if isinstance(a, VList) and a.concrete:
        return [_native(x) for x in a.lit()]
    return a


def contains_sym(x, depth=0):
    if isinstance(x, (SNum, SBool, SAtom, SText, SRec)) or getattr(x, '__vsym__', False):
        return True
    if depth > 4:
        return False
    if isinstance(x, VList):
        return not x.concrete or any(contains_sym(y, depth + 1) for y in x.lit())
    if isinstance(x, VDict):
        return not x.plain() or any(contains_sym(y, depth + 1) for y in x.d.values())
    if isinstance(x, (tuple, list)):
        return any(contains_sym(y, depth + 1) for y in x)
    return False


_snap_depth = [0]


def sym_comp(s, cond, elt):
    """Comprehension over a symbolic sequence; element and filter evaluated now at a canonical index."""
    out = []
    for seg in s.segs:
        if isinstance(seg, list):
            for x in seg:
                if cond is None or cond(x):
                    if out and isinstance(out[-1], list):
                        out[-1] = out[-1] + [elt(x)]
                    else:
                        out.append([elt(x)])
            continue
        idx = z3.Int('__ci%d' % _snap_depth[0])
        i = SNum(idx, 'int')
        ex = [idx >= 0, idx < seg.n]
        _snap_depth[0] += 1
        try:
            pred = None
            if seg.pred is not None or cond is not None:
                def pf(seg=seg, i=i):
                    if seg.pred is not None and not seg.pred(i):
                        return False
                    return cond is None or bool(cond(seg.get(i)))
                pv = merge_eval(pf, ex)
                pt = core.zb(pv)
                pred = (lambda pt, idx: lambda j: SBool(z3.simplify(z3.substitute(pt, (idx, sint(j))))))(pt, idx)
                ex = ex + [pt]
            v = merge_eval(lambda: elt(seg.get(i)), ex)
        finally:
            _snap_depth[0] -= 1
        g = (lambda v, idx: lambda j: loops.subst(v, idx, sint(j)))(v, idx)
        loops.subst(v, idx, idx)     # raises Unsupported when the value cannot be re-indexed
        out.append(Seg(seg.n, g, pred))
    return VList(_Segs(out))


# ------------------------------------------------------------------ shadow builtins
class TypeShadow(object):
    def __init__(self, name, call, native, vcls=()):
        self.__name__ = name
        self.call, self.native, self.vcls = call, native, vcls

    def __call__(self, *a, **kw):
        return self.call(*a, **kw)

    def __repr__(self):
        return "<class '%s'>" % self.__name__

    def __getattr__(self, k):
        return getattr(self.native, k)


def b_len(x):
    if isinstance(x, VIter):
        raise TypeError('object has no len()')
    if isinstance(x, (VList, VDict)):
        return x.vlen()
    if hasattr(x, '__vlen__'):
        return x.__vlen__()
    if hasattr(type(x), '__len__') and not isinstance(x, (str, bytes, list, tuple, dict, set, frozenset)):
        return type(x).__len__(x)     # a user-defined __len__ may return a symbolic number
    return len(x)


def b_int(*a):
    if not a:
        return 0
    x = a[0]
    if len(a) == 1 and isinstance(x, (SNum, SBool)):
        return core.vtrunc(x)
    if hasattr(x, '__vint__'):
        return x.__vint__()
    if hasattr(type(x), '__int__') and not isinstance(x, (int, float)):
        return type(x).__int__(x)
    if contains_sym(x):
        raise Unsupported('int() of %r' % (x,))
    return int(*a)


def b_float(*a):
    if not a:
        return 0.0
    x = a[0]
    if isinstance(x, SBool):
        x = x._num()
    if isinstance(x, SNum):
        return SNum(sreal(x), 'float')
    if hasattr(x, '__vfloat__'):
        return x.__vfloat__()
    if not isinstance(x, (int, float, str)) and hasattr(type(x), '__float__'):
        return type(x).__float__(x)
    if contains_sym(x):
        raise Unsupported('float() of %r' % (x,))
    return float(x)


def b_str(*a):
    if a and hasattr(type(a[0]), '__vstr__'):
        return a[0].__vstr__()
    if a and (isinstance(a[0], (SAtom, SText))):
        return a[0]
    if a and contains_sym(a[0]):
        return SText([Opaque()])
    return str(*a)


def b_bool(x=False):
    if isinstance(x, SBool):
        return x
    return bool(x)


def b_list(x=()):
    s = loops.as_seq(x)
    if s is None:
        return VList(list(x))
    return s[:]


def b_tuple(x=()):
    if isinstance(x, tuple):
        return x
    s = loops.as_seq(x)
    if s is None:
        return tuple(x)
    if s.concrete:
        return tuple(s.lit())
    r = VTuple()
    r.segs = s[:].segs
    return r


class VTuple(VList):
    """Tuple of unknown length."""


def b_dict(*a, **kw):
    r = VDict()
    if a and isinstance(a[0], VIter) or a and isinstance(a[0], VList) and not a[0].concrete:
        s = loops.as_seq(a[0])
        if s.concrete:
            r.update(s)
        else:
            r.entries = s
    elif a:
        x = a[0]
        if isinstance(x, VDict):
            r = x.copy()
        else:
            r.update(x if isinstance(x, dict) else VList.of(x))
    r.update(**kw)
    return r


def b_set(x=()):
    s = loops.as_seq(x)
    return set(x if s is None else s.lit())


def b_frozenset(x=()):
    return frozenset(b_set(x))


def b_range(*a):
    if all(isinstance(v, int) for v in a):
        return range(*a)
    start, stop, step = 0, None, 1
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a
    for v in (start, stop, step):
        if not core.isint(v):
            raise TypeError("'float' object cannot be interpreted as an integer")
    if isinstance(step, int) and step == 1:
        n = stop - start
    else:
        if bool(step == 0):
            raise ValueError('range() arg 3 must not be zero')
        if bool(step > 0):
            n = (stop - start + step - 1) // step
        else:
            n = (start - stop - step - 1) // (-step)
    n = mk(z3.If(sint(n) > 0, sint(n), z3.IntVal(0)), 'int')
    if isinstance(n, int):
        return VList([start + i * step for i in range(n)])
    if isinstance(start, int) and start == 0 and isinstance(step, int) and step == 1:
        r = VList.sym(sint(n), lambda i: i)
    else:
        r = VList.sym(sint(n), lambda i: start + i * step)
    r.start, r.stop, r.step = start, stop, step
    return r


def _seqs(args):
    return [s if s is not None else VList(list(a)) for a, s in ((a, loops.as_seq(a)) for a in args)]


def b_zip(*args):
    ss = _seqs(args)
    if all(s.concrete for s in ss):
        return VIter(VList(list(zip(*[s.lit() for s in ss]))))
    if any(s.filtered() for s in ss):
        raise Unsupported('zip of a filtered sequence')
    n = None
    for s in ss:
        m = s.vlen()
        n = m if n is None else red.pick_better(lambda a, b: a < b, n, m) if not (
            isinstance(n, int) and isinstance(m, int)) else min(n, m)
    if isinstance(n, int):
        return VIter(VList([tuple(s.at(i) for s in ss) for i in range(n)]))
    return VIter(VList.sym(sint(n), lambda i: tuple(s.at(i) for s in ss)))


def b_enumerate(x, start=0):
    s = _seqs([x])[0]
    if s.concrete:
        return VIter(VList([(start + i, v) for i, v in builtins.enumerate(s.lit())]))
    if s.filtered():
        raise Unsupported('enumerate of a filtered sequence')
    return VIter(VList.sym(sint(s.vlen()), lambda i: (i + start, s.at(i))))


def b_reversed(x):
    s = _seqs([x])[0]
    return VIter(s.reversed())


def b_sorted(x, key=None, reverse=False):
    s = _seqs([x])[0]
    if not s.concrete:
        raise Unsupported('sorted() of a symbolic sequence')
    return VList(vsorted(s.lit(), key, reverse))


def vsorted(l, key=None, reverse=False):
    """Stable insertion sort using the elements' own comparison (forks on symbolic keys)."""
    items = [(v if key is None else key(v), v) for v in l]
    try:
        if not any(contains_sym(k) for k, _ in items):
            return sorted(l, key=key, reverse=reverse)
    except TypeError:
        pass
    out = []
    for k, v in items:
        pos = len(out)
        while pos > 0:
            lt = lt_val(out[pos - 1][0], k) if reverse else lt_val(k, out[pos - 1][0])
            if not lt:
                break
            pos -= 1
        out.insert(pos, (k, v))
    return [v for _, v in out]


def lt_val(a, b):
    if isinstance(a, (VList, list, tuple)) and isinstance(b, (VList, list, tuple)):
        for x, y in zip(VList.of(a).lit(), VList.of(b).lit()):
            if lt_val(x, y):
                return True
            if not bool(x == y):
                return False
        return len(a) < len(b)
    return bool(a < b)


def b_sum(x, start=0):
    return red.vsum(_seqs([x])[0], start)


def b_any(x):
    return red.vany(_seqs([x])[0])


def b_all(x):
    return red.vall(_seqs([x])[0])


_MISS = object()


def _ext(op, native):
    def f(*args, **kw):
        key = kw.get('key')
        if len(args) == 1:
            args = (_seqs(args)[0],)
            if args[0].concrete and not any(contains_sym(v) for v in args[0].lit()) and (
                    key is None):
                return native(args[0].lit(), **({'default': kw['default']} if 'default' in kw else {}))
        elif not any(contains_sym(v) for v in args) and key is None:
            return native(*args)
        return red.vext(op, args, kw.get('default'), key, 'default' in kw)
    return f


def b_abs(x):
    return abs(x)


def b_round(x, n=None):
    if isinstance(x, SNum):
        return core.vround(x, n)
    if isinstance(x, SBool):
        return x._num()
    return round(x) if n is None else round(x, n)


def b_iter(x):
    s = loops.as_seq(x)
    if s is None:
        return iter(x)
    return VIter(s)


def b_next(x, *default):
    if isinstance(x, VIter):
        try:
            return x.__vnext__()
        except StopIteration:
            if default:
                return default[0]
            raise
    return next(x, *default)


def b_map(f, *seqs):
    if len(seqs) == 1:
        return RT.comp('gen', seqs[0], None, f)
    return RT.comp('gen', b_zip(*seqs), None, lambda t: f(*t))


def b_filter(f, seq):
    return RT.comp('gen', seq, (lambda x: x) if f is None else f, lambda x: x)


def b_print(*a, **kw):
    for h in PRINT_HOOKS:
        h(a, kw)


PRINT_HOOKS = []

T_INT = TypeShadow('int', b_int, int)
T_FLOAT = TypeShadow('float', b_float, float)
T_STR = TypeShadow('str', b_str, str)
T_BOOL = TypeShadow('bool', b_bool, bool)
T_LIST = TypeShadow('list', b_list, list, (VList,))
T_DICT = TypeShadow('dict', b_dict, dict, (VDict, SRec))
T_TUPLE = TypeShadow('tuple', b_tuple, tuple, (VTuple,))
T_SET = TypeShadow('set', b_set, set)


def b_type(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    if isinstance(x, SNum):
        return T_INT if x.kind == 'int' else T_FLOAT
    if isinstance(x, (bool, SBool)):
        return T_BOOL
    if isinstance(x, int):
        return T_INT
    if isinstance(x, float):
        return T_FLOAT
    if isinstance(x, (str, SAtom, SText)):
        return T_STR
    if isinstance(x, VTuple):
        return T_TUPLE
    if isinstance(x, VList):
        return T_LIST
    if isinstance(x, VDict):
        return T_DICT
    if isinstance(x, tuple):
        return T_TUPLE
    if isinstance(x, set):
        return T_SET
    return type(x)


def b_isinstance(x, cls):
    if isinstance(cls, tuple):
        return builtins.any(b_isinstance(x, c) for c in cls)
    if isinstance(cls, TypeShadow):
        if hasattr(type(x), '__visinstance__'):
            return x.__visinstance__(cls.native)
        if isinstance(x, SNum):
            return (cls is T_INT and x.kind == 'int') or (cls is T_FLOAT and x.kind == 'float')
        if isinstance(x, SBool):
            return cls in (T_BOOL, T_INT)
        if isinstance(x, (SAtom, SText)):
            return cls is T_STR
        if cls.vcls and isinstance(x, cls.vcls):
            return cls is not T_LIST or not isinstance(x, VTuple)
        return isinstance(x, cls.native)
    if cls is b_range:
        return isinstance(x, range) or isinstance(x, VList) and hasattr(x, 'step') and hasattr(x, 'start')
    if hasattr(type(x), '__visinstance__'):
        return x.__visinstance__(cls)
    if hasattr(cls, '__vinstancecheck__'):
        return cls.__vinstancecheck__(x)
    if isinstance(x, (SNum, SBool)):
        import numbers
        if isinstance(cls, type) and cls in (numbers.Number, numbers.Real, numbers.Complex):
            return True
        if isinstance(cls, type) and cls in (numbers.Integral, numbers.Rational):
            return isinstance(x, SBool) or x.kind == 'int'
    if isinstance(x, VDict):
        import collections.abc
        if cls in (collections.abc.Mapping, collections.abc.MutableMapping):
            return True
    if isinstance(x, VList):
        import collections.abc
        if cls in (collections.abc.Iterable, collections.abc.Sequence):
            return True
    return isinstance(x, cls)


SHADOW = dict(
    len=b_len, int=T_INT, float=T_FLOAT, str=T_STR, bool=T_BOOL, list=T_LIST, tuple=T_TUPLE, dict=T_DICT,
    set=T_SET, frozenset=b_frozenset, range=b_range, zip=b_zip, enumerate=b_enumerate, reversed=b_reversed,
    sorted=b_sorted, sum=b_sum, any=b_any, all=b_all, max=_ext('max', max), min=_ext('min', min), abs=b_abs,
    round=b_round, iter=b_iter, next=b_next, map=b_map, filter=b_filter, print=b_print, type=b_type,
    isinstance=b_isinstance)


# ------------------------------------------------------------------ transformation
class Names(ast.NodeVisitor):
    """Local names bound anywhere inside a statement list (not in nested functions)."""

    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    def visit_ClassDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split('.')[0])
    visit_ImportFrom = visit_Import


def bound_names(stmts):
    v = Names()
    for s in stmts:
        v.visit(s)
    return v.names


def N(i, c=None):
    return ast.Name(i, c or ast.Load())


def rt(attr, *args):
    return ast.Call(ast.Attribute(N('__vc__'), attr, ast.Load()), list(args), [])


class Tr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.n = 0
        self.fn = ['<module>']
        self.isgen = [False]
        self.globals = [set()]
        self.loopstack = []

    # -- functions
    def visit_FunctionDef(self, n):
        if not n.decorator_list and any(isinstance(x, ast.Yield) for x in walk_scope(n)):
            n = eager_generator(n)
        self.fn.append(n.name)
        self.isgen.append(any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_scope(n)))
        self.globals.append({g for x in walk_scope(n) if isinstance(x, (ast.Global, ast.Nonlocal)) for g in x.names})
        saved, self.loopstack = self.loopstack, []
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        n.body = self.body(n.body)
        self.loopstack = saved
        self.globals.pop()
        self.isgen.pop()
        self.fn.pop()
        return n

    def visit_Lambda(self, n):
        n.args = self.visit(n.args)
        n.body = self.visit(n.body)
        return n

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            out += r if isinstance(r, list) else [r]
        return out

    # -- loops
    def _lid(self):
        self.n += 1
        return self.n, '%s.%s#%d' % (self.mod, self.fn[-1], self.n)

    def havoc(self, v, names):
        st = []
        for nm in names:
            st.append(ast.If(
                ast.Compare(rt_get(v, 'st', nm), [ast.Eq()], [ast.Constant(1)]),
                [ast.Assign([N(nm, ast.Store())], rt_get(v, 'get', nm))],
                [ast.If(ast.Compare(rt_get(v, 'st', nm), [ast.Eq()], [ast.Constant(2)]),
                        [ast.Delete([N(nm, ast.Del())])], [])]))
        if not st:
            return []
        return [ast.If(ast.Attribute(N(v), 'hv', ast.Load()), st, [])]

    def visit_For(self, n):
        k, lid = self._lid()
        v = '__lp%d__' % k
        names = [x for x in bound_names(n.body + [ast.Assign([n.target], ast.Constant(0))])
                 if x not in self.globals[-1]]
        it = self.visit(n.iter)
        self.loopstack.append(v)
        b = self.body(n.body)
        self.loopstack.pop()
        o = self.body(n.orelse)
        hv = self.havoc(v, names)
        tgt = self.visit(n.target)
        item = ast.Call(ast.Attribute(N(v), 'item', ast.Load()), [], [])
        init = ast.Assign([N(v, ast.Store())], rt('forloop', ast.Constant(lid), it,
                                                  ast.Constant(tuple(names)), ast.Constant(self.isgen[-1])))
        if self.fn[-1] == '<module>' or self.fn[-1] == '<class>':
            hv = []
        loop = ast.While(ast.Call(ast.Attribute(N(v), 'step', ast.Load()), [], []),
                         hv + [assign_unpack(tgt, item)] + b, clone(hv) + o)
        return [init, loop]

    def visit_While(self, n):
        k, lid = self._lid()
        v = '__lp%d__' % k
        if n.orelse:
            return self.generic_visit(n)
        names = [x for x in bound_names(n.body) if x not in self.globals[-1]]
        c = self.visit(n.test)
        self.loopstack.append(v)
        b = self.body(n.body)
        self.loopstack.pop()
        hv = self.havoc(v, names) if self.fn[-1] not in ('<module>', '<class>') else []
        init = ast.Assign([N(v, ast.Store())], rt('whileloop', ast.Constant(lid), ast.Constant(tuple(names)),
                                                  ast.Constant(self.isgen[-1])))
        call = lambda m, *a: ast.Call(ast.Attribute(N(v), m, ast.Load()), list(a), [])
        loop = ast.While(ast.Constant(True),
                         [ast.Expr(call('step'))] + hv +
                         [ast.If(ast.UnaryOp(ast.Not(), call('test', c)), [ast.Break()], [])] + b, [])
        return [init, loop]

    def visit_Break(self, n):
        if not self.loopstack or self.loopstack[-1] is None:
            return n
        return [ast.Expr(ast.Call(ast.Attribute(N(self.loopstack[-1]), 'brk', ast.Load()), [], [])), n]

    def visit_Return(self, n):
        n = self.generic_visit(n)
        ls = [v for v in self.loopstack if v]
        if not ls:
            return n
        val = n.value or ast.Constant(None)
        for v in reversed(ls):
            val = ast.Call(ast.Attribute(N(v), 'leave', ast.Load()), [val], [])
        return ast.Return(val)

    def visit_ClassDef(self, n):
        self.fn.append('<class>')
        n.body = self.body(n.body)
        n.bases = [self.visit(b) for b in n.bases]
        n.decorator_list = [self.visit(b) for b in n.decorator_list]
        self.fn.pop()
        return n

    def visit_ExceptHandler(self, n):
        n = self.generic_visit(n)
        if n.type is None:
            n.type = N('Exception')
        return n

    # -- displays
    def visit_List(self, n):
        n = self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load):
            return n
        elts = []
        for e in n.elts:
            elts.append(ast.Starred(rt('unstar', e.value), ast.Load()) if isinstance(e, ast.Starred) else e)
        return rt('lst', ast.List(elts, ast.Load()))

    def visit_Dict(self, n):
        n = self.generic_visit(n)
        pairs = [ast.Tuple([k if k is not None else N('__vc__'), v], ast.Load()) for k, v in zip(n.keys, n.values)]
        return rt('dct', ast.List(pairs, ast.Load()))

    def visit_Starred(self, n):
        n = self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not (isinstance(n.value, ast.Call) and getattr(
                n.value.func, 'attr', '') == 'unstar'):
            n.value = rt('unstar', n.value)
        return n

    def _comp(self, n, kind):
        if kind == 'dict':
            elt = ast.Tuple([n.key, n.value], ast.Load())
        else:
            elt = n.elt
        gens = n.generators

        def lam(target, body):
            arg = '__it__'
            if isinstance(target, ast.Name):
                return ast.Lambda(args1(target.id), body)
            flat, pattern = [], target
            inner = unpack_lambda(target, body)
            return ast.Lambda(args1(arg), inner(N(arg)))

        def conj(ifs):
            ifs = [self.visit(i) for i in ifs]
            return ifs[0] if len(ifs) == 1 else ast.BoolOp(ast.And(), ifs)
        elt = self.visit(elt)
        g = gens[-1]
        expr = rt('comp', ast.Constant('list' if len(gens) > 1 else kind), self.visit(g.iter),
                  lam(g.target, conj(g.ifs)) if g.ifs else ast.Constant(None), lam(g.target, elt))
        for g in reversed(gens[:-1]):
            expr = rt('flat', self.visit(g.iter), lam(g.target, conj(g.ifs)) if g.ifs else ast.Constant(None),
                      lam(g.target, expr))
        if len(gens) > 1:
            expr = rt('wrap', ast.Constant(kind), expr)
        return expr

    def visit_ListComp(self, n):
        return self._comp(n, 'list')

    def visit_SetComp(self, n):
        return self._comp(n, 'set')

    def visit_DictComp(self, n):
        return self._comp(n, 'dict')

    def visit_GeneratorExp(self, n):
        return self._comp(n, 'gen')

    # -- strings
    def visit_Call(self, n):
        n = self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('format', 'join'):
            if not (n.func.attr == 'join' and isinstance(n.func.value, ast.Attribute)):
                return ast.Call(ast.Attribute(N('__vc__'), {'format': 'fmt', 'join': 'join'}[n.func.attr], ast.Load()),
                                [n.func.value] + n.args, n.keywords)
        return n

    def visit_BinOp(self, n):
        n = self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return rt('mod', n.left, n.right)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for p in n.values:
            if isinstance(p, ast.FormattedValue):
                spec = ast.Constant('') if p.format_spec is None else self.visit(p.format_spec)
                parts.append(rt('fval', self.visit(p.value), ast.Constant(p.conversion), spec))
            else:
                parts.append(p)
        return rt('fstr', ast.List(parts, ast.Load()))


def _unstar(x):
    s = loops.as_seq(x)
    return x if s is None else s.lit()


RT.unstar = staticmethod(_unstar)
RT.gen = staticmethod(lambda l: VIter(VList.of(l)))


def walk_scope(fn):
    st = list(fn.body)
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(x))


def eager_generator(fn):
    """Generator without decorators: collect what it yields (sound where it is consumed completely)."""
    class G(ast.NodeTransformer):
        def visit_FunctionDef(self, n):
            return n
        visit_Lambda = visit_ClassDef = visit_FunctionDef

        def visit_Expr(self, n):
            if isinstance(n.value, ast.Yield):
                return ast.Expr(ast.Call(ast.Attribute(N('kc_gen_out'), 'append', ast.Load()),
                                         [n.value.value or ast.Constant(None)], []))
            return n

        def visit_Return(self, n):
            return ast.Return(rt('gen', N('kc_gen_out')))
    import copy
    new = copy.deepcopy(fn)
    new.body = [G().visit(s) for s in new.body]
    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_scope(new)):
        return fn
    new.body = [ast.Assign([N('kc_gen_out', ast.Store())], ast.List([], ast.Load()))] + new.body + \
        [ast.Return(rt('gen', N('kc_gen_out')))]
    return new


def clone(stmts):
    import copy
    return [copy.deepcopy(s) for s in stmts]


def args1(*names):
    return ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, [])


_ul = [0]


def unpack_lambda(target, body):
    """target pattern -> function(expr) giving an expression that binds the pattern around body."""
    if isinstance(target, ast.Name):
        return lambda e: ast.Call(ast.Lambda(args1(target.id), body), [e], [])
    names, subs = [], []
    for e in target.elts:
        if isinstance(e, ast.Name):
            names.append(e.id)
        else:
            _ul[0] += 1
            t = '__u%d__' % _ul[0]
            names.append(t)
            subs.append((e, t))
    b = body
    for e, t in reversed(subs):
        b = unpack_lambda(e, b)(N(t))
    return lambda x: ast.Call(ast.Lambda(args1(*names), b),
                              [ast.Starred(rt('unpack', x, ast.Constant(len(names))), ast.Load())], [])


def rt_get(v, meth, nm):
    return ast.Call(ast.Attribute(N(v), meth, ast.Load()), [ast.Constant(nm)], [])


def assign_unpack(target, value):
    return ast.Assign([target], value)


class MultiAssign(ast.NodeTransformer):
    pass


def instrument(src, modname):
    tree = ast.parse(src)
    tr = Tr(modname)
    tree.body = tr.body(tree.body)
    ast.fix_missing_locations(tree)
    return tree


_LOADED = {}


def load(relpath, modname=None, extra=None):
    """Shadow module of /repo/<relpath>, executed from the current source."""
    path = os.path.join(REPO, relpath)
    with open(path) as f:
        src = f.read()
    modname = modname or relpath[:-3].replace('/', '.')
    if (path, modname, src) not in _LOADED:
        _LOADED[path, modname, src] = compile(instrument(src, modname), path, 'exec')
    code = _LOADED[path, modname, src]
    m = types.ModuleType(modname)
    m.__file__ = path
    m.__package__ = modname.rsplit('.', 1)[0]
    bi = dict(vars(builtins))
    bi.update(SHADOW)
    m.__dict__['__builtins__'] = bi
    m.__dict__['__vc__'] = RT
    m.__dict__['__shadow__'] = True
    if extra:
        m.__dict__.update(extra)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    exec(code, m.__dict__)
    for k, v in list(m.__dict__.items()):
        if isinstance(v, type) and v.__module__ == modname:
            v.__shadow__ = True
        import collections, copy as _copy, math as _m, itertools as _it, functools as _ft
        if v is collections.OrderedDict:
            m.__dict__[k] = VDict
        elif v is collections.defaultdict:
            m.__dict__[k] = VDefaultDict
        elif v is _it.chain:
            m.__dict__[k] = v_chain
    return m


class VDefaultDict(VDict):
    def __init__(self, factory=None, pairs=()):
        VDict.__init__(self, pairs)
        self.factory = factory

    def __getitem__(self, k):
        r = self.lookup(k)
        if r is None:
            v = self.factory()
            self[k] = v
            return v
        return r[0]

    def __copy__(self):
        r = VDict.__copy__(self)
        q = VDefaultDict(self.factory)
        q.d, q.entries, q.overlay = r.d, r.entries, r.overlay
        return q


def v_chain(*a):
    r = VList()
    for x in a:
        r.extend(x if loops.as_seq(x) is None else loops.as_seq(x))
    return VIter(r)


v_chain.from_iterable = lambda xs: v_chain(*VList.of(xs).lit())
