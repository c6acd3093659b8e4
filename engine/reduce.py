"""Aggregates (sum, max, min, any, all, count) over symbolic sequences.

An aggregate over a segment (n, pred, val) is the term F(n) of an uninterpreted function F keyed by the
aggregate's definition; two aggregates are equated when their lengths, predicates and values are proved equal at
an arbitrary index (extensionality); F(k+1) is unfolded at the loop index by the loop rule.
"""
import re
import z3
from . import core
from .core import SNum, SBool, Unsupported, ctx, zb, sreal, mk, is_num, isint, sint
from .cont import VList, Seg, merge_eval, _Segs

IDX = z3.Int('__idx')


class Red(object):
    def __init__(self, op, n, pred, val, term):
        self.op, self.n, self.pred, self.val, self.term = op, n, pred, val, term


_depth = [0]


def define(op, seg):
    """Reduction term for one symbolic segment."""
    n = seg.n if z3.is_expr(seg.n) else sint(seg.n)
    idx = z3.Int('__jd%d' % _depth[0])
    ex = [idx >= 0, idx < n]
    i = SNum(idx, 'int')
    _depth[0] += 1
    try:
        if seg.pred is None:
            pred = z3.BoolVal(True)
        else:
            pred = z3.simplify(zb(merge_eval(lambda: _asbool(seg.pred(i)), ex)))
        if op in ('any', 'all'):
            v = merge_eval(lambda: _asbool(seg.get(i)), ex + [pred])
            val = z3.simplify(zb(v))
            rng = z3.BoolSort()
        elif op == 'count':
            val = z3.IntVal(1)
            rng = z3.IntSort()
        else:
            v = merge_eval(lambda: seg.get(i), ex + [pred])
            if not is_num(v):
                raise Unsupported('%s over non-numbers' % op)
            val = z3.simplify(sint(v) if isint(v) else sreal(v))
            rng = val.sort()
    finally:
        _depth[0] -= 1
    sub = lambda t: z3.simplify(z3.substitute(t, (idx, IDX)))
    return instance(op, n, sub(pred), sub(val), rng)


def _asbool(v):
    if isinstance(v, (bool, SBool)):
        return v
    return SBool(v.t != 0) if isinstance(v, SNum) else bool(v)


PARAM = re.compile(r'^(k!|__ci|__jd|__le|__probe|idx!|arg!)')


def params(*terms):
    """Index-like constants a definition depends on; they become arguments of the aggregate."""
    out, seen = [], set()
    for t in terms:
        st = [t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and PARAM.match(x.decl().name()):
                out.append(x)
            st.extend(reversed(x.children()))
    return out


def instance(op, n, pred, val, rng):
    c = ctx()
    ps = params(pred, val)
    ph = [z3.Const('__p%d' % i, p.sort()) for i, p in enumerate(ps)]
    cp, cv = (z3.substitute(t, *zip(ps, ph)) if ps else t for t in (pred, val))
    key = 'RED_%s|%s|%s|%s' % (op, cp.sexpr(), cv.sexpr(), rng)
    names = c.session.__dict__.setdefault('red_names', {})
    if key not in names:
        names[key] = ('R%s%d' % (op, len(names)), op, cp, cv, ph)
    name = names[key][0]
    f = c.session.func(name, z3.IntSort(), *([p.sort() for p in ps] + [rng]))
    n = z3.simplify(n)
    t = f(n, *ps)
    r = Red(op, n, pred, val, t)
    if not any(x.term.eq(t) for x in c.reductions):
        c.reductions.append(r)
        empty = {'sum': 0, 'count': 0, 'any': False, 'all': True, 'prod': 1}.get(op)
        if empty is not None:
            e = z3.BoolVal(empty) if isinstance(empty, bool) else (
                z3.IntVal(empty) if rng == z3.IntSort() else z3.RealVal(empty))
            c.assume(z3.Implies(n <= 0, t == e))
        if op == 'count':
            c.assume(z3.And(t >= 0, t <= z3.If(n > 0, n, 0)))
        if z3.is_int_value(n) and 0 < n.as_long() <= 3:
            unfold(r, z3.IntVal(n.as_long() - 1))
    return r


def at(term, i):
    return z3.substitute(term, (IDX, i))


def unfold(r, k):
    """F(k+1) in terms of F(k)."""
    c = ctx()
    a = instance(r.op, k, r.pred, r.val, r.term.sort()).term
    b = instance(r.op, k + 1, r.pred, r.val, r.term.sort()).term
    p, v = at(r.pred, k), at(r.val, k)
    if r.op in ('sum', 'count'):
        c.assume(z3.Implies(k >= 0, b == z3.If(p, a + v, a)))
    elif r.op == 'prod':
        c.assume(z3.Implies(k >= 0, b == z3.If(p, a * v, a)))
    elif r.op in ('max', 'min') and z3.is_true(r.pred):
        w = (v > a) if r.op == 'max' else (v < a)
        c.assume(z3.Implies(k >= 0, b == z3.If(k == 0, v, z3.If(w, v, a))))
    elif r.op == 'any':
        c.assume(z3.Implies(k >= 0, b == z3.Or(a, z3.And(p, v))))
    elif r.op == 'all':
        c.assume(z3.Implies(k >= 0, b == z3.And(a, z3.Implies(p, v))))


def congruences(c, s):
    """Equalities between aggregates proved extensionally under the path condition (solver s)."""
    out = []
    # parametrised definitions (aggregates inside aggregates): equal for all arguments
    names = list(c.session.__dict__.get('red_names', {}).values())
    pn = [x for x in names if x[4]]
    for i in range(len(pn)):
        for j in range(i):
            (na, opa, pa, va, ha), (nb, opb, pb, vb, hb) = pn[i], pn[j]
            if opa != opb or len(ha) != len(hb) or va.sort() != vb.sort():
                continue
            if any(x.sort() != y.sort() for x, y in zip(ha, hb)):
                continue
            s.push()
            s.add(z3.Or(pa != pb, z3.And(pa, va != vb)))
            ok = s.check() == z3.unsat
            s.pop()
            if ok:
                srt = [p.sort() for p in ha] + [va.sort() if opa != 'count' else z3.IntSort()]
                fa = c.session.func(na, z3.IntSort(), *srt)
                fb = c.session.func(nb, z3.IntSort(), *srt)
                n = z3.Int('__n')
                e = z3.ForAll([n] + ha, fa(n, *ha) == fb(n, *ha), patterns=[fa(n, *ha)])
                out.append(e)
    reds = list(c.reductions)
    for i in range(len(reds)):
        for j in range(i):
            a, b = reds[i], reds[j]
            if a.op != b.op or a.term.eq(b.term):
                continue
            tr = lambda t: z3.ToReal(t) if t.sort() == z3.IntSort() and mixed else t
            mixed = a.term.sort() != b.term.sort()
            if z3.is_int_value(a.n) or z3.is_int_value(b.n):
                continue
            s.push()
            s.add(*out)
            s.add(z3.Or(a.n != b.n,
                        z3.And(IDX >= 0, IDX < a.n,
                               z3.Or(a.pred != b.pred, z3.And(a.pred, tr(a.val) != tr(b.val))))))
            ok = s.check() == z3.unsat
            s.pop()
            if ok:
                out.append(tr(a.term) == tr(b.term))
    return out


def _segs(x):
    return VList.of(x).segs


def vsum(x, start=0):
    r = start
    for s in _segs(x):
        if isinstance(s, list):
            for v in s:
                r = r + v
        else:
            r = r + mk(define('sum', s).term)
    return r


def count(seg):
    return mk(define('count', Seg(seg.n, lambda i: 1, seg.pred)).term, 'int')


def vany(x):
    acc = z3.BoolVal(False)
    for s in _segs(x):
        if isinstance(s, list):
            for v in s:
                b = _asbool(v)
                if isinstance(b, bool):
                    if b:
                        return True
                else:
                    acc = z3.Or(acc, b.t)
        else:
            acc = z3.Or(acc, define('any', s).term)
    acc = z3.simplify(acc)
    return z3.is_true(acc) if z3.is_true(acc) or z3.is_false(acc) else SBool(acc)


def vall(x):
    acc = z3.BoolVal(True)
    for s in _segs(x):
        if isinstance(s, list):
            for v in s:
                b = _asbool(v)
                if isinstance(b, bool):
                    if not b:
                        return False
                else:
                    acc = z3.And(acc, b.t)
        else:
            acc = z3.And(acc, define('all', s).term)
    acc = z3.simplify(acc)
    return z3.is_true(acc) if z3.is_true(acc) or z3.is_false(acc) else SBool(acc)


def vext(op, args, default=None, key=None, has_default=False):
    """max/min over a mix of literal values and symbolic segments."""
    if len(args) == 1:
        segs = _segs(args[0])
    else:
        segs = [list(args)]
    if key is not None and len(segs) == 1 and not isinstance(segs[0], list) and segs[0].pred is None:
        # the first element none exceeds
        from .cont import merge_eval as me
        g, n = segs[0], segs[0].n
        if bool(SBool(n <= 0)):
            if has_default:
                return default
            raise ValueError('%s() arg is an empty sequence' % op)
        c = ctx()
        w, j = c.fresh('arg'), z3.FreshConst(z3.IntSort(), 'j')
        val = lambda t: me(lambda: key(g.get(mk(t, 'int'))), [t >= 0, t < n])
        a, b = val(w), val(j)
        if not (is_num(a) and is_num(b)):
            raise Unsupported('%s() by a key that is no number' % op)
        a, b = core.sreal(a), core.sreal(b)
        if op == 'min':
            a, b = -a, -b
        c.assume(z3.And(w >= 0, w < n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(
            b <= a, z3.Implies(j < w, b < a))))))
        return g.get(mk(w, 'int'))
    if key is not None:
        vals = VList(_Segs(segs)).lit()
        best, bk = vals[0], key(vals[0])
        for v in vals[1:]:
            k = key(v)
            if bool(k > bk) if op == 'max' else bool(k < bk):
                best, bk = v, k
        return best
    better = (lambda a, b: a > b) if op == 'max' else (lambda a, b: a < b)
    acc = None
    have = False
    # literals first: order is irrelevant for the value
    for s in segs:
        if isinstance(s, list):
            for v in s:
                if not have:
                    acc, have = v, True
                else:
                    acc = pick_better(better, acc, v)
    for s in segs:
        if not isinstance(s, list):
            r = define(op, s)
            ne = define('any', Seg(s.n, lambda i: True, s.pred)).term
            if s.pred is None:
                ctx().assume(ne == (s.n > 0))
            # attained somewhere, bounds every element
            c = ctx()
            w = c.fresh('arg')
            c.assume(z3.Implies(ne, z3.And(w >= 0, w < r.n, at(r.pred, w), r.term == at(r.val, w))))
            v = mk(r.term)
            if have:
                acc = merge_eval(lambda: pick_better(better, acc, v)
                                 if bool(SBool(ne)) else acc)
            elif bool(SBool(ne)):
                acc, have = v, True
    if not have:
        if has_default:
            return default
        raise ValueError('%s() arg is an empty sequence' % op)
    return acc


def pick_better(better, acc, v):
    """max/min of two values, merged instead of forked where possible."""
    if is_num(acc) and is_num(v) and not core.nonfinite(acc) and not core.nonfinite(v) \
            and (isinstance(acc, SNum) or isinstance(v, SNum)):
        from .cont import merge
        b = better(v, acc)
        return (v if b else acc) if isinstance(b, bool) else merge(b.t, v, acc)
    return v if bool(better(v, acc)) else acc


def bound(r, i):
    """Instantiate: element i does not exceed the maximum (is not below the minimum)."""
    p, v = at(r.pred, i), at(r.val, i)
    g = z3.And(i >= 0, i < r.n, p)
    if r.op == 'any':
        return z3.Implies(z3.And(g, v), r.term)
    if r.op == 'all':
        return z3.Implies(z3.And(g, r.term), v)
    return z3.Implies(g, v <= r.term if r.op == 'max' else v >= r.term)
