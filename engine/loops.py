"""Loop rule: state slots, modification sets by discovery, closed forms and invariants checked inductively."""
import copy
import sys
import re
import z3
from . import core, cont, reduce as red
from .core import (SNum, SBool, SAtom, SText, Unsupported, PathEnd, ctx, UNB, is_num, mk, sint, sreal, zb, isint,
                   nonfinite, Restart)
from .cont import VList, VDict, VIter, Seg, SRec, veq, _Segs


def as_seq(x):
    """VList view of an iterable, or None for a native (concrete) iterable."""
    if isinstance(x, VList):
        return x
    if isinstance(x, VIter):
        if getattr(x, 'consumed', False):
            return VList()
        x.consumed = True
        if isinstance(x.pos, int) and x.pos == 0:
            return x.seq
        return x.seq[x.pos:]
    if isinstance(x, VDict):
        return x.keys()
    if isinstance(x, (list, tuple, range, str)):
        return VList(list(x))
    if hasattr(x, '__vseq__'):
        return x.__vseq__()
    if isinstance(x, (SNum, SBool, SAtom, SText, SRec)):
        raise Unsupported('iteration over %r' % (x,))
    return None


# ------------------------------------------------------------------ substitution lifted to values
def zsub(t, pairs):
    return z3.simplify(z3.substitute(t, *pairs))


def subst(v, var, term):
    return vsubst(v, [(var, term)])


def vsubst(v, pairs):
    if isinstance(v, SNum):
        return mk(zsub(v.t, pairs), v.kind)
    if isinstance(v, SBool):
        return SBool(zsub(v.t, pairs))
    if isinstance(v, SAtom):
        return SAtom(zsub(v.t, pairs))
    if v is None or isinstance(v, (int, float, str, bool, bytes)):
        return v
    if isinstance(v, tuple):
        return tuple(vsubst(x, pairs) for x in v)
    if isinstance(v, SText):
        return SText([vsubst(p, pairs) if not isinstance(p, str) else p for p in v.parts])
    if isinstance(v, VList):
        return VList(_Segs([[vsubst(x, pairs) for x in s] if isinstance(s, list) else
                            Seg(zsub(s.n, pairs), (lambda g: lambda i: vsubst(g(i), pairs))(s.get),
                                None if s.pred is None else (lambda g: lambda i: vsubst(g(i), pairs))(s.pred))
                            for s in v.segs]))
    if isinstance(v, VDict):
        if not v.plain():
            raise Unsupported('re-indexing a symbolic dict')
        r = copy.copy(v)
        r.d = {k: vsubst(x, pairs) for k, x in v.d.items()}
        return r
    if isinstance(v, SRec):
        return v
    if hasattr(v, '__vsubst__'):
        return v.__vsubst__(pairs)
    if isinstance(v, type) or callable(v):
        return v
    if type(v).__name__ == 'Opaque':
        return v
    raise Unsupported('re-indexing %r' % type(v).__name__)


def consts_of(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(x.decl().name())
        st.extend(x.children())
    return acc


def leaf_terms(v):
    """z3 terms inside a value."""
    if isinstance(v, (SNum, SBool, SAtom)):
        return [v.t]
    if isinstance(v, (tuple, list)):
        return [t for x in v for t in leaf_terms(x)]
    if isinstance(v, VList):
        out = []
        for s in v.segs:
            if isinstance(s, list):
                out += leaf_terms(s)
            else:
                out.append(s.n)
                i = SNum(z3.Int('__probe'), 'int')
                out += leaf_terms(s.get(i))
        return out
    if isinstance(v, VDict):
        return [t for x in v.d.values() for t in leaf_terms(x)]
    if hasattr(v, '__vleaves__'):
        return [t for x in v.__vleaves__() for t in leaf_terms(x)]
    return []


def value_consts(v):
    acc = set()
    for t in leaf_terms(v):
        consts_of(t, acc)
    return acc


def same(a, b):
    """Certainly the same value (used to detect modification)."""
    if a is b:
        return True
    if a is UNB or b is UNB:
        return False
    if isinstance(a, (SNum, SBool, SAtom)) and type(a) is type(b):
        return a.t.eq(b.t)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float, str, bool, type(None))) and isinstance(b, (int, float, str, bool, type(None))):
        return type(a) is type(b) and (a == b or (a != a and b != b))
    if hasattr(a, '__vsame__') and type(a) is type(b):
        return a.__vsame__(b)
    return False


# ------------------------------------------------------------------ program state
class ListState(object):
    """Immutable snapshot of a VList's content."""
    def __init__(self, segs):
        self.segs = [list(s) if isinstance(s, list) else s for s in segs]

    def __vsame__(self, o):
        return self.norm() is not None and len(self.segs) == len(o.segs) and all(
            (isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and all(same(p, q) for p, q in zip(x, y)))
            or x is y for x, y in zip(self.segs, o.segs))

    def norm(self):
        return self.segs


class OverState(object):
    """Snapshot of a VDict's writes under symbolic keys."""
    def __init__(self, ov):
        self.ov = list(ov)

    def __vsame__(self, o):
        return len(self.ov) == len(o.ov) and all(x is y for x, y in zip(self.ov, o.ov))


def is_heap(v):
    return isinstance(v, (VDict, VList)) or getattr(type(v), '__shadow__', False) or hasattr(v, '__vheap__')


def walk_heap(roots, limit=400):
    """Deterministic list of (path, object) for the heap objects reachable from roots."""
    out, seen = [], {}
    st = [(p, v, 0) for p, v in reversed(roots)]
    while st:
        p, v, d = st.pop()
        if d > 7:
            continue
        kids = []
        if isinstance(v, tuple):
            kids = [(p + ('t%d' % i,), x) for i, x in enumerate(v)]
        elif is_heap(v):
            if id(v) in seen:
                continue
            seen[id(v)] = p
            out.append((p, v))
            if len(out) > limit:
                raise Unsupported('heap too large at a loop head')
            if isinstance(v, VDict):
                kids = [(p + (k,), x) for k, x in v.d.items()]
            elif isinstance(v, VList):
                kids = [(p + (i,), x) for i, s in enumerate(v.segs) if isinstance(s, list)
                        for i, x in enumerate(s)]
            else:
                kids = [(p + (k,), x) for k, x in sorted(vars(v).items())]
        for k in reversed(kids):
            st.append((k[0], k[1], d + 1))
    return out


class State(object):
    """Slots at a loop head; objs are the heap objects existing there."""

    def __init__(self, frame, names, objs=None):
        self.vals = {}
        loc = frame.f_locals
        for n in names:
            self.vals[('v', n)] = loc.get(n, UNB)
        if objs is None:
            roots = [(('v', n), loc[n]) for n in loc if not n.startswith(('__lp', '__vc', '__u'))]
            roots += [(('g', n), v) for n, v in frame.f_globals.items()
                      if isinstance(v, (VDict, VList)) and not n.startswith(('__lp', '__vc', '__u'))]
            objs = walk_heap(roots)
        self.objs = objs
        for p, o in objs:
            if isinstance(o, VDict):
                for k, v in o.d.items():
                    self.vals[('k', p, k)] = v
                if o.overlay or True:
                    self.vals[('o', p)] = OverState(o.overlay)
            elif isinstance(o, VList):
                self.vals[('l', p)] = ListState(o.segs)
            else:
                for k, v in vars(o).items():
                    self.vals[('a', p, k)] = v

    def restore(self, slot, v):
        kind = slot[0]
        o = next(ob for p, ob in self.objs if p == slot[1])
        if kind == 'k':
            if v is UNB:
                o.d.pop(slot[2], None)
            else:
                o.d[slot[2]] = v
        elif kind == 'o':
            o.overlay = list(v.ov)
        elif kind == 'l':
            o.segs = [list(s) if isinstance(s, list) else s for s in v.segs]
        elif kind == 'a':
            if v is UNB:
                o.__dict__.pop(slot[2], None)
            else:
                setattr(o, slot[2], v)


# ------------------------------------------------------------------ shapes of havocked slots
class Marker(object):
    """Segment of unknown content standing for 'everything appended so far'."""
    unknown_items = True


def flatten(v):
    """(skeleton, leaves) - skeleton is hashable and equal for compatible values."""
    if isinstance(v, (bool, SBool)):
        return 'B', [v]
    if is_num(v):
        if nonfinite(v):
            return ('c', repr(v)), []
        return 'N', [v]
    if isinstance(v, (str, SAtom)):
        return 'S', [v]
    if v is None:
        return ('c', None), []
    if isinstance(v, tuple):
        sk, lv = [], []
        for x in v:
            s, l = flatten(x)
            sk.append(s)
            lv += l
        return ('T',) + tuple(sk), lv
    if hasattr(v, '__vflat__'):
        sk, leaves = v.__vflat__()
        fs, fl = [], []
        for x in leaves:
            s, l = flatten(x)
            fs.append(s)
            fl += l
        return ('O', type(v), sk, tuple(fs)), fl
    if isinstance(v, ListState):
        return 'L', [v]
    if isinstance(v, OverState):
        return 'W', [v]
    return ('id', id(v)), []


def unflatten(sk, leaves):
    """leaves: iterator."""
    if sk in ('N', 'B', 'S', 'L', 'W'):
        return next(leaves)
    if sk[0] == 'c':
        return {'inf': float('inf'), '-inf': float('-inf'), 'nan': float('nan')}.get(sk[1], None) \
            if sk[1] is not None else None
    if sk[0] == 'T':
        return tuple(unflatten(s, leaves) for s in sk[1:])
    if sk[0] == 'O':
        return sk[1].__vunflat__(sk[2], [unflatten(s, leaves) for s in sk[3]])
    raise Unsupported('shape %r' % (sk,))


def slotname(slot):
    return '.'.join(str(x) if not isinstance(x, tuple) else slotname(x) for x in slot)


class LoopInfo(object):
    count = 0

    def __init__(self, key, lid):
        LoopInfo.count += 1
        self.id = LoopInfo.count
        self.key, self.lid = key, lid
        self.k = z3.Int('k!%s!%d' % (re.sub(r'.*\.', '', lid), self.id))
        self.round = 0
        self.mods = {}        # slot -> ('U',) | ('C', [consts]) | ('F', skeleton, kinds)
        self.hinted = set()
        self.closed = {}      # (slot, leaf) -> function(k term) -> leaf value
        self.invs = []        # list of (description, function(k, leafvals) -> z3 Bool)
        self.recs = []
        self.entry = None
        self.start = 0
        self.n0 = 0
        self.prev = None

    def var(self, slot, i, kind):
        nm = 'h%d!%s!%d' % (self.id, '.'.join(str(x) for x in slot), i)
        return {'int': z3.Int, 'float': z3.Real, 'bool': z3.Bool, 'str': z3.Int}[kind](nm)


class LoopBase(object):
    hv = False

    def __init__(self, lid, names, isgen):
        self.lid, self.names, self.isgen = lid, names, isgen
        self.vals = {}
        self.phase = 'start'
        self.count = 0

    # -- called from generated code
    def st(self, name):
        v = self.vals.get(('v', name), None)
        if ('v', name) not in self.vals:
            return 0
        if v is UNB:
            return 2 if name in self.bound else 0
        return 1

    def get(self, name):
        return self.vals[('v', name)]

    def brk(self):
        if self.phase == 'iter' and self.discovering:
            raise PathEnd('break')

    def leave(self, v):
        if self.phase == 'iter' and self.discovering:
            raise PathEnd('return')
        return v

    # -- rule
    def key(self):
        c = ctx()
        return (self.lid, self.count, tuple(c.decisions()), c.loop_versions)

    def head(self, frame, n):
        """Symbolic loop head. n: z3 Int term or None (while). Returns 'exit' or 'iter'."""
        c = ctx()
        S = c.session
        if self.isgen:
            raise Unsupported('symbolic loop in a generator')
        key = self.key()
        st = State(frame, self.names)
        self.entry = st
        self.bound = set(frame.f_locals)
        inprog = S.inprogress.get(key)
        if inprog is None and key not in S.loops:
            S.loops[key] = infer(self, key, st, n)
        L = inprog or S.loops[key]
        if L == 'peel':
            return 'peel'
        self.L = L
        self.discovering = inprog is not None
        start = self.count
        if inprog is None:
            # main pass: check the base case, then fork exit / arbitrary iteration
            self.check_closed(L, z3.IntVal(start), st.vals, 'holds on entry')
            mode = c.choose([z3.BoolVal(True), z3.BoolVal(True)])
        else:
            mode = 1
        k = L.k
        if mode == 0:
            kk = n if n is not None else k
            c.assume(kk >= start)
            self.havoc(L, kk, st, None)
            self.phase = 'done'
            return 'exit'
        c.assume(k >= start)
        if n is not None:
            c.assume(k < n)
        self.n0 = c.n
        self.havoc(L, k, st, L)
        c.loop_versions = c.loop_versions + ((self.lid, self.count, L.id, L.round),)
        self.kterm = k
        self.phase = 'iter'
        self.pc0 = len(c.pc)
        return 'iter'

    def havoc(self, L, k, st, _):
        c = ctx()
        self.hv = True
        self.vals = {}
        self.headvals = dict(st.vals)
        leafvals = {}
        for slot, sh in L.mods.items():
            if sh[0] == 'U':
                v = UNB
            elif sh[0] == 'C':
                i = c.fresh('const')
                v = sh[1][c.choose([i == j for j in range(len(sh[1]))])]
            else:
                leaves = []
                for i, kind in enumerate(sh[2]):
                    cl = L.closed.get((slot, i))
                    if cl is not None:
                        x = cl(k)
                    elif kind == 'list':
                        base = next(iter(l for l in flatten(st.vals[slot])[1]))
                        m = z3.Int('m%d!%s' % (L.id, '.'.join(map(str, slot))))
                        c.assume(m >= 0)
                        x = ListState(base.segs + [Seg(m, _unknown, Marker)])
                        x.base = len(base.segs)
                    elif kind == 'over':
                        base = next(iter(flatten(st.vals[slot])[1]))
                        x = OverState(base.ov + [(None, Marker)])
                    else:
                        t = L.var(slot, i, kind)
                        x = SBool(t) if kind == 'bool' else SAtom(t) if kind == 'str' else SNum(t, kind)
                    leaves.append(x)
                    leafvals[(slot, i)] = x
                v = unflatten(sh[1], iter(leaves))
            self.headvals[slot] = v
            if slot[0] == 'v':
                self.vals[slot] = v
            else:
                st.restore(slot, v)
        for desc, f in L.invs:
            t = f(k, leafvals)
            if t is not None:
                c.assume(t)
        if L.prev is not None:
            c.assume(z3.Or(k == self.count, z3.substitute(L.prev, (L.k, k - 1))))
            if z3.is_false(z3.simplify(L.prev)) is False and L.k.decl().name() in consts_of(L.prev):
                q = z3.Int('__pv%d' % L.id)
                c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= self.count, q < k),
                                                   z3.substitute(L.prev, (L.k, q)))))
        self.leafvals = leafvals

    def check_closed(self, L, k, vals, what):
        c = ctx()
        S = c.session
        lv = {}
        for slot, sh in L.mods.items():
            if sh[0] == 'U':
                continue
            v = vals.get(slot, UNB)
            if sh[0] == 'C':
                if not any(same(v, x) for x in sh[1]):
                    raise Unsupported('loop %s: %r leaves its value set' % (self.lid, slot))
                continue
            sk, leaves = flatten(v) if v is not UNB else (None, [])
            if sk != sh[1]:
                raise Unsupported('loop %s: %r changes shape (%s)' % (self.lid, slot, what))
            for i, x in enumerate(leaves):
                lv[(slot, i)] = x
                cl = L.closed.get((slot, i))
                if cl is not None:
                    g = leaf_eq(x, cl(k))
                    S.check('%s: invariant of %s for %s %s' % (S.label, self.lid, slotname(slot), what), g)
                    if (slot, i) in L.hinted and c.discover is None and S.obligations[-1].status != 'proved':
                        # a suggested invariant that does not hold is no invariant: start again without it
                        raise core.DropHint((self.lid, slotname(slot), i))
                elif sh[2][i] == 'int' and not isint(x):
                    raise Unsupported('loop %s: %r changes kind' % (self.lid, slot))
        for desc, f in L.invs:
            t = f(k, lv)
            if t is not None:
                S.check('%s: invariant (%s) of %s %s' % (S.label, desc, self.lid, what), t)

    def end_iter(self, frame):
        c = ctx()
        L = self.L
        end = State(frame, self.names, self.entry.objs)
        if self.discovering:
            if c.discover == L.key:
                L.recs.append(Rec(self, c, dict(self.headvals), end.vals, list(c.pc[self.pc0:]), self.n0,
                                  list(c.reductions)))
            raise PathEnd('iteration recorded')
        for slot in set(self.headvals) | set(end.vals):
            if slot in L.mods:
                continue
            a, b = self.headvals.get(slot, UNB), end.vals.get(slot, UNB)
            if not same(a, b):
                if a is UNB or b is UNB:
                    raise Unsupported('loop %s modifies %r outside its frame' % (self.lid, slot))
                if flatten(a)[0] != flatten(b)[0]:
                    raise Unsupported('loop %s modifies %r outside its frame' % (self.lid, slot))
                c.session.check('%s: frame of %s' % (c.session.label, self.lid),
                                z3.And(*[leaf_eq(x, y) for x, y in zip(flatten(a)[1], flatten(b)[1])]))
        for r in list(c.reductions):
            if r.n.eq(self.kterm) or r.n.eq(z3.simplify(self.kterm + 1)):
                red.unfold(r, self.kterm)
        self.check_closed(L, z3.simplify(self.kterm + 1), end.vals, 'is preserved')
        raise PathEnd('arbitrary iteration done')


def _unknown(i):
    raise Unsupported('content of a list built by a loop is unknown here')


class Rec(object):
    def __init__(self, loop, c, head, end, pc, n0, reductions):
        self.head, self.end, self.pc, self.n0, self.reductions = head, end, pc, n0, reductions


def leaf_eq(a, b):
    if isinstance(a, ListState) and isinstance(b, ListState):
        return veq(VList(_Segs(a.segs)), VList(_Segs(b.segs))) if not any(
            isinstance(s, Seg) and s.pred is not None for s in a.segs + b.segs) else list_ext_eq(a, b)
    if isinstance(a, OverState):
        return over_eq(a, b)
    return veq(a, b)


def list_ext_eq(a, b):
    """Equality of lists with filtered segments: a = common prefix ++ Seg(k,P,G) ++ literal tail, b the same."""
    x, y = _mergeable(a.segs), _mergeable(b.segs)
    # b is the closed form at k+1: prefix ++ Seg(k+1); a is prefix ++ Seg(k) ++ optional [item]
    if len(y) and isinstance(y[-1], Seg):
        sy = y[-1]
        px = [s for s in x]
        tail = []
        if px and isinstance(px[-1], list) and len(px) > len(y):
            tail = px.pop()
        if len(px) == len(y) and isinstance(px[-1], Seg) and all(p is q or p == q for p, q in zip(px[:-1], y[:-1])):
            sx = px[-1]
            i = z3.Int('__le')
            iv = SNum(i, 'int')
            grow = z3.simplify(sy.n - sx.n)
            if z3.is_int_value(grow) and grow.as_long() in (0, 1) and len(tail) <= 1:
                px_, py_ = (z3.BoolVal(True) if s.pred is None else zb(s.pred(iv)) for s in (sx, sy))
                ex = [i >= 0, i < sx.n]
                conj = [z3.Implies(z3.And(*ex), px_ == py_)]
                vx = cont.merge_eval(lambda: sx.get(iv), ex + [px_])
                vy = cont.merge_eval(lambda: sy.get(iv), ex + [px_])
                conj.append(z3.Implies(z3.And(*(ex + [px_])), veq(vx, vy)))
                if grow.as_long() == 1:
                    kk = SNum(sx.n, 'int')
                    pk = z3.BoolVal(True) if sy.pred is None else zb(sy.pred(kk))
                    if tail:
                        vk = cont.merge_eval(lambda: sy.get(kk), [pk])
                        conj.append(z3.And(pk, veq(tail[0], vk)))
                    else:
                        conj.append(z3.Not(pk))
                elif tail:
                    return z3.BoolVal(False)
                return z3.And(*conj)
    raise Unsupported('list equality')


def _mergeable(segs):
    return [s for s in segs if not (isinstance(s, list) and not s) and not (
        isinstance(s, Seg) and z3.is_int_value(s.n) and s.n.as_long() == 0)]


def over_eq(a, b):
    """a: base ++ seg(k) ++ writes ; b: base ++ seg(k+1)."""
    x = [w for w in a.ov if not (w[0] is None and isinstance(w[1], Seg) and _zero(w[1].n))]
    y = [w for w in b.ov if not (w[0] is None and isinstance(w[1], Seg) and _zero(w[1].n))]
    if len(x) == len(y) and all(p is q for p, q in zip(x, y)):
        return z3.BoolVal(True)
    if len(x) == len(y) and all(p[0] is not None and q[0] is not None for p, q in zip(x, y)):
        return z3.And(*([veq(tuple(p), tuple(q)) for p, q in zip(x, y)] + [z3.BoolVal(True)]))
    if y and y[-1][0] is None and isinstance(y[-1][1], Seg):
        sy = y[-1][1]
        if len(x) == len(y) + 1 and x[-1][0] is not None and isinstance(x[-2][1], Seg):
            sx, w = x[-2][1], x[-1]
        elif len(x) == len(y) and x[-1][0] is not None:
            sx, w = Seg(z3.IntVal(0), None), x[-1]
        else:
            raise Unsupported('dict equality')
        i = z3.Int('__le')
        iv = SNum(i, 'int')
        conj = [sy.n == sx.n + 1]
        if not _zero(sx.n):
            ex = [i >= 0, i < sx.n]
            conj.append(z3.Implies(z3.And(*ex), veq(cont.merge_eval(lambda: sx.get(iv), ex),
                                                    cont.merge_eval(lambda: sy.get(iv), ex))))
        vk = cont.merge_eval(lambda: sy.get(SNum(sx.n, 'int')))
        conj.append(veq((w[0], w[1]), vk))
        return z3.And(*conj)
    raise Unsupported('dict equality')


def _zero(n):
    return z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 0


# ------------------------------------------------------------------ inference
def infer(loop, key, st, n):
    c = ctx()
    S = c.session
    L = LoopInfo(key, loop.lid)
    L.entry = st.vals
    L.n = n               # number of iterations of the loop
    L.start = loop.count
    prefix = c.decisions()
    S.inprogress[key] = L
    try:
        for rnd in range(10):
            L.round = rnd
            L.recs = []

            def setup(cc):
                cc.discover = key
            S.explore(S.thunk, prefix=prefix, setup=setup)
            changed, peel = update_mods(L, st)
            for slot, sh in L.mods.items():
                if sh[0] == 'F':
                    for i, kind in enumerate(sh[2]):
                        for h in S.closed_hints:
                            if (loop.lid, slotname(slot), i) in S.dropped:
                                continue
                            f = h(L, slot, i, kind) if (slot, i) not in L.closed else None
                            if f is not None:
                                L.closed[(slot, i)] = f
                                L.hinted.add((slot, i))
            if peel:
                if loop.count >= 2:
                    raise Unsupported('loop %s: state has no uniform shape (%s)' % (loop.lid, peel))
                return 'peel'
            if not changed:
                break
        else:
            raise Unsupported('loop %s: modification set does not stabilise' % loop.lid)
    finally:
        S.inprogress.pop(key, None)
    derive(L, st, n, c)
    return L


CONST = (str, type(None), bool)


def ctx_flags():
    """Flags are kept symbolic where the contract relates them to other state."""
    return ctx().session.flags


def update_mods(L, st):
    changed = False
    for r in L.recs:
        for slot in list(r.head) + [s for s in r.end if s not in r.head]:
            a, b = r.head.get(slot, UNB), r.end.get(slot, UNB)
            if same(a, b):
                continue
            old = L.mods.get(slot)
            if old == ('U',):
                continue
            v0 = st.vals.get(slot, UNB)
            new = None
            if slot[0] == 'v' and (v0 is UNB):
                new = ('U',)
            elif v0 is UNB or b is UNB:
                return changed, 'key or attribute %r appears or disappears' % (slot,)
            else:
                vals = [v0, b]
                if old and old[0] == 'C':
                    vals = list(old[1]) + [b]
                if all(isinstance(v, CONST) and not isinstance(v, SBool) for v in vals) and not (
                        ctx_flags() and all(isinstance(v, bool) for v in vals)):
                    cs = []
                    for v in vals:
                        if not any(same(v, w) for w in cs):
                            cs.append(v)
                    new = ('C', cs) if len(cs) <= 6 else None
                if new is None:
                    s0, l0 = flatten(v0)
                    s1, l1 = flatten(b)
                    if s0 != s1:
                        # retry after peeling one iteration when that can help, otherwise unbind
                        if s0[0] == 'c' or s1[0] == 'c':
                            return changed, '%r is %s first and %s later' % (slot, s0, s1)
                        if slot[0] == 'v':
                            new = ('U',)
                        else:
                            return changed, '%r changes shape from %s to %s' % (slot, s0, s1)
                    elif isinstance(s0, tuple) and s0[0] == 'id':
                        new = ('U',) if slot[0] == 'v' else None
                        if new is None:
                            return changed, '%r is re-bound to another object' % (slot,)
                    else:
                        kinds = []
                        for i, (x, y) in enumerate(zip(l0, l1)):
                            k0, k1 = kind_of(x), kind_of(y)
                            if old and old[0] == 'F' and old[1] == s0:
                                k0 = join_kind(k0, old[2][i])
                            kinds.append(join_kind(k0, k1))
                        new = ('F', s0, kinds)
            if new != old:
                L.mods[slot] = new
                changed = True
    return changed, None


def kind_of(x):
    if isinstance(x, ListState):
        return 'list'
    if isinstance(x, OverState):
        return 'over'
    if isinstance(x, (bool, SBool)):
        return 'bool'
    if isinstance(x, (str, SAtom)):
        return 'str'
    return 'int' if isint(x) else 'float'


def join_kind(a, b):
    if a == b:
        return a
    if {a, b} <= {'int', 'float', 'bool'}:
        return 'float' if 'float' in (a, b) else 'int'
    raise Unsupported('incompatible kinds %s/%s' % (a, b))


def derive(L, st, n, c):
    """Closed forms for modified slots, each verified by induction over the recorded body paths."""
    S = c.session
    leaves = {}     # (slot, i) -> (v0, [per-record head], [per-record end])
    for slot, sh in L.mods.items():
        if sh[0] != 'F':
            continue
        l0 = flatten(st.vals[slot])[1]
        for i, kind in enumerate(sh[2]):
            hs, es = [], []
            for r in L.recs:
                hs.append(flatten(r.head[slot])[1][i])
                es.append(flatten(r.end[slot])[1][i])
            leaves[(slot, i)] = (l0[i], hs, es, kind)
    state_vars = {}
    for (slot, i), (v0, hs, es, kind) in leaves.items():
        if kind in ('int', 'float', 'bool', 'str'):
            state_vars[(slot, i)] = L.var(slot, i, kind)
        elif kind == 'list':
            state_vars[(slot, i)] = z3.Int('m%d!%s' % (L.id, '.'.join(map(str, slot))))
    for rnd in range(4):
        progress = False
        for lk, (v0, hs, es, kind) in leaves.items():
            if lk in L.closed:
                continue
            f = try_close(L, lk, v0, es, kind, state_vars, c, n)
            if f is not None:
                L.closed[lk] = f
                progress = True
        if not progress:
            break
    if L.recs:
        # every completed iteration went along one of the recorded paths
        pairs = state_pairs(L, state_vars, L.k)
        openv = {v.decl().name() for q, v in state_vars.items() if q not in L.closed}
        alts = []
        for r in L.recs:
            alts.append(z3.And(*[p for p in path_cond(r, pairs) if free_ok(p, r.n0, openv)] + [z3.BoolVal(True)]))
        L.prev = z3.simplify(z3.Or(*alts))
        if n is not None:
            sol = z3.Solver()
            sol.set('timeout', 1000)
            sol.add(*c.pc)
            sol.add(L.k >= L.start, L.k < n)
            if sol.check(z3.Not(L.prev)) == z3.unsat:
                L.prev = None
    open_leaves = [lk for lk in leaves if lk not in L.closed]
    L.open = open_leaves
    # Houdini over bounds and contract-supplied templates for what has no closed form
    cands = []
    for lk in open_leaves:
        v0, hs, es, kind = leaves[lk]
        if kind in ('int', 'float'):
            z0 = sreal(v0)
            cands.append(('%s >= entry' % (lk,), (lambda lk, z0: lambda k, lv: sreal(lv[lk]) >= z0)(lk, z0)))
            cands.append(('%s <= entry' % (lk,), (lambda lk, z0: lambda k, lv: sreal(lv[lk]) <= z0)(lk, z0)))
            cands.append(('%s >= 0' % (lk,), (lambda lk: lambda k, lv: sreal(lv[lk]) >= 0)(lk)))
    for t in getattr(S, 'templates', []):
        cands += t(L, leaves, open_leaves)
    if cands:
        L.invs = houdini(L, cands, leaves, state_vars, c)


def state_pairs(L, state_vars, k):
    p = []
    for lk, var in state_vars.items():
        if lk in L.closed:
            v = L.closed[lk](k)
            if isinstance(v, SBool) or isinstance(v, bool):
                p.append((var, zb(v)))
            elif isinstance(v, (SAtom, str)):
                p.append((var, v.t if isinstance(v, SAtom) else z3.IntVal(core.atom_id(v))))
            elif isinstance(v, ListState):
                p.append((var, _seglen(v)))
            elif var.sort() == z3.RealSort():
                p.append((var, sreal(v)))
            else:
                p.append((var, sint(v)))
    return p


def _seglen(v):
    s = v.segs[-1]
    if s.pred is None:
        return s.n
    return sint(red.count(s))


FRESH = re.compile(r'^[A-Za-z_]\w*!(\d+)$')


def free_ok(t, n0, openvars):
    """t depends only on k and values fixed at the loop head."""
    for nm in consts_of(t):
        if nm in openvars:
            return False
        m = FRESH.match(nm)
        if m and int(m.group(1)) > n0:
            return False
    return True


def path_cond(r, pairs):
    return [zsub(p, pairs) if pairs else p for p in r.pc if p.get_id() not in core.DEFS]


def try_close(L, lk, v0, es, kind, state_vars, c, n):
    k = L.k
    pairs = state_pairs(L, state_vars, k)
    openvars = {v.decl().name() for q, v in state_vars.items() if q not in L.closed and q != lk}
    n0 = min([r.n0 for r in L.recs] or [0])
    if kind == 'list':
        return close_list(L, lk, v0, es, pairs, openvars, n0, state_vars)
    if kind == 'over':
        return close_over(L, lk, v0, es, pairs, openvars, n0)
    s = state_vars.get(lk)
    me = s.decl().name() if s is not None else None
    if kind in ('int', 'float'):
        cv = sint if kind == 'int' else sreal
        try:
            ends = [zsub(cv(e), pairs) if pairs else z3.simplify(cv(e)) for e in es]
        except Unsupported:
            return None
        z0 = cv(v0)
        start = z3.IntVal(L.start)
        conds = [z3.And(*(path_cond(r, pairs) + [z3.BoolVal(True)])) for r in L.recs]
        deltas = [z3.simplify(e - s, som=True) for e in ends]
        # constant step
        if deltas and all(z3.is_int_value(d) or z3.is_rational_value(d) for d in deltas) and \
                all(d.eq(deltas[0]) for d in deltas):
            d = deltas[0]
            return lambda kk: mk(z0 + d * ((kk - start) if kind == 'int' else z3.ToReal(kk - start)), kind)
        if deltas and all(d.eq(deltas[0]) for d in deltas) and free_ok(deltas[0], n0, openvars | {me}) and \
                k.decl().name() not in consts_of(deltas[0]):
            d = deltas[0]
            return lambda kk: mk(z0 + d * ((kk - start) if kind == 'int' else z3.ToReal(kk - start)), kind)
        # sum of terms depending on the index only
        if all(free_ok(d, n0, openvars | {me}) for d in deltas) and cond_ok(conds, deltas, n0, openvars | {me}):
            val = ite(conds, deltas)
            f = closed_red('sum', val, k, start, z0, kind, n)
            if verify(L, lk, f, z0, ends, conds, s, c, kind, state_vars):
                return f
        # product
        fac = []
        for e in ends:
            q = quotient(e, s)
            if q is None:
                break
            fac.append(q)
        if len(fac) == len(ends) and fac and all(free_ok(d, n0, openvars | {me}) for d in fac) and \
                cond_ok(conds, fac, n0, openvars | {me}):
            val = ite(conds, fac)
            f = closed_red('prod', val, k, start, z0, kind, n)
            if verify(L, lk, f, z0, ends, conds, s, c, kind, state_vars):
                return f
        # copy of another slot
        for lk2, g in list(L.closed.items()):
            sh2 = L.mods[lk2[0]]
            if sh2[2][lk2[1]] != kind:
                continue
            try:
                e2 = [cv(flatten(r.end[lk2[0]])[1][lk2[1]]) for r in L.recs]
                e1 = [cv(e) for e in es]
            except (Unsupported, KeyError):
                continue
            if all(z3.simplify(a).eq(z3.simplify(b)) for a, b in zip(e1, e2)):
                def f(kk, g=g):
                    return mk(z3.If(kk <= start, z0, cv(g(kk))), kind)
                return f
        # running maximum / minimum
        for cand in extremum_cands(ends, me):
            if not free_ok(cand, n0, openvars | {me}):
                continue
            for op in ('max', 'min'):
                for keep0 in (False, True):
                    if not keep0 and L.start == 0:
                        continue
                    f = closed_ext(op, cand, k, start, z0, kind, keep0)
                    if verify(L, lk, f, z0, ends, conds, s, c, kind, state_vars):
                        return f
        return None
    if kind == 'bool':
        # flag set when some element satisfies a condition (any), or cleared (all)
        try:
            ends = [zsub(zb(e), pairs) if pairs else z3.simplify(zb(e)) for e in es]
        except Unsupported:
            return None
        conds = [z3.And(*(path_cond(r, pairs) + [z3.BoolVal(True)])) for r in L.recs]
        z0 = zb(v0)
        start = z3.IntVal(L.start)
        for op in ('any', 'all'):
            fix = z3.BoolVal(op == 'all')
            e = ite(conds, ends)
            val = z3.simplify(z3.substitute(e, (s, z3.BoolVal(op == 'all'))))
            if not free_ok(val, n0, openvars | {me}):
                continue

            def f(kk, op=op, val=val):
                r = red.instance(op, kk, z3.BoolVal(True), zsub(val, [(k, red.IDX)]), z3.BoolSort()).term
                return SBool(z3.simplify(z3.Or(z0, r) if op == 'any' else z3.And(z0, r)))
            if verify(L, lk, f, z0, ends, conds, s, c, kind, state_vars):
                return f
    return None


def cond_ok(conds, vals, n0, names):
    if all(v.eq(vals[0]) for v in vals):
        return True
    return all(free_ok(z3.simplify(x), n0, names) for x in conds)


def ite(conds, vals):
    v = vals[-1]
    for cnd, x in list(zip(conds, vals))[-2::-1]:
        v = z3.If(cnd, x, v)
    return z3.simplify(v)


def quotient(e, s):
    if e.eq(s):
        return z3.IntVal(1) if s.sort() == z3.IntSort() else z3.RealVal(1)
    if z3.is_mul(e):
        ch = list(e.children())
        for i, x in enumerate(ch):
            if x.eq(s):
                rest = ch[:i] + ch[i + 1:]
                r = rest[0]
                for y in rest[1:]:
                    r = r * y
                if s.decl().name() in consts_of(r):
                    return None
                return r
    return None


def extremum_cands(ends, me):
    out = []
    st = list(ends)
    while st:
        t = st.pop()
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            st += [t.arg(1), t.arg(2)]
            continue
        if me not in consts_of(t) and not any(t.eq(o) for o in out):
            out.append(t)
    return out[:4]


def closed_red(op, val, k, start, z0, kind, n):
    v = zsub(val, [(k, red.IDX)])

    def f(kk):
        r = red.instance(op, kk, z3.BoolVal(True), v, v.sort()).term
        if op == 'prod':
            if not _zero(start):
                raise Unsupported('product from a later start')
            return mk(z0 * r, kind)
        r0 = red.instance(op, start, z3.BoolVal(True), v, v.sort()).term if not _zero(start) else 0
        if not _zero(start):
            for j in range(start.as_long()):
                red.unfold(red.Red(op, z3.IntVal(j), z3.BoolVal(True), v, r), z3.IntVal(j))
        return mk(z0 + r - r0, kind)
    return f


def closed_ext(op, val, k, start, z0, kind, keep0):
    v = zsub(val, [(k, red.IDX)])

    def f(kk):
        r = red.instance(op, kk, z3.BoolVal(True), v, v.sort()).term
        if not keep0:
            return mk(r, kind)
        b = (z0 >= r) if op == 'max' else (z0 <= r)
        return mk(z3.If(kk <= start, z0, z3.If(b, z0, r)), kind)
    return f


def verify(L, lk, f, z0, ends, conds, s, c, kind, state_vars):
    """Base case and step of a closed form, over the recorded body paths."""
    k = L.k
    nred = len(c.reductions)
    c0 = len(c.pc)
    sol = z3.Solver()
    sol.set('timeout', 3000)
    c.solver.push()
    try:
        cv = {'int': sint, 'float': sreal, 'bool': zb}[kind]
        try:
            a, b, base = cv(f(k)), cv(f(z3.simplify(k + 1))), cv(f(z3.IntVal(L.start)))
        except Unsupported:
            return False
        for r in list(c.reductions):
            red.unfold(r, k) if r.n.eq(k) or r.n.eq(z3.simplify(k + 1)) else None
            if r.op in ('max', 'min') or L.start > 0:
                for j in range(L.start):
                    red.unfold(r, z3.IntVal(j))
        sol.add(*c.pc)
        sol.add(k >= L.start)
        sol.push()
        sol.add(base != z0)
        if sol.check() != z3.unsat:
            return False
        sol.pop()
        for e, cnd in zip(ends, conds):
            sol.push()
            sol.add(zsub(cnd, [(s, a)]))
            sol.add(zsub(e, [(s, a)]) != b)
            ok = sol.check() == z3.unsat
            sol.pop()
            if not ok:
                return False
        return True
    finally:
        c.solver.pop()
        del c.pc[c0:]
        del c.reductions[nred:]


def close_list(L, lk, v0, es, pairs, openvars, n0, state_vars):
    k = L.k
    items, conds = [], []
    mv = state_vars[lk]
    for r, e in zip(L.recs, es):
        h = flatten(r.head[lk[0]])[1][lk[1]]
        if len(e.segs) < len(h.segs) or not all(
                x is y or (isinstance(x, list) and x == y) for x, y in zip(e.segs[:len(h.segs)], h.segs)):
            return None
        tail = e.segs[len(h.segs):]
        if any(not isinstance(s, list) for s in tail):
            return None
        t = [x for s in tail for x in s]
        if len(t) > 1:
            return None
        items.append(t)
        cond = z3.And(*(path_cond(r, pairs) + [z3.BoolVal(True)]))
        conds.append(z3.simplify(cond))
    bad = openvars | {mv.decl().name()}
    every = all(items)
    if every:
        # each iteration appends exactly one item: their number is known
        pairs = list(pairs) + [(mv, k - L.start)]
    vals = []
    for t in items:
        if t:
            try:
                v = vsubst(t[0], pairs)
            except Unsupported:
                return None
            for term in leaf_terms(v):
                if not free_ok(term, n0, bad):
                    return None
            vals.append(v)
    if not vals:
        return None
    if not every or len(vals) > 1:
        if not all(free_ok(x, n0, bad) for x in conds):
            return None
    g = vals[-1]
    cs = [x for x, t in zip(conds, items) if t]
    for cnd, v in list(zip(cs, vals))[-2::-1]:
        g = cont.merge(cnd, v, g)
    pred = None if every else z3.simplify(z3.Or(*cs))
    if L.start:
        base = ListState(v0.segs)
        off = L.start
    else:
        base, off = v0, 0

    def f(kk):
        get = lambda i: vsubst(g, [(k, z3.simplify(sint(i) + off))])
        p = None if pred is None else (lambda i: SBool(zsub(pred, [(k, z3.simplify(sint(i) + off))])))
        nn = z3.simplify(kk - off)
        if _zero(nn):
            return ListState(base.segs)
        return ListState([s for s in base.segs if s != []] + [Seg(nn, get, p)])
    return f


def close_over(L, lk, v0, es, pairs, openvars, n0):
    k = L.k
    items = []
    for r, e in zip(L.recs, es):
        h = flatten(r.head[lk[0]])[1][lk[1]]
        t = e.ov[len(h.ov):]
        if len(t) != 1 or not all(x is y or x[1] is Marker for x, y in zip(e.ov, h.ov)):
            return None
        v = vsubst((t[0][0], t[0][1]), pairs)
        for term in leaf_terms(v):
            if not free_ok(term, n0, openvars):
                return None
        items.append((z3.simplify(z3.And(*path_cond(r, pairs))) if r.pc else z3.BoolVal(True), v))
    if not items:
        return None
    if len(items) > 1 and not all(free_ok(x, n0, openvars) for x, _ in items):
        return None
    g = items[-1][1]
    for cnd, v in items[-2::-1]:
        g = cont.merge(cnd, v, g)
    off = L.start

    def f(kk):
        nn = z3.simplify(kk - off)
        if _zero(nn):
            return OverState(v0.ov)
        return OverState(v0.ov + [(None, Seg(nn, lambda i: vsubst(g, [(k, z3.simplify(sint(i) + off))])))])
    return f


def houdini(L, cands, leaves, state_vars, c):
    k = L.k
    # base
    lv0 = {lk: v[0] for lk, v in leaves.items()}
    keep = []
    for desc, f in cands:
        t = f(z3.IntVal(L.start), lv0)
        if t is None:
            continue
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*c.pc)
        s.add(z3.Not(t))
        if s.check() == z3.unsat:
            keep.append((desc, f))
    pairs = state_pairs(L, state_vars, k)
    while keep:
        bad = None
        for r_i, r in enumerate(L.recs):
            hv = {}
            ev = {}
            for lk, (v0, hs, es, kind) in leaves.items():
                hv[lk] = L.closed[lk](k) if lk in L.closed else hs[r_i]
                try:
                    ev[lk] = vsubst(es[r_i], pairs) if kind in ('int', 'float', 'bool', 'str') else es[r_i]
                except Unsupported:
                    ev[lk] = es[r_i]
            s = z3.Solver()
            s.set('timeout', 3000)
            s.add(*c.pc)
            s.add(*path_cond(r, pairs))
            s.add(k >= L.start)
            for d, f in keep:
                s.add(f(k, hv))
            for i, (d, f) in enumerate(keep):
                s.push()
                s.add(z3.Not(f(z3.simplify(k + 1), ev)))
                ok = s.check() == z3.unsat
                s.pop()
                if not ok:
                    bad = i
                    break
            if bad is not None:
                break
        if bad is None:
            return keep
        del keep[bad]
    return []


# ------------------------------------------------------------------ for / while drivers
class ForLoop(LoopBase):
    def __init__(self, lid, it, names, isgen):
        LoopBase.__init__(self, lid, names, isgen)
        self.native = None
        seq = as_seq(it)
        if seq is None:
            self.native = iter(it)
            self.mode = 'native'
        elif seq.concrete:
            self.mode = 'concrete'
            self.seq = seq
            self.pos = 0
        else:
            self.mode = 'sym'
            self.seq = VList(_Segs([list(s) if isinstance(s, list) else s for s in seq.segs]))
            if self.seq.filtered():
                if len(self.seq.segs) > 1:
                    raise Unsupported('loop over a partly filtered sequence')
                self.pred = self.seq.segs[0].pred
                self.seq = VList.sym(self.seq.segs[0].n, self.seq.segs[0].get)
            else:
                self.pred = None
            self.n = sint(self.seq.vlen())

    def item(self):
        return self.cur

    def step(self):
        self.hv = False
        if self.mode == 'native':
            try:
                self.cur = next(self.native)
                return True
            except StopIteration:
                return False
        if self.mode == 'concrete':
            l = self.seq.lit() if isinstance(self.seq, VList) else self.seq
            if self.pos < len(l):
                self.cur = l[self.pos]
                self.pos += 1
                return True
            return False
        frame = sys._getframe(1)
        if self.phase == 'iter':
            self.end_iter(frame)
        r = self.head(frame, self.n)
        if r == 'peel':
            if self.pred is not None:
                raise Unsupported('peeling a filtered loop')
            if ctx().decide(self.n > self.count):
                self.cur = self.seq.at(SNum(z3.IntVal(self.count), 'int'))
                self.count += 1
                return True
            return False
        if r == 'exit':
            return False
        kv = SNum(self.kterm, 'int')
        if self.pred is not None and not bool(self.pred(kv)):
            # filtered out: the iteration does nothing
            self.skip(frame)
        self.cur = self.seq.at(kv)
        return True

    def skip(self, frame):
        class F(object):
            pass
        f = F()
        f.f_locals = {n: v for n, v in frame.f_locals.items()}
        for (kind, n), v in [(s, v) for s, v in self.vals.items() if s[0] == 'v']:
            if v is UNB:
                f.f_locals.pop(n, None)
            else:
                f.f_locals[n] = v
        f.f_globals = frame.f_globals
        self.end_iter(f)


class WhileLoop(LoopBase):
    def __init__(self, lid, names, isgen):
        LoopBase.__init__(self, lid, names, isgen)
        self.cut = False

    def step(self):
        self.hv = False
        if core.CTX is None:
            return
        frame = sys._getframe(1)
        c = ctx()
        if self.phase == 'iter':
            self.end_iter(frame)
        key = self.key()
        self.k0 = key
        if key in c.session.cutkeys:
            r = self.head(frame, None)
            if r == 'peel':
                pass
            elif r == 'exit':
                self.exiting = True
            self.cutting = True
        else:
            self.cutting = False
        self.taken0 = len(c.taken)

    def test(self, cond):
        if core.CTX is None:
            return bool(cond)
        c = ctx()
        if self.cutting and self.phase in ('iter', 'done'):
            v = bool(cond)
            if self.phase == 'iter' and not v:
                raise PathEnd('covered by the exit case')
            if self.phase == 'done' and v:
                raise PathEnd('covered by the iteration case')
            return v
        hint = not self.cutting and isinstance(cond, SBool) and any(h in self.lid for h in c.session.cut_hints) and \
            not (z3.is_true(z3.simplify(cond.t)) or z3.is_false(z3.simplify(cond.t)))
        v = bool(cond)
        if hint or not self.cutting and any(t[2] for t in c.taken[self.taken0:]):
            c.session.cutkeys.add(self.k0)
            raise Restart()
        self.count += 1
        if self.count > 200:
            raise Unsupported('while loop does not end')
        return v
