"""Vocabulary available to driver programs.

Drivers are never executed: they are parsed and abstractly interpreted together with the repository's source.
Every function below receives abstract values and the abstract state.
"""
import random
from fractions import Fraction

from .values import *
from .interp import Exc, HList, HInst
from . import arrays as A
from . import terms


UNKNOWN = T('unknown')


def has_op(t, ops):
    if not isinstance(t, T):
        return False
    return t.op in ops or any(has_op(x, ops) for x in t.args)


class Violation(object):
    def __init__(self, driver, line, msg, detail, stack, sites):
        self.driver, self.line, self.msg, self.detail, self.stack, self.sites = driver, line, msg, detail, stack, sites

    def key(self):
        return (self.driver, self.line, self.msg)


class Recorder(object):
    """obligations decided while drivers are interpreted"""

    def __init__(self):
        self.violations = {}
        self.obl = {}          # (driver, line) -> [true, false, unknown]
        self.undecided = []
        self.driver = None

    def mark(self, line, verdict):
        o = self.obl.setdefault((self.driver, line), [0, 0, 0])
        o[{True: 0, False: 1, None: 2}[verdict]] += 1

    def violate(self, line, msg, detail, stack, sites):
        v = Violation(self.driver, line, msg, detail, stack, short_sites([s for s in sites if s]))
        self.violations.setdefault(v.key(), v)


FREE = ('data', 'sym', 'symint', 'symfloat', 'symcomplex', 'dim')


def point(t, env, rnd):
    """value of a term at a point of its free symbols (exact rationals); KeyError for anything but + * / and integer powers"""
    if isinstance(t, K) and isinstance(t.v, (int, float)) and not isinstance(t.v, bool):
        return Fraction(t.v)
    if not isinstance(t, T) or t is TOP:
        raise KeyError(t)
    if t.op in FREE:
        if t not in env:
            env[t] = Fraction(rnd.randint(2, 10 ** 6), rnd.randint(1, 10 ** 3))
        return env[t]
    if t.op == 'add':
        return sum(point(x, env, rnd) for x in t.args)
    if t.op == 'mul':
        r = Fraction(1)
        for x in t.args:
            r *= point(x, env, rnd)
        return r
    if t.op == 'div':
        d = point(t.args[1], env, rnd)
        if d == 0:
            raise KeyError(t)
        return point(t.args[0], env, rnd) / d
    if t.op == 'pow' and isinstance(t.args[1], K) and isinstance(t.args[1].v, int) and abs(t.args[1].v) < 10:
        return point(t.args[0], env, rnd) ** t.args[1].v
    if t.op == 'const' and len(t.args) == 1:
        return point(t.args[0], env, rnd)
    raise KeyError(t)


def identical(x, y):
    """identity of two rational terms over free symbols: True, False, or None when another operation occurs"""
    rnd = random.Random(7)
    for a, b in ((x, y), (y, x)):
        if isinstance(a, K) and (a.v is None or isinstance(a.v, str)):
            if isinstance(b, (K, Ref, Tup)):
                return isinstance(b, K) and a.v == b.v
            try:
                point(b, {}, rnd)
                return False        # a number is neither None nor a string
            except Exception:
                return None
    try:
        for _ in range(3):
            env = {}
            a, b = point(x, env, rnd), point(y, env, rnd)
            if abs(a - b) > abs(a) * Fraction(1, 10 ** 9):
                return False
        return True
    except (KeyError, OverflowError, ZeroDivisionError):
        return None


def kv(v):
    return v.v if isinstance(v, K) else None


def obj(st, v):
    return st.heap.get(v.oid) if isinstance(v, Ref) else None


def about_sites(I, st, vals):
    out = []
    for v in vals:
        o = obj(st, v)
        if o is None:
            continue
        s = getattr(o, 'site', None)
        if s and s[0] and '/drivers/' not in s[0]:
            out.append(s)
        w = getattr(o, 'wsite', None)
        if isinstance(w, dict):
            for x in w.values():
                if x and x[0] and '/drivers/' not in x[0] and x not in out:
                    out.append(x)
        elif w and w[0] and '/drivers/' not in w[0]:
            out.append(w)
    return out


def short_sites(sites):
    out, seen = [], set()
    for s in sites:
        if (s[0], s[2]) not in seen:
            seen.add((s[0], s[2]))
            out.append(s)
    return out[:4]


def fuzzy(st):
    return st.ghost.get('fuzzy') is not None


def reach(st, roots, skip_kinds=('class', 'frame')):
    """objects reachable from the values, as an ordered list of oids"""
    seen = []
    known = set()
    work = list(roots)
    while work:
        v = work.pop()
        if isinstance(v, Tup):
            work.extend(v.items)
            continue
        if isinstance(v, Phi):
            work.extend(v.alts)
            continue
        if isinstance(v, Bound):
            work.append(v.self_)
            continue
        if not isinstance(v, Ref) or v.oid in known:
            continue
        o = st.heap.get(v.oid)
        if o is None or o.kind in skip_kinds:
            continue
        known.add(v.oid)
        seen.append(v.oid)
        if o.kind == 'inst':
            work.extend(o.attrs.values())
        elif o.kind == 'list':
            work.extend(o.items or ())
            if o.elem is not None:
                work.append(o.elem)
        elif o.kind == 'dict':
            for k, x in o.entries:
                work.extend((k, x))
            if o.rest:
                work.extend(o.rest)
    return seen


def oname(I, st, oid, snap):
    o = snap.get(oid)
    if o is None:
        return '#%d' % oid
    if o.kind == 'inst':
        c = st.heap.get(o.cls)
        nm = o.attrs.get('name', o.attrs.get('_name'))
        return '%s%s' % (c.name if c else 'object', ' %r' % nm.v if isinstance(nm, K) else '')
    return {'list': 'list', 'dict': 'dict/set', 'arr': 'array'}.get(o.kind, o.kind)


def diff_obj(a, b):
    """textual difference, or None; 'may' differences (joined values) are returned with may=True"""
    if a is b:
        return None
    if a.kind != b.kind:
        return 'kind changed', False
    if a.kind == 'inst':
        for n in sorted(set(a.attrs) | set(b.attrs)):
            x, y = a.attrs.get(n, UNBOUND), b.attrs.get(n, UNBOUND)
            if x != y:
                may = isinstance(y, Phi) and (x in y.alts)
                return 'attribute %s changed from %r to %r' % (n, x, y), may
        return None
    if a.kind == 'list':
        if a.items != b.items or a.elem != b.elem or a.lkind != b.lkind:
            return 'contents changed from %r to %r' % (a.items, b.items), b.items is None
        return None
    if a.kind == 'dict':
        if dict(a.entries) != dict(b.entries) or a.rest != b.rest:
            return 'contents changed from %r to %r' % (a.entries, b.entries), b.rest is not None
        return None
    if a.kind == 'arr':
        if a.axes is not None and b.axes is not None and a.axes != b.axes:
            return 'shape/axes changed', False
        if a.term != b.term:
            return 'array contents written', False
        return None
    if a.kind in ('class', 'frame'):
        x, y = (a.attrs, b.attrs) if a.kind == 'class' else (a.vars, b.vars)
        for n in sorted(set(x) | set(y)):
            u, w = x.get(n, UNBOUND), y.get(n, UNBOUND)
            if u != w and not isinstance(w, ModV) and not n.startswith('__'):
                return '%s changed from %r to %r' % (n, u, w), isinstance(w, Phi) and u in w.alts
        return None
    return None


def lasting_objects(I):
    """everything in the library that outlives a call: modules, classes, default values and what they hold (the documented
    sets of names in use excepted)"""
    names = set()
    base = type('B', (), {'heap': I.base_heap})
    for oid, o in I.base_heap.items():
        if o.kind == 'inst' and getattr(I.base_heap.get(o.cls), 'name', '') == 'StringSet':
            names |= set(reach(base, [Ref(oid)]))
    snap = {}
    for oid, o in I.base_heap.items():
        if oid in names or oid < 0:
            continue
        if o.kind == 'frame' and not (o.parent is None and str(o.module).split('.')[0] == 'CTL'):
            continue
        s = getattr(o, 'site', None)
        if o.kind != 'frame' and not (s and str(s[0]).startswith(I.repo_dir)):
            continue
        snap[oid] = o
    return snap


def check_lasting(I, rec, st):
    """at the end of a driver: modules, classes and default values are as they were when the library was loaded"""
    bad = und = False
    for oid, o in lasting_objects(I).items():
        now = st.heap.get(oid)
        if now is None or now is o:
            continue
        d = diff_obj(o, now)
        if d is None:
            continue
        if d[1] or fuzzy(st):
            und = True
            rec.undecided.append((rec.driver, 0, 'lasting', d[0][:200]))
            continue
        bad = True
        nm = o.module if o.kind == 'frame' else getattr(o, 'name', None) or 'a %s made at %s:%s' % (o.kind, (o.site or ('?', 0))[0], (o.site or ('?', 0))[1])
        ws = wsite_of(now, d[0])
        rec.violate(0, 'a call changes an object that outlives it', '%s: %s' % (nm, d[0][:300]), [list(x) for x in I.last_calls][-4:],
                    [ws] if ws else [getattr(o, 'site', None)])
    rec.mark(0, False if bad else None if und else True)


def wsite_of(o, detail):
    w = getattr(o, 'wsite', None)
    if isinstance(w, dict):
        for n, s in w.items():
            if detail.startswith('attribute %s ' % n):
                return s
        return None
    return w


def register(I, rec):
    intr = I.intr

    def line(node):
        return getattr(node, 'lineno', 0)

    def intrinsic(f):
        intr[f.__name__.rstrip('_')] = f
        return f

    @intrinsic
    def dim(I, st, a, k, n):
        return [(st, T('dim', kv(a[0])))]

    @intrinsic
    def arr(I, st, a, k, n):
        """arr(name, dims, dtype='X'): an arbitrary array with the given extents; axis i carries the tag name.i"""
        nm = kv(a[0])
        dims = A.as_dims(I, st, a[1])
        dt = kv(k.get('dtype')) if 'dtype' in k else 'dt_' + nm
        axes = tuple((A.Ax(d, frozenset(['%s.%d' % (nm, i)])),) for i, d in enumerate(dims))
        r = I.new_arr(st, n, axes, frozenset([dt]), T('data', K(nm)), (), frozenset([('src', nm)]), 'drv ' + nm)
        return [(st, r)]

    @intrinsic
    def tarr(I, st, a, k, n):
        """tarr(name, dims, tags, dtype=)"""
        nm = kv(a[0])
        dims = A.as_dims(I, st, a[1])
        tags = [kv(x) for x in (a[2].items if isinstance(a[2], Tup) else obj(st, a[2]).items)]
        dt = kv(k.get('dtype')) if 'dtype' in k else 'dt_' + nm
        axes = tuple((A.Ax(d, frozenset([t])),) for d, t in zip(dims, tags))
        r = I.new_arr(st, n, axes, frozenset([dt]), T('data', K(nm)), (), frozenset([('src', nm)]), 'drv ' + nm)
        return [(st, r)]

    @intrinsic
    def sym(I, st, a, k, n):
        return [(st, T('sym', a[0]))]

    @intrinsic
    def symint(I, st, a, k, n):
        return [(st, T('symint', a[0]))]

    @intrinsic
    def symcomplex(I, st, a, k, n):
        return [(st, T('symcomplex', a[0]))]

    @intrinsic
    def symfloat(I, st, a, k, n):
        return [(st, T('symfloat', a[0]))]

    @intrinsic
    def symstr(I, st, a, k, n):
        return [(st, T('symstr', a[0]))]

    @intrinsic
    def maybe(I, st, a, k, n):
        s2 = I.fork(st)
        return [(st, TRUE), (s2, FALSE)]

    @intrinsic
    def choice(I, st, a, k, n):
        out = []
        for i, v in enumerate(a):
            out.append((st if i == len(a) - 1 else I.fork(st), v))
        return out

    def trail(st):
        return [list(x) for x in (I.last_calls or [])][-4:]

    @intrinsic
    def expect(I, st, a, k, n):
        msg = kv(a[1]) if len(a) > 1 else 'expectation'
        t = I.truth3(st, a[0]) if not isinstance(a[0], Phi) else None
        if isinstance(a[0], Phi):
            ts = {I.truth3(st, x) for x in a[0].alts if x is not UNBOUND}
            t = True if ts == {True} else (False if ts == {False} else None)
        if t is False and fuzzy(st):
            rec.undecided.append((rec.driver, line(n), msg, 'on a path chosen by an unknown condition'))
            t = None
        rec.mark(line(n), t)
        if t is False:
            rec.violate(line(n), msg, '; '.join(repr(x) for x in a[2:]), trail(st), about_sites(I, st, a[2:]))
        elif t is None:
            rec.undecided.append((rec.driver, line(n), msg, repr(a[0])[:300] + ' | ' + '; '.join(repr(x) for x in a[2:])[:300]))
        return [(st, K(t) if t is not None else TOP)]

    @intrinsic
    def fail(I, st, a, k, n):
        msg = kv(a[0])
        if fuzzy(st):
            rec.mark(line(n), None)
            rec.undecided.append((rec.driver, line(n), msg, 'fuzzy path'))
            return [(st, NONE)]
        rec.mark(line(n), False)
        rec.violate(line(n), msg, '; '.join(repr(x) for x in a[1:]), trail(st), about_sites(I, st, a[1:]))
        return [(st, NONE)]

    @intrinsic
    def ok(I, st, a, k, n):
        rec.mark(line(n), True)
        return [(st, NONE)]

    @intrinsic
    def stop(I, st, a, k, n):
        return []

    @intrinsic
    def tags(I, st, a, k, n):
        """origins of the axes of an array: one string per axis ('A.0*B.1' for a merged axis)"""
        o = obj(st, a[0])
        if o is None or o.kind != 'arr' or o.axes is None:
            return [(st, UNKNOWN)]
        out = []
        for g in o.axes:
            part = []
            for x in g:
                if A.UNK in x.tags:
                    return [(st, T('unknown'))]
                part.append('+'.join(sorted(x.tags)) if x.tags else '-')
            out.append(K('*'.join(part) if part else '1'))
        return [(st, Tup(out))]

    @intrinsic
    def sums(I, st, a, k, n):
        o = obj(st, a[0])
        if o is None or o.kind != 'arr' or o.sums is None:
            return [(st, UNKNOWN)]
        return [(st, T('sums', *[K(repr(x)) for x in o.sums]) if o.sums else Tup([]))]

    @intrinsic
    def sumpairs(I, st, a, k, n):
        """sorted tuple of 'tag~tag' strings: the index pairs summed over so far"""
        o = obj(st, a[0])
        if o is None or o.kind != 'arr':
            if isinstance(a[0], (K, T)) and a[0] is not TOP:
                return [(st, UNKNOWN)]
            return [(st, UNKNOWN)]
        if o.sums is None:
            return [(st, UNKNOWN)]
        out = []
        for s in o.sums:
            out.append('~'.join(s) if isinstance(s, tuple) else str(s))
        if any(A.UNK in x or '?' in x for x in out):
            return [(st, UNKNOWN)]
        return [(st, Tup([K(x) for x in sorted(out)]))]

    @intrinsic
    def term(I, st, a, k, n):
        o = obj(st, a[0])
        if o is not None and o.kind == 'arr':
            return [(st, o.term)]
        return [(st, a[0])]

    @intrinsic
    def orthonormal(I, st, a, k, n):
        """True: the array is a singular- or eigenvector factor (its vectors possibly selected), nothing multiplied in;
        False: it is data of the driver or has something multiplied in; else unknown"""
        o = obj(st, a[0])
        if o is None or o.kind != 'arr':
            return [(st, UNKNOWN)]
        t = o.term
        while isinstance(t, T) and t.op in ('slice', 'conjugate', 'conj', 'flip', 'neg') and t.args:
            t = t.args[0]
        if not isinstance(t, T) or t is TOP:
            return [(st, UNKNOWN)]
        if t.op in ('svdU', 'svdV', 'qrQ', 'eigV'):
            return [(st, TRUE)]
        if t.op == 'data':
            return [(st, FALSE)]
        if t.op == 'mul' and any(has_op(x, ('svdS', 'data', 'eigW')) and not has_op(x, ('svdU', 'svdV', 'eigV', 'inv', 'div')) for x in t.args):
            return [(st, FALSE)]
        return [(st, UNKNOWN)]

    @intrinsic
    def show(I, st, a, k, n):
        """debugging aid for driver authors"""
        import sys
        for v in a:
            o = obj(st, v)
            print('SHOW', (o.axes, o.term) if o is not None and o.kind == 'arr' else v, file=sys.stderr)
        return [(st, K(None))]

    @intrinsic
    def shares(I, st, a, k, n):
        x, y = obj(st, a[0]), obj(st, a[1])
        if x is None or y is None or x.kind != 'arr' or y.kind != 'arr':
            return [(st, UNKNOWN)]
        if not (x.buf & y.buf):
            return [(st, FALSE)]
        if x.buf == y.buf and len(x.buf) == 1:
            return [(st, TRUE)]
        return [(st, UNKNOWN)]

    @intrinsic
    def mayshare(I, st, a, k, n):
        x, y = obj(st, a[0]), obj(st, a[1])
        if x is None or y is None or x.kind != 'arr' or y.kind != 'arr':
            return [(st, UNKNOWN)]
        return [(st, K(bool(x.buf & y.buf)))]

    @intrinsic
    def dtypes(I, st, a, k, n):
        o = obj(st, a[0])
        if o is not None and o.kind == 'arr' and o.dtype is not None:
            return [(st, Tup([K(x) for x in sorted(o.dtype)]))]
        d = A.dtype_of_value(I, st, a[0])       # a recorded data type
        if d is None:
            return [(st, UNKNOWN)]
        return [(st, Tup([K(x) for x in sorted(d)]))]

    @intrinsic
    def isarray(I, st, a, k, n):
        o = obj(st, a[0])
        return [(st, K(o is not None and o.kind == 'arr'))]

    @intrinsic
    def known(I, st, a, k, n):
        v = a[0]
        return [(st, K(not (v is TOP or v is UNKNOWN or isinstance(v, Phi))))]

    @intrinsic
    def same(I, st, a, k, n):
        """value-number equality; different polynomials or quotients of free symbols are definitely different"""
        def tm(v):
            o = obj(st, v)
            return o.term if o is not None and o.kind == 'arr' else v
        x, y = tm(a[0]), tm(a[1])
        if x == y and x is not TOP:
            return [(st, TRUE)]
        r = identical(x, y)
        return [(st, UNKNOWN if r is None else K(r))]

    @intrinsic
    def equivalent(I, st, a, k, n):
        """equivalent(derived, specified): equal under random interpretations that respect the facts of the path"""
        def tm(v):
            o = obj(st, v)
            return o.term if o is not None and o.kind == 'arr' else v
        x, y = tm(a[0]), tm(a[1])
        if x is TOP or y is TOP or isinstance(x, (Phi, Ref)) or isinstance(y, (Phi, Ref)):
            return [(st, UNKNOWN)]
        for u, v in ((x, y), (y, x)):
            if isinstance(u, K) and u.v is None and (isinstance(v, K) or isinstance(v, T)):
                return [(st, K(isinstance(v, K) and v.v is None))]
        r = terms.equivalent(x, y, st.facts)
        return [(st, UNKNOWN if r is None else K(r))]

    @intrinsic
    def freeze(I, st, a, k, n):
        ids = reach(st, a)
        snap = {i: st.heap[i] for i in ids}
        st.heap[0 - (len(I.frozen) + 1)] = HInst(0, {}, None)
        I.frozen.append(snap)
        return [(st, T('snap', K(len(I.frozen) - 1)))]

    @intrinsic
    def lasting(I, st, a, k, n):
        """a snapshot of everything in the library that outlives a call: modules, classes, default values and what they hold
        (the documented sets of names in use excepted)"""
        snap = lasting_objects(I)
        I.frozen.append(snap)
        return [(st, T('snap', K(len(I.frozen) - 1)))]

    @intrinsic
    def fresh(I, st, a, k, n):
        """fresh(x, msg): nothing mutable reachable from x outlives the call that made it"""
        bad = None
        for i in reach(st, [a[0]]):
            o = I.base_heap.get(i)
            if o is not None and o.kind in ('list', 'dict', 'inst', 'arr') and getattr(o, 'lkind', '') != 'tuple':
                bad = i
        if bad is not None and fuzzy(st):
            rec.undecided.append((rec.driver, line(n), kv(a[1]), ''))
            rec.mark(line(n), None)
            return [(st, TOP)]
        if bad is not None:
            o = st.heap[bad]
            rec.violate(line(n), kv(a[1]), 'a %s made when the module was loaded is part of the result' % o.kind, trail(st), [o.site] if getattr(o, 'site', None) else [])
        rec.mark(line(n), bad is None)
        return [(st, K(bad is None))]

    @intrinsic
    def unchanged(I, st, a, k, n):
        """unchanged(snapshot, msg, *ignored attribute names): every object reachable at the snapshot is as it was"""
        snap = I.frozen[a[0].args[0].v]
        msg = kv(a[1])
        ignore = {kv(x) for x in a[2:]}
        res = True
        for oid, o in snap.items():
            now = st.heap.get(oid)
            if now is None or now is o:
                continue
            oo = o
            if ignore and o.kind == 'inst':
                c = st.heap.get(o.cls)
                cn = (c.name if c is not None and hasattr(c, 'name') else '?') + '.'
                oo = HInst(o.cls, {x: v for x, v in o.attrs.items() if x not in ignore and cn + x not in ignore}, o.site, o.summary, o.wsite)
                now = HInst(now.cls, {x: v for x, v in now.attrs.items() if x not in ignore and cn + x not in ignore}, now.site, now.summary, now.wsite)
            d = diff_obj(oo, now)
            if d is None:
                continue
            detail, may = d
            if may or fuzzy(st):
                res = None if res else res
                rec.undecided.append((rec.driver, line(n), msg, detail))
                continue
            res = False
            ws = wsite_of(now, detail)
            rec.violate(line(n), msg, '%s: %s' % (oname(I, st, oid, snap), detail[:300]), trail(st), [ws] if ws else about_sites(I, st, [Ref(oid)]))
        rec.mark(line(n), res)
        return [(st, K(res) if res is not None else TOP)]

    @intrinsic
    def leakfree(I, st, a, k, n):
        """disjoint(x, y, msg): no mutable object is reachable from both, and no arrays share a buffer"""
        rx = reach(st, [a[0]])
        ry = reach(st, [a[1]])
        msg = kv(a[2])
        ignore = set()
        bad = None
        for i in rx:
            o = st.heap[i]
            if i in ry:
                bad = (i, 'shared %s' % o.kind)
            if o.kind == 'arr':
                for j in ry:
                    p = st.heap[j]
                    if p.kind == 'arr' and o.buf == p.buf and len(o.buf) == 1:
                        bad = (i, 'arrays share memory')
        t = bad is None
        if bad and fuzzy(st):
            t = None
        rec.mark(line(n), t)
        if t is False:
            rec.violate(line(n), msg, bad[1], trail(st), about_sites(I, st, [Ref(bad[0])]))
        return [(st, K(t) if t is not None else TOP)]

    @intrinsic
    def warned(I, st, a, k, n):
        w = st.ghost.get('warned')
        return [(st, w if w is not None else K(0))]

    @intrinsic
    def exists_attr(I, st, a, k, n):
        o = obj(st, a[0])
        return [(st, K(o is not None and o.kind == 'inst' and kv(a[1]) in o.attrs))]

    @intrinsic
    def atmost(I, st, a, k, n):
        """a <= b: True if it follows from the comparisons on this path, False if a and b are made of free extents only"""
        def one(x, b):
            if isinstance(x, Phi):
                rs = [one(y, b) for y in x.alts]
                return True if all(r is True for r in rs) else False if any(r is False for r in rs) else None
            if A.le_fact(st, x, b):
                return True
            if A.plain_order(x) and A.plain_order(b) and not any(isinstance(f, T) and f.op == 'eq' for f in st.facts):
                return False
            return None
        r = one(a[0], a[1])
        return [(st, UNKNOWN if r is None else K(r))]

    @intrinsic
    def stub_sequence(I, st, a, k, n):
        st.ghost['seqstub'] = tuple(kv(x) for x in a) or ('left',)
        return [(st, NONE)]

    @intrinsic
    def draws(I, st, a, k, n):
        """the letters a random source yields next; unknown afterwards"""
        st.ghost['draws'] = tuple(K(c) for x in a for c in kv(x))
        return [(st, NONE)]

    @intrinsic
    def drawn(I, st, a, k, n):
        """all letters offered have been used"""
        return [(st, K(not st.ghost.get('draws', ())))]

    @intrinsic
    def searches(I, st, a, k, n):
        """number of sequence searches on this path so far"""
        return [(st, st.ghost.get('seqcalls', K(0)))]

    @intrinsic
    def assume_less(I, st, a, k, n):
        """assume a < b"""
        st.facts[T('lt', a[0], a[1])] = True
        return [(st, NONE)]

    @intrinsic
    def assume(I, st, a, k, n):
        v = a[0]
        t = I.truth3(st, v)
        if t is False:
            return []
        if t is None:
            I.add_fact(st, v, True)
        return [(st, NONE)]

    @intrinsic
    def note(I, st, a, k, n):
        if I.debug:
            print('NOTE', line(n), [globals()['show'](I, st, x) for x in a])
        return [(st, NONE)]


def show(I, st, v, depth=0):
    o = obj(st, v)
    if o is None or depth > 3:
        return repr(v)
    if o.kind == 'list':
        return '%s[%s]' % (o.lkind if o.lkind != 'list' else '', ', '.join(show(I, st, x, depth + 1) for x in o.items) if o.items is not None else '*' + repr(o.elem))
    if o.kind == 'dict':
        return '%s{%s%s}' % (o.dkind, ', '.join('%s: %s' % (show(I, st, k, depth + 1), show(I, st, x, depth + 1)) for k, x in o.entries), ' ...' if o.rest else '')
    if o.kind == 'arr':
        return 'arr(axes=%r, dtype=%s, sums=%r, term=%r, buf=%d)' % (o.axes, sorted(o.dtype) if o.dtype else None, o.sums, o.term, len(o.buf))
    if o.kind == 'inst':
        c = st.heap.get(o.cls)
        return '<%s#%d %s>' % (c.name if c else '?', v.oid, ', '.join('%s=%s' % (k, show(I, st, x, depth + 2)) for k, x in o.attrs.items()))
    return repr(v)
