"""Abstract values of the CTL analyser.

Atoms
  K(v)        a known Python constant
  Tup(items)  a tuple whose components are abstract values
  Ref(oid)    a reference to an abstract heap object
  T(op,args)  an opaque immutable value with a value number (a hash-consed term)
  Fn/Bound/ClsV/ModV/Lib/Prop   program entities
  Phi(alts)   a set of alternatives produced by joining program points
"""


class Budget(Exception):
    pass


class V(object):
    __slots__ = ()


class K(V):
    __slots__ = ('v', '_h')

    def __init__(self, v):
        self.v = v
        self._h = hash((type(v).__name__, v))

    def __eq__(self, o):
        return isinstance(o, K) and type(o.v) is type(self.v) and o.v == self.v

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return self._h

    def __repr__(self):
        return repr(self.v)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)


class Tup(V):
    __slots__ = ('items', '_h')

    def __init__(self, items):
        self.items = tuple(items)
        self._h = hash(('tup', self.items))

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return self._h

    def __repr__(self):
        return '(' + ', '.join(map(repr, self.items)) + ')'


class Ref(V):
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and self.oid == o.oid

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(('ref', self.oid))

    def __repr__(self):
        return '&%s' % (self.oid,)


class T(V):
    __slots__ = ('op', 'args', '_h', 'size')
    _table = {}

    def __new__(cls, op, *args):
        key = (op,) + args
        r = cls._table.get(key)
        if r is not None:
            return r
        r = object.__new__(cls)
        r.op = op
        r.args = args
        r._h = hash(key)
        r.size = 1 + sum(a.size for a in args if isinstance(a, T))
        cls._table[key] = r
        return r

    def __init__(self, op, *args):
        pass

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return self._h

    def __repr__(self):
        if self.size > 60:
            return '%s(...)' % self.op
        if not self.args:
            return self.op
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))


TOP = T('top')


class Phi(V):
    __slots__ = ('alts', '_h')

    def __init__(self, alts):
        self.alts = frozenset(alts)
        self._h = hash(('phi', self.alts))

    def __eq__(self, o):
        return isinstance(o, Phi) and self.alts == o.alts

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return self._h

    def __repr__(self):
        return 'Phi{%s}' % ', '.join(sorted(map(repr, self.alts)))


class _Unbound(V):
    def __repr__(self):
        return '<unbound>'


UNBOUND = _Unbound()
PHI_CAP = 6


def join_vals(*vs):
    s = set()
    for v in vs:
        if isinstance(v, Phi):
            s |= v.alts
        else:
            s.add(v)
    if len(s) == 1:
        return next(iter(s))
    if TOP in s and UNBOUND not in s:
        return TOP
    if len(s) > PHI_CAP:
        return TOP
    return Phi(s)


class Fn(V):
    """function value: static info + closure frame + evaluated defaults"""
    __slots__ = ('info', 'closure', 'defaults', 'kwdefaults', 'cls')

    def __init__(self, info, closure, defaults, kwdefaults, cls=None):
        self.info = info
        self.closure = closure
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls          # oid of the class whose body defines it, or None

    def _k(self):
        return (id(self.info), self.closure, self.defaults, self.kwdefaults, self.cls)

    def __eq__(self, o):
        return isinstance(o, Fn) and self._k() == o._k()

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(('fn', id(self.info), self.closure))

    def __repr__(self):
        return '<fn %s>' % self.info.qual


class Bound(V):
    __slots__ = ('fn', 'self_')

    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_

    def __eq__(self, o):
        return isinstance(o, Bound) and self.fn == o.fn and self.self_ == o.self_

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(('bm', self.fn, self.self_))

    def __repr__(self):
        return '<bound %r of %r>' % (self.fn, self.self_)


class ClsV(V):
    __slots__ = ('oid', 'name')

    def __init__(self, oid, name):
        self.oid = oid
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ClsV) and self.oid == o.oid

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(('cls', self.oid))

    def __repr__(self):
        return '<class %s>' % self.name


class ModV(V):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ModV) and self.name == o.name

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(('mod', self.name))

    def __repr__(self):
        return '<module %s>' % self.name


class Lib(V):
    """something outside the repository, named by a dotted path"""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Lib) and self.path == o.path

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(('lib', self.path))

    def __repr__(self):
        return '<lib %s>' % self.path


class LibM(V):
    """a method of a built-in object (list.append, str.format, ndarray.sum ...)"""
    __slots__ = ('name', 'self_')

    def __init__(self, name, self_):
        self.name = name
        self.self_ = self_

    def __eq__(self, o):
        return isinstance(o, LibM) and self.name == o.name and self.self_ == o.self_

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(('libm', self.name, self.self_))

    def __repr__(self):
        return '<method %s of %r>' % (self.name, self.self_)


class Prop(V):
    __slots__ = ('fget', 'fset')

    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset

    def __eq__(self, o):
        return isinstance(o, Prop) and self.fget == o.fget and self.fset == o.fset

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(('prop', self.fget))

    def __repr__(self):
        return '<property %r>' % (self.fget,)


class Deco(V):
    """staticmethod / classmethod wrapper"""
    __slots__ = ('kind', 'fn')

    def __init__(self, kind, fn):
        self.kind = kind
        self.fn = fn

    def __eq__(self, o):
        return isinstance(o, Deco) and self.kind == o.kind and self.fn == o.fn

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(('deco', self.kind, self.fn))


class Slice(V):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def _k(self):
        return (self.lo, self.hi, self.step)

    def __eq__(self, o):
        return isinstance(o, Slice) and self._k() == o._k()

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(('slice',) + self._k())

    def __repr__(self):
        return '[%r:%r:%r]' % self._k()


# ---------------------------------------------------------------- heap objects
# Heap objects are immutable; a write replaces the object in the state's heap.

class HObj(object):
    __slots__ = ()
    kind = '?'


def _key(o):
    return tuple(getattr(o, s) for s in o.__slots__ if s not in ('site', 'wsite'))


class HInst(HObj):
    __slots__ = ('cls', 'attrs', 'site', 'summary', 'wsite')
    kind = 'inst'

    def __init__(self, cls, attrs, site, summary=False, wsite=None):
        self.cls, self.attrs, self.site, self.summary = cls, attrs, site, summary
        self.wsite = wsite or {}

    def set(self, name, v, where=None):
        a = dict(self.attrs)
        a[name] = v
        w = dict(self.wsite)
        w[name] = where
        return HInst(self.cls, a, self.site, self.summary, w)

    def delete(self, name):
        a = dict(self.attrs)
        a.pop(name, None)
        return HInst(self.cls, a, self.site, self.summary, self.wsite)

    def __eq__(self, o):
        return self is o or (isinstance(o, HInst) and self.cls == o.cls and self.attrs == o.attrs
                             and self.summary == o.summary)

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None


class HClass(HObj):
    __slots__ = ('name', 'qual', 'bases', 'attrs', 'site')
    kind = 'class'

    def __init__(self, name, qual, bases, attrs, site):
        self.name, self.qual, self.bases, self.attrs, self.site = name, qual, bases, attrs, site

    def set(self, name, v):
        a = dict(self.attrs)
        a[name] = v
        return HClass(self.name, self.qual, self.bases, a, self.site)

    def __eq__(self, o):
        return self is o or (isinstance(o, HClass) and self.qual == o.qual and self.attrs == o.attrs)

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None


class HFrame(HObj):
    __slots__ = ('vars', 'parent', 'module', 'captured', 'locals', 'globals_', 'nonlocals')
    kind = 'frame'

    def __init__(self, vars_, parent, module, captured=False, locals_=None, globals_=(), nonlocals=()):
        self.vars, self.parent, self.module, self.captured = vars_, parent, module, captured
        self.locals, self.globals_, self.nonlocals = locals_, globals_, nonlocals

    def set(self, name, v):
        a = dict(self.vars)
        a[name] = v
        return HFrame(a, self.parent, self.module, self.captured, self.locals, self.globals_, self.nonlocals)

    def with_vars(self, a):
        return HFrame(a, self.parent, self.module, self.captured, self.locals, self.globals_, self.nonlocals)

    def capture(self):
        return HFrame(self.vars, self.parent, self.module, True, self.locals, self.globals_, self.nonlocals)

    def __eq__(self, o):
        return self is o or (isinstance(o, HFrame) and self.vars == o.vars and self.parent == o.parent)

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None


class HList(HObj):
    """items: tuple of values, or None for an unknown-length list with element summary `elem`"""
    __slots__ = ('items', 'elem', 'site', 'lkind', 'wsite')
    kind = 'list'

    def __init__(self, items, elem=None, site=None, lkind='list', wsite=None):
        self.items, self.elem, self.site, self.lkind, self.wsite = items, elem, site, lkind, wsite

    def __eq__(self, o):
        return self is o or (isinstance(o, HList) and self.items == o.items and self.elem == o.elem
                             and self.lkind == o.lkind)

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None


class HDict(HObj):
    """entries: tuple of (key, value) in insertion order; rest: (key, value) summary of unknown entries"""
    __slots__ = ('entries', 'rest', 'site', 'dkind', 'wsite')
    kind = 'dict'

    def __init__(self, entries, rest=None, site=None, dkind='dict', wsite=None):
        self.entries, self.rest, self.site, self.dkind, self.wsite = entries, rest, site, dkind, wsite

    def __eq__(self, o):
        return self is o or (isinstance(o, HDict) and self.entries == o.entries and self.rest == o.rest
                             and self.dkind == o.dkind)

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None


class Ax(object):
    """an atomic axis: its extent and the set of origins (driver axis tags) it carries"""
    __slots__ = ('dim', 'tags')

    def __init__(self, dim, tags):
        self.dim = dim
        self.tags = frozenset(tags)

    def __eq__(self, o):
        return isinstance(o, Ax) and self.dim == o.dim and self.tags == o.tags

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash((self.dim, self.tags))

    def __repr__(self):
        return '%s:%r' % ('+'.join(sorted(self.tags)) or '?', self.dim)


class HArr(HObj):
    """abstract ndarray
    buf    frozenset of buffer ids it may share memory with
    axes   tuple of axis groups (each a tuple of Ax, row-major), or None if unknown
    dtype  frozenset of dtype sources, or None if unknown
    term   value number of the contents
    sums   tuple of contracted origin pairs, sorted (None if unknown)
    """
    __slots__ = ('buf', 'axes', 'dtype', 'term', 'sums', 'site', 'wsite', 'view')
    kind = 'arr'

    def __init__(self, buf, axes, dtype, term, sums=(), site=None, wsite=None, view=None):
        self.buf, self.axes, self.dtype, self.term = buf, axes, dtype, term
        self.sums, self.site, self.wsite, self.view = sums, site, wsite, view

    def repl(self, **kw):
        d = dict(buf=self.buf, axes=self.axes, dtype=self.dtype, term=self.term, sums=self.sums,
                 site=self.site, wsite=self.wsite, view=self.view)
        d.update(kw)
        return HArr(**d)

    def __eq__(self, o):
        return self is o or (isinstance(o, HArr) and self.buf == o.buf and self.axes == o.axes
                             and self.dtype == o.dtype and self.term is o.term and self.sums == o.sums)

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None


# ---------------------------------------------------------------- integer / scalar terms

def _sortkey(v):
    return repr(v) if not isinstance(v, T) else '~' + str(v._h) + v.op


def is_num(v):
    return isinstance(v, K) and isinstance(v.v, (int, float, complex)) 


def mk_mul(*args):
    const = 1
    rest = []
    stack = list(args)
    while stack:
        a = stack.pop()
        if isinstance(a, T) and a.op == 'mul':
            stack.extend(a.args)
        elif is_num(a):
            const = const * a.v
        elif a is TOP:
            return TOP
        else:
            rest.append(a)
    if const == 0 and isinstance(const, int):
        return K(0)
    if not rest:
        return K(const)
    rest.sort(key=_sortkey)
    if const != 1:
        rest = [K(const)] + rest
    if len(rest) == 1:
        return rest[0]
    return T('mul', *rest)


def mk_add(*args):
    const = 0
    coef = {}
    order = []
    stack = [(1, a) for a in args]
    while stack:
        c, a = stack.pop()
        if isinstance(a, T) and a.op == 'add':
            stack.extend((c, x) for x in a.args)
        elif is_num(a):
            const = const + c * a.v
        elif a is TOP:
            return TOP
        else:
            k = 1
            base = a
            if isinstance(a, T) and a.op == 'mul' and is_num(a.args[0]):
                k = a.args[0].v
                base = a.args[1] if len(a.args) == 2 else T('mul', *a.args[1:])
                if isinstance(base, T) and base.op == 'add':
                    stack.extend((c * k, x) for x in base.args)
                    continue
            if base not in coef:
                order.append(base)
            coef[base] = coef.get(base, 0) + c * k
    parts = []
    for b in sorted(order, key=_sortkey):
        if coef[b] == 0:
            continue
        parts.append(mk_mul(K(coef[b]), b) if coef[b] != 1 else b)
    if not parts:
        return K(const)
    if const != 0:
        parts.append(K(const))
    if len(parts) == 1:
        return parts[0]
    return T('add', *parts)


def mk_neg(a):
    return mk_mul(K(-1), a)


def mk_sub(a, b):
    return mk_add(a, mk_neg(b))


def mk_div(a, b):
    if is_num(a) and is_num(b) and b.v != 0:
        return K(a.v / b.v)
    if is_num(b) and b.v == 1:
        return a
    if a is TOP or b is TOP:
        return TOP
    if is_num(b) and b.v != 0:
        return mk_mul(K(1.0 / b.v), a)
    return T('div', a, b)


def factors(a):
    if isinstance(a, T) and a.op == 'mul':
        return list(a.args)
    return [a]


def mk_floordiv(a, b):
    if is_num(a) and is_num(b) and b.v != 0:
        return K(a.v // b.v)
    if a is TOP or b is TOP:
        return TOP
    if is_num(b) and b.v == 1 and not isinstance(b.v, float):
        return a
    fa, fb = factors(a), factors(b)
    rem = list(fa)
    left = []
    for x in fb:
        if x in rem:
            rem.remove(x)
        else:
            left.append(x)
    if not left:
        return mk_mul(*rem) if rem else K(1)
    if len(left) == 1 and is_num(left[0]) and rem and is_num(rem[0]) and all(
            isinstance(x.v, int) and not isinstance(x.v, bool) for x in (left[0], rem[0])) and left[0].v > 0 and rem[0].v % left[0].v == 0:
        return mk_mul(K(rem[0].v // left[0].v), *rem[1:])
    return T('floordiv', a, b)


def mk_min(*args):
    items = []
    stack = list(args)
    const = None
    while stack:
        a = stack.pop()
        if isinstance(a, T) and a.op == 'min':
            stack.extend(a.args)
        elif is_num(a):
            const = a.v if const is None else min(const, a.v)
        elif a is TOP:
            items.append(a)
        elif a not in items:
            items.append(a)
    # drop products dominated by one of their own factors: min(i, i*j) = i for positive extents
    def dominated(x):
        fx = factors(x)
        return any(y is not x and y in fx and is_dim(y) for y in items) and all(is_dim(f) or is_num(f) for f in fx)
    items = [x for x in items if not dominated(x)]
    items.sort(key=_sortkey)
    if const is not None:
        items.append(K(const))
    if len(items) == 1:
        return items[0]
    return T('min', *items)


def mk_max(*args):
    items = []
    stack = list(args)
    const = None
    while stack:
        a = stack.pop()
        if isinstance(a, T) and a.op == 'max':
            stack.extend(a.args)
        elif is_num(a):
            const = a.v if const is None else max(const, a.v)
        elif a not in items:
            items.append(a)
    items.sort(key=_sortkey)
    if const is not None and not (const <= 0 and any(nonneg(x) for x in items)):
        items.append(K(const))
    if len(items) == 1:
        return items[0]
    return T('max', *items)


def nonneg(v):
    """is the integer v known not to be negative?"""
    if is_num(v):
        return v.v >= 0
    if not isinstance(v, T):
        return False
    if v.op in ('dim', 'count_nonzero', 'len'):
        return True
    if v.op in ('min', 'mul', 'add'):
        return all(nonneg(x) for x in v.args)
    return v.op == 'max' and any(nonneg(x) for x in v.args)


def is_dim(v):
    return isinstance(v, T) and v.op == 'dim'


INT_OPS = {'dim', 'floordiv', 'count_nonzero', 'len', 'int', 'symint'}
FLOAT_OPS = {'norm', 'exp', 'log', 'sqrt', 'symfloat', 'symcomplex', 'trace', 'float'}


def term_kind(v):
    """'int', 'float', 'str', 'any'"""
    if isinstance(v, K):
        if isinstance(v.v, bool):
            return 'bool'
        if isinstance(v.v, int):
            return 'int'
        if isinstance(v.v, (float, complex)):
            return 'float'
        if isinstance(v.v, str):
            return 'str'
        return 'other'
    if isinstance(v, T):
        if v.op in INT_OPS:
            return 'int'
        if v.op in FLOAT_OPS:
            return 'float'
        if v.op in ('strfmt', 'symstr', 'strcat'):
            return 'str'
        if v.op in ('mul', 'add', 'min', 'max'):
            ks = set(term_kind(a) for a in v.args)
            if ks <= {'int', 'bool'}:
                return 'int'
            if ks <= {'int', 'bool', 'float'}:
                return 'float'
        if v.op == 'div':
            ks = set(term_kind(a) for a in v.args)
            if ks <= {'int', 'bool', 'float'}:
                return 'float'
        return 'any'
    return 'other'


def upper_bounds(v):
    """terms known to bound v from above"""
    s = {v}
    if isinstance(v, T) and v.op == 'min':
        for a in v.args:
            s |= upper_bounds(a)
    return s
