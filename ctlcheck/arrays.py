"""ndarray model: axis-tag algebra, views, buffers, dtype sources and value numbers."""
from .values import *
from . import values as _v

UNK = '?'            # an axis whose origin is not known
BAD = '!scrambled'   # an axis whose entries were mixed up by an incompatible reshape
LITCAP = 512


def gdim(g):
    return mk_mul(*[a.dim for a in g]) if g else K(1)


def shape_of(o):
    return None if o.axes is None else tuple(gdim(g) for g in o.axes)


def gtags(g):
    return [tuple(sorted(a.tags)) for a in g]


def is_lit(o):
    return o.view is not None and o.view[0] == 'lit'


def lit_view(shape, flat):
    return ('lit', tuple(shape), tuple(flat))


def lit_term(shape, flat):
    return T('lit', tuple(shape), *flat)


def lit_ok(shape):
    if shape is None:
        return None
    n = 1
    out = []
    for d in shape:
        if not (isinstance(d, K) and isinstance(d.v, int) and not isinstance(d.v, bool) and d.v >= 0):
            return None
        out.append(d.v)
        n *= d.v
    return tuple(out) if n <= LITCAP else None


def strides(shape):
    s = [1] * len(shape)
    for i in range(len(shape) - 2, -1, -1):
        s[i] = s[i + 1] * shape[i + 1]
    return s


def all_idx(shape):
    idx = [()]
    for d in shape:
        idx = [i + (k,) for i in idx for k in range(d)]
    return idx


def plain_axes(dims, tag=None):
    return tuple((Ax(d, frozenset()),) for d in dims)


def unk_axes(dims):
    return tuple((Ax(d, frozenset([UNK])),) for d in dims)


def as_dims(I, st, v):
    if isinstance(v, (K, T)) and v is not TOP:
        if isinstance(v, K) and (v.v is None or isinstance(v.v, (str, float))):
            return None
        if isinstance(v, T) and v.op in ('shape', 'tuprep', 'call@', 'attr'):
            return None
        return [v]
    if isinstance(v, Tup):
        return [scalar(I, st, x) for x in v.items]
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        if o.kind == 'list' and o.items is not None:
            return [scalar(I, st, x) for x in o.items]
        if o.kind == 'arr' and o.axes == ():
            return [o.term]
    return None


def scalar(I, st, v):
    """0-d arrays behave as their value"""
    if isinstance(v, Ref):
        o = st.heap.get(v.oid)
        if o is not None and o.kind == 'arr' and o.axes == ():
            return o.term
    return v


def reshape_axes(axes, dims):
    """-> (axes, ok) with ok False when the sizes definitely disagree"""
    r = reshape_axes2(axes, dims)
    return r[0]


def reshape_axes2(axes, dims):
    if dims is None:
        return None, True
    dims = list(dims)
    if any(not isinstance(d, (K, T)) or (isinstance(d, K) and not isinstance(d.v, int)) for d in dims):
        return None, True
    if axes is None:
        if any(isinstance(d, K) and d.v == -1 for d in dims):
            return None, True
        return unk_axes(dims), True
    atoms = [a for g in axes for a in g if not (isinstance(a.dim, K) and a.dim.v == 1)]
    total = mk_mul(*[a.dim for a in atoms]) if atoms else K(1)
    neg = [i for i, d in enumerate(dims) if isinstance(d, K) and d.v == -1]
    if len(neg) > 1:
        return None, False
    if neg:
        oth = mk_mul(*[d for i, d in enumerate(dims) if i != neg[0]]) if len(dims) > 1 else K(1)
        dims[neg[0]] = mk_floordiv(total, oth)
    want = mk_mul(*dims) if dims else K(1)
    if want is TOP or total is TOP:
        return unk_axes(dims), True
    if want != total:
        from .interp import pure_extent
        if pure_extent(want) and pure_extent(total):
            return None, False
        return unk_axes(dims), True
    if dims == [gdim(g) for g in axes]:
        return tuple(axes), True
    out = []
    pos = 0
    # axes of extent one keep what they stand for as long as they stay between the same other axes
    ones = {}
    k = 0
    for g in axes:
        for a in g:
            if isinstance(a.dim, K) and a.dim.v == 1:
                if a.tags and len(g) == 1:
                    ones.setdefault(k, []).append(a)
            else:
                k += 1
    atoms = list(atoms)
    split = 0
    for d in dims:
        if isinstance(d, K) and d.v == 1:
            left = ones.get(pos - split, [])
            if left:
                out.append((left.pop(0),))
            else:
                out.append((Ax(K(1), frozenset([UNK] if any(ones.values()) else [])),))
            continue
        g = []
        acc = K(1)
        while acc != d:
            if pos >= len(atoms):
                g = None
                break
            a = atoms[pos]
            nxt = mk_mul(acc, a.dim)
            # split a literal extent when needed
            if isinstance(nxt, K) and isinstance(d, K) and isinstance(a.dim, K) and isinstance(acc, K) \
                    and d.v % acc.v == 0 and nxt.v > d.v:
                need = d.v // acc.v
                if a.dim.v % need == 0 and need > 1:
                    split += 1
                    atoms[pos:pos + 1] = [Ax(K(need), frozenset(t + '/hi' for t in a.tags)),
                                          Ax(K(a.dim.v // need), frozenset(t + '/lo' for t in a.tags))]
                    continue
            fd = factors(d)
            fn = factors(nxt)
            ok = True
            rem = list(fd)
            for f in fn:
                if f in rem:
                    rem.remove(f)
                elif not is_num(f):
                    ok = False
            if not ok:
                g = None
                break
            g.append(a)
            acc = nxt
            pos += 1
        if g is None:
            return tuple((Ax(x, frozenset([BAD])),) for x in dims), True
        out.append(tuple(g))
    return tuple(out), True


def permute(axes, perm):
    return None if axes is None else tuple(axes[p] for p in perm)


def norm_axis(k, n):
    if isinstance(k, K) and isinstance(k.v, int) and -n <= k.v < n:
        return k.v % n if n else 0
    return None


def moveaxis_perm(n, src, dst):
    order = [i for i in range(n) if i not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return order


def merge_groups(I, st, ga, gb):
    """elementwise combination of two axis groups: -> (group, ok)"""
    da, db = gdim(ga), gdim(gb)
    if isinstance(da, K) and da.v == 1 and not (isinstance(db, K) and db.v == 1):
        return gb, True
    if isinstance(db, K) and db.v == 1 and not (isinstance(da, K) and da.v == 1):
        return ga, True
    e = I.eq3(st, da, db)
    if e is False and same_under_facts(st, da, db):
        e = True
    if e is False:
        return None, False
    if len(ga) == len(gb) and all(x.dim == y.dim for x, y in zip(ga, gb)):
        return tuple(Ax(x.dim, x.tags | y.tags) for x, y in zip(ga, gb)), True
    if all(not a.tags for a in ga):
        return gb, True
    if all(not a.tags for a in gb):
        return ga, True
    if e is True:
        return (Ax(da, frozenset([BAD])),), True
    tags = frozenset(t for a in ga + gb for t in a.tags)
    return (Ax(da, tags if len(ga) == len(gb) == 1 else frozenset([UNK])),), True


def same_under_facts(st, a, b):
    """equal after resolving min() with the recorded orderings"""
    return resolve_dim(st, a) == resolve_dim(st, b)


def resolve_dim(st, d):
    if isinstance(d, T) and d.op == 'mul':
        return mk_mul(*[resolve_dim(st, x) for x in d.args])
    if not (isinstance(d, T) and d.op == 'min'):
        return d
    items = list(d.args)
    keep = []
    for i, x in enumerate(items):
        dom = False
        for j, y in enumerate(items):
            if i == j:
                continue
            if le_fact(st, y, x) and not (le_fact(st, x, y) and i < j):
                dom = True
                break
        if not dom:
            keep.append(x)
    if not keep:
        return d
    return mk_min(*keep)


PLAIN_OPS = {'dim', 'mul', 'min', 'symint', 'symfloat', 'sym', 'input'}


def plain_order(v):
    """built from free extents and symbols only"""
    if isinstance(v, K):
        return is_num(v)
    return isinstance(v, T) and v is not TOP and v.op in PLAIN_OPS and (
        v.op in ('dim', 'symint', 'symfloat', 'sym', 'input') or all(plain_order(x) for x in v.args))


def le_fact(st, a, b, depth=0):
    """is a <= b known on this path?  (closure over the recorded comparisons)"""
    if isinstance(b, T) and b.op == 'min' and depth < 3:
        return a == b or all(le_fact(st, a, x, depth + 1) for x in b.args)
    if isinstance(b, T) and b.op == 'max' and depth < 3:
        if a == b or any(le_fact(st, a, x, depth + 1) for x in b.args):
            return True
    if isinstance(a, T) and a.op == 'max' and depth < 3 and all(le_fact(st, x, b, depth + 1) for x in a.args):
        return True
    facts = [(f.args[0], f.args[1], val) for f, val in st.facts.items() if isinstance(f, T) and f.op == 'lt' and len(f.args) == 2]
    ge = [(x, y) if val is True else (y, x) for x, y, val in facts]
    seen = set()
    todo = [a]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == b:
            return True
        if is_num(x) and is_num(b) and x.v <= b.v:
            return True
        if is_num(x) and x.v <= 0 and nonneg(b):
            return True
        if isinstance(b, T) and b.op == 'mul' and is_dim_product(b) and x in b.args:
            return True
        for u in upper_bounds(x):
            if u not in seen:
                todo.append(u)
        for lo, hi in ge:
            if hi not in seen and (lo == x or (isinstance(lo, T) and lo.op == 'max' and x in lo.args)):
                todo.append(hi)
        if len(seen) > 60:
            break
    return False


def is_dim_product(b):
    return all((isinstance(x, T) and x.op == 'dim') or (is_num(x) and x.v >= 1) for x in b.args)


def broadcast(I, st, xa, xb):
    """-> (axes|None, ok)"""
    if xa is None or xb is None:
        return None, True
    n = max(len(xa), len(xb))
    out = []
    for i in range(1, n + 1):
        if i > len(xa):
            out.append(xb[-i])
        elif i > len(xb):
            out.append(xa[-i])
        else:
            g, ok = merge_groups(I, st, xa[-i], xb[-i])
            if not ok:
                return None, False
            out.append(g)
    return tuple(reversed(out)), True


def jdtype(*ds):
    r = frozenset()
    for d in ds:
        if d is None:
            return None
        r |= d
    return frozenset(x for x in r if not (x.startswith('real of ') and x[8:] in r))


def real_dtype(d):
    """the real data type that belongs to d"""
    if d is None:
        return None
    return frozenset(x if x.startswith(('real of ', 'float', 'int', 'bool')) else 'real of ' + x for x in d)


def scalar_dtype(v):
    if isinstance(v, K) and isinstance(v.v, complex):
        return frozenset(['complex128'])
    return frozenset()


def jsums(*ss):
    out = []
    for s in ss:
        if s is None:
            return None
        out.extend(s)
    return tuple(sorted(out))


def pair_entries(I, st, ga, gb):
    """contracting group ga with gb: -> (entries | None, ok)"""
    da, db = gdim(ga), gdim(gb)
    e = I.eq3(st, da, db)
    if e is False and same_under_facts(st, da, db):
        e = True
    if e is False:
        return None, False
    ga = [a for a in ga if not (isinstance(a.dim, K) and a.dim.v == 1 and not a.tags)]
    gb = [a for a in gb if not (isinstance(a.dim, K) and a.dim.v == 1 and not a.tags)]
    if not ga and not gb:
        return [], True
    if len(ga) == len(gb) and all(x.dim == y.dim or I.eq3(st, x.dim, y.dim) is not False for x, y in zip(ga, gb)):
        return [tuple(sorted(x.tags | y.tags)) for x, y in zip(ga, gb)], True
    if all(not a.tags for a in ga):
        return [tuple(sorted(y.tags)) for y in gb], True
    if all(not a.tags for a in gb):
        return [tuple(sorted(x.tags)) for x in ga], True
    if e is True:
        return [(BAD,)], True
    return None, True


def dtype_of_value(I, st, v):
    """dtype argument of a constructor: -> frozenset | None"""
    if isinstance(v, T) and v.op == 'dtype':
        return frozenset(a.v for a in v.args)
    if isinstance(v, Lib):
        n = v.path.split('.')[-1]
        return frozenset([{'float': 'float64', 'complex': 'complex128', 'int': 'int64', 'float_': 'float64'}.get(n, n)])
    if isinstance(v, K) and isinstance(v.v, str):
        return frozenset([v.v])
    if isinstance(v, K) and v.v is None:
        return frozenset(['float64'])
    return None


def dtype_value(d):
    if d is None:
        return T('dtypeunk')
    return T('dtype', *[K(x) for x in sorted(d)])


WEAK = frozenset(['float64', 'int64', 'bool'])
