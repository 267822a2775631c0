"""Models of the Python builtins, the standard library and numpy used by CTL."""
from .values import *
from . import values as _v
from .arrays import *
from . import arrays as A
from . import interp as _i


def Exc(*a, **k):
    return _i.Exc(*a, **k)


def isexc(v):
    return isinstance(v, _i.Exc)


XPROOT = ('numpy', 'cupy', 'xp', 'backend', 'np', 'jax.numpy')


def norm_path(p):
    for r in XPROOT:
        if p == r:
            return 'xp'
        if p.startswith(r + '.'):
            return 'xp.' + p[len(r) + 1:]
    return p


# ------------------------------------------------------------------ arrays: attributes

ARR_METHODS = {'reshape', 'copy', 'transpose', 'sum', 'conj', 'conjugate', 'astype', 'dot', 'ravel', 'flatten', 'item',
               'tolist', 'max', 'min', 'trace', 'fill', 'all', 'any', 'mean', 'diagonal', 'swapaxes', 'squeeze',
               'argmax', 'argmin', 'argsort', 'prod', 'view', 'nonzero', 'sort', 'cumsum', 'std', 'round', 'take',
               'repeat', 'clip', 'get', 'setflags'}


def arr_attr(I, st, ref, o, name, node):
    if name == 'shape':
        s = shape_of(o)
        return [(st, T('shape', o.term) if s is None else Tup(s))]
    if name == 'ndim':
        return [(st, T('symint', 'ndim', o.term) if o.axes is None else K(len(o.axes)))]
    if name == 'size':
        s = shape_of(o)
        return [(st, T('symint', 'size', o.term) if s is None else (mk_mul(*s) if s else K(1)))]
    if name == 'dtype':
        return [(st, dtype_value(o.dtype))]
    if name == 'T':
        return [(st, transpose(I, st, ref, None, node))]
    if name in ('real', 'imag'):
        return [(st, I.new_arr(st, node, o.axes, None, T(name, o.term), o.sums, buf=o.buf))]
    if name in ('itemsize', 'nbytes'):
        return [(st, T('symint', name, o.term))]
    if name in ('flat', 'flags', 'strides', 'base', 'data'):
        return [(st, TOP)]
    if name in ARR_METHODS:
        return [(st, LibM(name, ref))]
    return [(st, Exc('AttributeError', 'ndarray object has no attribute %s' % name, I.site(node)))]


def ob(st, v):
    return st.heap[v.oid]


def isarr(st, v):
    return isinstance(v, Ref) and st.heap.get(v.oid) is not None and st.heap[v.oid].kind == 'arr'


def transpose(I, st, ref, perm, node):
    o = ob(st, ref)
    if o.axes is None:
        return I.new_arr(st, node, None, o.dtype, T('transpose', o.term), o.sums, buf=o.buf)
    n = len(o.axes)
    if perm is None:
        perm = list(range(n))[::-1]
    view = None
    if is_lit(o):
        shape, flat = o.view[1], o.view[2]
        ss = strides(shape)
        nsh = tuple(shape[p] for p in perm)
        nf = []
        for idx in all_idx(nsh):
            nf.append(flat[sum(ss[p] * k for p, k in zip(perm, idx))])
        view = lit_view(nsh, nf)
    else:
        view = view_perm(o, ref, perm)
    return I.new_arr(st, node, permute(o.axes, perm), o.dtype, o.term if view is None or view[0] != 'lit' else lit_term(view[1], view[2]),
                     o.sums, buf=o.buf, view=view)


def view_perm(o, ref, perm):
    """keeps the link from view axes to axes of the base array"""
    if o.view is not None and o.view[0] == 'map':
        return ('map', o.view[1], None if o.view[2] is None else tuple(o.view[2][p] for p in perm))
    return ('map', ref.oid, tuple((p,) for p in perm))


def to_list(I, st, v):
    """python-level sequence of values or None"""
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        if o.kind == 'list' and o.items is not None:
            if o.lkind == 'gen!':
                raise Budget('endless generator')
            return list(o.items)
        if o.kind == 'dict' and o.rest is None:
            return [k for k, _ in o.entries]
    if isinstance(v, K) and isinstance(v.v, (range, str)):
        return [K(x) for x in v.v]
    return None


def nested(I, st, v):
    """nested python sequences -> (shape, flat) | None"""
    v = scalar(I, st, v)
    if isinstance(v, (K, T)) and v is not TOP and not (isinstance(v, K) and isinstance(v.v, (str, range))):
        return (), (v,)
    if isarr(st, v):
        o = ob(st, v)
        if is_lit(o):
            return o.view[1], o.view[2]
        return None
    items = to_list(I, st, v)
    if items is None:
        return None
    subs = [nested(I, st, x) for x in items]
    if any(s is None for s in subs):
        return None
    shapes = set(s[0] for s in subs)
    if len(shapes) > 1:
        return None
    flat = tuple(x for s in subs for x in s[1])
    if len(flat) > LITCAP:
        return None
    return (len(items),) + (subs[0][0] if subs else ()), flat


def mk_lit(I, st, node, shape, flat, dtype, buf=None, axes=None, sums=()):
    if axes is None:
        axes = plain_axes([K(d) for d in shape])
    if shape == ():
        return I.new_arr(st, node, (), dtype, flat[0] if isinstance(flat[0], T) else T('const', flat[0]), sums, buf=buf, view=lit_view(shape, flat))
    return I.new_arr(st, node, axes, dtype, lit_term(shape, flat), sums, buf=buf, view=lit_view(shape, flat))


def unknown_arr(I, st, node, *args):
    """result of an array operation that is not modelled precisely"""
    ts = []
    for a in args:
        if isarr(st, a):
            ts.append(ob(st, a).term)
        elif isinstance(a, (K, T)):
            ts.append(a)
    return I.new_arr(st, node, None, None, T('unk', str(I.site(node)), tuple(I.ctx), *ts), None)


# ------------------------------------------------------------------ arithmetic

def arr_term(I, st, v):
    if isarr(st, v):
        o = ob(st, v)
        if o.axes == () and isinstance(o.term, T) and o.term.op == 'const':
            return o.term.args[0]
        return o.term
    return v if isinstance(v, (K, T)) else TOP


def arr_binop(I, st, op, a, b, node):
    if op == 'MatMult':
        return matmul(I, st, a, b, node)
    for x in (a, b):
        if isinstance(x, K) and (x.v is None or isinstance(x.v, str)):
            return [(st, Exc('TypeError', 'unsupported operand %r for array %s' % (x, op), I.site(node)))]
        if isinstance(x, Ref) and not isarr(st, x) and ob(st, x).kind == 'inst':
            return [(st, Exc('TypeError', 'unsupported operand for array %s' % op, I.site(node)))]
    # list / tuple operands are converted
    conv = []
    for x in (a, b):
        if not isarr(st, x) and not isinstance(x, (K, T)):
            r = make_array(I, st, x, node, None)
            conv.append(r)
        else:
            conv.append(x)
    a, b = conv
    oa = ob(st, a) if isarr(st, a) else None
    obb = ob(st, b) if isarr(st, b) else None
    ta, tb = arr_term(I, st, a), arr_term(I, st, b)
    xa = oa.axes if oa is not None else (() if a is not TOP else None)
    xb = obb.axes if obb is not None else (() if b is not TOP else None)
    axes, ok = broadcast(I, st, xa, xb)
    if not ok:
        return [(st, Exc('ValueError', 'operands could not be broadcast: %s and %s' % (showax(xa), showax(xb)), I.site(node)))]
    dt = jdtype(oa.dtype if oa is not None else scalar_dtype(a), obb.dtype if obb is not None else scalar_dtype(b))
    sums = jsums(oa.sums if oa is not None else (), obb.sums if obb is not None else ())
    if op in ('Add', 'Sub') and oa is not None and obb is not None:
        sums = oa.sums if oa.sums == obb.sums else None
        if oa.axes == () and oa.sums == ():
            sums = obb.sums
    # literal arrays: elementwise
    la = lit_operand(st, a)
    lb = lit_operand(st, b)
    if la is not None and lb is not None:
        if la[0] == lb[0]:
            flat = [_i.num_op(op, x, y) for x, y in zip(la[1], lb[1])]
            return [(st, mk_lit(I, st, node, la[0], tuple(flat), dt, axes=axes))]
        if lb[0] == ():
            return [(st, mk_lit(I, st, node, la[0], tuple(_i.num_op(op, x, lb[1][0]) for x in la[1]), dt, axes=axes))]
        if la[0] == ():
            return [(st, mk_lit(I, st, node, lb[0], tuple(_i.num_op(op, la[1][0], x) for x in lb[1]), dt, axes=axes))]
        bc = lit_broadcast(la, lb)
        if bc is not None:
            return [(st, mk_lit(I, st, node, bc[0], tuple(_i.num_op(op, x, y) for x, y in bc[1]), dt, axes=axes))]
    term = _i.num_op(op, ta, tb)
    if op in ('Add', 'Sub') and axes is not None and axes != ():
        pass
    return [(st, I.new_arr(st, node, axes, dt, term if isinstance(term, T) else T('const', term), sums))]


def lit_broadcast(la, lb):
    """(shape, pairs of entries) of two literal arrays under the broadcasting rules | None"""
    n = max(len(la[0]), len(lb[0]))
    sa, sb = (1,) * (n - len(la[0])) + tuple(la[0]), (1,) * (n - len(lb[0])) + tuple(lb[0])
    if any(x != y and x != 1 and y != 1 for x, y in zip(sa, sb)):
        return None
    sh = tuple(y if x == 1 else x for x, y in zip(sa, sb))
    if lit_ok([K(d) for d in sh]) is None:
        return None
    ka, kb = strides(sa), strides(sb)
    pairs = []
    for i in all_idx(sh):
        pairs.append((la[1][sum(s * (0 if d == 1 else q) for s, d, q in zip(ka, sa, i))],
                      lb[1][sum(s * (0 if d == 1 else q) for s, d, q in zip(kb, sb, i))]))
    return sh, pairs


def lit_operand(st, v):
    if isarr(st, v):
        o = ob(st, v)
        return (o.view[1], o.view[2]) if is_lit(o) else None
    if isinstance(v, (K, T)) and v is not TOP:
        return (), (v,)
    return None


def showax(x):
    return '?' if x is None else '(%s)' % ', '.join(repr(gdim(g)) for g in x)


def arr_compare(I, st, op, a, b, node):
    sa, sb = scalar(I, st, a), scalar(I, st, b)
    sa, sb = (x.args[0] if isinstance(x, T) and x.op == 'const' and len(x.args) == 1 else x for x in (sa, sb))
    if not isarr(st, sa) and not isarr(st, sb):
        return I.compare1(st, op, sa, sb, node)
    for x, y in ((a, b), (b, a)):
        if isinstance(y, K) and y.v is None:
            if op in ('Eq', 'NotEq'):
                pass
            else:
                return [(st, Exc('TypeError', 'ordering comparison of array with None', I.site(node)))]
    axes, ok = broadcast(I, st, ob(st, a).axes if isarr(st, a) else (), ob(st, b).axes if isarr(st, b) else ())
    ta, tb = arr_term(I, st, a), arr_term(I, st, b)
    t = T('cmp', K(op), ta, tb) if ta is not TOP and tb is not TOP else None
    la, lb = lit_operand(st, a), lit_operand(st, b)
    if ok and la is not None and lb is not None and op in CMPS:
        bc = lit_broadcast(la, lb)
        if bc is not None:
            flat = []
            for x, y in bc[1]:
                if not all(isinstance(z, K) and isinstance(z.v, (int, float)) for z in (x, y)):
                    break
                flat.append(K(CMPS[op](x.v, y.v)))
            else:
                return [(st, mk_lit(I, st, node, bc[0], tuple(flat), frozenset(['bool']), axes=axes))]
    return [(st, I.new_arr(st, node, axes if ok else None, frozenset(['bool']), t, None))]


CMPS = {'Gt': lambda p, q: p > q, 'Lt': lambda p, q: p < q, 'GtE': lambda p, q: p >= q, 'LtE': lambda p, q: p <= q,
        'Eq': lambda p, q: p == q, 'NotEq': lambda p, q: p != q}


def set_op(I, st, op, a, b, node):
    x, y = ob(st, a), ob(st, b)
    if x.kind == 'dict' and op == 'BitOr':
        ents = list(x.entries)
        ref = I.new_dict(st, ents, node)
        for k, v in y.entries if y.kind == 'dict' else ():
            I.dict_set(st, ref, k, v, node)
        return [(st, ref)]
    if x.kind == 'dict' and x.dkind == 'counter' and y.kind == 'dict' and y.dkind == 'counter':
        if x.rest is not None or y.rest is not None or op not in ('Sub', 'Add', 'BitAnd', 'BitOr') or not all(
                isinstance(v, K) for _, v in x.entries + y.entries):
            return [(st, I.new_dict(st, [], node, dkind='counter', rest=(TOP, TOP)))]
        ents = []
        f = {'Sub': lambda m, n: m - n, 'Add': lambda m, n: m + n, 'BitAnd': min, 'BitOr': max}[op]
        used = set()
        unk = False
        for k, v in x.entries:
            w = 0
            for n, (kk, vv) in enumerate(y.entries):
                e = I.eq3(st, k, kk)
                if e is True:
                    w = vv.v
                    used.add(n)
                elif e is None:
                    unk = True
            d = f(v.v, w)
            if d > 0:
                ents.append((k, K(d)))
        for n, (kk, vv) in enumerate(y.entries):
            if n not in used and f(0, vv.v) > 0:
                ents.append((kk, K(f(0, vv.v))))
        if unk:
            return [(st, I.new_dict(st, [], node, dkind='counter', rest=(TOP, TOP)))]
        return [(st, I.new_dict(st, ents, node, dkind='counter'))]
    if x.kind != 'list' or y.kind != 'list':
        return [(st, Exc('TypeError', 'unsupported operand types for %s' % op, I.site(node)))]
    if x.lkind != 'set' and x.lkind != 'gen' or y.lkind not in ('set', 'gen'):
        return [(st, Exc('TypeError', 'unsupported operand types for %s' % op, I.site(node)))]
    return [(st, set_algebra(I, st, {'BitAnd': 'intersection', 'BitOr': 'union', 'Sub': 'difference',
                                     'BitXor': 'symmetric_difference'}[op], a, [b], node))]


def set_algebra(I, st, op, a, others, node):
    cur = to_list(I, st, a)
    for b in others:
        ys = to_list(I, st, b)
        if cur is None or ys is None:
            es = [e for z in (a, b) for e in elems(I, st, z)]
            return I.new_list(st, None, node, lkind='set', elem=join_vals(*es) if es else TOP)
        def mem(v, zs):
            return _i.any3(I.eq3(st, v, w) for w in zs)
        if op == 'union':
            res = list(cur)
            for v in ys:
                if mem(v, res) is not True:
                    res.append(v)
        elif op in ('intersection', 'difference', 'symmetric_difference'):
            ms = [mem(v, ys) for v in cur]
            if None in ms:
                return I.new_list(st, None, node, lkind='set', elem=join_vals(*cur))
            keep = True if op == 'intersection' else False
            res = [v for v, m in zip(cur, ms) if m is keep]
            if op == 'symmetric_difference':
                res += [v for v in ys if mem(v, cur) is False]
        cur = res
    return I.new_list(st, cur, node, lkind='set')


def elems(I, st, v):
    s = to_list(I, st, v)
    if s is not None:
        return s
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        if o.kind == 'list' and o.elem is not None:
            return [o.elem]
        if o.kind == 'dict':
            return [k for k, _ in o.entries] + ([o.rest[0]] if o.rest else [])
    return [TOP]


# ------------------------------------------------------------------ indexing

def slice_dim(I, st, dim, lo, hi, step):
    """extent of dim[lo:hi:step] | None"""
    if not (isinstance(step, K) and step.v in (None, 1, -1)):
        return None
    lo = K(0) if isinstance(lo, K) and lo.v is None else lo
    if isinstance(lo, K) and lo.v == 0:
        if isinstance(hi, K) and hi.v is None:
            return dim
        if isinstance(hi, K) and isinstance(hi.v, int) and hi.v < 0:
            return mk_sub(dim, K(-hi.v))
        if isinstance(hi, (K, T)) and hi is not TOP:
            if is_num(hi) and is_num(dim):
                return K(min(hi.v, dim.v))
            if A.le_fact(st, hi, dim):
                return hi
            if A.le_fact(st, dim, hi):
                return dim
            return mk_min(dim, hi)
        return None
    if isinstance(hi, K) and hi.v is None:
        if isinstance(lo, K) and isinstance(lo.v, int):
            if lo.v < 0:
                return mk_min(dim, K(-lo.v))
            return mk_sub(dim, lo)
        if isinstance(lo, T) and lo.op == 'mul' and isinstance(lo.args[0], K) and lo.args[0].v == -1:
            n = mk_neg(lo)
            if A.le_fact(st, n, dim):
                return n
            return mk_min(dim, n)
        return T('max', mk_sub(dim, lo), K(0)) if isinstance(lo, T) and lo is not TOP else None
    if isinstance(lo, K) and isinstance(hi, K) and isinstance(dim, K):
        return K(len(range(*slice(lo.v, hi.v, step.v).indices(dim.v))))
    return None


def whole_diagonal(o, i):
    """diag_indices(n, ndim) of the whole array: ndim is its dimension and n its extent"""
    n, nd = i.args
    return bool(o.axes) and nd == K(len(o.axes)) and (n == gdim(o.axes[0]) or not isinstance(n, (K, T)) or n is TOP)


def as_diagonal_index(I, st, i):
    """(arange(n), ..., arange(n)) selects what diag_indices(n, k) does"""
    if not isinstance(i, Tup) or not i.items or not all(isinstance(x, Ref) and isarr(st, x) for x in i.items):
        return i
    os_ = [ob(st, x) for x in i.items]
    n = None
    for o in os_:
        if o.axes is None or len(o.axes) != 1:
            return i
        if is_lit(o) and all(isinstance(x, (K, int)) and (x.v if isinstance(x, K) else x) == k for k, x in enumerate(o.view[2])):
            m = K(len(o.view[2]))
        elif isinstance(o.term, T) and o.term.op == 'arange' and len(o.term.args) == 1:
            m = o.term.args[0]
        else:
            return i
        if n is not None and m != n:
            return i
        n = m
    return T('diagidx', n, K(len(os_)))


def arr_getitem(I, st, ref, o, i, node):
    i = as_diagonal_index(I, st, i)
    # diag_indices tuple
    if isinstance(i, T) and i.op == 'diagidx':
        if o.axes is None:
            return [(st, unknown_arr(I, st, node, ref))]
        if not whole_diagonal(o, i):
            n, nd = i.args
            exts = [gdim(g) for g in o.axes]
            if isinstance(nd, K) and isinstance(nd.v, int) and nd.v > len(exts):
                return [(st, Exc('IndexError', 'too many indices for array', I.site(node)))]
            if isinstance(nd, T) and nd.op == 'dim':    # any number
                return [(st, Exc('IndexError', 'a diagonal of as many axes as an extent', I.site(node)))]
            if isinstance(nd, K) and isinstance(n, K) and isinstance(n.v, int) and any(isinstance(x, K) and x.v < n.v for x in exts[:nd.v]):
                return [(st, Exc('IndexError', 'diagonal longer than an axis', I.site(node)))]
            if is_lit(o) and isinstance(n, K) and isinstance(n.v, int) and nd == K(len(exts)):
                s = sum(strides(o.view[1]))
                return [(st, mk_lit(I, st, node, (n.v,), tuple(o.view[2][s * q] for q in range(n.v)), o.dtype, sums=o.sums))]
            return [(st, unknown_arr(I, st, node, ref))]
        g, ok = diag_group(I, st, o.axes)
        if not ok:
            return [(st, Exc('IndexError', 'diagonal of unequal extents', I.site(node)))]
        if is_lit(o) and o.view[1] and len(set(o.view[1])) == 1:
            s = sum(strides(o.view[1]))
            return [(st, mk_lit(I, st, node, o.view[1][:1], tuple(o.view[2][s * q] for q in range(o.view[1][0])), o.dtype, axes=(g,), sums=o.sums))]
        return [(st, I.new_arr(st, node, (g,), o.dtype, T('diagof', o.term) if o.term.op not in ('zeros',) else o.term, o.sums))]
    if isinstance(i, K) and i.v is Ellipsis:
        return [(st, I.new_arr(st, node, o.axes, o.dtype, o.term, o.sums, buf=o.buf, view=o.view or ('map', ref.oid, None)))]
    items = list(i.items) if isinstance(i, Tup) else [i]
    items = [scalar(I, st, x) for x in items]
    if any(not (isinstance(x, (K, T, Slice)) and x is not TOP) for x in items) or o.axes is None:
        return [(st, I.new_arr(st, node, None, o.dtype, T('index', o.term, *[x for x in items if isinstance(x, (K, T))]) , o.sums, view=None, buf=None))]
    nax = len(o.axes)
    nreal = len([x for x in items if not (isinstance(x, K) and (x.v is None or x.v is Ellipsis))])
    if nreal > nax:
        return [(st, Exc('IndexError', 'too many indices for array: %d-dimensional, %d indexed' % (nax, nreal), I.site(node)))]
    full = []
    seen = False
    for x in items:
        if isinstance(x, K) and x.v is Ellipsis:
            full.extend([Slice(NONE, NONE, NONE)] * (nax - nreal))
            seen = True
        else:
            full.append(x)
    if not seen:
        full.extend([Slice(NONE, NONE, NONE)] * (nax - nreal))
    out = []
    k = 0
    key = []
    plain = True
    litpos = [] if is_lit(o) else None
    vmap = []
    for x in full:
        if isinstance(x, K) and x.v is None:
            out.append((Ax(K(1), frozenset()),))
            vmap.append(())
            continue
        g = o.axes[k]
        d = gdim(g)
        if isinstance(x, Slice):
            if x.lo == NONE and x.hi == NONE and x.step == NONE:
                out.append(g)
                if litpos is not None:
                    litpos.append(range(o.view[1][k]))
            else:
                nd = slice_dim(I, st, d, scalar(I, st, x.lo), scalar(I, st, x.hi), x.step)
                tags = g[0].tags if len(g) == 1 else frozenset([UNK])
                if x.step in (NONE, K(1)):
                    if x.lo != NONE and scalar(I, st, x.lo) != K(0):
                        tags = shifted(tags)        # a part that does not begin at the start
                elif x.step == K(-1) and x.lo == NONE and x.hi == NONE:
                    tags = reverse_group((Ax(d, tags),))[0].tags
                else:
                    tags = frozenset([UNK])
                out.append((Ax(nd if nd is not None else T('symint', 'slice', d, str(I.site(node))), tags),))
                key.append(T('sl', K(k), *[z if isinstance(z, (K, T)) else TOP for z in (x.lo, x.hi, x.step)]))
                plain = False
                if litpos is not None:
                    if all(isinstance(z, K) for z in (x.lo, x.hi, x.step)):
                        litpos.append(range(*slice(x.lo.v, x.hi.v, x.step.v).indices(o.view[1][k])))
                    else:
                        litpos = None
            vmap.append((k,))
        else:
            if isinstance(x, K) and isinstance(d, K) and isinstance(x.v, int) and not (-d.v <= x.v < d.v):
                return [(st, Exc('IndexError', 'index %d is out of bounds for extent %d' % (x.v, d.v), I.site(node)))]
            key.append(T('at', K(k), x))
            plain = False
            if litpos is not None:
                if isinstance(x, K) and isinstance(x.v, int):
                    litpos.append(x.v % o.view[1][k])
                else:
                    litpos = None
        k += 1
    if litpos is not None:
        shape = tuple(gdim(g).v for g in out)
        ss = strides(o.view[1])
        offs = [0]
        for p, s in zip(litpos, ss):
            offs = [q + s * z for q in offs for z in ([p] if isinstance(p, int) else p)]
        flat = tuple(o.view[2][q] for q in offs)
        if shape == () and not any(isinstance(x, Slice) for x in full):
            return [(st, flat[0])]
        return [(st, mk_lit(I, st, node, shape, flat, o.dtype, buf=o.buf, axes=tuple(out), sums=o.sums))]
    if not out and not any(isinstance(x, Slice) for x in full):
        return [(st, T('item', o.term, *key) if key else arr_term(I, st, ref))]
    term = o.term if plain else T('slice', o.term, *key)
    return [(st, I.new_arr(st, node, tuple(out), o.dtype, term, o.sums, buf=o.buf,
                           view=('map', ref.oid, tuple(vmap)) if plain else ('part', ref.oid)))]


def diag_group(I, st, axes):
    g = axes[0]
    for h in axes[1:]:
        g, ok = merge_groups(I, st, g, h)
        if not ok:
            return None, False
    return g, True


def note_arrwrite(I, st, ref, o, v, node):
    for cb in I.on_arrwrite:
        cb(st, ref, o.buf, node, I)
    vd = None
    if isarr(st, v):
        vd = ob(st, v).dtype
    elif isinstance(v, K):
        vd = scalar_dtype(v)
    if vd is not None and o.dtype is not None:
        lost = vd - o.dtype - WEAK
        if lost:
            I.event('lossy', node, lost=tuple(sorted(lost)), into=tuple(sorted(o.dtype)))


def touch_aliases(I, st, ref, buf, term):
    for oid, x in list(st.heap.items()):
        if x.kind == 'arr' and oid != ref.oid and (x.buf & buf):
            st.heap[oid] = x.repl(term=T('upd', x.term, term) if x.term.size + term.size < 60 else T('updbig', x.term.op, term.op), view=None if x.view and x.view[0] == 'lit' else x.view)


def lit_write(I, st, o, idx, lv):
    """entries of a literal array after a write into a part of it | None (not a literal part) | False (does not fit)"""
    shape = o.view[1]
    if any(isinstance(x, K) and x.v is None for x in idx):
        return None
    n = len([x for x in idx if not (isinstance(x, K) and x.v is Ellipsis)])
    if n > len(shape):
        return None
    full = []
    for x in idx:
        if isinstance(x, K) and x.v is Ellipsis:
            full.extend([Slice(NONE, NONE, NONE)] * (len(shape) - n))
        else:
            full.append(x)
    full.extend([Slice(NONE, NONE, NONE)] * (len(shape) - len(full)))
    sel, sub = [], []
    for x, d in zip(full, shape):
        if isinstance(x, Slice):
            b = [scalar(I, st, z) for z in (x.lo, x.hi, x.step)]
            if not all(isinstance(z, K) and (z.v is None or isinstance(z.v, int)) for z in b):
                return None
            r = list(range(d))[slice(*[z.v for z in b])]
            sel.append(r)
            sub.append(len(r))
        elif isinstance(x, K) and isinstance(x.v, int) and not isinstance(x.v, bool) and -d <= x.v < d:
            sel.append([x.v % d])
            sub.append(None)
        else:
            return None
    dims = tuple(d for d in sub if d is not None)
    vs = tuple(lv[0])
    while len(vs) > len(dims) and vs[0] == 1:
        vs = vs[1:]
    if len(vs) > len(dims) or any(a != b and a != 1 for a, b in zip(vs[::-1], dims[::-1])):
        return False
    kv, ks = strides(vs), strides(shape)
    flat = list(o.view[2])
    for p in all_idx(tuple(len(r) for r in sel)):
        q = tuple(a for a, d in zip(p, sub) if d is not None)
        q = q[len(q) - len(vs):]
        val = lv[1][sum(s * (0 if d == 1 else a) for s, d, a in zip(kv, vs, q))]
        flat[sum(s * r[a] for s, r, a in zip(ks, sel, p))] = val
    return tuple(flat)


def arr_setitem(I, st, ref, o, i, v, node):
    note_arrwrite(I, st, ref, o, v, node)
    site = I.site(node)
    i = as_diagonal_index(I, st, i)
    vt = arr_term(I, st, v)
    if not isinstance(vt, T):
        vt = T('const', vt)
    vo = ob(st, v) if isarr(st, v) else None
    if isinstance(v, Ref) and not isarr(st, v):
        r = make_array(I, st, v, node, None)
        vo = ob(st, r) if isarr(st, r) else None
        vt = vo.term if vo is not None else TOP
    o = st.heap[ref.oid]
    # element of a literal array
    idx = list(i.items) if isinstance(i, Tup) else [i]
    idx = [scalar(I, st, x) for x in idx]
    if is_lit(o) and all(isinstance(x, K) and isinstance(x.v, int) and not isinstance(x.v, bool) for x in idx) and len(idx) == len(o.view[1]):
        shape, flat = o.view[1], list(o.view[2])
        for x, d in zip(idx, shape):
            if not -d <= x.v < d:
                return [(st, ('exc', Exc('IndexError', 'index %d out of bounds for extent %d' % (x.v, d), site)))]
        val = scalar(I, st, v)
        val = arr_term(I, st, v) if isarr(st, v) else val
        if isinstance(val, (K, T)):
            if isinstance(val, K) and (val.v is None or isinstance(val.v, str)):
                return [(st, ('exc', Exc('TypeError', 'cannot store %r in an array' % (val,), site)))]
            off = sum(s * (x.v % d) for s, x, d in zip(strides(shape), idx, shape))
            flat[off] = val
            n = o.repl(term=lit_term(shape, tuple(flat)), view=lit_view(shape, tuple(flat)), wsite=site)
            st.heap[ref.oid] = n
            touch_aliases(I, st, ref, o.buf, n.term)
            return [(st, None)]
    if is_lit(o) and idx and any(isinstance(x, Slice) or isinstance(x, K) and isinstance(x.v, int) for x in idx):
        lv = nested(I, st, v) if isinstance(v, (Tup, Ref)) and not isarr(st, v) else lit_operand(st, v)
        w = lit_write(I, st, o, idx, lv) if lv is not None else None
        if w is False:
            return [(st, ('exc', Exc('ValueError', 'could not broadcast %s into the selected part of %s' % (lv[0], o.view[1]), site)))]
        if w is not None:
            st.heap[ref.oid] = o.repl(term=lit_term(o.view[1], w), view=lit_view(o.view[1], w), wsite=site)
            touch_aliases(I, st, ref, o.buf, st.heap[ref.oid].term)
            return [(st, None)]
    whole = (isinstance(i, K) and i.v is Ellipsis) or (isinstance(i, Slice) and i == Slice(NONE, NONE, NONE)) or \
        (isinstance(i, Tup) and i.items and all(x == Slice(NONE, NONE, NONE) or (isinstance(x, K) and x.v is Ellipsis) for x in i.items))
    if whole and o.axes is not None:
        if vo is not None and vo.axes is not None:
            if len(vo.axes) > len(o.axes):
                return [(st, ('exc', Exc('ValueError', 'could not broadcast %s into %s' % (showax(vo.axes), showax(o.axes)), site)))]
            axes, ok = broadcast(I, st, o.axes, vo.axes)
            if not ok:
                return [(st, ('exc', Exc('ValueError', 'could not broadcast %s into %s' % (showax(vo.axes), showax(o.axes)), site)))]
            vax = [()] * (len(o.axes) - len(vo.axes)) + list(vo.axes)
        else:
            axes, vax = o.axes, [()] * len(o.axes)
        vsums = vo.sums if vo is not None else ()
        if o.view is not None and o.view[0] == 'map' and o.view[1] in st.heap:
            # write through a view: transfer the axis origins to the base array
            base = st.heap[o.view[1]]
            m = o.view[2]
            if base.axes is not None:
                if m is None:
                    m = tuple((k,) for k in range(len(base.axes)))
                nb = list(base.axes)
                for k, g in enumerate(vax):
                    if not g or k >= len(m):
                        continue
                    for b in m[k]:
                        mg, ok = merge_groups(I, st, nb[b], g)
                        if ok:
                            nb[b] = mg
                zero = base.term.op in ('zeros',) or is_lit(base)
                covers = set(b for mm in m for b in mm) == set(range(len(base.axes)))
                st.heap[o.view[1]] = base.repl(axes=tuple(nb), term=vt if zero and covers else T('upd', base.term, vt),
                                               sums=vsums if zero else None, wsite=site, view=None if is_lit(base) else base.view)
        st.heap[ref.oid] = o.repl(axes=axes, term=vt, sums=vsums, wsite=site, view=None if is_lit(o) else o.view)
        keep = o.view[1] if o.view is not None and o.view[0] == 'map' else None
        for oid, x in list(st.heap.items()):
            if x.kind == 'arr' and oid not in (ref.oid, keep) and (x.buf & o.buf):
                st.heap[oid] = x.repl(term=T('upd', vt), view=None if is_lit(x) else x.view)
        return [(st, None)]
    if isinstance(i, T) and i.op == 'diagidx' and is_lit(o) and lit_operand(st, v) is not None and all(isinstance(x, K) and isinstance(x.v, int) for x in i.args):
        n, nd = i.args[0].v, i.args[1].v
        lv, shape, flat = lit_operand(st, v), o.view[1], list(o.view[2])
        if 0 < nd < len(shape) and all(n <= x for x in shape[:nd]) and len(lv[0]) <= 1 and len(lv[1]) in (1, shape[-1]) or 0 < nd == len(shape) and all(n <= x for x in shape) and len(lv[1]) in (1, n):
            if nd < len(shape) or n != shape[0]:
                ss = strides(shape)
                for k in range(n):
                    base = sum(s * k for s in ss[:nd])
                    for r in all_idx(shape[nd:]):
                        flat[base + sum(s * q for s, q in zip(ss[nd:], r))] = lv[1][0 if len(lv[1]) == 1 else k if nd == len(shape) else r[-1]]
                st.heap[ref.oid] = o.repl(term=lit_term(shape, tuple(flat)), view=lit_view(shape, tuple(flat)), wsite=site)
                touch_aliases(I, st, ref, o.buf, st.heap[ref.oid].term)
                return [(st, None)]
    if isinstance(i, T) and i.op == 'diagidx' and o.axes is not None and whole_diagonal(o, i):
        vax = vo.axes[-1] if vo is not None and vo.axes else ()
        nb = []
        for g in o.axes:
            if vax:
                mg, ok = merge_groups(I, st, g, vax)
                if not ok:
                    return [(st, ('exc', Exc('ValueError', 'could not broadcast %s onto a diagonal of %s' % (showax(vo.axes), showax(o.axes)), site)))]
                nb.append(mg)
            else:
                nb.append(g)
        zero = o.term.op in ('zeros', 'lit')
        lv = lit_operand(st, v)
        if is_lit(o) and lv is not None and len(set(o.view[1])) == 1 and len(lv[1]) in (1, o.view[1][0]):
            shape, flat = o.view[1], list(o.view[2])
            ss = strides(shape)
            for k in range(shape[0]):
                flat[sum(s * k for s in ss)] = lv[1][k if len(lv[1]) > 1 else 0]
            st.heap[ref.oid] = o.repl(axes=tuple(nb), term=lit_term(shape, tuple(flat)), view=lit_view(shape, tuple(flat)), wsite=site)
            touch_aliases(I, st, ref, o.buf, st.heap[ref.oid].term)
            return [(st, None)]
        st.heap[ref.oid] = o.repl(axes=tuple(nb), term=vt if zero else T('upd', o.term, vt),
                                  sums=(vo.sums if vo is not None else ()) if zero else None, wsite=site, view=None)
        touch_aliases(I, st, ref, o.buf, vt)
        return [(st, None)]
    # partial / unknown write
    if o.axes is not None and any(not isinstance(x, (K, T, Slice)) or x is TOP for x in idx):
        # which entries are written is not known
        st.heap[ref.oid] = o.repl(axes=tuple((Ax(gdim(g), frozenset([UNK])),) for g in o.axes), term=T('updbig', str(site)), sums=None, wsite=site, view=None)
        touch_aliases(I, st, ref, o.buf, vt)
        return [(st, None)]
    key = [T('sl', *[z if isinstance(z, (K, T)) and z is not TOP else NONE for z in (x.lo, x.hi, x.step)]) if isinstance(x, Slice) else x
           for x in idx if isinstance(x, Slice) or isinstance(x, (K, T)) and x is not TOP]
    st.heap[ref.oid] = o.repl(term=T('updat', o.term, vt, *key) if o.term.size + vt.size < 80 else T('updbig', str(site)),
                              sums=None, wsite=site, view=None if is_lit(o) else o.view)
    touch_aliases(I, st, ref, o.buf, vt)
    return [(st, None)]


def arr_store(I, st, ref, value, node, whole=True):
    """in-place arithmetic on the array behind ref"""
    o = ob(st, ref)
    note_arrwrite(I, st, ref, o, value, node)
    o = ob(st, ref)
    vt = arr_term(I, st, value)
    if not isinstance(vt, T):
        vt = T('const', vt)
    vo = ob(st, value) if isarr(st, value) else None
    view = vo.view if vo is not None and is_lit(vo) else (None if is_lit(o) else o.view)
    st.heap[ref.oid] = o.repl(term=vt, axes=vo.axes if vo is not None and vo.axes is not None and o.axes is not None else o.axes,
                              sums=vo.sums if vo is not None else o.sums, wsite=I.site(node), view=view)
    # arrays that are whole views of the same buffer see the same values
    for oid, x in list(st.heap.items()):
        if x.kind == 'arr' and oid != ref.oid and (x.buf & o.buf):
            if x.term is o.term and x.buf == o.buf:
                st.heap[oid] = x.repl(term=vt, view=None if is_lit(x) else x.view)
            else:
                st.heap[oid] = x.repl(term=T('upd', vt), view=None if is_lit(x) else x.view)
    if o.view is not None and o.view[0] == 'part' and o.view[1] in st.heap:
        pass


_i.Interp.arr_store = lambda self, st, ref, value, node, whole=True: arr_store(self, st, ref, value, node, whole)


def arr_iter(I, st, ref, o, node):
    if o.axes is not None and not o.axes:
        return [(st, ('exc', Exc('TypeError', 'iteration over a 0-d array', I.site(node))))]
    if o.axes is not None:
        d = gdim(o.axes[0])
        if isinstance(d, K) and d.v <= 64:
            out = []
            for k in range(d.v):
                r = arr_getitem(I, st, ref, o, K(k), node)
                out.append(r[0][1])
            return [(st, ('seq', out))]
        if len(o.axes) == 1:
            return [(st, ('summary', T('elem', o.term)))]
        return [(st, ('summary', I.new_arr(st, node, o.axes[1:], o.dtype, T('elem', o.term), o.sums, buf=o.buf, sub='it')))]
    return [(st, ('summary', TOP))]


# ------------------------------------------------------------------ library attributes

XPCONST = {'pi': T('pi'), 'e': T('e'), 'inf': T('inf'), 'nan': T('nan'), 'newaxis': NONE}
REMOVED = {'xp.float', 'xp.complex', 'xp.int', 'xp.bool', 'xp.object', 'xp.str'}     # removed from numpy >= 1.24
NOTNUMPY = {'xp.asnumpy'}                                                          # cupy only


def lib_attr(I, st, lib, name):
    p = norm_path(lib.path)
    if p == 'xp' and name in XPCONST:
        return XPCONST[name]
    if p == 'string' and name in ('ascii_letters', 'ascii_lowercase', 'ascii_uppercase', 'digits'):
        import string
        return K(getattr(string, name))
    if p == 'math' and name in ('pi', 'e', 'inf', 'nan'):
        return T(name)
    return Lib(lib.path + '.' + name)


SCALAR_M = {'item', 'sum', 'conj', 'conjugate', 'copy', 'reshape', 'astype', 'tolist', 'ravel', 'flatten', 'max', 'min', 'all', 'any'}
STR_M = set(dir(str))


def term_method(t, name):
    k = term_kind(t)
    if t.op in ('lock',):
        return False
    if name in ('shape', 'dtype', 'ndim', 'real', 'imag', 'T', 'size'):
        return False
    if k == 'str':
        return name in STR_M
    if k in ('int', 'float'):
        return name in SCALAR_M
    return True


def term_attr(I, t, name):
    if name == 'shape' and term_kind(t) != 'str':
        return Tup(())
    if name == 'ndim':
        return K(0)
    if name == 'size':
        return K(1)
    if name in ('T', 'real'):
        return t if name == 'T' or term_kind(t) in ('int', 'float') else T('real', t)
    return T('attr', t, K(name))


# ------------------------------------------------------------------ helpers for calls

def kw(args, kwargs, i, name, default=None):
    if i is not None and i < len(args):
        return args[i]
    return kwargs.get(name, default)


def isnone(v):
    return v is None or (isinstance(v, K) and v.v is None)


def has_phi(args, kwargs):
    return any(isinstance(a, Phi) for a in args) or any(isinstance(a, Phi) for a in kwargs.values())


def split_phi(I, st, args, kwargs, k):
    for i, a in enumerate(args):
        if isinstance(a, Phi):
            out = []
            for s, x in I.split(st, a):
                out.extend(k(s, args[:i] + [x] + args[i + 1:], kwargs))
            return out
    for n, a in kwargs.items():
        if isinstance(a, Phi):
            out = []
            for s, x in I.split(st, a):
                d = dict(kwargs)
                d[n] = x
                out.extend(k(s, args, d))
            return out


def exc_ty(I, node, msg):
    return Exc('TypeError', msg, I.site(node))


# ------------------------------------------------------------------ methods

def method(I, st, m, args, kwargs, node):
    if has_phi(args, kwargs):
        return split_phi(I, st, args, kwargs, lambda s, a, k: method(I, s, m, a, k, node))
    b, name = m.self_, m.name
    for cb in I.on_libcall:
        cb(st, '.' + name, [b] + args, kwargs, node, I)
    if isinstance(b, Ref):
        o = st.heap[b.oid]
        if o.kind == 'arr':
            return arr_method(I, st, b, o, name, args, kwargs, node)
        if o.kind == 'list':
            if o.lkind == 'set':
                return set_method(I, st, b, o, name, args, node)
            return list_method(I, st, b, o, name, args, kwargs, node)
        if o.kind == 'dict':
            return dict_method(I, st, b, o, name, args, kwargs, node)
    if isinstance(b, Prop):
        if name == 'setter':
            return [(st, Prop(b.fget, args[0]))]
        return [(st, b)]
    if isinstance(b, Tup):
        if name == 'index':
            es = [I.eq3(st, x, args[0]) for x in b.items]
            for k, e in enumerate(es):
                if e is True:
                    return [(st, K(k))]
                if e is None:
                    return [(st, TOP)]
            return [(st, Exc('ValueError', 'tuple.index(x): x not in tuple', I.site(node)))]
        if name == 'count':
            es = [I.eq3(st, x, args[0]) for x in b.items]
            return [(st, TOP if None in es else K(es.count(True)))]
    if isinstance(b, K):
        return const_method(I, st, b, name, args, kwargs, node)
    if isinstance(b, T):
        if name in ('copy', 'item', 'sum', 'max', 'min') and term_kind(b) != 'str' and name != 'copy':
            return [(st, b)]
        if name == 'reshape' and term_kind(b) in ('int', 'float'):
            dims = as_dims(I, st, args[0]) if len(args) == 1 else args
            if dims == []:
                return [(st, I.new_arr(st, node, (), frozenset(['float64']), b, ()))]
        if name in ('conj', 'conjugate'):
            return [(st, T('conj', b))]
        if term_kind(b) == 'str':
            return [(st, str_method_result(I, st, b, name, args, node))]
        if all(isinstance(a, (K, T)) for a in args) and b is not TOP:
            return [(st, T('method', b, K(name), *args))]
        return [(st, TOP)]
    return [(st, TOP)]


def str_method_result(I, st, b, name, args, node):
    ts = [a for a in args if isinstance(a, (K, T))]
    if name in ('find', 'index', 'count', 'rfind'):
        return T('symint', name, b, *ts)
    if name in ('format', 'join', 'upper', 'lower', 'replace', 'strip', 'lstrip', 'rstrip'):
        return T('strfmt', b, K(name), *ts)
    if name in ('split', 'rsplit'):
        return I.new_list(st, None, node, elem=T('strfmt', b, K('part')))
    return T('method', b, K(name), *ts)


def from_py(I, st, v, node, sub='py'):
    if isinstance(v, (list,)):
        return I.new_list(st, [from_py(I, st, x, node, sub) for x in v], node, sub)
    if isinstance(v, tuple):
        return Tup([from_py(I, st, x, node, sub) for x in v])
    if isinstance(v, (set, frozenset)):
        return I.new_list(st, [from_py(I, st, x, node, sub) for x in sorted(v)], node, sub, lkind='set')
    if isinstance(v, (str, int, float, bool, type(None), complex, bytes, range)):
        return K(v)
    return TOP


class NotConcrete(Exception):
    pass


def to_py(I, st, v, depth=0):
    """the Python value of a constant, or of a tuple or list of such"""
    if isinstance(v, K):
        return v.v
    if depth < 4 and isinstance(v, Tup):
        return tuple(to_py(I, st, x, depth + 1) for x in v.items)
    if depth < 4 and isinstance(v, Ref) and st.heap[v.oid].kind == 'list':
        o = st.heap[v.oid]
        es = to_list(I, st, v) if o.lkind == 'list' else None
        if es is not None:
            return [to_py(I, st, x, depth + 1) for x in es]
    raise NotConcrete()


def const_method(I, st, b, name, args, kwargs, node):
    if isinstance(b.v, str) and name == 'format':
        try:
            pos, named = [to_py(I, st, a) for a in args], {k: to_py(I, st, a) for k, a in kwargs.items()}
        except NotConcrete:
            pos = None
        if pos is not None:
            try:
                return [(st, K(b.v.format(*pos, **named)))]
            except IndexError:
                return [(st, Exc('IndexError', 'Replacement index out of range', I.site(node)))]
            except Exception as e:
                return [(st, Exc(type(e).__name__, str(e), I.site(node)))]
        return [(st, T('strfmt', b, *[a for a in list(args) + list(kwargs.values()) if isinstance(a, (K, T))]))]
    if isinstance(b.v, str) and name == 'join':
        if args and isinstance(args[0], K) and (args[0].v is None or isinstance(args[0].v, (bool, int, float))):
            return [(st, exc_ty(I, node, 'can only join an iterable'))]
        items = to_list(I, st, args[0]) if args else None
        if items is not None and all(isinstance(x, K) for x in items):
            if any(not isinstance(x.v, str) for x in items):
                return [(st, exc_ty(I, node, 'sequence item: expected str instance'))]
            return [(st, K(b.v.join(x.v for x in items)))]
        if items is not None:
            for x in items:
                if isinstance(x, Ref):
                    return [(st, exc_ty(I, node, 'sequence item: expected str instance'))]
            return [(st, T('strfmt', b, *[x for x in items if isinstance(x, (K, T))]))]
        return [(st, T('strfmt', b, K('join'), *[e for e in (elems(I, st, args[0]) if args else []) if isinstance(e, (K, T))]))]
    if all(isinstance(a, K) or (isinstance(a, Tup) and all(isinstance(x, K) for x in a.items)) for a in args) and not kwargs:
        try:
            r = getattr(b.v, name)(*[a.v if isinstance(a, K) else tuple(x.v for x in a.items) for a in args])
            return [(st, from_py(I, st, r, node))]
        except Exception as e:
            return [(st, Exc(type(e).__name__, str(e), I.site(node)))]
    if isinstance(b.v, str):
        return [(st, str_method_result(I, st, b, name, args, node))]
    return [(st, TOP)]


def list_method(I, st, b, o, name, args, kwargs, node):
    site = I.site(node)
    known = o.items is not None
    if name == 'append' or name == 'appendleft':
        if name == 'appendleft' and known and not I.in_fix:
            I.list_write(st, b, (args[0],) + o.items, None, node)
        else:
            I.list_extend(st, b, 'seq', [args[0]], node)
        return [(st, NONE)]
    if name == 'extend':
        out = []
        for s, (kind, seq) in I.iterate(st, args[0], node):
            if kind == 'exc':
                out.append((s, seq))
            else:
                I.list_extend(s, b, kind, seq, node)
                out.append((s, NONE))
        return out
    if name in ('copy', '__copy__'):
        return [(st, I.new_list(st, o.items, node, elem=o.elem, lkind=o.lkind))]
    if name == 'clear':
        I.list_write(st, b, (), None, node)
        return [(st, NONE)]
    if name == 'reverse':
        if known:
            I.list_write(st, b, tuple(reversed(o.items)), None, node)
        return [(st, NONE)]
    if name == 'insert':
        if known and isinstance(args[0], K):
            items = list(o.items)
            items.insert(args[0].v, args[1])
            I.list_write(st, b, tuple(items), None, node)
        else:
            I.list_write(st, b, None, join_vals(args[1], *([*o.items] if known else [o.elem] if o.elem is not None else [])), node)
        return [(st, NONE)]
    if name in ('remove', 'index', 'count'):
        if not known:
            if name == 'remove':
                I.list_write(st, b, None, o.elem, node)
                return [(st, NONE)]
            return [(st, T('symint', name, str(site), str(I.ctx)))]
        es = [I.eq3(st, x, args[0]) for x in o.items]
        if name == 'count':
            return [(st, K(es.count(True)) if None not in es else T('symint', 'count', str(site), str(I.ctx)))]
        start = args[1].v if name == 'index' and len(args) > 1 and isinstance(args[1], K) else 0
        for k, e in enumerate(es):
            if k < start:
                continue
            if e is None:
                break
            if e is True:
                if name == 'index':
                    return [(st, K(k))]
                I.list_write(st, b, o.items[:k] + o.items[k + 1:], None, node)
                return [(st, NONE)]
        else:
            return [(st, Exc('ValueError', 'list.%s(x): x not in list' % name, site))]
        if name == 'index':
            return [(st, T('symint', 'index', str(site), str(I.ctx)))]
        I.list_write(st, b, None, join_vals(*o.items), node)
        return [(st, NONE)]
    if name == 'pop' or name == 'popleft':
        if not known:
            return I.split(st, o.elem if o.elem is not None else TOP)
        if not o.items:
            return [(st, Exc('IndexError', 'pop from empty list', site))]
        k = args[0] if args else K(-1 if name == 'pop' else 0)
        if isinstance(k, K) and isinstance(k.v, int):
            if not -len(o.items) <= k.v < len(o.items):
                return [(st, Exc('IndexError', 'pop index out of range', site))]
            items = list(o.items)
            v = items.pop(k.v)
            I.list_write(st, b, tuple(items), None, node)
            return I.split(st, v)
        I.list_write(st, b, None, join_vals(*o.items), node)
        return I.split(st, join_vals(*o.items))
    if name == 'sort':
        out = []
        for s, r in sort_values(I, st, o.items if known else None, o.elem, args, kwargs, node):
            if isexc(r):
                out.append((s, r))
            else:
                items, elem = r
                I.list_write(s, b, None if items is None else tuple(items), elem, node)
                out.append((s, NONE))
        return out
    if name in ('__len__',):
        return call(I, st, Lib('builtins.len'), [b], {}, node)
    if name == '__contains__':
        return [(s, r if isexc(r) else (TOP if r is None else K(r))) for s, r in I.contains(st, b, args[0], node)]
    if name == '__getitem__':
        return I.getitem(st, b, args[0], node)
    if name == '__next__':
        return call(I, st, Lib('builtins.next'), [b], {}, node)
    return [(st, TOP)]


def sort_values(I, st, items, elem, args, kwargs, node):
    """-> [(st, (items|None, elem) | Exc)]"""
    if items is None:
        return [(st, (None, elem))]
    key = kwargs.get('key')
    rev = kwargs.get('reverse')
    if rev is not None and not isinstance(rev, K):
        return [(st, (None, join_vals(*items) if items else None))]
    cur = [(st, [])]
    if key is None or isnone(key):
        cur = [(st, list(items))]
    else:
        for x in items:
            nxt = []
            for s, ks in cur:
                if isexc(ks):
                    nxt.append((s, ks))
                    continue
                for s2, k in I.call(s, key, [x], {}, node):
                    nxt.append((s2, k if isexc(k) else ks + [k]))
            cur = nxt
    out = []
    for s, ks in cur:
        if isexc(ks):
            out.append((s, ks))
            continue
        ks = [pykey(I, s, k) for k in ks]
        if any(k is None for k in ks):
            # order decided by a comparison that is not known: try pairwise with lt3
            if len(items) <= 1:
                out.append((s, (items, None)))
            else:
                j = join_vals(*items)
                out.append((s, (tuple(j for _ in items), None)))
            continue
        try:
            order = sorted(range(len(items)), key=lambda i: ks[i], reverse=bool(rev.v) if rev is not None else False)
            out.append((s, (tuple(items[i] for i in order), None)))
        except TypeError as e:
            out.append((s, exc_ty(I, node, str(e))))
    return out


def pykey(I, st, v):
    v = scalar(I, st, v)
    if isinstance(v, K):
        return v.v
    if isinstance(v, Tup):
        ks = [pykey(I, st, x) for x in v.items]
        return None if any(k is None for k in ks) else tuple(ks)
    if isinstance(v, Ref) and st.heap[v.oid].kind == 'list' and st.heap[v.oid].items is not None:
        ks = [pykey(I, st, x) for x in st.heap[v.oid].items]
        return None if any(k is None for k in ks) else list(ks)
    return None


def set_method(I, st, b, o, name, args, node):
    site = I.site(node)
    known = o.items is not None
    if name == 'add':
        if known:
            es = [I.eq3(st, x, args[0]) for x in o.items]
            if True in es:
                return [(st, NONE)]
            if None in es or I.in_fix:
                I.list_write(st, b, None, join_vals(args[0], *o.items), node)
                return [(st, NONE)]
            I.list_write(st, b, o.items + (args[0],), None, node)
        else:
            I.list_write(st, b, None, join_vals(args[0], *([o.elem] if o.elem is not None else [])), node)
        return [(st, NONE)]
    if name in ('remove', 'discard'):
        if known:
            es = [I.eq3(st, x, args[0]) for x in o.items]
            if True in es:
                k = es.index(True)
                I.list_write(st, b, o.items[:k] + o.items[k + 1:], None, node)
            elif None in es:
                I.list_write(st, b, None, join_vals(*o.items), node)
            elif name == 'remove':
                return [(st, Exc('KeyError', 'set.remove', site))]
        return [(st, NONE)]
    if name == 'copy':
        return [(st, I.new_list(st, o.items, node, elem=o.elem, lkind='set'))]
    if name == 'clear':
        I.list_write(st, b, (), None, node)
        return [(st, NONE)]
    if name in ('union', 'intersection', 'difference', 'symmetric_difference'):
        return [(st, set_algebra(I, st, name, b, args, node))]
    if name in ('update', 'difference_update', 'intersection_update'):
        op = {'update': 'union', 'difference_update': 'difference', 'intersection_update': 'intersection'}[name]
        r = set_algebra(I, st, op, b, args, node)
        n = ob(st, r)
        I.list_write(st, b, n.items, n.elem, node)
        return [(st, NONE)]
    if name == 'pop':
        if not known:
            return I.split(st, o.elem if o.elem is not None else TOP)
        if not o.items:
            return [(st, Exc('KeyError', 'pop from an empty set', site))]
        v = o.items[0]
        I.list_write(st, b, o.items[1:], None, node)
        return I.split(st, v)
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        ys = to_list(I, st, args[0])
        if not known or ys is None:
            return [(st, TOP)]
        xs = list(o.items)
        if name == 'issuperset':
            xs, ys = ys, xs
        ms = [_i.any3(I.eq3(st, x, y) for y in ys) for x in xs]
        r = _i.and3(ms) if name != 'isdisjoint' else _i.and3(None if m is None else not m for m in ms)
        return [(st, TOP if r is None else K(r))]
    return [(st, TOP)]


def dict_method(I, st, b, o, name, args, kwargs, node):
    site = I.site(node)
    if name in ('keys', 'values', 'items'):
        f = {'keys': lambda k, v: k, 'values': lambda k, v: v, 'items': lambda k, v: Tup((k, v))}[name]
        if o.rest is None:
            lk = 'set' if name == 'keys' else 'gen'
            return [(st, I.new_list(st, [f(k, v) for k, v in o.entries], node, lkind=lk))]
        es = [f(k, v) for k, v in o.entries] + [f(*o.rest)]
        return [(st, I.new_list(st, None, node, elem=join_vals(*es), lkind='gen'))]
    if name in ('get', 'pop', 'setdefault'):
        unk = []
        for k, v in o.entries:
            e = I.eq3(st, k, args[0])
            if e is True:
                if name == 'pop':
                    I.dict_write(st, b, tuple((kk, vv) for kk, vv in o.entries if kk is not k), o.rest, node)
                return I.split(st, v)
            if e is None:
                unk.append(v)
        if o.rest is not None:
            unk.append(o.rest[1])
        if len(args) > 1:
            d = args[1]
        elif name == 'pop':
            if unk:
                return I.split(st, join_vals(*unk))
            return [(st, Exc('KeyError', repr(args[0]), site))]
        else:
            d = NONE
        if name == 'setdefault' and not unk:
            I.dict_set(st, b, args[0], d, node)
            return [(st, d)]
        return I.split(st, join_vals(d, *unk))
    if name == 'copy':
        return [(st, I.new_dict(st, o.entries, node, dkind=o.dkind, rest=o.rest))]
    if name == 'clear':
        I.dict_write(st, b, (), None, node)
        return [(st, NONE)]
    if name == 'update':
        for a in args:
            if isinstance(a, Ref) and st.heap[a.oid].kind == 'dict':
                x = st.heap[a.oid]
                if o.dkind == 'counter':
                    return [(st, NONE)]
                for k, v in x.entries:
                    I.dict_set(st, b, k, v, node)
                if x.rest is not None:
                    cur = st.heap[b.oid]
                    rest = x.rest if cur.rest is None else (join_vals(cur.rest[0], x.rest[0]), join_vals(cur.rest[1], x.rest[1]))
                    I.dict_write(st, b, cur.entries, rest, node)
            else:
                items = to_list(I, st, a)
                if items is not None and all(isinstance(p, Tup) and len(p.items) == 2 for p in items):
                    for p in items:
                        I.dict_set(st, b, p.items[0], p.items[1], node)
                else:
                    cur = st.heap[b.oid]
                    I.dict_write(st, b, cur.entries, (TOP, TOP), node)
        for k, v in kwargs.items():
            I.dict_set(st, b, K(k), v, node)
        return [(st, NONE)]
    if name == 'popitem':
        if o.entries:
            k, v = o.entries[-1]
            I.dict_write(st, b, o.entries[:-1], o.rest, node)
            return [(st, Tup((k, v)))]
        return [(st, Exc('KeyError', 'popitem(): dictionary is empty', site) if o.rest is None else TOP)]
    if name == '__contains__':
        return [(s, r if isexc(r) else (TOP if r is None else K(r))) for s, r in I.contains(st, b, args[0], node)]
    if name == 'elements' and o.rest is None and all(isinstance(v, K) for _, v in o.entries):
        return [(st, I.new_list(st, [k for k, v in o.entries for _ in range(v.v)], node, lkind='gen'))]
    return [(st, TOP)]


def arr_method(I, st, b, o, name, args, kwargs, node):
    if name == 'reshape':
        if len(args) == 1:
            return reshape(I, st, b, args[0], node)
        return reshape(I, st, b, Tup(args), node)
    if name == 'transpose':
        if args:
            p = args[0] if len(args) == 1 else Tup(args)
            return xp_call(I, st, 'transpose', [b, p], {}, node)
        return [(st, transpose(I, st, b, None, node))]
    if name in ('conj', 'conjugate', 'copy', 'ravel', 'dot', 'trace', 'max', 'min', 'sum', 'mean', 'prod', 'diagonal',
                'swapaxes', 'squeeze', 'all', 'any', 'argmax', 'argmin', 'argsort', 'cumsum', 'std', 'nonzero'):
        return xp_call(I, st, {'conj': 'conjugate'}.get(name, name), [b] + args, kwargs, node)
    if name == 'flatten':
        out = []
        for s, r in xp_call(I, st, 'ravel', [b], {}, node):
            out.extend(xp_call(I, s, 'copy', [r], {}, node))
        return out
    if name == 'astype':
        d = dtype_of_value(I, st, args[0]) if args else None
        if d is not None and o.dtype is not None and o.dtype - d - WEAK:
            I.event('lossy', node, lost=tuple(sorted(o.dtype - d - WEAK)), into=tuple(sorted(d)))
        return [(st, I.new_arr(st, node, o.axes, d, o.term, o.sums, view=o.view if is_lit(o) else None))]
    if name == 'item':
        return [(st, arr_term(I, st, b) if o.axes == () else T('item', o.term))]
    if name == 'tolist':
        if is_lit(o) and len(o.view[1]) == 1:
            return [(st, I.new_list(st, o.view[2], node))]
        return [(st, I.new_list(st, None, node, elem=T('elem', o.term)))]
    if name == 'fill':
        for s, sig in arr_setitem(I, st, b, o, K(Ellipsis), args[0], node):
            return [(s, NONE if sig is None else sig[1])]
    if name == 'sort':
        note_arrwrite(I, st, b, o, NONE, node)
        return [(st, NONE)]
    if name == 'get':
        return [(st, Exc('AttributeError', 'ndarray object has no attribute get', I.site(node)))]
    return [(st, unknown_arr(I, st, node, b))]


# ------------------------------------------------------------------ numpy

def make_array(I, st, v, node, dtype, copy=True, aslike=False):
    if isarr(st, v):
        o = ob(st, v)
        if aslike and (dtype is None or dtype == o.dtype):
            return v
        d = dtype if dtype is not None else o.dtype
        return I.new_arr(st, node, o.axes, d, o.term, o.sums, view=o.view if is_lit(o) else None)
    if isinstance(v, (K, T)) and v is not TOP and not (isinstance(v, K) and isinstance(v.v, range)) and not (isinstance(v, T) and v.op in ('shape',)):
        d = dtype if dtype is not None else (scalar_dtype(v) or frozenset(['float64']))
        return mk_lit(I, st, node, (), (v,), d)
    n = nested(I, st, v)
    if n is not None:
        d = dtype
        if d is None:
            d = frozenset().union(*[scalar_dtype(x) for x in n[1]]) or frozenset(['float64'])
        return mk_lit(I, st, node, n[0], n[1], d)
    items = to_list(I, st, v)
    if items and all(isarr(st, x) for x in items):
        os = [ob(st, x) for x in items]
        if all(x.axes is not None for x in os):
            ax = os[0].axes
            ok = True
            for x in os[1:]:
                ax, ok = broadcast(I, st, ax, x.axes)
                if not ok:
                    break
            if ok:
                return I.new_arr(st, node, ((Ax(K(len(items)), frozenset()),),) + ax, dtype or jdtype(*[x.dtype for x in os]),
                                 T('stack', *[x.term for x in os]), None)
    if isinstance(v, Ref) and ob(st, v).kind == 'list' and ob(st, v).items is None:
        e = ob(st, v).elem
        if isinstance(e, (K, T)) and e is not TOP:
            return I.new_arr(st, node, ((Ax(T('symint', 'len', str(I.site(node)), str(I.ctx)), frozenset()),),), dtype or frozenset(['float64']),
                             T('array', e), ())
    return I.new_arr(st, node, None, dtype, T('array', str(I.site(node)), str(I.ctx)), None)


def reshape(I, st, a, shp, node):
    if not isarr(st, a):
        if isinstance(a, (K, T)) and a is not TOP or isinstance(a, (Tup,)) or (isinstance(a, Ref) and ob(st, a).kind == 'list'):
            a = make_array(I, st, a, node, None)
        else:
            if isnone(a):
                return [(st, exc_ty(I, node, 'reshape of None'))]
            return [(st, unknown_arr(I, st, node, a))]
    o = ob(st, a)
    dims = as_dims(I, st, shp)
    axes, ok = reshape_axes2(o.axes, dims)
    if not ok:
        return [(st, Exc('ValueError', 'cannot reshape array of shape %s into %s' % (showax(o.axes), dims), I.site(node)))]
    view = None
    if is_lit(o) and axes is not None:
        sh = tuple(gdim(g).v for g in axes if isinstance(gdim(g), K))
        if len(sh) == len(axes):
            view = lit_view(sh, o.view[2])
    if view is None and axes is not None and o.axes is not None and [g for g in axes] == [g for g in o.axes]:
        view = o.view if o.view and o.view[0] == 'map' else ('map', a.oid, None)
    return [(st, I.new_arr(st, node, axes, o.dtype, (lit_term(view[1], view[2]) if view[1] != () else view[2][0] if isinstance(view[2][0], T) else T('const', view[2][0])) if view and view[0] == 'lit' else o.term, o.sums, buf=o.buf, view=view))]


def _fresh_like(I, st, node, o, term=None, axes=0, dtype=0, sums=0, view=None, buf=None):
    return I.new_arr(st, node, o.axes if axes == 0 else axes, o.dtype if dtype == 0 else dtype,
                     term if term is not None else o.term, o.sums if sums == 0 else sums, buf=buf, view=view)


def sv_tag(I, st, node, what):
    k = ('svtag', tuple(I.ctx), str(I.site(node)), what)
    n = I.oids.get(k)
    if n is None:
        n = len([x for x in I.oids if x[0] == 'svtag']) + 1
        I.oids[k] = n
    return '%s%d' % (what, n)


def contract_arrays(I, st, a, b, pairs, node, order=None):
    """generalised tensordot over [(axis of a, axis of b)]"""
    oa, o2 = ob(st, a), ob(st, b)
    term = mk_mul(arr_term(I, st, a), arr_term(I, st, b))
    if not isinstance(term, T):
        term = T('const', term)
    dt = jdtype(oa.dtype, o2.dtype)
    if oa.axes is None or o2.axes is None or pairs is None:
        return I.new_arr(st, node, None, dt, T('ctr', term) if pairs is None else term, None)
    ents = []
    for x, y in pairs:
        e, ok = pair_entries(I, st, oa.axes[x], o2.axes[y])
        if not ok:
            return Exc('ValueError', 'contracted extents differ: %r and %r' % (gdim(oa.axes[x]), gdim(o2.axes[y])), I.site(node))
        if e is None or ents is None:
            ents = None
        else:
            ents = ents + e
    ra = [g for k, g in enumerate(oa.axes) if k not in [x for x, _ in pairs]]
    rb = [g for k, g in enumerate(o2.axes) if k not in [y for _, y in pairs]]
    sums = jsums(oa.sums, o2.sums, tuple(ents) if ents is not None else None)
    if is_lit(oa) and is_lit(o2):
        la, lb = list(range(len(oa.view[1]))), [('b', k) for k in range(len(o2.view[1]))]
        for x, y in pairs:
            lb[y] = x
        outl = [l for k, l in enumerate(la) if k not in [x for x, _ in pairs]] + [l for l in lb if not isinstance(l, int)]
        r = lit_einsum([(oa.view[1], oa.view[2], la), (o2.view[1], o2.view[2], lb)], outl)
        if r is not None:
            return mk_lit(I, st, node, r[0], r[1], dt, axes=tuple(ra + rb), sums=sums)
    return I.new_arr(st, node, tuple(ra + rb), dt, term, sums)


def lit_einsum(ops, outl):
    """ops: [(shape, entries, labels)] of literal arrays -> (shape, entries) of the sum over all labels not in outl | None"""
    ext = {}
    for sh, _, ls in ops:
        for d, l in zip(sh, ls):
            if ext.setdefault(l, d) != d:
                return None
    inner = [l for l in ext if l not in outl]
    n = 1
    for l in ext:
        n *= ext[l]
    shape = tuple(ext[l] for l in outl)
    if n > 4096 or (shape and math_prod(shape) > A.LITCAP):
        return None
    ss = [strides(sh) for sh, _, _ in ops]
    flat = []
    for o in all_idx(shape):
        env = dict(zip(outl, o))
        parts = []
        for i in all_idx(tuple(ext[l] for l in inner)):
            env.update(zip(inner, i))
            parts.append(mk_mul(*[f[sum(s * env[l] for s, l in zip(st_, ls))] for (sh, f, ls), st_ in zip(ops, ss)]))
        flat.append(mk_add(*parts) if len(parts) != 1 else parts[0])
    return shape, tuple(flat)


def math_prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def matmul(I, st, a, b, node):
    if not isarr(st, a):
        a = make_array(I, st, a, node, None)
    if not isarr(st, b):
        b = make_array(I, st, b, node, None)
    oa, o2 = ob(st, a), ob(st, b)
    if oa.axes is None or o2.axes is None:
        return [(st, contract_arrays(I, st, a, b, None, node))]
    na, nb = len(oa.axes), len(o2.axes)
    if na == 0 or nb == 0:
        return [(st, Exc('ValueError', 'matmul: operand has no dimensions', I.site(node)))]
    if na > 2 or nb > 2:
        return [(st, unknown_arr(I, st, node, a, b))]
    return [(st, contract_arrays(I, st, a, b, [(na - 1, 0)], node))]


def is_scalarish(st, v):
    return isinstance(v, (K, T)) and not isarr(st, v)


def elementwise(I, st, name, a, node):
    a0 = a
    if isarr(st, a):
        o = ob(st, a)
        if is_lit(o):
            return [(st, mk_lit(I, st, node, o.view[1], tuple(fold1(name, x) for x in o.view[2]), o.dtype, axes=o.axes, sums=o.sums))]
        return [(st, _fresh_like(I, st, node, o, fold1(name, o.term)))]
    if isinstance(a, (K, T)):
        if isinstance(a, K) and (a.v is None or isinstance(a.v, str)):
            return [(st, exc_ty(I, node, '%s of %r' % (name, a)))]
        return [(st, fold1(name, a))]
    if isinstance(a, (Tup,)) or (isinstance(a, Ref) and ob(st, a).kind == 'list'):
        return elementwise(I, st, name, make_array(I, st, a, node, None), node)
    if isinstance(a, Ref) and ob(st, a).kind == 'inst':
        return [(st, exc_ty(I, node, '%s of an object' % name))]
    return [(st, TOP)]


def fold1(name, x):
    import math
    if x is TOP:
        return TOP
    if isinstance(x, K) and isinstance(x.v, (int, float)) and not isinstance(x.v, bool):
        if name == 'exp' and x.v == 0:
            return K(1.0)
        if name == 'log' and x.v == 1:
            return K(0.0)
        if name == "sqrt" and isinstance(x.v, (int, float)) and 0 <= x.v <= 10**6:
            return K(float(math.sqrt(x.v)))
        if name == 'abs':
            return K(abs(x.v))
        if name == 'log' and 0 < x.v < 10**6:
            return K(math.log(x.v))
        if name in ('exp', 'sinh', 'cosh', 'tanh') and abs(x.v) < 50:
            return K(getattr(math, name)(x.v))
    if name == 'log' and isinstance(x, T) and x.op == 'exp':
        return x.args[0]
    if name == 'exp' and isinstance(x, T) and x.op == 'log':
        return x.args[0]
    if name == 'conjugate':
        name = 'conj'
        if isinstance(x, T) and x.op == 'conj':
            return x.args[0]
        if isinstance(x, K):
            return K(x.v.conjugate()) if isinstance(x.v, complex) else x
    return T(name, x)


def sum_axes(I, st, a, axis, node, keep=False, name='sum'):
    o = ob(st, a)
    if is_lit(o) and name == 'sum' and (axis is None or isnone(axis)):
        r = mk_add(*o.view[2]) if o.view[2] else K(0)
        return [(st, I.new_arr(st, node, (), o.dtype, r if isinstance(r, T) else T('const', r), o.sums, view=lit_view((), (r,))))]
    if o.axes is None:
        if axis is None or isnone(axis):
            return [(st, I.new_arr(st, node, (), o.dtype, T(name, o.term), None))]
        return [(st, unknown_arr(I, st, node, a))]
    n = len(o.axes)
    if axis is None or isnone(axis):
        ks = list(range(n))
    else:
        dims = as_dims(I, st, axis)
        ks = [norm_axis(d, n) for d in dims] if dims is not None else [None]
        if dims is not None and any(isinstance(d, K) and isinstance(d.v, int) and not -n <= d.v < n for d in dims):
            return [(st, Exc('ValueError', 'axis %r is out of bounds for array of dimension %d' % (dims, n), I.site(node)))]
    if any(k is None for k in ks):
        return [(st, unknown_arr(I, st, node, a))]
    sums = o.sums
    if sums is not None and name == 'sum':
        ents = []
        for k in ks:
            for x in o.axes[k]:
                if x.tags or not (isinstance(x.dim, K) and x.dim.v == 1):
                    ents.append(tuple(sorted(x.tags)))
        sums = tuple(sorted(sums + tuple(ents)))
    axes = tuple(g for k, g in enumerate(o.axes) if k not in ks)
    view = None
    if is_lit(o) and name == 'sum' and len(ks) == 1:
        shape = o.view[1]
        ss = strides(shape)
        k0 = ks[0]
        nsh = tuple(d for k, d in enumerate(shape) if k != k0)
        flat = []
        for idx in all_idx(nsh):
            full = idx[:k0] + (0,) + idx[k0:]
            base = sum(s * z for s, z in zip(ss, full))
            flat.append(mk_add(*[o.view[2][base + ss[k0] * z] for z in range(shape[k0])]))
        return [(st, mk_lit(I, st, node, nsh, tuple(flat), o.dtype, axes=axes, sums=sums))]
    term = o.term if name == 'sum' and o.term.op not in ('slice', 'pow') and not (n == 1 and spectral(o.term)) else T(name, o.term)
    if name == 'sum' and isinstance(term, T) and term.op == 'add' and len(ks):
        term = T('sum', term)
    return [(st, I.new_arr(st, node, axes, o.dtype, term, sums))]


def spectral(t):
    """does the term contain singular values or eigenvalues?"""
    return isinstance(t, T) and (t.op in ('svdS', 'eigW') or any(spectral(x) for x in t.args))


def parse_einsum(spec):
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins, out = spec, None
    return ins.split(','), out


def expand(sub, n):
    """subscript string -> list of labels with ellipsis expanded to ('.',k) right-aligned"""
    if '...' in sub:
        pre, post = sub.split('...')
        m = n - len(pre) - len(post)
        if m < 0:
            return None
        return list(pre) + [('.', m - 1 - k) for k in range(m)] + list(post)
    if len(sub) != n:
        return None
    return list(sub)


def einsum(I, st, args, node):
    if not args or not (isinstance(args[0], K) and isinstance(args[0].v, str)):
        return [(st, unknown_arr(I, st, node, *args))]
    ins, out = parse_einsum(args[0].v)
    ops = []
    for a in args[1:]:
        if not isarr(st, a):
            a = make_array(I, st, a, node, None)
        ops.append(a)
    if len(ins) != len(ops):
        return [(st, Exc('ValueError', 'einsum: %d subscripts for %d operands' % (len(ins), len(ops)), I.site(node)))]
    os = [ob(st, a) for a in ops]
    dt = jdtype(*[o.dtype for o in os])
    term = mk_mul(*[arr_term(I, st, a) for a in ops])
    if not isinstance(term, T):
        term = T('const', term)
    if any(o.axes is None for o in os):
        return [(st, I.new_arr(st, node, None, dt, term, None, buf=os[0].buf if len(os) == 1 else None))]
    labs = []
    for s, o in zip(ins, os):
        e = expand(s, len(o.axes))
        if e is None:
            return [(st, Exc('ValueError', 'einsum: subscripts %r do not match an array of dimension %d' % (s, len(o.axes)), I.site(node)))]
        labs.append(e)
    groups = {}
    where = {}
    for oi, (e, o) in enumerate(zip(labs, os)):
        for k, (l, g) in enumerate(zip(e, o.axes)):
            where.setdefault(l, []).append((oi, k))
            if l in groups:
                g2, ok = merge_groups(I, st, groups[l], g)
                if not ok:
                    return [(st, Exc('ValueError', 'einsum: extents of %r differ: %r and %r' % (l, gdim(groups[l]), gdim(g)), I.site(node)))]
                groups[l] = g2
            else:
                groups[l] = g
    ell = sorted([l for l in groups if isinstance(l, tuple)], key=lambda l: -l[1])
    if out is None:
        cnt = {}
        for e in labs:
            for l in e:
                cnt[l] = cnt.get(l, 0) + 1
        outl = ell + sorted(l for l in cnt if not isinstance(l, tuple) and cnt[l] == 1)
    elif '...' in out:
        pre, post = out.split('...')
        outl = list(pre) + ell + list(post)
    else:
        outl = list(out)
    if any(l not in groups for l in outl):
        return [(st, Exc('ValueError', 'einsum: output subscript not in the input', I.site(node)))]
    axes = tuple(groups[l] for l in outl)
    summed = [l for l in groups if l not in outl]
    ents = []
    for l in summed:
        for x in groups[l]:
            ents.append(tuple(sorted(x.tags)))
    sums = jsums(*([o.sums for o in os] + [tuple(ents)]))
    buf = None
    view = None
    if len(os) == 1 and not summed:
        buf = os[0].buf
        base = ops[0].oid
        vm = tuple(tuple(k for _, k in where[l]) for l in outl)
        if os[0].view is not None and os[0].view[0] == 'map' and os[0].view[2] is not None:
            base = os[0].view[1]
            vm = tuple(tuple(b for k in ks for b in os[0].view[2][k]) for ks in vm)
        elif os[0].view is not None and os[0].view[0] == 'map':
            base = os[0].view[1]
        view = ('map', base, vm)
        if any(len(w) > 1 for w in where.values()):
            if term.op not in ('zeros',):
                term = T('diagof', term) if not all(not x.tags for g in os[0].axes for x in g) else term
    if all(is_lit(o) for o in os) and len(set(outl)) == len(outl) and (buf is None or not all(isinstance(x, K) for x in os[0].view[2])):
        r = lit_einsum([(o.view[1], o.view[2], e) for o, e in zip(os, labs)], outl)
        if r is not None:
            return [(st, mk_lit(I, st, node, r[0], r[1], dt, buf=buf, axes=axes, sums=sums))]
    return [(st, I.new_arr(st, node, axes, dt, term, sums, buf=buf, view=view))]


def shifted(tags):
    return frozenset(t if t.startswith('!') or t == UNK or t.endswith('>') else t + '>' for t in tags)


def reverse_group(g):
    """an axis that runs backwards: its tags are marked with ^ (twice backwards is forwards)"""
    def rev(t):
        if t.startswith('!') or t == UNK:
            return t
        return t[:-1] if t.endswith('^') else t + '^'
    return tuple(Ax(a.dim, frozenset(rev(t) for t in a.tags)) for a in g)


DTYPE_KW = ('einsum', 'sum', 'prod', 'matmul', 'multiply', 'add', 'subtract', 'divide', 'dot', 'trace', 'cumsum', 'concatenate',
            'stack', 'mean', 'multiply.outer', 'power', 'sqrt', 'exp', 'log')


def xp_call(I, st, name, args, kwargs, node):
    """numpy function -> [(st, value)]"""
    def unk():
        key = 'numpy.' + name
        I.unmodelled[key] = I.unmodelled.get(key, 0) + 1
        return [(st, unknown_arr(I, st, node, *args))]
    site = I.site(node)
    if kwargs and name in DTYPE_KW and ('dtype' in kwargs or 'casting' in kwargs):
        kw2 = {k: v for k, v in kwargs.items() if k not in ('dtype', 'casting', 'optimize', 'order')}
        d = dtype_of_value(I, st, kwargs['dtype']) if 'dtype' in kwargs and not isnone(kwargs['dtype']) else None
        out = []
        for s2, r in xp_call(I, st, name, args, kw2, node):
            o = ob(s2, r) if isinstance(r, Ref) else None
            if 'dtype' in kwargs and not isnone(kwargs['dtype']) and o is not None and o.kind == 'arr':
                s2.heap[r.oid] = o.repl(dtype=d)
            out.append((s2, r))
        return out
    if 'out' in kwargs and not isnone(kwargs['out']) or 'where' in kwargs:
        return unk()
    a = kw(args, kwargs, 0, 'a')
    if name in ('zeros', 'ones', 'empty', 'full'):
        dims = as_dims(I, st, kw(args, kwargs, 0, 'shape'))
        dv = kw(args, kwargs, 1 if name != 'full' else 2, 'dtype')
        dt = dtype_of_value(I, st, dv) if dv is not None else frozenset(['float64'])
        fill = {'zeros': K(0.0), 'ones': K(1.0), 'empty': K(0.0)}.get(name) or kw(args, kwargs, 1, 'fill_value', K(0.0))
        if dims is None:
            return [(st, I.new_arr(st, node, None, dt, T('zeros' if name in ('zeros', 'empty') else 'const', fill), ()))]
        for d in dims:
            if isinstance(d, K) and not isinstance(d.v, int):
                return [(st, exc_ty(I, node, 'shape must be integers, got %r' % (d,)))]
        sh = lit_ok(dims)
        if sh is not None:
            n = 1
            for d in sh:
                n *= d
            return [(st, mk_lit(I, st, node, sh, tuple([fill] * n), dt))]
        return [(st, I.new_arr(st, node, plain_axes(dims), dt, T('zeros') if name in ('zeros', 'empty') else T('const', fill), ()))]
    if name in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
        if not isarr(st, a):
            return unk()
        o = ob(st, a)
        dv = kwargs.get('dtype')
        dt = dtype_of_value(I, st, dv) if dv is not None else o.dtype
        s = shape_of(o)
        return [(st, I.new_arr(st, node, None if s is None else plain_axes(s), dt,
                               T('zeros') if name in ('zeros_like', 'empty_like') else T('const', K(1.0)), ()))]
    if name in ('eye', 'identity'):
        d = as_dims(I, st, kw(args, kwargs, 0, 'N'))
        dv = kwargs.get('dtype')
        dt = dtype_of_value(I, st, dv) if dv is not None else frozenset(['float64'])
        if d is None:
            return unk()
        m = kw(args, kwargs, 1, 'M') if name == 'eye' else None
        off = kw(args, kwargs, 2, 'k') if name == 'eye' else None
        m = None if m is None or isnone(m) else as_dims(I, st, m)
        if m is None:
            m = d
        if off is not None and off != K(0):
            if not (isinstance(off, K) and isinstance(off.v, int)):
                return unk()
        off = off.v if off is not None else 0
        sh = lit_ok([d[0], m[0]])
        if sh is not None:
            return [(st, mk_lit(I, st, node, sh, tuple(K(1.0 if j - i == off else 0.0) for i in range(sh[0]) for j in range(sh[1])), dt))]
        if off or I.eq3(st, d[0], m[0]) is not True:
            return [(st, I.new_arr(st, node, unk_axes([d[0], m[0]]), dt, T('eye', d[0], m[0], K(off)), ()))]
        t = sv_tag(I, st, node, 'id')
        return [(st, I.new_arr(st, node, ((Ax(d[0], frozenset([t])),), (Ax(d[0], frozenset([t])),)), dt, T('eye', d[0], m[0], K(off)), ()))]
    if name == 'copy':
        if isarr(st, a):
            o = ob(st, a)
            return [(st, _fresh_like(I, st, node, o, view=o.view if is_lit(o) else None))]
        if isnone(a):
            return [(st, I.new_arr(st, node, (), frozenset(['object']), T('const', NONE), ()))]
        return [(st, make_array(I, st, a, node, None))]
    if name in ('array', 'asarray', 'ascontiguousarray', 'asanyarray', 'asfortranarray'):
        a = kw(args, kwargs, 0, 'object' if name == 'array' else 'a')
        dv = kw(args, kwargs, 1, 'dtype')
        dt = dtype_of_value(I, st, dv) if dv is not None and not isnone(dv) else None
        like = name != 'array'
        c = kwargs.get('copy')
        if c is not None and isinstance(c, K) and c.v is False:
            like = True
        if isarr(st, a) and dt is not None and ob(st, a).dtype is not None and ob(st, a).dtype - dt - WEAK:
            I.event('lossy', node, lost=tuple(sorted(ob(st, a).dtype - dt - WEAK)), into=tuple(sorted(dt)))
        return [(st, make_array(I, st, a, node, dt, aslike=like))]
    if name == 'reshape':
        return reshape(I, st, a, kw(args, kwargs, 1, 'newshape', kwargs.get('shape')), node)
    if name in ('ravel',):
        return reshape(I, st, a, Tup((K(-1),)), node)
    if name == 'shape':
        if isarr(st, a):
            return arr_attr(I, st, a, ob(st, a), 'shape', node)
        return [(st, TOP)]
    if name in ('moveaxis', 'transpose', 'swapaxes'):
        if not isarr(st, a):
            if isnone(a):
                # numpy turns None into a 0-d object array: every axis is out of bounds
                src = as_dims(I, st, kw(args, kwargs, 1, 'source'))
                if name == 'moveaxis' and src:
                    return [(st, Exc('ValueError', 'moveaxis of None', site))]
                return [(st, I.new_arr(st, node, (), frozenset(['object']), T('const', NONE), ()))]
            if isinstance(a, (K, T)):
                a = make_array(I, st, a, node, None)
            else:
                return unk()
        o = ob(st, a)
        if o.axes is None:
            return [(st, _fresh_like(I, st, node, o, buf=o.buf))]
        n = len(o.axes)
        if name == 'transpose':
            p = kw(args, kwargs, 1, 'axes')
            if p is None or isnone(p):
                return [(st, transpose(I, st, a, None, node))]
            dims = as_dims(I, st, p)
            ks = [norm_axis(d, n) for d in dims] if dims is not None else None
        elif name == 'swapaxes':
            d1, d2 = kw(args, kwargs, 1, 'axis1'), kw(args, kwargs, 2, 'axis2')
            x, y = norm_axis(d1, n), norm_axis(d2, n)
            ks = None
            if x is not None and y is not None:
                ks = list(range(n))
                ks[x], ks[y] = ks[y], ks[x]
            elif isinstance(d1, K) and isinstance(d2, K):
                return [(st, Exc('ValueError', 'axis out of bounds', site))]
        else:
            s, d = as_dims(I, st, kw(args, kwargs, 1, 'source')), as_dims(I, st, kw(args, kwargs, 2, 'destination'))
            if s is None or d is None:
                ks = None
            else:
                if len(s) != len(d):
                    return [(st, Exc('ValueError', 'moveaxis: source and destination must have the same number of elements', site))]
                s2, d2 = [norm_axis(x, n) for x in s], [norm_axis(x, n) for x in d]
                for orig, nn in zip(s + d, s2 + d2):
                    if nn is None and isinstance(orig, K):
                        return [(st, Exc('ValueError', 'axis %r out of bounds for array of dimension %d' % (orig, n), site))]
                if None in s2 or None in d2:
                    ks = None
                else:
                    if len(set(s2)) != len(s2) or len(set(d2)) != len(d2):
                        return [(st, Exc('ValueError', 'repeated axis in moveaxis', site))]
                    ks = moveaxis_perm(n, s2, d2)
        if ks is None:
            return [(st, _fresh_like(I, st, node, o, axes=None, buf=o.buf))]
        if any(k is None for k in ks) or sorted(ks) != list(range(n)):
            return [(st, Exc('ValueError', "axes don't match array", site))]
        return [(st, transpose(I, st, a, ks, node))]
    if name == 'einsum':
        return einsum(I, st, args, node)
    if name in ('matmul',):
        return matmul(I, st, args[0], args[1], node)
    if name == 'dot':
        b = args[1]
        if is_scalarish(st, a) or is_scalarish(st, b):
            return I.binop(st, 'Mult', a, b, node)
        if isarr(st, a) and isarr(st, b) and ob(st, a).axes is not None and ob(st, b).axes is not None:
            na, nb = len(ob(st, a).axes), len(ob(st, b).axes)
            if na == 0 or nb == 0:
                return I.binop(st, 'Mult', a, b, node)
            return [(st, contract_arrays(I, st, a, b, [(na - 1, 0 if nb == 1 else nb - 2)], node))]
        return matmul(I, st, a, b, node)
    if name in ('outer', 'multiply.outer', 'kron'):
        b = args[1]
        if not isarr(st, a):
            a = make_array(I, st, a, node, None)
        if not isarr(st, b):
            b = make_array(I, st, b, node, None)
        if name == 'kron':
            return [(st, unknown_arr(I, st, node, a, b))]
        if name == 'outer':
            out = []
            for s, x in xp_call(I, st, 'ravel', [a], {}, node):
                for s2, y in xp_call(I, s, 'ravel', [b], {}, node):
                    out.append((s2, contract_arrays(I, s2, x, y, [], node)))
            return out
        la, lb = lit_operand(st, a), lit_operand(st, b)
        if la is not None and lb is not None and len(la[1]) * len(lb[1]) <= LITCAP:
            oa, o2 = ob(st, a), ob(st, b)
            return [(st, mk_lit(I, st, node, la[0] + lb[0], tuple(mk_mul(x, y) for x in la[1] for y in lb[1]),
                                jdtype(oa.dtype, o2.dtype), axes=oa.axes + o2.axes, sums=jsums(oa.sums, o2.sums)))]
        return [(st, contract_arrays(I, st, a, b, [], node))]
    if name == 'tensordot':
        b = args[1]
        axs = kw(args, kwargs, 2, 'axes', K(2))
        if not isarr(st, a) or not isarr(st, b) or ob(st, a).axes is None or ob(st, b).axes is None:
            return [(st, unknown_arr(I, st, node, a, b))]
        na, nb = len(ob(st, a).axes), len(ob(st, b).axes)
        if isinstance(axs, K) and isinstance(axs.v, int):
            n = axs.v
            pairs = [(na - n + k, k) for k in range(n)]
        else:
            pr = to_list(I, st, axs)
            if pr is None or len(pr) != 2:
                return [(st, unknown_arr(I, st, node, a, b))]
            x, y = as_dims(I, st, pr[0]), as_dims(I, st, pr[1])
            if x is None or y is None:
                return [(st, contract_arrays(I, st, a, b, None, node))]
            xs, ys = [norm_axis(k, na) for k in x], [norm_axis(k, nb) for k in y]
            if len(xs) != len(ys):
                return [(st, Exc('ValueError', 'shape-mismatch for sum', site))]
            if None in xs or None in ys:
                if all(isinstance(k, K) for k in x + y):
                    return [(st, Exc('IndexError', 'tensordot axis out of range', site))]
                return [(st, contract_arrays(I, st, a, b, None, node))]
            pairs = list(zip(xs, ys))
        return [(st, contract_arrays(I, st, a, b, pairs, node))]
    if name in ('sum', 'prod', 'mean', 'average', 'max', 'min', 'amax', 'amin', 'all', 'any', 'argmax', 'argmin', 'count_nonzero', 'std', 'cumsum'):
        if not isarr(st, a):
            if isinstance(a, (K, T)):
                if isnone(a):
                    return [(st, exc_ty(I, node, '%s of None' % name))]
                if name == 'count_nonzero':
                    return [(st, T('count_nonzero', a))]
                return [(st, a)]
            a = make_array(I, st, a, node, None)
        o = ob(st, a)
        axis = kw(args, kwargs, 1, 'axis')
        if is_lit(o) and name in ('all', 'any', 'count_nonzero') and (axis is None or isnone(axis)) and all(isinstance(x, K) and isinstance(x.v, (bool, int, float)) for x in o.view[2]):
            vs = [bool(x.v) for x in o.view[2]]
            return [(st, K(all(vs) if name == 'all' else any(vs) if name == 'any' else sum(vs)))]
        if is_lit(o) and name == 'sum' and (axis is None or isnone(axis)) and o.view[2] and all(isinstance(x, K) and isinstance(x.v, bool) for x in o.view[2]):
            return [(st, K(sum(x.v for x in o.view[2])))]
        if name == 'count_nonzero' or (name == 'sum' and axis is None and o.term.op == 'cmp'):
            s = shape_of(o)
            t = T('count_nonzero', o.term)
            if s is not None and axis is None:
                return [(st, mk_min(t, *( [mk_mul(*s)] if s else [K(1)])))]
            return [(st, t)]
        if name == 'cumsum':
            return [(st, _fresh_like(I, st, node, o, T('cumsum', o.term)))]
        if name in ('max', 'min', 'amax', 'amin') and axis is None and is_lit(o) and o.view[2]:
            f = mk_max if 'max' in name else mk_min
            return [(st, f(*o.view[2]))]
        return sum_axes(I, st, a, axis, node, name=name)
    if name in ('linalg.norm',):
        if isnone(a):
            return [(st, exc_ty(I, node, 'norm of None'))]
        if isarr(st, a):
            ordv = kw(args, kwargs, 1, 'ord')
            t = arr_term(I, st, a)
            if ordv is not None and not isnone(ordv):
                return [(st, T('norm', t, ordv))]
            o = ob(st, a)
            if is_lit(o) and all(isinstance(x, K) and isinstance(x.v, (int, float, complex)) for x in o.view[2]):
                return [(st, K(float(sum(abs(x.v) ** 2 for x in o.view[2])) ** 0.5))]
            return [(st, T('norm', t))]
        if isinstance(a, (K, T)) and a is not TOP:
            return [(st, T('norm', a))]
        return [(st, T('norm', T('unk', str(site), tuple(I.ctx))))]
    if name == 'linalg.svd':
        if not isarr(st, a):
            if isnone(a):
                return [(st, exc_ty(I, node, 'svd of None'))]
            return unk()
        o = ob(st, a)
        if o.axes is None:
            return [(st, Tup([I.new_arr(st, node, None, o.dtype, T(x, o.term), None, sub=x) for x in ('svdU', 'svdS', 'svdV')]))]
        if len(o.axes) != 2:
            return [(st, Exc('LinAlgError', 'svd needs a matrix, got %d dimensions' % len(o.axes), site))]
        r, c = o.axes
        fm = kw(args, kwargs, 1, 'full_matrices', TRUE)
        cu = kw(args, kwargs, 2, 'compute_uv', TRUE)
        k = mk_min(gdim(r), gdim(c))
        tag = frozenset([sv_tag(I, st, node, 'sv')])
        s = I.new_arr(st, node, ((Ax(k, tag),),), real_dtype(o.dtype), T('svdS', o.term, k), (), sub='svdS')
        if cu == FALSE:
            return [(st, s)]
        full = not (isinstance(fm, K) and not fm.v)
        u = I.new_arr(st, node, (r, (Ax(gdim(r) if full else k, tag),)), o.dtype, T('svdU', o.term, gdim(r), gdim(r) if full else k), (), sub='svdU')
        v = I.new_arr(st, node, ((Ax(gdim(c) if full else k, tag),), c), o.dtype, T('svdV', o.term, gdim(c) if full else k, gdim(c)), (), sub='svdV')
        return [(st, Tup((u, s, v)))]
    if name in ('linalg.eigh', 'linalg.eig'):
        if not isarr(st, a) or ob(st, a).axes is None:
            return [(st, Tup([unknown_arr(I, st, node, a), I.new_arr(st, node, None, None, T('eigV', str(site), str(I.ctx)), None, sub='v')]))]
        o = ob(st, a)
        if len(o.axes) != 2:
            return [(st, Exc('LinAlgError', 'eigh needs a matrix', site))]
        tag = frozenset([sv_tag(I, st, node, 'ev')])
        e = I.eq3(st, gdim(o.axes[0]), gdim(o.axes[1]))
        if e is False:
            return [(st, Exc('LinAlgError', 'eigh of a non-square matrix', site))]
        d = gdim(o.axes[0])
        w = I.new_arr(st, node, ((Ax(d, tag),),), real_dtype(o.dtype), T('eigW', o.term, d), (), sub='w')
        v = I.new_arr(st, node, (o.axes[0], (Ax(d, tag),)), o.dtype, T('eigV', o.term, gdim(o.axes[0]), d), (), sub='v')
        return [(st, Tup((w, v)))]
    if name in ('linalg.inv', 'linalg.pinv'):
        if isarr(st, a) and ob(st, a).axes is not None and len(ob(st, a).axes) == 2:
            o = ob(st, a)
            return [(st, _fresh_like(I, st, node, o, T('inv', o.term), axes=(o.axes[1], o.axes[0])))]
        return unk()
    if name in ('linalg.qr',):
        if isarr(st, a) and ob(st, a).axes is not None and len(ob(st, a).axes) == 2:
            o = ob(st, a)
            tag = frozenset([sv_tag(I, st, node, 'qr')])
            k = mk_min(gdim(o.axes[0]), gdim(o.axes[1]))
            q = I.new_arr(st, node, (o.axes[0], (Ax(k, tag),)), o.dtype, T('qrQ', o.term), (), sub='q')
            r = I.new_arr(st, node, ((Ax(k, tag),), o.axes[1]), o.dtype, T('qrR', o.term), (), sub='r')
            return [(st, Tup((q, r)))]
        return unk()
    if name in ('sqrt', 'exp', 'log', 'sinh', 'cosh', 'tanh', 'abs', 'absolute', 'conjugate', 'conj', 'sin', 'cos',
                'log2', 'log10', 'sign', 'floor', 'ceil', 'isnan', 'isfinite', 'square', 'negative', 'real', 'imag',
                'around', 'round', 'angle', 'log1p', 'expm1', 'fabs', 'tan', 'arctan'):
        nm = {'absolute': 'abs', 'conj': 'conjugate', 'fabs': 'abs'}.get(name, name)
        if nm == 'negative' and isarr(st, a):
            o = ob(st, a)
            return [(st, _fresh_like(I, st, node, o, mk_neg(o.term)))]
        if nm == 'square':
            return I.binop(st, 'Mult', a, a, node)
        return elementwise(I, st, nm, a, node)
    if name in ('multiply', 'add', 'subtract', 'divide', 'true_divide', 'power', 'floor_divide', 'mod', 'maximum', 'minimum'):
        opn = {'multiply': 'Mult', 'add': 'Add', 'subtract': 'Sub', 'divide': 'Div', 'true_divide': 'Div', 'power': 'Pow',
               'floor_divide': 'FloorDiv', 'mod': 'Mod'}.get(name)
        if opn is None:
            x, y = scalar(I, st, args[0]), scalar(I, st, args[1])
            if isinstance(x, (K, T)) and isinstance(y, (K, T)):
                return [(st, (mk_max if name == 'maximum' else mk_min)(x, y))]
            return unk()
        if not any(isarr(st, x) for x in args[:2]):
            args = [make_array(I, st, x, node, None) if not isinstance(x, (K, T)) else x for x in args]
        return I.binop(st, opn, args[0], args[1], node)
    if name in ('diag', 'diagonal', 'diagflat'):
        if not isarr(st, a):
            if isnone(a):
                return [(st, Exc('ValueError', 'diag of None', site))]
            a = make_array(I, st, a, node, None)
        o = ob(st, a)
        if o.axes is None:
            return [(st, unknown_arr(I, st, node, a))]
        if len(o.axes) == 1 and name != 'diagonal':
            g = o.axes[0]
            if all(not x.tags for x in g):
                pass
            view = None
            if is_lit(o):
                n = o.view[1][0]
                if n * n <= LITCAP:
                    return [(st, mk_lit(I, st, node, (n, n), tuple(o.view[2][i] if i == j else K(0.0) for i in range(n) for j in range(n)), o.dtype, axes=(g, g), sums=o.sums))]
            return [(st, I.new_arr(st, node, (g, g), o.dtype, o.term, o.sums))]
        if len(o.axes) == 2:
            g, ok = merge_groups(I, st, o.axes[0], o.axes[1])
            if not ok:
                d = mk_min(gdim(o.axes[0]), gdim(o.axes[1]))
                g = (Ax(d, frozenset([UNK])),)
            if is_lit(o):
                q = min(o.view[1])
                return [(st, mk_lit(I, st, node, (q,), tuple(o.view[2][(o.view[1][1] + 1) * z] for z in range(q)), o.dtype, axes=(g,), sums=o.sums))]
            return [(st, I.new_arr(st, node, (g,), o.dtype, T('diagof', o.term), o.sums))]
        return [(st, unknown_arr(I, st, node, a))]
    if name == 'diag_indices':
        n, nd = args[0], kw(args, kwargs, 1, 'ndim', K(2))
        return [(st, T('diagidx', scalar(I, st, n), scalar(I, st, nd)))]
    if name == 'trace':
        if not isarr(st, a):
            return [(st, TOP)] if not isnone(a) else [(st, exc_ty(I, node, 'trace of None'))]
        o = ob(st, a)
        if o.axes is None or len(o.axes) != 2:
            return [(st, I.new_arr(st, node, () if o.axes is not None and len(o.axes) == 2 else None, o.dtype, T('trace', o.term), None))]
        e, ok = pair_entries(I, st, o.axes[0], o.axes[1])
        sums = jsums(o.sums, tuple(e) if ok and e is not None else None)
        return [(st, I.new_arr(st, node, (), o.dtype, T('trace', o.term), sums))]
    if name == 'flip':
        if isarr(st, a):
            o = ob(st, a)
            ax = kw(args, kwargs, 1, 'axis')
            n = None if o.axes is None else len(o.axes)
            which = None
            if n is not None and (ax is None or isnone(ax)):
                which = set(range(n))
            elif n is not None and isinstance(ax, K) and isinstance(ax.v, int):
                which = {ax.v % n} if -n <= ax.v < n else None
            elif n is not None and isinstance(ax, Tup) and all(isinstance(x, K) for x in ax.items):
                which = {x.v % n for x in ax.items}
            if which is None:
                return [(st, _fresh_like(I, st, node, o, T('flip', o.term), axes=None, buf=o.buf))]
            return [(st, _fresh_like(I, st, node, o, T('flip', o.term, *[K(x) for x in sorted(which)]),
                                     axes=tuple(reverse_group(g) if i in which else g for i, g in enumerate(o.axes)), buf=o.buf))]
        return unk()
    if name in ('random.random_sample', 'random.random', 'random.rand', 'random.randn', 'random.normal', 'random.uniform', 'random.randint'):
        if name in ('random.rand', 'random.randn'):
            dims = list(args)
        elif name in ('random.normal', 'random.uniform', 'random.randint'):
            dims = as_dims(I, st, kwargs['size']) if 'size' in kwargs else (as_dims(I, st, args[2]) if len(args) > 2 else [])
        else:
            s = kw(args, kwargs, 0, 'size')
            if s is None or isnone(s):
                return [(st, T('symfloat', 'rand', str(site), tuple(I.ctx)))]
            dims = as_dims(I, st, s)
        if dims is not None:
            for d in dims:
                if isinstance(d, K) and not isinstance(d.v, int):
                    return [(st, exc_ty(I, node, 'shape must be integers, got %r' % (d,)))]
        if dims == []:
            return [(st, T('symint' if name.endswith('int') else 'symfloat', 'rand', str(site), tuple(I.ctx)))]
        return [(st, I.new_arr(st, node, None if dims is None else plain_axes(dims), frozenset(['float64']),
                               T('rand', str(site), tuple(I.ctx)), ()))]
    if name in ('random.seed', 'set_printoptions', 'seterr', 'random.shuffle'):
        return [(st, NONE)]
    if name == 'issubdtype':
        d = args[0]
        if isinstance(d, T) and d.op == 'dtype':
            names = set(x.v for x in d.args)
            if isinstance(args[1], Lib):
                want = args[1].path.split('.')[-1]
                kinds = set(dtype_kind(x) for x in names)
                if kinds <= {'f', 'i'} and 'f' in kinds:
                    return [(st, K(want in ('floating', 'inexact', 'number')))]
                if 'c' in kinds and '?' not in kinds:
                    return [(st, K(want in ('complexfloating', 'inexact', 'number')))]
                if kinds == {'i'}:
                    return [(st, K(want in ('integer', 'signedinteger', 'number')))]
            return [(st, T('issub', d, K(str(args[1]))))]
        if isinstance(d, Lib):
            k = dtype_kind(d.path.split('.')[-1])
            want = args[1].path.split('.')[-1] if isinstance(args[1], Lib) else ''
            if k == 'f':
                return [(st, K(want in ('floating', 'inexact', 'number')))]
            if k == 'c':
                return [(st, K(want in ('complexfloating', 'inexact', 'number')))]
            if k == 'i':
                return [(st, K(want in ('integer', 'signedinteger', 'number')))]
        return [(st, TOP)]
    if name == 'dtype':
        d = dtype_of_value(I, st, a if a is not None else (args[0] if args else NONE))
        return [(st, dtype_value(d))]
    if name in ('iscomplexobj', 'isrealobj', 'isscalar', 'allclose', 'array_equal', 'isclose'):
        return [(st, T('symbool', name, str(site), tuple(I.ctx)))]
    if name in ('iscomplex', 'isreal'):
        return unk()
    if name in ('ndim',):
        if isarr(st, a):
            return arr_attr(I, st, a, ob(st, a), 'ndim', node)
        return [(st, K(0))]
    if name in ('arange', 'linspace'):
        r = [x.v for x in args if isinstance(x, K)]
        if name == 'arange' and len(r) == len(args) and all(isinstance(x, int) for x in r):
            vals = tuple(K(x) for x in range(*r))
            if len(vals) <= LITCAP:
                return [(st, mk_lit(I, st, node, (len(vals),), vals, frozenset(['int64'])))]
        if name == 'arange' and len(args) == 1 and isinstance(args[0], T):
            return [(st, I.new_arr(st, node, ((Ax(args[0], frozenset()),),), frozenset(['int64']), T('arange', args[0]), ()))]
        return [(st, I.new_arr(st, node, None, frozenset(['float64']), T(name, str(site), tuple(I.ctx)), None))]
    if name in ('expand_dims', 'squeeze', 'atleast_1d', 'atleast_2d'):
        if isarr(st, a) and ob(st, a).axes is not None:
            o = ob(st, a)
            if name == 'squeeze':
                ax = tuple(g for g in o.axes if not (isinstance(gdim(g), K) and gdim(g).v == 1))
                return [(st, _fresh_like(I, st, node, o, axes=ax, buf=o.buf))]
            if name == 'expand_dims':
                k = kw(args, kwargs, 1, 'axis')
                if isinstance(k, K):
                    ax = list(o.axes)
                    ax.insert(k.v if k.v >= 0 else len(ax) + 1 + k.v, (Ax(K(1), frozenset()),))
                    return [(st, _fresh_like(I, st, node, o, axes=tuple(ax), buf=o.buf))]
        return unk()
    if name in ('ndindex',):
        return [(st, I.new_list(st, None, node, elem=TOP))]
    if name in ('where', 'argsort', 'sort', 'concatenate', 'stack', 'hstack', 'vstack', 'tile', 'repeat', 'roll', 'unique', 'nonzero', 'random.permutation', 'random.choice', 'asnumpy', 'triu', 'tril', 'pad', 'broadcast_to', 'float', 'complex'):
        if name in ('float', 'complex', 'asnumpy'):
            return [(st, Exc('AttributeError', "module 'numpy' has no attribute '%s'" % name, site))]
        return unk()
    if name in ('float64', 'float32', 'complex128', 'complex64', 'int64', 'int32'):
        a = args[0] if args else K(0)
        a2 = scalar(I, st, a)
        return [(st, a2 if isinstance(a2, (K, T)) else TOP)]
    if name in ('errstate',):
        return [(st, TOP)]
    return unk()


def dtype_kind(n):
    if n in ('float', 'float64', 'float32', 'float16', 'double', 'float_', 'longdouble') or n.startswith('F:'):
        return 'f'
    if n in ('complex', 'complex128', 'complex64', 'complex_', 'cdouble') or n.startswith('C:'):
        return 'c'
    if n in ('int', 'int64', 'int32', 'int16', 'int8', 'uint8', 'bool'):
        return 'i'
    return '?'


# ------------------------------------------------------------------ builtins

def call(I, st, f, args, kwargs, node):
    if has_phi(args, kwargs):
        return split_phi(I, st, args, kwargs, lambda s, a, k: call(I, s, f, a, k, node))
    p = f.path
    if p.startswith('@'):
        return I.intr[p[1:]](I, st, args, kwargs, node)
    np_ = norm_path(p)
    for cb in I.on_libcall:
        cb(st, np_, args, kwargs, node, I)
    if np_.startswith('xp.'):
        stub = I.stubs.get('lib:' + np_)
        if stub is not None:
            return stub(I, st, args, kwargs, node)
        return xp_call(I, st, np_[3:], args, kwargs, node)
    if p.startswith('builtins.'):
        return builtin(I, st, p[9:], args, kwargs, node)
    site = I.site(node)
    if p == 'warnings.warn':
        I.event('warn', node)
        w = st.ghost.get('warned')
        st.ghost['warned'] = K((w.v if isinstance(w, K) else 0) + 1) if isinstance(w, K) or w is None else w
        return [(st, NONE)]
    if p.startswith('warnings.'):
        return [(st, NONE)]
    if p in ('copy.deepcopy',):
        return [(st, deepcopy(I, st, args[0], node, {}))]
    if p == 'copy.copy':
        v = args[0]
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if o.kind == 'list':
                return [(st, I.new_list(st, o.items, node, elem=o.elem, lkind=o.lkind))]
            if o.kind == 'dict':
                return [(st, I.new_dict(st, o.entries, node, dkind=o.dkind, rest=o.rest))]
            if o.kind == 'inst':
                return [(st, I.alloc(st, HInst(o.cls, dict(o.attrs), site), node, 'copy'))]
            if o.kind == 'arr':
                return xp_call(I, st, 'copy', [v], {}, node)
        return [(st, v)]
    if p == 'collections.Counter':
        if not args:
            return [(st, I.new_dict(st, [], node, dkind='counter'))]
        if isinstance(args[0], Ref) and st.heap[args[0].oid].kind == 'dict':
            o = st.heap[args[0].oid]
            return [(st, I.new_dict(st, o.entries, node, dkind='counter', rest=o.rest))]
        out = []
        for s, (kind, seq) in I.iterate(st, args[0], node):
            if kind == 'exc':
                out.append((s, seq))
            elif kind == 'seq':
                ents = []
                unk = False
                for x in seq:
                    for k, (kk, n) in enumerate(ents):
                        e = I.eq3(s, kk, x)
                        if e is True:
                            ents[k] = (kk, n + 1)
                            break
                        if e is None:
                            unk = True
                    else:
                        ents.append((x, 1))
                if unk:
                    out.append((s, I.new_dict(s, [], node, dkind='counter', rest=(join_vals(*seq), T('symint', 'cnt', str(site))))))
                else:
                    out.append((s, I.new_dict(s, [(k, K(n)) for k, n in ents], node, dkind='counter')))
            else:
                out.append((s, I.new_dict(s, [], node, dkind='counter', rest=(seq if seq is not None else TOP, T('symint', 'cnt', str(site))))))
        return out
    if p in ('collections.OrderedDict',):
        return builtin(I, st, 'dict', args, kwargs, node)
    if p == 'collections.defaultdict':
        return [(st, I.new_dict(st, [], node, dkind='defaultdict', rest=None))]
    if p in ('collections.deque',):
        return builtin(I, st, 'list', args, kwargs, node)
    if p in ('functools.reduce',):
        return reduce_(I, st, args, node)
    if p in ('functools.partial', 'functools.wraps', 'functools.lru_cache'):
        return [(st, TOP)]
    if p.startswith('itertools.'):
        return itertools_(I, st, p[10:], args, kwargs, node)
    if p.startswith('math.'):
        n = p[5:]
        if n in ('sqrt', 'exp', 'log', 'sinh', 'cosh', 'sin', 'cos', 'floor', 'ceil', 'fabs', 'log2', 'tanh'):
            if len(args) == 1:
                a = scalar(I, st, args[0])
                if n in ('floor', 'ceil'):
                    import math
                    if isinstance(a, K) and isinstance(a.v, (int, float)):
                        return [(st, K(getattr(math, n)(a.v)))]
                    return [(st, T('int', K(n), a) if isinstance(a, (K, T)) else TOP)]
                return elementwise(I, st, 'abs' if n == 'fabs' else n, a, node)
        ts = [a for a in args if isinstance(a, (K, T))]
        return [(st, T('symfloat', p, *ts))]
    if p.startswith('random.'):
        n = p[7:]
        if n == 'shuffle':
            if isinstance(args[0], Ref) and st.heap[args[0].oid].kind == 'list':
                o = st.heap[args[0].oid]
                if o.items:
                    j = join_vals(*o.items)
                    I.list_write(st, args[0], tuple(j for _ in o.items), None, node)
            return [(st, NONE)]
        if n in ('choice', 'choices', 'sample'):
            ds = st.ghost.get('draws', ())
            es = args[0].v if args and isinstance(args[0], K) and isinstance(args[0].v, str) else elems(I, st, args[0]) if args else None
            cnt = K(1) if n == 'choice' else kwargs.get('k', args[-1] if len(args) > 1 else K(1))
            if ds and es is not None and isinstance(cnt, K) and len(ds) >= cnt.v and all(
                    (x.v in es) if isinstance(es, str) else any(isinstance(y, K) and y.v == x.v for y in es) for x in ds[:cnt.v]):
                st.ghost['draws'] = ds[cnt.v:]
                return [(st, ds[0] if n == 'choice' else I.new_list(st, list(ds[:cnt.v]), node))]
            if ds is not None and 'draws' in st.ghost:
                if n != 'choice':
                    return [(st, I.new_list(st, None, node, elem=TOP))]
                return [(st, TOP)]
        if n == 'choices':
            return [(st, I.new_list(st, None, node, elem=TOP))]
        if n == 'choice':
            es = elems(I, st, args[0])
            return I.split(st, join_vals(*es)) if es else [(st, Exc('IndexError', 'choice from empty sequence', site))]
        if n in ('randint', 'randrange'):
            return [(st, T('symint', 'rand', str(site), tuple(I.ctx)))]
        if n == 'sample':
            es = elems(I, st, args[0])
            return [(st, I.new_list(st, None, node, elem=join_vals(*es)))]
        return [(st, T('symfloat', 'rand', str(site), tuple(I.ctx)))]
    if p.startswith('time.'):
        return [(st, T('symfloat', 'time', str(site), tuple(I.ctx)))]
    I.unmodelled[p] = I.unmodelled.get(p, 0) + 1
    return [(st, TOP)]


def reduce_(I, st, args, node):
    out = []
    for s, (kind, seq) in I.iterate(st, args[1], node):
        if kind != 'seq':
            out.append((s, TOP if kind != 'exc' else seq))
            continue
        seq = list(seq)
        if len(args) > 2:
            seq = [args[2]] + seq
        if not seq:
            out.append((s, exc_ty(I, node, 'reduce() of empty sequence')))
            continue
        cur = [(s, seq[0])]
        for x in seq[1:]:
            nxt = []
            for s2, v in cur:
                if isexc(v):
                    nxt.append((s2, v))
                else:
                    nxt.extend(I.call(s2, args[0], [v, x], {}, node))
            cur = nxt
        out.extend(cur)
    return out


def itertools_(I, st, n, args, kwargs, node):
    import itertools
    seqs = [to_list(I, st, a) for a in args]
    if n == 'product' and all(s is not None for s in seqs):
        rep = kwargs.get('repeat', K(1))
        if isinstance(rep, K):
            r = list(itertools.product(*(seqs * rep.v)))
            if len(r) <= 4096:
                return [(st, I.new_list(st, [Tup(x) for x in r], node, lkind='gen'))]
    if n == 'chain' and all(s is not None for s in seqs):
        return [(st, I.new_list(st, [x for s in seqs for x in s], node, lkind='gen'))]
    if n == 'chain.from_iterable' and seqs[0] is not None:
        sub = [to_list(I, st, x) for x in seqs[0]]
        if all(s is not None for s in sub):
            return [(st, I.new_list(st, [x for s in sub for x in s], node, lkind='gen'))]
    if n in ('combinations', 'permutations') and seqs[0] is not None and (len(args) < 2 or isinstance(args[1], K)):
        r = list(getattr(itertools, n)(seqs[0], *( [args[1].v] if len(args) > 1 else [])))
        if len(r) <= 4096:
            return [(st, I.new_list(st, [Tup(x) for x in r], node, lkind='gen'))]
    return [(st, I.new_list(st, None, node, elem=TOP, lkind='gen'))]


def deepcopy(I, st, v, node, memo):
    if isinstance(v, Tup):
        return Tup([deepcopy(I, st, x, node, memo) for x in v.items])
    if not isinstance(v, Ref):
        return v
    if v.oid in memo:
        return memo[v.oid]
    o = st.heap[v.oid]
    if o.kind == 'arr':
        r = I.new_arr(st, node, o.axes, o.dtype, o.term, o.sums, sub='dc%d' % v.oid, view=o.view if is_lit(o) else None)
        memo[v.oid] = r
        return r
    if o.kind == 'list':
        r = I.new_list(st, (), node, sub='dc%d' % v.oid, lkind=o.lkind)
        memo[v.oid] = r
        if o.items is not None:
            st.heap[r.oid] = HList(tuple(deepcopy(I, st, x, node, memo) for x in o.items), None, I.site(node), o.lkind)
        else:
            st.heap[r.oid] = HList(None, deepcopy(I, st, o.elem, node, memo) if o.elem is not None else None, I.site(node), o.lkind)
        return r
    if o.kind == 'dict':
        r = I.new_dict(st, (), node, sub='dc%d' % v.oid, dkind=o.dkind)
        memo[v.oid] = r
        st.heap[r.oid] = HDict(tuple((deepcopy(I, st, k, node, memo), deepcopy(I, st, x, node, memo)) for k, x in o.entries),
                               None if o.rest is None else (deepcopy(I, st, o.rest[0], node, memo), deepcopy(I, st, o.rest[1], node, memo)),
                               I.site(node), o.dkind)
        return r
    if o.kind == 'inst':
        r = I.alloc(st, HInst(o.cls, {}, I.site(node)), node, 'dc%d' % v.oid)
        memo[v.oid] = r
        attrs = {k: deepcopy(I, st, x, node, memo) for k, x in o.attrs.items()}
        st.heap[r.oid] = HInst(o.cls, attrs, I.site(node))
        return r
    return v


PYT = {'int': int, 'float': float, 'str': str, 'bool': bool, 'complex': complex, 'list': list, 'tuple': tuple,
       'dict': dict, 'set': set, 'object': object, 'bytes': bytes, 'range': range, 'frozenset': frozenset, 'type': type, 'slice': slice}


def isinstance3(I, st, v, c):
    """True/False/None"""
    if isinstance(c, Tup):
        return _i.any3(isinstance3(I, st, v, x) for x in c.items)
    if isinstance(c, ClsV):
        if isinstance(v, Ref) and st.heap[v.oid].kind == 'inst':
            return c.oid in I.mro(st, st.heap[v.oid].cls)
        if isinstance(v, T):
            return None if term_kind(v) == 'any' else False
        return False
    if isinstance(c, Lib):
        n = norm_path(c.path)
        if n.startswith('builtins.'):
            n = n[9:]
            t = PYT.get(n)
            if t is None:
                return None
            if n == 'object':
                return True
            if isinstance(v, K):
                return isinstance(v.v, t)
            if isinstance(v, Tup):
                return n == 'tuple'
            if isinstance(v, Ref):
                o = st.heap[v.oid]
                if o.kind == 'list':
                    return n == {'list': 'list', 'set': 'set'}.get(o.lkind, '?')
                if o.kind == 'dict':
                    return n == 'dict'
                if o.kind == 'arr' and o.axes == () and n in ('float', 'int', 'complex'):
                    return None
                return False
            if isinstance(v, T):
                k = term_kind(v)
                if v is TOP or k == 'any':
                    return None
                if k == 'int':
                    return n == 'int'
                if k == 'float':
                    return n == 'float'
                if k == 'str':
                    return n == 'str'
                return None
            if isinstance(v, ClsV):
                return n == 'type'
            return False
        if n in ('xp.ndarray',):
            if isinstance(v, Ref):
                return st.heap[v.oid].kind == 'arr'
            return None if isinstance(v, T) and term_kind(v) == 'any' else False
        if n.startswith('xp.'):
            if isinstance(v, (K, Tup, Ref)) and not (isinstance(v, Ref) and st.heap[v.oid].kind == 'arr'):
                if isinstance(v, K) and isinstance(v.v, float) and n == 'xp.floating':
                    return False
                return False
            return None
        if n.startswith('collections.abc') or n.startswith('numbers.'):
            return None
        return None
    return None


def builtin(I, st, n, args, kwargs, node):
    site = I.site(node)
    if n in _i.PYEXC:
        return [(st, T('excinst', K(n)))]
    if n == 'len':
        v = args[0]
        if isinstance(v, Tup):
            return [(st, K(len(v.items)))]
        if isinstance(v, K):
            if isinstance(v.v, (str, range, tuple, bytes)):
                return [(st, K(len(v.v)))]
            return [(st, exc_ty(I, node, 'object of type %s has no len()' % type(v.v).__name__))]
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if o.kind == 'list':
                if o.items is not None:
                    return [(st, K(len(o.items)))]
                return [(st, T('symint', 'len', v.oid, str(site), tuple(I.ctx)))]
            if o.kind == 'dict':
                if o.rest is None:
                    return [(st, K(len(o.entries)))]
                return [(st, T('symint', 'len', v.oid, str(site), tuple(I.ctx)))]
            if o.kind == 'arr':
                if o.axes is None:
                    return [(st, T('len', o.term))]
                if not o.axes:
                    return [(st, exc_ty(I, node, 'len() of unsized object'))]
                return [(st, gdim(o.axes[0]))]
            if o.kind == 'inst':
                m = I.class_attr(st, o.cls, '__len__')
                if m is not None:
                    return I.call(st, Bound(m, v), [], {}, node)
                return [(st, exc_ty(I, node, 'object has no len()'))]
        if isinstance(v, T) and v is not TOP:
            if term_kind(v) in ('int', 'float'):
                return [(st, exc_ty(I, node, 'object of numeric type has no len()'))]
            return [(st, T('len', v))]
        return [(st, TOP)]
    if n == 'range':
        vs = [scalar(I, st, a) for a in args]
        if all(isinstance(a, K) for a in vs):
            try:
                r = range(*[a.v for a in vs])
            except TypeError as e:
                return [(st, exc_ty(I, node, str(e)))]
            if len(r) <= 4096:
                return [(st, K(r))]
        for a in vs:
            if isinstance(a, K) and (a.v is None or isinstance(a.v, (str, float))):
                return [(st, exc_ty(I, node, 'range() of %r' % (a,)))]
        ts = [a for a in vs if isinstance(a, (K, T))]
        return [(st, I.new_list(st, None, node, elem=T('symint', 'range', *ts), lkind='gen'))]
    if n in ('enumerate', 'zip', 'map', 'filter', 'reversed', 'sorted', 'list', 'tuple', 'set', 'frozenset', 'iter',
             'sum', 'any', 'all', 'min', 'max'):
        return seq_builtin(I, st, n, args, kwargs, node)
    if n == 'dict':
        ref = I.new_dict(st, [], node)
        if args:
            a = args[0]
            if isinstance(a, Ref) and st.heap[a.oid].kind == 'dict':
                o = st.heap[a.oid]
                st.heap[ref.oid] = HDict(o.entries, o.rest, site, 'dict')
            else:
                items = to_list(I, st, a)
                if items is not None:
                    for x in items:
                        kv = to_list(I, st, x)
                        if kv is not None and len(kv) == 2:
                            I.dict_set(st, ref, kv[0], kv[1], node)
                        else:
                            st.heap[ref.oid] = HDict(st.heap[ref.oid].entries, (TOP, TOP), site, 'dict')
                else:
                    es = elems(I, st, a)
                    ks = [e.items[0] if isinstance(e, Tup) and len(e.items) == 2 else TOP for e in es]
                    vs = [e.items[1] if isinstance(e, Tup) and len(e.items) == 2 else TOP for e in es]
                    st.heap[ref.oid] = HDict((), (join_vals(*ks), join_vals(*vs)), site, 'dict')
        for k, v in kwargs.items():
            I.dict_set(st, ref, K(k), v, node)
        return [(st, ref)]
    if n == 'isinstance':
        r = isinstance3(I, st, args[0], args[1])
        if r is None:
            v = args[0]
            return [(st, T('isinst', v, K(str(args[1]))) if isinstance(v, T) and v is not TOP else TOP)]
        return [(st, K(r))]
    if n == 'issubclass':
        if isinstance(args[0], ClsV) and isinstance(args[1], ClsV):
            return [(st, K(args[1].oid in I.mro(st, args[0].oid)))]
        return [(st, TOP)]
    if n == 'type':
        v = args[0]
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if o.kind == 'inst':
                return [(st, ClsV(o.cls, st.heap[o.cls].name))]
            if o.kind == 'list':
                return [(st, Lib('builtins.' + ('list' if o.lkind == 'list' else o.lkind)))]
            if o.kind == 'dict':
                return [(st, Lib('builtins.dict'))]
            if o.kind == 'arr':
                return [(st, Lib('numpy.ndarray'))]
        if isinstance(v, Tup):
            return [(st, Lib('builtins.tuple'))]
        if isinstance(v, K):
            return [(st, Lib('builtins.' + type(v.v).__name__))]
        if isinstance(v, T) and term_kind(v) in ('int', 'str'):
            return [(st, Lib('builtins.' + term_kind(v)))]
        if isinstance(v, T) and v.op == 'symfloat':
            return [(st, Lib('builtins.float'))]
        return [(st, TOP)]
    if n in ('int', 'float', 'complex', 'bool', 'str', 'abs', 'round', 'repr'):
        return conv(I, st, n, args, kwargs, node)
    if n == 'print':
        return [(st, NONE)]
    if n == 'hasattr':
        if isinstance(args[1], K):
            v = args[0]
            if isinstance(v, Ref) and st.heap[v.oid].kind == 'inst':
                o = st.heap[v.oid]
                has = args[1].v in o.attrs and o.attrs[args[1].v] is not UNBOUND or I.class_attr(st, o.cls, args[1].v) is not None
                return [(st, K(bool(has)))]
            if isinstance(v, Ref):
                r = I.getattr_(st.clone(), v, args[1].v, node)
                return [(st, K(not isexc(r[0][1])))]
            if isinstance(v, ModV):
                f = st.heap.get(I.module_frame(v.name))
                return [(st, K(f is not None and args[1].v in f.vars))]
        return [(st, TOP)]
    if n == 'getattr':
        if isinstance(args[1], K):
            out = []
            for s, r in I.getattr_(st, args[0], args[1].v, node):
                if isexc(r) and r.cname == 'AttributeError' and len(args) > 2:
                    r = args[2]
                out.append((s, r))
            return out
        return [(st, TOP)]
    if n == 'setattr':
        if isinstance(args[1], K):
            return [(s, NONE if sig is None else sig[1]) for s, sig in I.setattr_(st, args[0], args[1].v, args[2], node)]
        return [(st, NONE)]
    if n == 'delattr':
        return [(st, NONE)]
    if n == 'id':
        v = args[0]
        if isinstance(v, Ref):
            return [(st, T('symint', 'id', v.oid))]
        return [(st, TOP)]
    if n == 'hash':
        return [(st, T('symint', 'hash', args[0]) if isinstance(args[0], (K, T)) else TOP)]
    if n == 'callable':
        v = args[0]
        if isinstance(v, (Fn, Bound, ClsV, Lib, LibM)):
            return [(st, TRUE)]
        if isinstance(v, K):
            return [(st, FALSE)]
        return [(st, TOP)]
    if n == 'next':
        v = args[0]
        if isinstance(v, Ref) and st.heap[v.oid].kind == 'list':
            o = st.heap[v.oid]
            if o.items is None:
                return I.split(st, o.elem if o.elem is not None else TOP)
            if not o.items:
                return [(st, args[1] if len(args) > 1 else Exc('StopIteration', '', site))]
            st.heap[v.oid] = HList(o.items[1:], None, o.site, o.lkind, o.wsite)
            return I.split(st, o.items[0])
        return [(st, TOP)]
    if n == 'property':
        return [(st, Prop(args[0] if args else NONE, args[1] if len(args) > 1 else None))]
    if n == 'staticmethod':
        return [(st, Deco('static', args[0]))]
    if n == 'classmethod':
        return [(st, Deco('class', args[0]))]
    if n == 'super':
        if len(args) == 2 and isinstance(args[0], ClsV):
            return [(st, _i.SuperV(args[0].oid, args[1]))]
        return [(st, TOP)]
    if n == 'object':
        return [(st, T('object', str(site), tuple(I.ctx)))]
    if n == 'object.__init__':
        return [(st, NONE)]
    if n == 'divmod':
        if len(args) != 2 or not all(isinstance(a, (K, T)) for a in args):
            return [(st, TOP)]
        out = []
        for s, q in I.binop(st, 'FloorDiv', args[0], args[1], node):
            if isinstance(q, Exc):
                out.append((s, q))
                continue
            for s2, r in I.binop(s, 'Mod', args[0], args[1], node):
                out.append((s2, r if isinstance(r, Exc) else Tup((q, r))))
        return out
    if n == 'pow':
        return I.binop(st, 'Pow', args[0], args[1], node)
    if n in ('chr', 'ord'):
        if isinstance(args[0], K):
            try:
                return [(st, K((chr if n == 'chr' else ord)(args[0].v)))]
            except Exception as e:
                return [(st, exc_ty(I, node, str(e)))]
        return [(st, T('strfmt', K('chr'), args[0]) if n == 'chr' and isinstance(args[0], T) else T('symint', 'ord', args[0]) if isinstance(args[0], T) else TOP)]
    if n == 'slice':
        a = list(args)
        if len(a) == 1:
            a = [NONE, a[0]]
        while len(a) < 3:
            a.append(NONE)
        return [(st, Slice(*a))]
    if n in ('exit', 'quit'):
        return [(st, Exc('SystemExit', '', site))]
    if n in ('open', 'input', 'vars', 'dir', 'globals', 'locals', 'eval', 'exec', 'bytes', 'format', 'bin', 'hex'):
        return [(st, TOP)]
    I.unmodelled['builtins.' + n] = I.unmodelled.get('builtins.' + n, 0) + 1
    return [(st, TOP)]


def conv(I, st, n, args, kwargs, node):
    if not args:
        return [(st, K({'int': 0, 'float': 0.0, 'complex': 0j, 'bool': False, 'str': ''}.get(n)))]
    v = scalar(I, st, args[0])
    if n == 'bool':
        return [(s, c if isexc(c) else K(c)) for s, c in I.truth(st, v, node)]
    if n in ('str', 'repr'):
        if isinstance(v, K):
            return [(st, K(str(v.v) if n == 'str' else repr(v.v)))]
        if isinstance(v, T) and n == 'str' and term_kind(v) == 'str':
            return [(st, v)]
        if isinstance(v, Ref) and st.heap[v.oid].kind == 'inst':
            m = I.class_attr(st, st.heap[v.oid].cls, '__str__' if n == 'str' else '__repr__')
            if isinstance(m, Fn):
                return I.call(st, Bound(m, v), [], {}, node)
        try:
            return [(st, K((str if n == 'str' else repr)(to_py(I, st, v))))]
        except NotConcrete:
            pass
        return [(st, T('strfmt', K(n), *[x for x in (v,) if isinstance(x, T)]))]
    if isinstance(v, K):
        try:
            f = {'int': int, 'float': float, 'complex': complex, 'abs': abs, 'round': round}[n]
            return [(st, K(f(*[v.v] + [a.v for a in args[1:] if isinstance(a, K)])))]
        except Exception as e:
            return [(st, Exc(type(e).__name__, str(e), I.site(node)))]
    if isinstance(v, T):
        if v is TOP:
            return [(st, TOP)]
        if n == 'int':
            return [(st, v if term_kind(v) in ('int',) else T('int', v))]
        if n == 'float':
            return [(st, v if term_kind(v) in ('int', 'float') else T('float', v))]
        if n == 'abs':
            return [(st, v if _i.nonneg(v) else T('abs', v))]
        return [(st, T(n, v))]
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        if o.kind == 'arr':
            if n == 'abs':
                return elementwise(I, st, 'abs', v, node)
            if o.axes is not None and len(o.axes) > 0 and all(isinstance(gdim(g), (K, T)) and _i.pure_extent(gdim(g)) and not (isinstance(gdim(g), K) and gdim(g).v == 1) for g in o.axes):
                return [(st, exc_ty(I, node, 'only size-1 arrays can be converted to Python scalars'))]
            return [(st, T(n, o.term))]
        return [(st, exc_ty(I, node, '%s() of a non-number' % n))]
    if isinstance(v, Tup):
        return [(st, exc_ty(I, node, '%s() of a tuple' % n))]
    return [(st, TOP)]


def seq_builtin(I, st, n, args, kwargs, node):
    site = I.site(node)
    if n in ('min', 'max') and len(args) > 1:
        return minmax(I, st, n, list(args), kwargs, node)
    if n in ('list', 'tuple', 'set', 'frozenset') and not args:
        if n == 'tuple':
            return [(st, Tup(()))]
        return [(st, I.new_list(st, [], node, lkind='set' if n in ('set', 'frozenset') else 'list'))]
    if n == 'zip':
        cur = [(st, [])]
        for a in args:
            nxt = []
            for s, acc in cur:
                if isexc(acc):
                    nxt.append((s, acc))
                    continue
                for s2, (kind, seq) in I.iterate(s, a, node):
                    nxt.append((s2, seq if kind == 'exc' else acc + [(kind, seq)]))
            cur = nxt
        out = []
        for s, acc in cur:
            if isexc(acc):
                out.append((s, acc))
            elif all(k == 'seq' for k, _ in acc):
                m = min(len(q) for _, q in acc) if acc else 0
                out.append((s, I.new_list(s, [Tup(q[i] for _, q in acc) for i in range(m)], node, lkind='gen')))
            else:
                es = [join_vals(*q) if k == 'seq' and q else (q if k != 'seq' and q is not None else TOP) for k, q in acc]
                out.append((s, I.new_list(s, None, node, elem=Tup(es), lkind='gen')))
        return out
    if n in ('map', 'filter'):
        if len(args) != 2:
            return [(st, I.new_list(st, None, node, elem=TOP, lkind='gen'))]
        out = []
        for s, (kind, seq) in I.iterate(st, args[1], node):
            if kind == 'exc':
                out.append((s, seq))
                continue
            if kind == 'summary':
                I.in_fix += 1
                try:
                    es = []
                    for s2, v in I.call(s, args[0], [seq if seq is not None else TOP], {}, node):
                        if not isexc(v):
                            es.append((s2, v))
                    if es:
                        s = es[0][0]
                        for s2, _ in es[1:]:
                            s = I.join_states(s, s2)
                        elem = join_vals(*[v for _, v in es]) if n == 'map' else seq
                    else:
                        elem = TOP
                finally:
                    I.in_fix -= 1
                out.append((s, I.new_list(s, None, node, elem=elem, lkind='gen')))
                continue
            cur = [(s, [])]
            for j, x in enumerate(seq):
                nxt = []
                I.ctx.append(('map', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), j))
                try:
                    for s2, acc in cur:
                        if isexc(acc):
                            nxt.append((s2, acc))
                            continue
                        for s3, v in I.call(s2, args[0], [x], {}, node):
                            if isexc(v):
                                nxt.append((s3, v))
                            elif n == 'map':
                                nxt.append((s3, acc + [v]))
                            else:
                                for s4, c in I.truth(s3, v, node):
                                    nxt.append((s4, c if isexc(c) else (acc + [x] if c else acc)))
                finally:
                    I.ctx.pop()
                cur = nxt
            for s2, acc in cur:
                out.append((s2, acc if isexc(acc) else I.new_list(s2, acc, node, lkind='gen')))
        return out
    out = []
    for s, (kind, seq) in I.iterate(st, args[0], node):
        if kind == 'exc':
            out.append((s, seq))
            continue
        known = kind == 'seq'
        if n == 'list' or n == 'iter':
            out.append((s, I.new_list(s, seq if known else None, node, elem=None if known else seq, lkind='list' if n == 'list' else 'gen')))
        elif n == 'tuple':
            out.append((s, Tup(seq) if known else T('tupof', seq if isinstance(seq, (K, T)) else TOP, str(site), tuple(I.ctx))))
        elif n in ('set', 'frozenset'):
            if known:
                items = []
                unk = False
                for x in seq:
                    es = [I.eq3(s, x, y) for y in items]
                    if True in es:
                        continue
                    if None in es:
                        unk = True
                    items.append(x)
                if unk:
                    out.append((s, I.new_list(s, None, node, elem=join_vals(*items), lkind='set')))
                else:
                    out.append((s, I.new_list(s, items, node, lkind='set')))
            else:
                out.append((s, I.new_list(s, None, node, elem=seq, lkind='set')))
        elif n == 'enumerate':
            start = kw(args, kwargs, 1, 'start', K(0))
            if known and isinstance(start, K):
                out.append((s, I.new_list(s, [Tup((K(i + start.v), x)) for i, x in enumerate(seq)], node, lkind='gen')))
            else:
                e = join_vals(*seq) if known and seq else (seq if not known and seq is not None else TOP)
                out.append((s, I.new_list(s, None, node, elem=Tup((T('symint', 'enum', str(site)), e)), lkind='gen')))
        elif n == 'reversed':
            out.append((s, I.new_list(s, list(reversed(seq)) if known else None, node, elem=None if known else seq, lkind='gen')))
        elif n == 'sorted':
            for s2, r in sort_values(I, s, tuple(seq) if known else None, seq if not known else None, [], kwargs, node):
                if isexc(r):
                    out.append((s2, r))
                else:
                    items, elem = r
                    out.append((s2, I.new_list(s2, items, node, elem=elem)))
        elif n == 'sum':
            if not known:
                if isarr(s, args[0]) and len(args) == 1 and ob(s, args[0]).axes is not None and len(ob(s, args[0]).axes) == 1 \
                        and spectral(ob(s, args[0]).term) and ob(s, args[0]).term.op != 'cmp':
                    out.extend(sum_axes(I, s, args[0], K(0), node))
                    continue
                if isarr(s, args[0]) and ob(s, args[0]).term.op == 'cmp' and len(args) == 1:
                    o = ob(s, args[0])
                    sh = shape_of(o)
                    t = T('count_nonzero', o.term)
                    out.append((s, mk_min(t, mk_mul(*sh)) if sh else t))
                    continue
                out.append((s, T('sumof', seq) if isinstance(seq, (K, T)) and seq is not TOP else TOP))
                continue
            start = kw(args, kwargs, 1, 'start', K(0))
            cur = [(s, start)]
            for x in seq:
                nxt = []
                for s2, v in cur:
                    if isexc(v):
                        nxt.append((s2, v))
                    else:
                        nxt.extend(I.binop(s2, 'Add', v, x, node))
                cur = nxt
            out.extend(cur)
        elif n in ('any', 'all'):
            if not known:
                out.append((s, T('symbool', n, str(site), tuple(I.ctx))))
                continue
            cur = [(s, None)]
            for x in seq:
                nxt = []
                for s2, v in cur:
                    if v is not None:
                        nxt.append((s2, v))
                        continue
                    for s3, c in I.truth(s2, x, node):
                        if isexc(c):
                            nxt.append((s3, c))
                        elif c == (n == 'any'):
                            nxt.append((s3, K(n == 'any')))
                        else:
                            nxt.append((s3, None))
                cur = nxt
            out.extend((s2, K(n == 'all') if v is None else v) for s2, v in cur)
        else:  # min, max of one iterable
            if not known:
                out.append((s, T(n + 'of', seq) if isinstance(seq, (K, T)) and seq is not TOP else TOP))
                continue
            out.extend(minmax(I, s, n, list(seq), kwargs, node))
    return out


def minmax(I, st, n, vals, kwargs, node):
    if not vals:
        if 'default' in kwargs:
            return [(st, kwargs['default'])]
        return [(st, Exc('ValueError', '%s() arg is an empty sequence' % n, I.site(node)))]
    vals = [scalar(I, st, v) for v in vals]
    key = kwargs.get('key')
    if key is not None and not isnone(key):
        out = []
        for s, r in sort_values(I, st, tuple(vals), None, [], {'key': key}, node):
            if isexc(r):
                out.append((s, r))
            elif r[0] is None:
                out.append((s, TOP))
            else:
                out.extend(I.split(s, r[0][0 if n == 'min' else -1]))
        return out
    if all(isinstance(v, K) for v in vals):
        try:
            return [(st, K((min if n == 'min' else max)(v.v for v in vals)))]
        except TypeError as e:
            return [(st, exc_ty(I, node, str(e)))]
    if any(isinstance(v, K) and v.v is None for v in vals) and len(vals) > 1:
        return [(st, exc_ty(I, node, '%s() with None' % n))]
    if all(isinstance(v, (K, T)) for v in vals):
        f = mk_min if n == 'min' else mk_max
        return [(st, f(*vals))]
    return [(st, TOP)]
