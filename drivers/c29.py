"""C29: a tensor is built from what it is given, or refused"""
from lib_std import *
from CTL.tensor.leg import Leg
from CTL.tensor.tensor import Tensor, TensorLike
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensor.tensorFactory import makeTriangleTensor, makeSquareTensor, makeSquareOutTensor
import numpy as np

LAB = ['x', 'y', 'z', 'w']


def legs_of(names, exts):
    return [Leg(None, e, n) for n, e in zip(names, exts)]


def is_built(t, labels, exts, what):
    expect(t.labels == labels, what + ': labels', t)
    expect(t.shape == tuple(exts), what + ': shape', t)
    expect(t.dim == len(exts), what + ': number of legs', t)
    expect(len(t.legs) == len(exts), what + ': number of legs', t)
    for i in range(len(exts)):
        expect(t.legs[i].tensor is t, what + ': the legs belong to the tensor', t)
        expect(t.legs[i].dim == exts[i], what + ': extents of the legs', t)
        expect(t.legs[i].bond is None, what + ': new legs have no bond', t)


def given(k, exts, form, mask):
    """arguments of a construction: legs (1), shape (2), labels (4), data (8); form 0: lists, 1: tuples"""
    args = {}
    if mask & 1:
        args['legs'] = legs_of(LAB[:k], exts)
    if mask & 2:
        args['shape'] = list(exts) if form == 0 else tuple(exts)
    if mask & 4:
        args['labels'] = list(LAB[:k]) if form == 0 else tuple(LAB[:k])
    if mask & 8:
        args['data'] = arr('A', exts)
    return args


def each_dense(k, exts):
    for form in [0, 1]:
        for mask in range(1, 16):
            if mask == 4:
                continue
            args = given(k, exts, form, mask)
            t = Tensor(**args)
            labels = LAB[:k] if mask & 5 else ['a', 'b', 'c', 'd'][:k]
            is_built(t, labels, exts, 'a tensor from consistent arguments')
            expect(t.tensorLikeFlag == False and t.diagonalFlag == False, 'a dense tensor', t)
            expect(t.a.shape == tuple(exts), 'data of the shape of the tensor', t)
            expect(t.degreeOfFreedom is None and t.name is None, 'no name or degree of freedom unless given', t)
            if mask & 8:
                expect(tags(t.a) == tuple(['A.{}'.format(i) for i in range(k)]), 'the data that was given', t)
            if mask & 1:
                for i in range(k):
                    expect(t.legs[i] is args['legs'][i], 'the legs that were given, in their order', t)


def d_dense_0():
    each_dense(0, [])


def d_dense_1():
    each_dense(1, [dim('i')])


def d_dense_2():
    i, j = dims('ij')
    each_dense(2, [i, j])


def d_dense_3():
    i, j, k = dims('ijk')
    each_dense(3, [i, j, k])


def each_like(k, exts):
    for form in [0, 1]:
        for mask in range(1, 16):
            if mask == 4:
                continue
            for how in [0, 1]:
                args = given(k, exts, form, mask)
                t = TensorLike(**args) if how == 0 else Tensor(tensorLikeFlag = True, **args)
                labels = LAB[:k] if mask & 5 else ['a', 'b', 'c', 'd'][:k]
                is_built(t, labels, exts, 'a TensorLike from consistent arguments')
                expect(t.tensorLikeFlag == True and t.diagonalFlag == False, 'a TensorLike', t)
                expect(t.a is None, 'a TensorLike has no data', t)
                if mask & 1:
                    for i in range(k):
                        expect(t.legs[i] is args['legs'][i], 'the legs that were given, in their order', t)


def d_like_0():
    each_like(0, [])


def d_like_1():
    each_like(1, [dim('i')])


def d_like_2():
    i, j = dims('ij')
    each_like(2, [i, j])


def d_like_3():
    i, j, k = dims('ijk')
    each_like(3, [i, j, k])


def each_diag(k, n):
    exts = [n] * k
    for like in [False, True]:
        for form in [0, 1]:
            for mask in range(1, 16):
                if mask == 4:
                    continue
                for flat in [0, 1, 2]:
                    if flat == 1 and (not mask & 8 or k < 2):
                        continue
                    if flat == 2 and not mask & 13:
                        continue
                    args = given(k, exts, form, mask)
                    if flat == 1:
                        args['data'] = arr('D', [n])
                        if not mask & 7:
                            continue
                    elif flat == 2:
                        if not mask & 2:
                            continue
                        args['shape'] = n
                    if like:
                        t = DiagonalTensor(tensorLikeFlag = True, **args)
                    else:
                        t = DiagonalTensor(**args)
                    labels = LAB[:k] if mask & 5 else ['a', 'b', 'c', 'd'][:k]
                    is_built(t, labels, exts, 'a diagonal tensor from consistent arguments')
                    expect(t.tensorLikeFlag == like and t.diagonalFlag == True, 'a diagonal tensor', t)
                    if like:
                        expect(t.a is None, 'a TensorLike has no data', t)
                    elif k > 0:
                        expect(t.a.shape == (n,), 'only the diagonal is stored', t)
                        if mask & 8:
                            tag = 'D.0' if flat == 1 else '+'.join(['A.{}'.format(i) for i in range(k)])
                            expect(tags(t.a) == (tag,), 'the diagonal of the data that was given', t)
                    if mask & 1:
                        for i in range(k):
                            expect(t.legs[i] is args['legs'][i], 'the legs that were given, in their order', t)


def d_diag_1():
    each_diag(1, dim('n'))


def d_diag_2():
    each_diag(2, dim('n'))


def d_diag_3():
    each_diag(3, dim('n'))


def d_reshaped():
    """data of another shape with as many elements is put into the shape in row-major order"""
    i, j, k = dims('ijk')
    t = Tensor(data = arr('A', [i, j, k]), shape = (i * j, k), labels = ['p', 'q'])
    is_built(t, ['p', 'q'], [i * j, k], 'data of another shape')
    expect(t.a.shape == (i * j, k), 'the data is reshaped', t)
    expect(tags(t.a) == ('A.0*A.1', 'A.2'), 'in row-major order', t)
    t = Tensor(data = arr('A', [i * j]), legs = legs_of(['p', 'q'], [i, j]))
    expect(t.a.shape == (i, j), 'the data is reshaped to the legs', t)
    x = np.array([[1, 2, 3], [4, 5, 6]])
    t = Tensor(data = x, shape = (3, 2))
    expect(t.a.shape == (3, 2) and t.a[0, 0] == 1 and t.a[0, 1] == 2 and t.a[1, 0] == 3 and t.a[2, 1] == 6, 'in row-major order', t)
    expect(x.shape == (2, 3), 'the array given keeps its shape', t)


def d_named():
    i, j = dims('ij')
    for nm in ['T', '', None]:
        for dof in [None, 0, 3]:
            t = Tensor(shape = (i, j), name = nm, degreeOfFreedom = dof)
            expect(t.name == nm and t.degreeOfFreedom == dof, 'name and degree of freedom as given', t)
            l = TensorLike(shape = (i, j), name = nm, degreeOfFreedom = dof)
            expect(l.name == nm and l.degreeOfFreedom == dof, 'name and degree of freedom as given', l)
            d = DiagonalTensor(shape = (i, i), name = nm, degreeOfFreedom = dof)
            expect(d.name == nm and d.degreeOfFreedom == dof, 'name and degree of freedom as given', d)
            e = DiagonalTensor(tensorLikeFlag = True, shape = (i, i), name = nm, degreeOfFreedom = dof)
            expect(e.name == nm and e.degreeOfFreedom == dof, 'name and degree of freedom as given', e)
            for o in [t, l, d, e]:
                c = o.copy()
                expect(c.name == nm and c.degreeOfFreedom == dof, 'a copy keeps name and degree of freedom', o)
                m = o.toTensorLike()
                expect(m is not o, 'toTensorLike makes a new object', o)
                expect(m.name == nm and m.degreeOfFreedom == dof, 'toTensorLike keeps name and degree of freedom', o)
                expect(m.tensorLikeFlag == True and m.diagonalFlag == o.diagonalFlag, 'toTensorLike keeps the kind', o)
                expect(m.labels == o.labels and m.shape == o.shape, 'toTensorLike keeps labels and extents', o)
                for leg in o.legs:
                    expect(leg.tensor is o, 'the legs stay with the tensor', o)


def d_as_text():
    """tensors with or without name and degree of freedom can be printed"""
    for nm in ['T', None]:
        for dof in [None, 3]:
            t = Tensor(data = np.ones((2, 3)), name = nm, degreeOfFreedom = dof)
            d = DiagonalTensor(data = np.ones(2), labels = ['a', 'b'], name = nm, degreeOfFreedom = dof)
            for o in [t, d, t.toTensorLike(), d.toTensorLike()]:
                for s in [str(o), repr(o)]:
                    expect(isinstance(s, str), 'text', o)
                    expect(('T, ' in s) == (nm is not None), 'the name, if there is one', o)
                    expect(('degree of freedom = 3' in s) == (dof is not None), 'the degree of freedom, if there is one', o)
                    expect(str(o.shape) in s, 'the shape', o)
                    expect(str(o.labels) in s, 'the labels', o)


def d_measures():
    i, j, k = dims('ijk')
    t = dense('A', ['x', 'y', 'z'], [i, j, k])
    for o in [t, t.toTensorLike()]:
        expect(o.totalSize == i * j * k, 'the number of elements', o)
        expect(o.chi == i, 'chi is the first extent', o)
        expect(o.bondDimension() == i, 'the bond dimension is the first extent', o)
    s = Tensor(data = arr('B', [i, i, i]))
    expect(s.bondDimension() == i and s.chi == i and s.totalSize == i * i * i, 'extents', s)
    d = diag('D', ['x', 'y'], i)
    for o in [d, d.toTensorLike()]:
        expect(o.chi == i and o.bondDimension() == i, 'extents', o)
        expect(o.totalSize == i * i, 'the number of elements', o)
    z = Tensor(data = arr('Z', []))
    expect(z.totalSize == 1, 'the number of elements', z)


def d_default_labels():
    letters = 'abcdefghijklmnopqrstuvwxyz'
    for n in [1, 2, 25, 26]:
        t = Tensor(shape = tuple([1] * n))
        expect(t.labels == [letters[q] for q in range(n)], 'letters in their order', t)
        l = TensorLike(shape = tuple([1] * n))
        expect(l.labels == [letters[q] for q in range(n)], 'letters in their order', l)
    t = Tensor(shape = tuple([1] * 27), labels = ['l{}'.format(q) for q in range(27)])
    expect(t.labels == ['l{}'.format(q) for q in range(27)], 'labels as given', t)
    refused(lambda: Tensor(shape = tuple([1] * 27)), 'there are labels for up to 26 legs')


def refused(f, what):
    try:
        t = f()
    except ValueError:
        ok()
    except AssertionError:
        ok()
    else:
        fail(what, t)


def make(kind, args):
    if kind == 0:
        return Tensor(**args)
    if kind == 1:
        return TensorLike(**args)
    if kind == 2:
        return DiagonalTensor(**args)
    return DiagonalTensor(tensorLikeFlag = True, **args)


def turned_down(kind, args, what):
    """refused, and the legs offered stay as they were"""
    legs = list(args['legs']) if 'legs' in args else []
    refused(lambda: make(kind, args), what)
    for l in legs:
        expect(l.tensor is None and l.bond is None, 'a refused construction leaves the legs alone', l)


def d_refused_labels():
    n = dim('n')
    for kind in [0, 1, 2, 3]:
        for form in [list, tuple]:
            turned_down(kind, {'legs': legs_of(['x', 'y'], [n, n]), 'labels': form(['y', 'x'])}, 'labels in another order than the legs are refused')
            turned_down(kind, {'legs': legs_of(['x', 'y'], [n, n]), 'labels': form(['x', 'z'])}, 'other labels than those of the legs are refused')
            turned_down(kind, {'legs': legs_of(['x', 'y'], [n, n]), 'labels': form(['z', 'y'])}, 'other labels than those of the legs are refused')
            turned_down(kind, {'legs': legs_of(['x', 'y'], [n, n]), 'labels': form(['x'])}, 'too few labels are refused')
            turned_down(kind, {'legs': legs_of(['x', 'y'], [n, n]), 'labels': form(['x', 'y', 'z'])}, 'too many labels are refused')
            turned_down(kind, {'legs': legs_of(['x', 'y'], [n, n]), 'labels': form([])}, 'too few labels are refused')
            turned_down(kind, {'shape': (n, n), 'labels': form(['x'])}, 'too few labels are refused')
            turned_down(kind, {'shape': (n, n), 'labels': form([])}, 'too few labels are refused')
            turned_down(kind, {'shape': (n, n), 'labels': form(['x', 'y', 'z'])}, 'too many labels are refused')
            turned_down(kind, {'data': arr('A', [n, n]), 'labels': form(['x'])}, 'too few labels are refused')
            turned_down(kind, {'data': arr('A', [n, n]), 'labels': form([])}, 'too few labels are refused')
            turned_down(kind, {'data': arr('A', [n, n]), 'labels': form(['x', 'y', 'z'])}, 'too many labels are refused')
            turned_down(kind, {'data': arr('A', [n, n]), 'shape': (n, n), 'labels': form(['x', 'y', 'z'])}, 'too many labels are refused')


def d_refused_shape():
    n, m = dims('nm')
    for kind in [0, 1, 2, 3]:
        for form in [list, tuple]:
            turned_down(kind, {'legs': legs_of(['x', 'y'], [n, n]), 'shape': form([n])}, 'a shape of fewer extents than legs is refused')
            turned_down(kind, {'legs': legs_of(['x', 'y'], [n, n]), 'shape': form([n, n, n])}, 'a shape of more extents than legs is refused')
            turned_down(kind, {'legs': legs_of(['x', 'y'], [n, n]), 'shape': form([m, m])}, 'other extents than those of the legs are refused')
            turned_down(kind, {'legs': legs_of(['x'], [n]), 'shape': form([])}, 'a shape of fewer extents than legs is refused')
    for kind in [0, 1]:
        turned_down(kind, {'legs': legs_of(['x', 'y'], [n, m]), 'shape': (m, n)}, 'extents in another order than those of the legs are refused')
        turned_down(kind, {'legs': legs_of(['x', 'y'], [n, m]), 'shape': (n, n)}, 'other extents than those of the legs are refused')
        turned_down(kind, {'legs': legs_of(['x', 'y'], [n, m]), 'shape': (m, m)}, 'other extents than those of the legs are refused')
    for kind in [2, 3]:
        turned_down(kind, {'legs': legs_of(['x', 'y'], [n, n]), 'shape': m}, 'another extent than that of the legs is refused')
        turned_down(kind, {'legs': legs_of(['x', 'y'], [n, m])}, 'a diagonal tensor of legs of unequal extents is refused')
        turned_down(kind, {'shape': (n, m)}, 'a diagonal tensor of unequal extents is refused')
        turned_down(kind, {'shape': (n, n, m)}, 'a diagonal tensor of unequal extents is refused')
        turned_down(kind, {'data': arr('A', [n, m])}, 'a diagonal tensor of unequal extents is refused')


def d_refused_data():
    n, m = dims('nm')
    for kind in [0, 1, 2, 3]:
        turned_down(kind, {'legs': legs_of(['x', 'y'], [n, n]), 'data': arr('A', [n, m])}, 'data with another number of elements is refused')
        turned_down(kind, {'shape': (n, n), 'data': arr('A', [n, m])}, 'data with another number of elements is refused')
        turned_down(kind, {'shape': (n, n), 'labels': ['x', 'y'], 'data': arr('A', [m, m])}, 'data with another number of elements is refused')
        turned_down(kind, {'legs': legs_of(['x', 'y'], [n, n]), 'shape': (n, n), 'data': arr('A', [m, n])}, 'data with another number of elements is refused')
    for kind in [0, 1]:
        turned_down(kind, {'legs': legs_of(['x', 'y'], [n, m]), 'data': arr('A', [m, m])}, 'data with another number of elements is refused')
        turned_down(kind, {'shape': (n, m), 'data': arr('A', [n])}, 'data with another number of elements is refused')


def d_refused_vector():
    """a vector of the wrong length is no diagonal"""
    n, m = dims('nm')
    for kind in [2, 3]:
        turned_down(kind, {'shape': (n, n), 'data': arr('A', [m])}, 'a diagonal of another length is refused')
        turned_down(kind, {'shape': (n, n, n), 'labels': ['x', 'y', 'z'], 'data': arr('A', [m])}, 'a diagonal of another length is refused')
        turned_down(kind, {'legs': legs_of(['x', 'y'], [n, n]), 'data': arr('A', [m])}, 'a diagonal of another length is refused')
        turned_down(kind, {'legs': legs_of(['x', 'y'], [n, n]), 'shape': (n, n), 'data': arr('A', [m])}, 'a diagonal of another length is refused')
        turned_down(kind, {'shape': (n, ), 'data': arr('A', [m])}, 'a diagonal of another length is refused')


def d_refused_nothing():
    for kind in [0, 1, 2, 3]:
        turned_down(kind, {}, 'a tensor of nothing is refused') if kind in [0, 1] else ok()
    turned_down(0, {'labels': ['x', 'y']}, 'labels alone do not make a tensor')
    turned_down(2, {'labels': ['x', 'y']}, 'labels alone do not make a tensor')
    turned_down(2, {}, 'a tensor of nothing is refused')
    turned_down(2, {'shape': dim('n')}, 'a length alone does not make a diagonal tensor')


def d_no_data():
    """what needs data is refused by a TensorLike"""
    n = dim('n')
    d = TensorLike(shape = (n, n), labels = ['x', 'y'])
    g = DiagonalTensor(tensorLikeFlag = True, shape = (n, n), labels = ['x', 'y'])
    for o in [d, g]:
        refused(lambda: o.norm(), 'a TensorLike has no norm')
        refused(lambda: o.trace(rows = ['x'], cols = ['y']), 'a TensorLike has no trace')
        refused(lambda: o.toMatrix(rows = ['x'], cols = ['y']), 'a TensorLike has no matrix form')
        refused(lambda: o.toVector(), 'a TensorLike has no vector form')
        refused(lambda: o.toTensor(['x', 'y']), 'a TensorLike has no dense form')
    s = TensorLike(shape = ())
    refused(lambda: s.single(), 'a TensorLike has no value')
    e = DiagonalTensor(tensorLikeFlag = True, shape = ())
    refused(lambda: e.single(), 'a TensorLike has no value')


def d_no_value():
    """only a tensor without legs has a single value, only a square form a trace"""
    n, m, k = dims('nmk')
    for t in [dense('A', ['x'], [n]), dense('A', ['x', 'y'], [n, m]), Tensor(shape = (1,)), Tensor(shape = (1, 1)), diag('D', ['x'], n), diag('D', ['x', 'y'], n), DiagonalTensor(shape = (1, 1)), DiagonalTensor(shape = (1,))]:
        refused(lambda: t.single(), 'the single value of a tensor with legs')
    t = dense('A', ['x', 'y'], [n, m])
    refused(lambda: t.trace(rows = ['x'], cols = ['y']), 'the trace of a matrix form that is not square')
    refused(lambda: t.trace(rows = ['x', 'y'], cols = []), 'the trace of a matrix form that is not square')
    refused(lambda: t.toMatrix(), 'a matrix form needs rows or columns')
    g = diag('D', ['x', 'y'], n)
    refused(lambda: g.toMatrix(), 'a matrix form needs rows or columns')
    for o in [t, g]:
        refused(lambda: o.toMatrix(rows = ['x'], cols = ['x']), 'a matrix form needs every leg once')
        refused(lambda: o.toMatrix(rows = ['x'], cols = []), 'a matrix form needs every leg once')
        refused(lambda: o.toMatrix(rows = ['x', 'y'], cols = ['y']), 'a matrix form needs every leg once')
        refused(lambda: o.toMatrix(rows = ['x', 'z'], cols = ['y']), 'a matrix form needs legs that are there')


def d_value():
    t = Tensor(data = arr('A', []))
    expect(same(t.single(), t.a[()]), 'the value of a tensor without legs', t)
    u = Tensor(data = np.array([[7.0]]), shape = ())
    expect(u.single() == 7.0 and u.legs == [], 'the value of a tensor without legs', u)


def d_labels_alone():
    """a TensorLike of labels alone has legs of unknown extents"""
    for form in [list, tuple]:
        t = TensorLike(labels = form(['x', 'y']))
        expect(t.labels == ['x', 'y'], 'the labels', t)
        expect(t.shape == (None, None) and len(t.legs) == 2, 'unknown extents', t)
        expect(t.a is None and t.tensorLikeFlag, 'no data', t)
        expect(t.legs[0].tensor is t and t.legs[1].tensor is t, 'the legs belong to the tensor', t)


def d_diag_entries():
    x = np.array([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0], [7.0, 8.0, 9.0]])
    t = DiagonalTensor(data = x, labels = ['x', 'y'])
    expect(t.a.shape == (3,) and t.a[0] == 1.0 and t.a[1] == 5.0 and t.a[2] == 9.0, 'the diagonal of the data', t)
    t = DiagonalTensor(data = np.array([1.0, 5.0]), shape = (2, 2, 2))
    expect(t.a.shape == (2,) and t.a[0] == 1.0 and t.a[1] == 5.0, 'the diagonal that was given', t)
    t = DiagonalTensor(data = np.array([[3.0]]))
    expect(t.a.shape == (1,) and t.a[0] == 3.0 and t.shape == (1, 1), 'the diagonal of a single entry', t)


def d_random():
    """without data a tensor has data of its shape and type"""
    i, j = dims('ij')
    for tp in [np.float64, np.complex128, np.float32]:
        t = Tensor(shape = (i, j), dtype = tp)
        expect(t.a.shape == (i, j), 'data of the shape', t)
        t = Tensor(legs = legs_of(['x', 'y'], [i, j]), dtype = tp)
        expect(t.a.shape == (i, j), 'data of the shape', t)
        d = DiagonalTensor(shape = (i, i, i), dtype = tp)
        expect(d.a.shape == (i,), 'data of the shape', d)


def d_diag_default():
    """without data a diagonal tensor is the unit"""
    d = DiagonalTensor(shape = (2, 2))
    expect(d.a.shape == (2,) and d.a[0] == 1.0 and d.a[1] == 1.0, 'ones', d)
    s = DiagonalTensor(shape = ())
    expect(s.a.shape == () and s.single() == 1.0, 'one', s)


def d_factories():
    i, j, k, l = dims('ijkl')
    t = makeTriangleTensor(arr('A', [i, j, k]))
    is_built(t, ['1', '2', '3'], [i, j, k], 'a triangle tensor')
    expect(tags(t.a) == ('A.0', 'A.1', 'A.2'), 'the data that was given', t)
    t = makeTriangleTensor(arr('A', [i, j, k]), labels = ['x', 'y', 'z'])
    is_built(t, ['x', 'y', 'z'], [i, j, k], 'a triangle tensor with labels')
    t = makeSquareTensor(arr('A', [i, j, k, l]))
    is_built(t, ['u', 'l', 'd', 'r'], [i, j, k, l], 'a square tensor')
    expect(tags(t.a) == ('A.0', 'A.1', 'A.2', 'A.3'), 'the data that was given', t)
    t = makeSquareTensor(arr('A', [i, j, k, l]), labels = ['x', 'y', 'z', 'w'])
    is_built(t, ['x', 'y', 'z', 'w'], [i, j, k, l], 'a square tensor with labels')
    for loc, labels in [('ul', ['d', 'r', 'o']), ('ur', ['d', 'l', 'o']), ('dl', ['u', 'r', 'o']), ('dr', ['u', 'l', 'o'])]:
        t = makeSquareOutTensor(arr('A', [i, j, k]), loc)
        is_built(t, labels, [i, j, k], 'a tensor at a corner of the square')
        expect(tags(t.a) == ('A.0', 'A.1', 'A.2'), 'the data that was given', t)


def d_factories_refuse():
    i, j, k, l = dims('ijkl')
    for ext in [[], [i], [i, j], [i, j, k, l]]:
        refused(lambda: makeTriangleTensor(arr('A', ext)), 'a triangle tensor has three legs')
        refused(lambda: makeTriangleTensor(arr('A', ext), labels = ['a', 'b', 'c', 'd'][:len(ext)]), 'a triangle tensor has three legs')
        refused(lambda: makeSquareOutTensor(arr('A', ext), 'ul'), 'a tensor at a corner has three legs')
    for ext in [[], [i], [i, j], [i, j, k]]:
        refused(lambda: makeSquareTensor(arr('A', ext)), 'a square tensor has four legs')
        refused(lambda: makeSquareTensor(arr('A', ext), labels = ['a', 'b', 'c', 'd'][:len(ext)]), 'a square tensor has four legs')
    refused(lambda: makeTriangleTensor(arr('A', [i, j, k]), labels = ['a', 'b']), 'a label for every leg')
    refused(lambda: makeSquareTensor(arr('A', [i, j, k, l]), labels = ['a', 'b', 'c']), 'a label for every leg')
    for loc in ['lu', 'u', '', 'ru', 'uu', None]:
        refused(lambda: makeSquareOutTensor(arr('A', [i, j, k]), loc), 'a corner that is not one of the square')
        refused(lambda: makeSquareOutTensor(arr('A', []), loc), 'a corner that is not one of the square')
