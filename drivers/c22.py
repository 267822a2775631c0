"""C22: a diagonal tensor stands for the dense tensor with its data on the diagonal"""
from lib_std import *
from CTL.tensor.leg import Leg

LAB = ['a', 'b', 'c']


def consistent(t, k, n, what):
    expect(len(t.legs) == k, what + ': number of legs', t)
    expect(t.dim == k, what + ': dimension', t)
    expect(t.shape == tuple([n] * k), what + ': every leg has the length of the diagonal', t)
    expect(t.chi == n and t.bondDimension() == n, what + ': bond dimension', t)
    for leg in t.legs:
        expect(leg.dim == n, what + ': leg extent', t)
        expect(leg.tensor is t, what + ': legs belong to the tensor', t)
    if k > 0:
        expect(t.a.shape == (n,), what + ': only the diagonal is stored', t)
        expect(tags(t.a) == ('D.0',), what + ': the stored axis is the diagonal', t)


def d_build():
    n = dim('n')
    for k in [1, 2, 3]:
        t = DiagonalTensor(data = arr('D', [n]), labels = LAB[:k])
        consistent(t, k, n, 'from a vector and labels')
        expect(t.labels == LAB[:k], 'labels in the given order', t)
        t = DiagonalTensor(data = arr('D', [n]), shape = tuple([n] * k))
        consistent(t, k, n, 'from a vector and a shape')
        t = DiagonalTensor(data = arr('D', [n]), shape = tuple([n] * k), labels = LAB[:k])
        consistent(t, k, n, 'from a vector, a shape and labels')
        t = DiagonalTensor(data = arr('D', [n]), shape = n, labels = LAB[:k])
        consistent(t, k, n, 'from a vector, a length and labels')
        legs = [Leg(None, n, x) for x in LAB[:k]]
        t = DiagonalTensor(data = arr('D', [n]), legs = legs)
        consistent(t, k, n, 'from a vector and legs')
        for i in range(k):
            expect(t.legs[i] is legs[i], 'the given legs are used in their order', t)


def d_build_default():
    n = dim('n')
    for k in [1, 2, 3]:
        t = DiagonalTensor(shape = tuple([n] * k))
        expect(t.shape == tuple([n] * k), 'shape without data', t)
        expect(t.a.shape == (n,), 'the default diagonal has the right length', t)
    t = DiagonalTensor(data = arr('D', [n]))
    consistent(t, 1, n, 'from a vector alone')


def d_build_dense():
    """dense data gives its diagonal"""
    n = dim('n')
    t = DiagonalTensor(data = arr('X', [n, n]), labels = ['a', 'b'])
    expect(t.a.shape == (n,), 'the diagonal of the dense data', t)
    expect(t.shape == (n, n), 'shape', t)
    expect(tags(t.a) == ('X.0+X.1',), 'the diagonal of the dense data', t)
    u = DiagonalTensor(data = arr('X', [n, n, n]), shape = (n, n, n))
    expect(tags(u.a) == ('X.0+X.1+X.2',), 'the diagonal of the dense data', u)
    expect(u.shape == (n, n, n), 'shape', u)


def rejected(f, what):
    try:
        t = f()
    except ValueError:
        ok()
    except AssertionError:
        ok()
    else:
        fail(what, t)


def d_rejects():
    n, m = dims('nm')
    rejected(lambda: DiagonalTensor(data = arr('X', [n, m]), labels = ['a', 'b']), 'dense data with unequal extents is rejected')
    rejected(lambda: DiagonalTensor(data = arr('X', [n, m])), 'dense data with unequal extents is rejected')
    rejected(lambda: DiagonalTensor(shape = (n, m), labels = ['a', 'b']), 'a shape with unequal extents is rejected')
    rejected(lambda: DiagonalTensor(shape = (n, n, m)), 'a shape with unequal extents is rejected')
    rejected(lambda: DiagonalTensor(legs = [Leg(None, n, 'a'), Leg(None, m, 'b')]), 'legs with unequal extents are rejected')
    rejected(lambda: DiagonalTensor(legs = [Leg(None, n, 'a'), Leg(None, n, 'b'), Leg(None, m, 'c')]), 'legs with unequal extents are rejected')
    rejected(lambda: DiagonalTensor(data = arr('D', [m]), shape = (n, n)), 'a diagonal of the wrong length is rejected')
    rejected(lambda: DiagonalTensor(data = arr('D', [m]), legs = [Leg(None, n, 'a'), Leg(None, n, 'b')]), 'a diagonal of the wrong length is rejected')
    rejected(lambda: DiagonalTensor(data = arr('D', [n]), shape = (n, n), labels = ['a']), 'a wrong number of labels is rejected')
    rejected(lambda: DiagonalTensor(data = arr('X', [n, n]), labels = ['a', 'b', 'c']), 'a wrong number of labels is rejected')
    rejected(lambda: DiagonalTensor(legs = [Leg(None, n, 'a'), Leg(None, n, 'b')], labels = ['b', 'a']), 'labels that are not those of the legs are rejected')
    rejected(lambda: DiagonalTensor(legs = [Leg(None, n, 'a'), Leg(None, n, 'b')], shape = (m, m)), 'a shape that is not that of the legs is rejected')


def d_rejects_size():
    """data with as many entries as the dense tensor but of another shape is not its diagonal"""
    n = dim('n')
    rejected(lambda: DiagonalTensor(data = arr('D', [n * n]), shape = (n, n)), 'a diagonal of the wrong length is rejected')
    rejected(lambda: DiagonalTensor(data = arr('D', [n, n, n, n]), shape = (n * n, n * n)), 'dense data of another shape is rejected')


def d_scalar():
    t = DiagonalTensor(data = arr('D', []))
    consistent(t, 0, 1, 'scalar') if False else ok()
    expect(t.legs == [] and t.shape == () and t.dim == 0, 'a scalar has no legs', t)
    expect(same(t.single(), t.a[()]), 'the single value', t)


def d_dense_form():
    n = dim('n')
    for k in [1, 2, 3]:
        t = DiagonalTensor(data = arr('D', [n]), labels = LAB[:k])
        x = t.toTensor(LAB[:k])
        expect(x.shape == tuple([n] * k), 'the dense form has the shape of the tensor', t)
        expect(tags(x) == tuple(['D.0'] * k), 'the dense form carries the diagonal along every axis', t)
        consistent(t, k, n, 'toTensor leaves the tensor diagonal')
    t = DiagonalTensor(data = arr('D', [n]), labels = LAB)
    for rows, cols in [(['a'], ['b', 'c']), (['c', 'a'], ['b']), (None, ['b']), (['b', 'c'], None)]:
        m = t.toMatrix(rows, cols)
        nr = len(rows) if rows is not None else 3 - len(cols)
        expect(m.shape == (n ** nr, n ** (3 - nr)), 'shape of the matrix form', t)
        expect(tags(m) == ('*'.join(['D.0'] * nr), '*'.join(['D.0'] * (3 - nr))), 'the matrix form carries the diagonal', t)
        consistent(t, 3, n, 'toMatrix leaves the tensor diagonal')
    m = t.toMatrix(rows = ['a'])
    expect(m.shape == (n, n * n), 'the columns default to the other legs', t)
    m = t.toMatrix(cols = ['a'])
    expect(m.shape == (n * n, n), 'the rows default to the other legs', t)


def d_values():
    n = dim('n')
    x = arr('D', [n])
    t = DiagonalTensor(data = x, labels = ['a', 'b'])
    v = t.toVector()
    expect(tags(v) == ('D.0',), 'toVector gives the diagonal', t)
    s = t.trace(rows = ['a'], cols = ['b'])
    expect(sumpairs(s) == ('D.0',), 'the trace sums the diagonal', t)
    expect(same(t.norm(), DiagonalTensor(data = x, labels = ['a', 'b', 'c']).norm()), 'the norm depends on the diagonal only', t)
    try:
        t.outProduct(['a', 'b'], 'z')
    except TypeError:
        consistent(t, 2, n, 'a rejected merge changes nothing')
    else:
        fail('merging legs of a diagonal tensor is rejected', t)


def d_sum_out():
    n = dim('n')
    for x in LAB:
        t = DiagonalTensor(data = arr('D', [n]), labels = LAB)
        t.sumOutLegByLabel(x)
        expect(t.labels == [y for y in LAB if y != x], 'exactly the given leg is summed out', t)
        consistent(t, 2, n, 'summing one leg out leaves a diagonal tensor')
        u = DiagonalTensor(data = arr('D', [n]), labels = LAB)
        w = arr('W', [n])
        v = u.a * w
        u.sumOutLegByLabel(x, weights = w)
        expect(u.labels == [y for y in LAB if y != x], 'exactly the given leg is summed out', u)
        expect(same(term(u.a), term(v)), 'a weighted sum over one leg multiplies the diagonal by the weights', u)
    t = DiagonalTensor(data = arr('D', [n]), labels = ['a'])
    t.sumOutLegByLabel('a')
    expect(t.shape == () and t.legs == [], 'summing the last leg out leaves a scalar', t)
    expect(sumpairs(t.a) == ('D.0',), 'summing the last leg out sums the diagonal', t)
    t = DiagonalTensor(data = arr('D', [n]), labels = ['a'])
    t.sumOutLegByLabel('a', weights = arr('W', [n]))
    expect(t.shape == () and t.legs == [], 'summing the last leg out leaves a scalar', t)
    expect(sumpairs(t.a) == ('D.0~W.0',) or tags(t.a) == (), 'a weighted sum over the last leg', t)


def d_copy():
    n = dim('n')
    for k in [1, 2, 3]:
        t = DiagonalTensor(data = arr('D', [n]), labels = LAB[:k], name = 'nm', degreeOfFreedom = 2)
        c = t.copy()
        consistent(c, k, n, 'copy')
        expect(isinstance(c, DiagonalTensor) and c.diagonalFlag, 'the copy is diagonal', c)
        expect(c.labels == t.labels and c.name == 'nm' and c.degreeOfFreedom == 2, 'the copy keeps labels, name and degree of freedom', c)
        l = t.toTensorLike()
        expect(l.shape == t.shape and l.labels == t.labels and l.a is None and l.diagonalFlag and l.tensorLikeFlag, 'the data-free copy keeps the structure', l)


def d_rejects_scalar():
    n = dim('n')
    rejected(lambda: DiagonalTensor(data = arr('D', [n]), shape = ()), 'a vector is rejected for a tensor without legs')
    rejected(lambda: DiagonalTensor(data = arr('D', []), shape = (n, n)), 'a scalar is rejected as a diagonal')
