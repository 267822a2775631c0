"""C22, diagonal tensors of one to five legs: all ways of construction, all sums, all matrix forms"""
from lib_enum import *
from CTL.tensor.leg import Leg
import numpy as np

LA = ['a', 'b', 'c', 'd', 'e']


def consistent(t, ls, n, what):
    k = len(ls)
    expect(t.labels == list(ls), what + ': labels', t)
    expect(t.dim == k and t.shape == tuple([n] * k), what + ': every leg has the length of the diagonal', t)
    expect(isinstance(t, DiagonalTensor) and t.diagonalFlag, what + ': the tensor is diagonal', t)
    for leg in t.legs:
        expect(leg.dim == n, what + ': leg extent', t)
        expect(leg.tensor is t, what + ': legs belong to the tensor', t)
    if k > 0:
        expect(t.a.shape == (n,), what + ': only the diagonal is stored', t)
        expect(tags(t.a) == ('D.0',), what + ': the stored axis is the diagonal', t)
        expect(t.chi == n and t.bondDimension() == n, what + ': bond dimension', t)


def build(n):
    for k in [1, 2, 3, 4, 5]:
        ls = LA[:k]
        consistent(DiagonalTensor(data = arr('D', [n]), labels = ls), ls, n, 'from a vector and labels')
        consistent(DiagonalTensor(data = arr('D', [n]), shape = tuple([n] * k)), ls, n, 'from a vector and a shape')
        consistent(DiagonalTensor(data = arr('D', [n]), shape = [n] * k, labels = ls), ls, n, 'from a vector, a shape and labels')
        consistent(DiagonalTensor(data = arr('D', [n]), shape = n, labels = ls), ls, n, 'from a vector, a length and labels')
        legs = [Leg(None, n, x) for x in ls]
        t = DiagonalTensor(data = arr('D', [n]), legs = legs)
        consistent(t, ls, n, 'from a vector and legs')
        for i in range(k):
            expect(t.legs[i] is legs[i], 'the given legs are used in their order', t)
        legs = [Leg(None, n, x) for x in ls]
        consistent(DiagonalTensor(data = arr('D', [n]), legs = legs, labels = ls, shape = tuple([n] * k)), ls, n, 'from everything')
        consistent(DiagonalTensor(data = arr('D', [n]), labels = ls).copy(), ls, n, 'copy')
        if k > 1:
            joint = '+'.join(['X.' + str(i) for i in range(k)])
            for t in [DiagonalTensor(data = arr('X', [n] * k), labels = ls), DiagonalTensor(data = arr('X', [n] * k)),
                      DiagonalTensor(data = arr('X', [n] * k), shape = tuple([n] * k)),
                      DiagonalTensor(data = arr('X', [n] * k), legs = [Leg(None, n, x) for x in ls])]:
                expect(t.a.shape == (n,) and tags(t.a) == (joint,), 'the diagonal of the dense data', t)
                expect(t.shape == tuple([n] * k) and len(t.legs) == k, 'shape', t)
                expect(t.labels == ls, 'labels', t)


def d_build():
    build(dim('n'))


def d_build_literal():
    build(2)


def d_build_one():
    """a diagonal of length one is a tensor like any other"""
    for k in [1, 2, 3]:
        ls = LA[:k]
        t = DiagonalTensor(data = arr('D', [1]), labels = ls)
        expect(t.labels == ls and t.shape == tuple([1] * k), 'a diagonal of length one keeps its legs', t)
        expect(t.a.shape == (1,), 'only the diagonal is stored', t)
        expect(t.toTensor().shape == tuple([1] * k), 'the dense form has the shape of the tensor', t)


def forms(k):
    n = dim('n')
    ls = LA[:k]
    for p in permutations(ls):
        p = list(p)
        t = diag('D', ls, n)
        x = t.toTensor(p)
        expect(x.shape == tuple([n] * k) and tags(x) == tuple(['D.0'] * k), 'the dense form carries the diagonal along every axis', t)
        consistent(t, p, n, 'toTensor')
        for r in range(k + 1):
            t = diag('D', ls, n)
            x = t.toMatrix(rows = [t.getLeg(y) for y in p[:r]], cols = [t.getLeg(y) for y in p[r:]])
            expect(x.shape == (n ** r, n ** (k - r)), 'shape of the matrix form', t)
            consistent(t, ls, n, 'toMatrix')
            t.moveLabelsToFront(p[:r])
            consistent(t, p[:r] + [y for y in ls if y not in p[:r]], n, 'moveLabelsToFront')


def d_forms12():
    forms(1)
    forms(2)


def d_forms3():
    forms(3)


def d_forms4():
    forms(4)


def sums(k):
    """any sequence of sums over legs, weighted or not, is that of the dense tensor"""
    n = dim('n')
    ls = LA[:k]
    for r in range(1, k + 1):
        for p in permutations(ls, r):
            for ws in product([False, True], repeat = r):
                t = diag('D', ls, n)
                want = t.a
                rest = list(ls)
                i = 0
                for x in p:
                    w = arr('W' + str(i), [n]) if ws[i] else None
                    if ws[i]:
                        want = want * w
                    if i % 2 == 0:
                        t.sumOutLegByLabel(x, weights = w)
                    else:
                        t.sumOutLeg(t.getLeg(x), weights = w)
                    rest.remove(x)
                    i = i + 1
                    expect(t.labels == rest, 'exactly the given leg is summed out', t)
                    expect(t.shape == tuple([n] * len(rest)), 'the other legs keep their extent', t)
                if len(rest) > 0:
                    expect(same(term(t.a), term(want)), 'sums over some legs multiply the diagonal by the weights', t)
                    expect(tags(t.a) == tags(want), 'the weights are applied entry by entry', t)
                    expect(t.a.shape == (n,), 'the diagonal stays until the last leg is summed out', t)
                    expect(sumpairs(t.a) == (), 'the diagonal is summed only with the last leg', t)
                else:
                    expect(t.legs == [] and t.shape == (), 'summing the last leg out leaves a scalar', t)
                    expect(t.a.shape == (), 'summing the last leg out leaves a scalar', t)
                    expect(sumpairs(t.a) == ('~'.join(tags(want)[0].split('+')),), 'summing the last leg out sums the weighted diagonal', t)


def d_sums1():
    sums(1)
    sums(2)


def d_sums3():
    sums(3)


def d_duplicates():
    """legs with equal labels"""
    n = dim('n')
    for k in [2, 3]:
        for ls in product('ab', repeat = k):
            ls = list(ls)
            for i in range(k):
                t = diag('D', ls, n)
                legs = list(t.legs)
                t.sumOutLeg(legs[i])
                expect(len(t.legs) == k - 1, 'exactly the given leg is summed out', t)
                expect(legs[i] not in t.legs, 'exactly the given leg is summed out', t)
                u = diag('D', ls, n)
                legs = list(u.legs)
                u.moveLegsToFront([legs[i]])
                expect(u.legs[0] is legs[i] and len(u.legs) == k, 'the given leg is moved to the front', u)


def rejected(f, what):
    try:
        t = f()
    except ValueError:
        ok()
    except AssertionError:
        ok()
    else:
        fail(what, t)


def d_rejects():
    n, m = dims('nm')
    for k in [2, 3, 4]:
        ls = LA[:k]
        for i in range(k):
            e = [n] * k
            e[i] = m
            rejected(lambda: DiagonalTensor(data = arr('X', e), labels = ls), 'dense data with unequal extents is rejected')
            rejected(lambda: DiagonalTensor(data = arr('X', e)), 'dense data with unequal extents is rejected')
            rejected(lambda: DiagonalTensor(shape = tuple(e), labels = ls), 'a shape with unequal extents is rejected')
            rejected(lambda: DiagonalTensor(legs = [Leg(None, e[j], ls[j]) for j in range(k)]), 'legs with unequal extents are rejected')
            rejected(lambda: DiagonalTensor(data = arr('D', [n]), legs = [Leg(None, e[j], ls[j]) for j in range(k)]), 'legs with unequal extents are rejected')
            rejected(lambda: DiagonalTensor(legs = [Leg(None, n, x) for x in ls], shape = tuple(e)), 'a shape that is not that of the legs is rejected')
            rejected(lambda: DiagonalTensor(legs = [Leg(None, n, x) for x in ls], labels = ls[:i] + ['x'] + ls[i + 1:]), 'labels that are not those of the legs are rejected')
        rejected(lambda: DiagonalTensor(data = arr('D', [m]), shape = tuple([n] * k)), 'a diagonal of the wrong length is rejected')
        rejected(lambda: DiagonalTensor(data = arr('D', [m]), legs = [Leg(None, n, x) for x in ls]), 'a diagonal of the wrong length is rejected')
        rejected(lambda: DiagonalTensor(data = arr('D', [n]), shape = tuple([n] * k), labels = ls[:-1]), 'a wrong number of labels is rejected')
        rejected(lambda: DiagonalTensor(data = arr('D', [n]), shape = tuple([n] * k), labels = ls + ['x']), 'a wrong number of labels is rejected')
        rejected(lambda: DiagonalTensor(legs = [Leg(None, n, x) for x in ls], labels = ls[:-1]), 'labels that are not those of the legs are rejected')


def entries(n, k):
    """entry by entry: a diagonal with n generic entries"""
    v = [symfloat('v%d' % q) for q in range(n)]
    w = [symfloat('w%d' % q) for q in range(n)]
    ls = ['a', 'b', 'c', 'd', 'e', 'f'][:k]
    t = DiagonalTensor(data = np.array(v), labels = ls)
    x = t.toTensor()
    expect(x.shape == tuple([n] * k), 'the dense form has the shape of the tensor', t)
    for p in product(range(n), repeat = k):
        on = (min(p) == max(p))
        expect(equivalent(x[p], v[p[0]] if on else 0.0), 'the dense form has the diagonal on its diagonal and zeros elsewhere', t)
    for q in range(n):
        expect(equivalent(t.toVector()[q], v[q]), 'the vector form is the diagonal', t)
    for r in range(1, k):
        m = t.toMatrix(rows = ls[:r], cols = ls[r:])
        expect(m.shape == (n ** r, n ** (k - r)), 'the matrix form has the merged extents', t)
        for p in product(range(n), repeat = k):
            i, j = 0, 0
            for q in range(r):
                i = i * n + p[q]
            for q in range(r, k):
                j = j * n + p[q]
            expect(equivalent(m[i, j], v[p[0]] if min(p) == max(p) else 0.0), 'the matrix form has the entries of the dense form', t)
    d = DiagonalTensor(data = x, labels = ls)
    for q in range(n):
        expect(equivalent(d.a[q], v[q]), 'the diagonal of the dense form is the diagonal', d)
    s = t.copy()
    s.sumOutLegByLabel(ls[-1])
    u = t.copy()
    u.sumOutLegByLabel(ls[0], weights = np.array(w))
    if k == 1:
        expect(equivalent(s.single(), sum(v)), 'the sum over the only leg is the sum of the diagonal', s)
        expect(equivalent(u.single(), sum([v[q] * w[q] for q in range(n)])), 'the weighted sum over the only leg', u)
    else:
        for q in range(n):
            expect(equivalent(s.a[q], v[q]), 'the sum over a leg keeps the diagonal', s)
            expect(equivalent(u.a[q], v[q] * w[q]), 'the weighted sum over a leg has the weights on the diagonal', u)
    expect(equivalent(t.norm(), np.sqrt(sum([v[q] * v[q] for q in range(n)]))), 'the norm is that of the diagonal', t)
    if k % 2 == 0:
        expect(equivalent(t.trace(rows = ls[:k // 2], cols = ls[k // 2:]), sum(v)), 'the trace is the sum of the diagonal', t)


def d_entries1():
    for k in [1, 2, 3, 4, 5, 6]:
        entries(1, k)


def d_entries2():
    for k in [1, 2, 3, 4, 5, 6]:
        entries(2, k)


def d_entries3():
    for k in [1, 2, 3, 4]:
        entries(3, k)
