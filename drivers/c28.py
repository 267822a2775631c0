"""C28: matrix and array helpers, entry by entry (interpreted abstractly)"""
from lib_std import *
from itertools import product
import numpy as np
import CTL.funcs.funcs as funcs
from CTL.tensor.tensor import Tensor
from CTL.tensor.tensorFunc import isIsometry


def mat(name, n, m):
    e = [[symfloat(name + str(i) + str(j)) for j in range(m)] for i in range(n)]
    return np.array(e), e


def square(x):
    return x * x


def norm(xs):
    return np.sqrt(sum([x * x for x in xs]))


SHAPES = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3)]


def eye(i, j):
    return 1.0 if i == j else 0.0


def d_identity():
    for n, m in SHAPES:
        a, e = mat('a', n, m)
        z = freeze(a)
        want = norm([e[i][j] - eye(i, j) for i in range(n) for j in range(m)])
        expect(equivalent(funcs.identityError(a), want), 'the identity error is the distance to the unit matrix')
        unchanged(z, 'matrix helpers leave their arguments alone')
    expect(funcs.checkIdentity(np.array([[1.0, 0.0], [0.0, 1.0]])), 'the unit matrix is recognized')
    expect(not funcs.checkIdentity(np.array([[1.0, 0.0], [0.1, 1.0]])), 'other matrices are not the unit matrix')
    expect(not funcs.checkIdentity(np.array([[1.0, 0.0], [0.0, 2.0]])), 'other matrices are not the unit matrix')
    expect(funcs.checkIdentity(np.array([[1.0, 0.0], [0.0, 1.05]]), eps = 0.1), 'a matrix closer than eps is the unit matrix')


def d_diag():
    for n in [1, 2, 3]:
        a, e = mat('a', n, n)
        z = freeze(a)
        want = norm([e[i][j] for i in range(n) for j in range(n) if i != j]) / norm([e[i][j] for i in range(n) for j in range(n)])
        expect(equivalent(funcs.diagError(a), want), 'the error to a diagonal matrix is the weight of the other entries')
        unchanged(z, 'matrix helpers leave their arguments alone')


def d_symmetric():
    for n in [1, 2, 3]:
        a, e = mat('a', n, n)
        z = freeze(a)
        want = norm([e[i][j] - e[j][i] for i in range(n) for j in range(n)]) / norm([e[i][j] for i in range(n) for j in range(n)])
        expect(equivalent(funcs.symmetricError(a), want), 'the symmetry error is the distance to the transpose')
        unchanged(z, 'matrix helpers leave their arguments alone')


def d_transpose():
    for n, m in SHAPES:
        a, e = mat('a', n, m)
        z = freeze(a)
        c = funcs.transposeConjugate(a)
        expect(c.shape == (m, n), 'the adjoint has exchanged extents')
        for i in range(m):
            for j in range(n):
                expect(equivalent(c[i, j], np.conjugate(e[j][i])), 'the adjoint has the conjugate entries')
        unchanged(z, 'matrix helpers leave their arguments alone')


def d_products():
    for n, m in SHAPES:
        a, e = mat('a', n, m)
        z = freeze(a)
        p = funcs.aDaggerAProduct(a)
        expect(p.shape == (m, m), 'the product of the adjoint with the matrix')
        for i in range(m):
            for j in range(m):
                expect(equivalent(p[i, j], sum([np.conjugate(e[k][i]) * e[k][j] for k in range(n)])), 'the product of the adjoint with the matrix')
        p = funcs.aADaggerProduct(a)
        expect(p.shape == (n, n), 'the product of the matrix with its adjoint')
        for i in range(n):
            for j in range(n):
                expect(equivalent(p[i, j], sum([e[i][k] * np.conjugate(e[j][k]) for k in range(m)])), 'the product of the matrix with its adjoint')
        unchanged(z, 'matrix helpers leave their arguments alone')


def d_projector():
    for n, m in SHAPES:
        a, e = mat('a', n, m)
        want = norm([sum([np.conjugate(e[k][i]) * e[k][j] for k in range(n)]) - eye(i, j) for i in range(m) for j in range(m)])
        expect(equivalent(funcs.projectorError(a), want), 'the projector error is the distance of its columns from orthonormal ones')


def d_axes():
    n, m = dim('n'), dim('m')
    a = arr('a', [n, m])
    expect(tags(funcs.transposeConjugate(a)) == ('a.1', 'a.0'), 'the adjoint exchanges rows and columns')
    p = funcs.aDaggerAProduct(a)
    expect(p.shape == (m, m), 'the product of the adjoint with the matrix')
    p = funcs.aADaggerProduct(a)
    expect(p.shape == (n, n), 'the product of the matrix with its adjoint')
    d, e = arr('d', [m]), arr('e', [n])
    p = funcs.rightDiagonalProduct(a, d)
    expect(p.shape == (n, m), 'a diagonal product keeps the extents')
    p = funcs.leftDiagonalProduct(a, e)
    expect(p.shape == (n, m), 'a diagonal product keeps the extents')


def d_diff():
    for n, m in SHAPES:
        a, e = mat('a', n, m)
        b, f = mat('b', n, m)
        z = freeze(a, b)
        ij = [(i, j) for i in range(n) for j in range(m)]
        want = norm([e[i][j] - f[i][j] for i, j in ij]) / norm([e[i][j] for i, j in ij])
        expect(equivalent(funcs.matDiffError(a, b), want), 'the difference of matrices relative to the first one')
        expect(equivalent(funcs.getDiffError(a, b), sum([square(e[i][j] - f[i][j]) for i, j in ij])), 'the squared difference of matrices')
        unchanged(z, 'matrix helpers leave their arguments alone')


def d_diagonal_product():
    for n, m in SHAPES:
        a, e = mat('a', n, m)
        d = [symfloat('d%d' % i) for i in range(m)]
        f = [symfloat('f%d' % i) for i in range(n)]
        x, y = np.array(d), np.array(f)
        z = freeze(a, x, y)
        r = funcs.rightDiagonalProduct(a, x)
        l = funcs.leftDiagonalProduct(a, y)
        expect(r.shape == (n, m) and l.shape == (n, m), 'a diagonal product keeps the extents')
        for i in range(n):
            for j in range(m):
                expect(equivalent(r[i, j], e[i][j] * d[j]), 'a diagonal matrix from the right scales the columns')
                expect(equivalent(l[i, j], f[i] * e[i][j]), 'a diagonal matrix from the left scales the rows')
        unchanged(z, 'matrix helpers leave their arguments alone')


def d_eye():
    for n in [2, 3, 4]:
        for l in [1, 2, 3]:
            a = funcs.ndEye(n, l)
            expect(a.shape == tuple([l] * n), 'a unit tensor has the shape asked for')
            for p in product(range(l), repeat = n):
                expect(equivalent(a[p], 1.0 if min(p) == max(p) else 0.0), 'a unit tensor has ones on the diagonal only')


def d_diagonal():
    for n in [1, 2, 3, 4]:
        for l in [1, 2, 3]:
            v = [symfloat('v%d' % i) for i in range(l)]
            x = np.array(v)
            z = freeze(x)
            a = funcs.diagonalNDTensor(x, n)
            expect(a.shape == tuple([l] * n), 'a diagonal tensor has the shape asked for')
            for p in product(range(l), repeat = n):
                expect(equivalent(a[p], v[p[0]] if min(p) == max(p) else 0.0), 'a diagonal tensor has its data on the diagonal only')
            unchanged(z, 'matrix helpers leave their arguments alone')
            expect(not shares(a, x), 'a diagonal tensor does not share its data')


def d_diagonal_scalar():
    x = np.array(symfloat('v'))
    z = freeze(x)
    a = funcs.diagonalNDTensor(x, 0)
    expect(equivalent(a, x), 'a diagonal tensor without axes is its number')
    expect(not shares(a, x), 'a diagonal tensor does not share its data')
    unchanged(z, 'matrix helpers leave their arguments alone')


def d_infinity():
    for n in [1, 2, 3]:
        v = [symfloat('v%d' % i) for i in range(n)]
        x = np.array(v)
        z = freeze(x)
        r = funcs.normalizeInfinity(x)
        w = np.max(np.abs(np.array(v)))
        expect(r.shape == (n,), 'normalizing keeps the extents')
        for i in range(n):
            expect(equivalent(r[i], v[i] / w), 'the largest absolute value becomes 1')
        unchanged(z, 'matrix helpers leave their arguments alone')
    r = funcs.normalizeInfinity(np.array([[1.0, -4.0], [2.0, 0.5]]))
    for p, w in [((0, 0), 0.25), ((0, 1), -1.0), ((1, 0), 0.5), ((1, 1), 0.125)]:
        expect(equivalent(r[p], w), 'the largest absolute value becomes 1')


def d_sum_axis():
    e = {}
    for p in product(range(2), range(3), range(2)):
        e[p] = symfloat('a%d%d%d' % p)
    a = np.array([[[e[(i, j, k)] for k in range(2)] for j in range(3)] for i in range(2)])
    sh = [2, 3, 2]
    z = freeze(a)
    for axis in [0, 1, 2, -1, -2, -3]:
        ax = axis % 3
        w = [symfloat('w%d' % i) for i in range(sh[ax])]
        r = funcs.sumOnAxis(a, axis)
        q = funcs.sumOnAxis(a, axis, weights = np.array(w))
        rest = sh[:ax] + sh[ax + 1:]
        expect(r.shape == tuple(rest) and q.shape == tuple(rest), 'the other axes are kept')
        for p in product(*[range(d) for d in rest]):
            full = [p[:ax] + (i,) + p[ax:] for i in range(sh[ax])]
            expect(equivalent(r[p], sum([e[f] for f in full])), 'the sum over the given axis')
            expect(equivalent(q[p], sum([w[i] * e[full[i]] for i in range(sh[ax])])), 'the weighted sum over the given axis')
    unchanged(z, 'matrix helpers leave their arguments alone')


def d_sum_axis_tags():
    ns = [dim(x) for x in 'nmkl']
    for k in [1, 2, 3, 4]:
        a = arr('a', ns[:k])
        for i in range(k):
            w = arr('w', [ns[i]])
            for r in [funcs.sumOnAxis(a, i), funcs.sumOnAxis(a, i, weights = w), funcs.sumOnAxis(a, i - k), funcs.sumOnAxis(a, i - k, weights = w)]:
                if k > 1:
                    expect(tags(r) == tuple(['a.%d' % j for j in range(k) if j != i]), 'the other axes are kept')
            q = funcs.sumOnAxis(a, i, weights = w)
            expect(sumpairs(q) == ('a.%d~w.0' % i,), 'the weights run with the given axis')


def d_inverse():
    for n in [1, 2, 3]:
        s = [symfloat('s%d' % i) for i in range(n)]
        x = np.array(s)
        z = freeze(x)
        for c in range(n + 1):
            r = funcs.partialInverse(x, c)
            expect(r.shape == (n,), 'a partial inverse has the length of the values')
            for i in range(n):
                expect(equivalent(r[i], 1.0 / s[i] if i < c else 0.0), 'the values before the cutoff are inverted, the others are zero')
        unchanged(z, 'matrix helpers leave their arguments alone')


def d_nonzero():
    s = [symfloat('s0'), symfloat('s1'), symfloat('s2')]
    x = np.array(s)
    expect(equivalent(funcs.nonZeroElementN(x, eps = 2.0), np.count_nonzero(np.abs(np.array(s)) > 2.0)), 'the number of values above the threshold')
    for w in product([-1.0, 0.0, 1e-12, 0.3], repeat = 3):
        y = np.array([w[0], w[1], w[2]])
        expect(equivalent(funcs.nonZeroElementN(y), len([v for v in w if abs(v) > 1e-10])), 'the number of values above the threshold')
        expect(equivalent(funcs.nonZeroElementN(y, eps = 0.3), len([v for v in w if abs(v) > 0.3])), 'the number of values above the threshold')
        expect(equivalent(funcs.nonZeroElementN(y, eps = 0.5), len([v for v in w if abs(v) > 0.5])), 'the number of values above the threshold')


def d_equal():
    e = [symfloat('a0'), symfloat('a1')]
    for w, eps, want in [((1.0, 1.0), 1e-7, True), ((1.0, 1.5), 1e-7, False), ((1.5, 1.0), 1e-7, False), ((1.0, 1.5), 0.6, True), ((1.5, 1.0), 0.6, True), ((-1.0, 1.0), 0.6, False), ((0.0, 0.0), 1e-7, True), ((-2.0, -2.0), 1e-7, True)]:
        expect(bool(funcs.floatEqual(w[0], w[1], eps = eps)) == want, 'floats are equal if they differ by less than eps')
    for w, eps, want in [((1.0, 1.0), 1e-7, True), ((100.0, 101.0), 0.02, True), ((101.0, 100.0), 0.02, True), ((1.0, 2.0), 0.02, False), ((2.0, 1.0), 0.02, False), ((0.01, 0.02), 0.02, False),
                         ((0.0, 0.0), 1e-7, True), ((-1.0, -1.0), 1e-7, True), ((-100.0, -101.0), 0.02, True), ((-1.0, -2.0), 0.02, False), ((1.0, -1.0), 0.1, False), ((-1.0, 1.0), 0.1, False), ((100.0, 101.9), 0.02, True), ((100.0, 102.2), 0.02, False), ((102.2, 100.0), 0.02, False), ((100.0, 103.0), 0.02, False)]:
        expect(bool(funcs.floatRelativeEqual(w[0], w[1], eps = eps)) == want, 'floats are relatively equal if they differ by less than eps of their size')
    expect(bool(funcs.floatEqual(1.0, 1.00000001)) and not funcs.floatEqual(1.0, 1.000001), 'the default accuracy of equality is 1e-7')
    expect(bool(funcs.floatRelativeEqual(1000.0, 1000.00001)) and not funcs.floatRelativeEqual(1000.0, 1000.001), 'the default accuracy of relative equality is 1e-7')
    a = np.array([[1.0, 2.0], [3.0, 4.0]])
    expect(bool(funcs.floatArrayEqual(np.array([1.0]), np.array([1.00000001]))) and not funcs.floatArrayEqual(np.array([1.0]), np.array([1.000001])), 'the default accuracy of equality is 1e-7')
    for i, j in product(range(2), repeat = 2):
        b = np.array([[1.0, 2.0], [3.0, 4.0]])
        expect(bool(funcs.floatArrayEqual(a, b)), 'equal arrays are equal')
        b[i, j] += 1.0
        expect(not funcs.floatArrayEqual(a, b), 'arrays with a different entry are not equal')
        expect(bool(funcs.floatArrayEqual(a, b, eps = 1.5)), 'arrays closer than eps are equal')
    expect(not funcs.floatArrayEqual(a, np.array([1.0, 2.0, 3.0, 4.0])), 'arrays of different shapes are not equal')
    expect(not funcs.floatArrayEqual(np.array([[1.0, 2.0]]), np.array([[1.0], [2.0]])), 'arrays of different shapes are not equal')


def d_random():
    n, m = dim('n'), dim('m')
    r = funcs.randomArray((n, m))
    expect(r.shape == (n, m), 'a random array has the shape asked for')
    r = funcs.randomArray((m, n, m))
    expect(r.shape == (m, n, m), 'a random array has the shape asked for')


def cmat(name, n, m):
    e = [[symcomplex(name + str(i) + str(j)) for j in range(m)] for i in range(n)]
    return np.array(e), e


def cnorm(xs):
    return np.sqrt(sum([np.abs(x) * np.abs(x) for x in xs]))


def d_complex_errors():
    for n in [2, 3]:
        a, e = cmat('a', n, n)
        b, f = cmat('b', n, n)
        ij = [(i, j) for i in range(n) for j in range(n)]
        size = cnorm([e[i][j] for i, j in ij])
        expect(equivalent(funcs.symmetricError(a), cnorm([e[i][j] - e[j][i] for i, j in ij]) / size), 'the symmetry error is the distance to the transpose')
        expect(equivalent(funcs.diagError(a), cnorm([e[i][j] for i, j in ij if i != j]) / size), 'the diagonality error is the distance to the diagonal')
        expect(equivalent(funcs.identityError(a), cnorm([e[i][j] - eye(i, j) for i, j in ij])), 'the identity error is the distance to the unit matrix')
        expect(equivalent(funcs.matDiffError(a, b), cnorm([e[i][j] - f[i][j] for i, j in ij]) / size), 'the difference of matrices relative to the first one')


def d_complex_projector():
    for n, m in [(2, 1), (1, 2), (2, 2), (3, 2)]:
        a, e = cmat('a', n, m)
        want = cnorm([sum([np.conjugate(e[k][i]) * e[k][j] for k in range(n)]) - eye(i, j) for i in range(m) for j in range(m)])
        expect(equivalent(funcs.projectorError(a), want), 'the projector error is the distance of its columns from orthonormal ones')


def d_complex_products():
    for n, m in [(1, 2), (2, 1), (2, 3)]:
        a, e = cmat('a', n, m)
        c = funcs.transposeConjugate(a)
        p = funcs.aDaggerAProduct(a)
        q = funcs.aADaggerProduct(a)
        d = [symcomplex('d%d' % i) for i in range(m)]
        f = [symcomplex('f%d' % i) for i in range(n)]
        r = funcs.rightDiagonalProduct(a, np.array(d))
        l = funcs.leftDiagonalProduct(a, np.array(f))
        for i in range(n):
            for j in range(m):
                expect(equivalent(c[j, i], np.conjugate(e[i][j])), 'the adjoint has the conjugate entries')
                expect(equivalent(r[i, j], e[i][j] * d[j]), 'a diagonal matrix from the right scales the columns')
                expect(equivalent(l[i, j], f[i] * e[i][j]), 'a diagonal matrix from the left scales the rows')
        for i in range(m):
            for j in range(m):
                expect(equivalent(p[i, j], sum([np.conjugate(e[k][i]) * e[k][j] for k in range(n)])), 'the product of the adjoint with the matrix')
        for i in range(n):
            for j in range(n):
                expect(equivalent(q[i, j], sum([e[i][k] * np.conjugate(e[j][k]) for k in range(m)])), 'the product of the matrix with its adjoint')


def d_complex_vectors():
    for n in [1, 2, 3]:
        v = [symcomplex('v%d' % i) for i in range(n)]
        r = funcs.normalizeInfinity(np.array(v))
        w = np.max(np.abs(np.array(v)))
        for i in range(n):
            expect(equivalent(r[i], v[i] / w), 'the largest absolute value becomes 1')
        a = funcs.diagonalNDTensor(np.array(v), 2)
        for p in product(range(n), repeat = 2):
            expect(equivalent(a[p], v[p[0]] if min(p) == max(p) else 0.0), 'a diagonal tensor has its data on the diagonal only')


def d_isometry():
    """isometry for labels: summing the tensor times its conjugate over them gives the unit"""
    r = 0.6
    q = 0.8
    t = Tensor(data = np.array([[1.0, 0.0, 0.0], [0.0, r, q]]), labels = ['a', 'b'])
    expect(isIsometry(t, ['b']), 'orthonormal rows: an isometry for the columns', t)
    expect(not isIsometry(t, ['a']), 'columns that are not orthonormal: no isometry for the rows', t)
    t = Tensor(data = np.array([[1.0, 0.0], [0.0, r], [0.0, q]]), labels = ['a', 'b'])
    expect(isIsometry(t, ['a']), 'orthonormal columns: an isometry for the rows', t)
    expect(not isIsometry(t, ['b']), 'rows that are not orthonormal: no isometry for the columns', t)
    t = Tensor(data = np.array([[1.0j, 0.0, 0.0], [0.0, r, q * 1.0j]]), labels = ['a', 'b'])
    expect(isIsometry(t, ['b']), 'complex entries are conjugated', t)
    t = Tensor(data = np.array([[1.0, 0.0], [0.01, 1.0]]), labels = ['a', 'b'])
    expect(isIsometry(t, ['b'], eps = 0.1), 'within eps', t)
    expect(not isIsometry(t, ['b'], eps = 0.001), 'not within eps', t)
    expect(not isIsometry(t, ['b']), 'not within the default eps', t)
    t = Tensor(data = np.array([[[1.0, 0.0], [0.0, 0.0]], [[0.0, r], [q, 0.0]]]), labels = ['a', 'b', 'c'])
    expect(isIsometry(t, ['b', 'c']), 'over several labels', t)
    expect(isIsometry(t, ['c', 'b']), 'in any order', t)
    expect(not isIsometry(t, ['c']), 'over one of them', t)


def d_isometry_rejects():
    i, j = dims('ij')
    t = Tensor(data = arr('A', [i, j]), labels = ['a', 'b'])
    for ls in [['c'], ['a', 'c'], ['a', 'b', 'c']]:
        try:
            isIsometry(t, ls)
        except AssertionError:
            ok()
        except ValueError:
            ok()
        else:
            fail('labels the tensor does not have are rejected', t)
