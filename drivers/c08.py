"""C08: truncated decompositions keep consistent factors"""
from lib_enum import *
import numpy as np
from CTL.funcs.decompose import SVDDecomposition
from CTL.funcs.linalg import solveEnv
from CTL.tensor.tensorFunc import tensorSVDDecomposition
from CTL.tensor.contract.contract import merge
from CTL.tensor.contract.link import makeLink, mergeLink
from CTL.examples.Schimdt import SchimdtDecomposition, matrixSchimdtDecomposition
import CTL.funcs.funcs as funcs


def matrices():
    i, j = dims('ij')
    return choice([i, j], [i, i], [1, j], [i, 1], [2, 5], [5, 2], [3, 3])


def bounds(k, chi, ext, what):
    expect(atmost(k, chi), what + ': at most chi', k)
    for e in ext:
        expect(atmost(k, e), what + ': not more than the matrix has', k)


def relative(s, k, p):
    """weight of the values from k on"""
    return (s[k:] ** p).sum() / (s ** p).sum()


def d_svd():
    ext = matrices()
    p = choice(1, 2, 3)
    chi = symint('chi')
    a = arr('A', ext)
    u, s, v, err = SVDDecomposition(a, chi, returnSV = True, errorOrder = p)
    x, y, z = np.linalg.svd(a)
    k = s.shape[0]
    expect(u.shape[1] == k and v.shape[0] == k, 'all factors have the same inner extent', u, v)
    expect(tags(u)[0] == 'A.0' and tags(v)[1] == 'A.1', 'the rows stay left and the columns right', u, v)
    expect(tags(u)[1] == tags(s)[0] and tags(v)[0] == tags(s)[0], 'the inner axes run over the same values', u, v)
    bounds(k, chi, ext, 'SVDDecomposition')
    expect(equivalent(k, min(chi, ext[0], ext[1])), 'as many values as allowed', s)
    expect(equivalent(s, y[:k]), 'the largest values are kept', s)
    expect(equivalent(u, x[:, :k]), 'the left vectors of the values', u)
    expect(equivalent(v, z[:k]), 'the right vectors of the values', v)
    expect(equivalent(err, relative(y, k, p)), 'the error is the relative weight of the dropped values', err)


def d_svd_root():
    """values divided between both sides"""
    ext = matrices()
    chi = symint('chi')
    a = arr('A', ext)
    u, v, err = SVDDecomposition(a, chi)
    x, y, z = np.linalg.svd(a)
    k = u.shape[1]
    expect(v.shape[1] == k, 'both sides have the same inner extent', u, v)
    expect(tags(u)[0] == 'A.0' and tags(v)[0] == 'A.1' and tags(u)[1] == tags(v)[1], 'the rows are left and the columns right, the values second', u, v)
    bounds(k, chi, ext, 'SVDDecomposition')
    expect(equivalent(k, min(chi, ext[0], ext[1])), 'as many values as allowed', u)
    expect(equivalent(u, x[:, :k] * np.sqrt(y[:k])), 'the left side has the roots of the values', u)
    expect(equivalent(v, np.conj(z[:k]) * np.sqrt(y[:k])[:, None]), 'the right side is conjugated and has the roots of the values', v)
    expect(equivalent(err, relative(y, k, 2)), 'the error is the relative weight of the dropped values', err)


def svd_case(n, r):
    names = LA[:n]
    for rows in permutations(names, r):
        for cols in permutations([x for x in names if x not in rows]):
            for inner in [None, ('x', 'y')]:
                e = dims('ijkl')[:n]
                a = dense('A', names, e)
                rest = freeze(a)
                chi = symint('chi')
                d = tensorSVDDecomposition(a, rows = list(rows), cols = list(cols), innerLabels = inner, chi = chi)
                unchanged(rest, 'the tensor is left alone')
                u, s, v = d['u'], d['s'], d['v']
                ln, rn = '|'.join(rows), '|'.join(cols)
                li, ri = inner if inner is not None else ('inner:' + ln, 'inner:' + rn)
                expect(u.labels == [ln, li] and s.labels == [ln, rn] and v.labels == [ri, rn], 'the factors carry the merged and the inner labels', u, s, v)
                expect(tags(u.a)[0] == '*'.join(['A.' + str(names.index(l)) for l in rows]), 'the rows are merged in order', u)
                expect(tags(v.a)[1] == '*'.join(['A.' + str(names.index(l)) for l in cols]), 'the columns are merged in order', v)
                expect(tags(u.a)[1] == tags(s.a)[0] and tags(v.a)[0] == tags(s.a)[0], 'the inner legs run over the same values', u, v)
                k = s.a.shape[0]
                expect(s.diagonalFlag and s.shape == (k, k), 'the values are a diagonal tensor', s)
                expect(u.shape[1] == k and v.shape[0] == k, 'all factors have the same inner extent', u, v)
                expect(u.shapeOfLabel(li) == k and v.shapeOfLabel(ri) == k, 'the inner legs have the extent of the values', u, v)
                m = arr('M', [u.shape[0], v.shape[1]])
                bounds(k, chi, [u.shape[0], v.shape[1]], 'tensorSVDDecomposition')
                x, y, z = np.linalg.svd(a.toMatrix(rows = list(rows), cols = list(cols)))
                expect(equivalent(s.a, y[:k]) and equivalent(u.a, x[:, :k]) and equivalent(v.a, z[:k]), 'the largest values and their vectors are kept', u, s, v)
                expect(equivalent(d['error'], relative(y, k, 2)), 'the error is the relative weight of the dropped values', s)


LA = ['a', 'b', 'c', 'd']
LB = ['p', 'q', 'r', 's']


def d_tensor_svd2():
    svd_case(2, 1)


def d_tensor_svd3():
    svd_case(3, choice(1, 2))


def left_out(n, r):
    """rows or columns that are not given are the other legs, in order"""
    names = LA[:n]
    for given in permutations(names, r):
        rest = [x for x in names if x not in given]
        a = dense('A', names, dims('ijkl')[:n])
        chi = symint('chi')
        for rows, cols in [(list(given), rest), (rest, list(given))]:
            left = rows == rest
            if left:
                d = tensorSVDDecomposition(a, cols = list(given), chi = chi)
            else:
                d = tensorSVDDecomposition(a, rows = list(given), chi = chi)
            u, s, v = d['u'], d['s'], d['v']
            ln, rn = '|'.join(rows), '|'.join(cols)
            expect(u.labels == [ln, 'inner:' + ln] and s.labels == [ln, rn] and v.labels == ['inner:' + rn, rn], 'the factors carry the merged and the inner labels', u, s, v)
            k = s.a.shape[0]
            x, y, z = np.linalg.svd(a.toMatrix(rows = rows, cols = cols))
            expect(equivalent(s.a, y[:k]) and equivalent(u.a, x[:, :k]) and equivalent(v.a, z[:k]), 'rows or columns left out are the other legs, in order', u, s, v)


def d_left_out2():
    left_out(2, 1)


def d_left_out3():
    left_out(3, choice(1, 2))


def d_tensor_svd_order():
    p = choice(1, 3)
    chi = choice(1, 2, 3, 16)
    a = dense('A', ['a', 'b', 'c'], [2, 3, 2])
    d = tensorSVDDecomposition(a, rows = ['b'], cols = ['c', 'a'], chi = chi, errorOrder = p)
    k = min(chi, 3)
    expect(d['s'].shape == (k, k) and d['u'].shape == (3, k) and d['v'].shape == (k, 4), 'as many values as allowed', d['s'])
    x, y, z = np.linalg.svd(a.toMatrix(rows = ['b'], cols = ['c', 'a']))
    expect(equivalent(d['error'], relative(y, k, p)), 'the error is the relative weight of the dropped values', d['s'])


def d_tensor_svd_rejects():
    a = dense('A', ['a', 'b'], dims('ij'))
    for inner in [('x',), ['x', 'y'], 'x', ('x', 'y', 'z')]:
        try:
            tensorSVDDecomposition(a, rows = ['a'], cols = ['b'], innerLabels = inner)
        except Exception:
            ok()
        else:
            fail('inner labels that are no pair are rejected', a)


def d_env():
    n, chi = dim('n'), symint('chi')
    assume_less(0, chi)
    m = arr('E', [n, n])
    given = choice(True, False)
    if given:
        p, err = solveEnv(m, chi, threshold = 0.5)
        eps = 0.5
    else:
        p, err = solveEnv(m, chi)
        eps = 1e-10
    w, v = np.linalg.eigh(m)
    exist = np.count_nonzero(w > eps)
    k = p.shape[1]
    expect(tags(p)[0] == 'E.0', 'a projector acts on the legs of the environment', p)
    bounds(k, chi, [n], 'solveEnv')
    expect(equivalent(k, min(chi, exist)), 'as many vectors as there are eigenvalues above the threshold, at most chi', p)
    expect(equivalent(p, np.flip(v[:, n - k:], axis = 1)), 'the vectors of the largest eigenvalues, the largest first', p)
    if chi > exist:
        want = 0.0
    else:
        want = 1.0 - w[n - chi:].sum() / w.sum()
    expect(equivalent(err, want), 'the error is the relative weight of the dropped eigenvalues', p)


def d_nonzero():
    n = dim('n')
    x, s, z = np.linalg.svd(arr('A', [n, n]))
    w, v = np.linalg.eigh(arr('A', [n, n]))
    for eps in [None, 0.5]:
        for y in [s, w - 1.5]:
            r = funcs.nonZeroElementN(y) if eps is None else funcs.nonZeroElementN(y, eps)
            expect(equivalent(r, np.count_nonzero(np.abs(y) > (1e-10 if eps is None else eps))), 'the number of entries above the threshold', y)


def merge_case(na, nb, pairs, chi):
    pool = dims('ijklmo')
    ea, eb = pool[:na], pool[na:na + nb]
    for x, y in pairs:
        eb[y] = ea[x]
    a, b = dense('A', LA[:na], ea), dense('B', LB[:nb], eb)
    for x, y in pairs:
        makeLink(LA[x], LB[y], a, b)
    fa = [a.legs[x] for x in range(na) if x not in [p[0] for p in pairs]]
    fb = [b.legs[y] for y in range(nb) if y not in [p[1] for p in pairs]]
    ma = a.toMatrix(rows = fa, cols = [a.legs[p[0]] for p in pairs])
    mb = b.toMatrix(rows = [b.legs[p[1]] for p in pairs], cols = fb)
    rows, cols = ma.shape[0], mb.shape[1]
    x, y, z = np.linalg.svd(ma @ mb)
    u, v = merge(a, b, chi = chi, bondName = 'w', renameWarning = False)
    lu, lv = u.getLeg('w'), v.getLeg('w')
    k = lu.dim
    expect(lu.bond is not None and lu.anotherSide() is lv and lv.anotherSide() is lu, 'the merged tensors share one bond', u, v)
    expect(lv.dim == k and u.shapeOfLabel('w') == v.shapeOfLabel('w'), 'both sides of the bond have the same extent', u, v)
    for t in [u, v]:
        expect(t.a.shape == t.shape, 'extents of data and legs agree', t)
    expect([l for l in u.legs if l is not lu] == fa and [l for l in v.legs if l is not lv] == fb, 'the other legs stay', u, v)
    expect(tags(u.a)[u.legs.index(lu)] == tags(v.a)[v.legs.index(lv)], 'both sides run over the same values', u, v)
    bounds(k, chi, [rows, cols], 'merge')
    expect(equivalent(k, min(chi, rows, cols, np.count_nonzero(y > 1e-10))), 'as many values as allowed that are not zero', u)
    expect(equivalent(u.a, x[:, :k] * np.sqrt(y[:k])), 'the left side has the roots of the values', u)
    expect(equivalent(v.a, z[:k] * np.sqrt(y[:k])[:, None]), 'the right side has the roots of the values', v)


def d_merge():
    for pairs in matchings(2, 2):
        if len(pairs) == 1:
            merge_case(2, 2, pairs, symint('chi'))


def d_merge3():
    for pairs in matchings(3, 3):
        if len(pairs) == 2 and pairs[0][0] == 0:
            merge_case(3, 3, pairs, symint('chi'))


def d_merge23():
    for pairs in matchings(2, 3):
        if len(pairs) == 1:
            merge_case(2, 3, pairs, symint('chi'))
    for pairs in matchings(3, 2):
        if len(pairs) == 1:
            merge_case(3, 2, pairs, symint('chi'))


def d_schimdt():
    """two tensors joined by one or two bonds"""
    for pairs in [[(1, 0)], [(0, 2)], [(1, 0), (2, 2)], [(2, 0), (0, 1)]]:
        for root in [False, True]:
            pool = dims('ijklmo')
            ea, eb = pool[:3], pool[3:]
            for x, y in pairs:
                eb[y] = ea[x]
            a, b = dense('A', LA[:3], ea), dense('B', LB[:3], eb)
            for x, y in pairs:
                makeLink(LA[x], LB[y], a, b)
            chi = symint('chi')
            fa = [a.legs[x] for x in range(3) if x not in [p[0] for p in pairs]]
            fb = [b.legs[y] for y in range(3) if y not in [p[1] for p in pairs]]
            ma = a.toMatrix(rows = fa, cols = [a.legs[p[0]] for p in pairs])
            mb = b.toMatrix(rows = [b.legs[p[1]] for p in pairs], cols = fb)
            x, y, z = np.linalg.svd(ma @ mb)
            u, s, v = SchimdtDecomposition(a, b, chi, squareRootSeparation = root)
            ou = [l for l in u.legs if l not in fa]
            ov = [l for l in v.legs if l not in fb]
            expect(len(ou) == 1 and len(ov) == 1 and len(u.legs) == len(fa) + 1 and len(v.legs) == len(fb) + 1, 'every side keeps its other legs and has one leg to the values', u, v)
            k = ou[0].dim
            expect(ov[0].dim == k and u.a.shape == u.shape and v.a.shape == v.shape, 'all factors have the same inner extent', u, v)
            bounds(k, chi, [ma.shape[0], mb.shape[1]], 'SchimdtDecomposition')
            expect([l.name for l in fa] == [LA[q] for q in range(3) if q not in [p[0] for p in pairs]], 'the other legs keep their labels', u)
            expect([l.name for l in fb] == [LB[q] for q in range(3) if q not in [p[1] for p in pairs]], 'the other legs keep their labels', v)
            if root:
                expect(s is None and ou[0].anotherSide() is ov[0], 'the two sides are joined', u, v)
                expect(equivalent(u.a, x[:, :k] * np.sqrt(y[:k])) and equivalent(v.a, z[:k] * np.sqrt(y[:k])[:, None]), 'both sides have the roots of the values', u, v)
            else:
                expect(s.shape == (k, k) and s.diagonalFlag, 'the values are a diagonal tensor of the same extent', s)
                expect(ou[0].anotherSide() is s.legs[0] and ov[0].anotherSide() is s.legs[1], 'the values are joined to both sides', s)
                expect(equivalent(s.a, y[:k]) and equivalent(u.a, x[:, :k]) and equivalent(v.a, z[:k]), 'the largest values and their vectors are kept', u, s, v)


def d_matrix_schimdt():
    i, j, n = dims('ijn')
    chi = choice(None, symint('chi'))
    flat = choice(True, False)
    if flat:
        a = arr('A', [i * j])
        m = a.reshape((i, j))
        u, v = matrixSchimdtDecomposition(a, i) if chi is None else matrixSchimdtDecomposition(a, i, chi = chi)
        k = u.shape[1]
        expect(u.shape[0] == i and v.shape == (k, j), 'the factors fit', u, v)
        rows = i
    else:
        a = arr('A', [n, i * j])
        m = a.reshape((n * i, j))
        u, v = matrixSchimdtDecomposition(a, i) if chi is None else matrixSchimdtDecomposition(a, i, chi = chi)
        k = u.shape[2]
        expect(u.shape[0] == n and u.shape[1] == i and v.shape == (k, j), 'the factors fit', u, v)
        rows = n * i
    x, y, z = np.linalg.svd(m)
    if chi is not None:
        expect(atmost(k, chi), 'matrixSchimdtDecomposition: at most chi', u)
    expect(atmost(k, rows) and atmost(k, j), 'not more than the matrix has', u)
    expect(equivalent(u, x[:, :k]), 'the left vectors', u)
    expect(equivalent(v, z[:k] * y[:k][:, None]), 'the right side has the values', v)
