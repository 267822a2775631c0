"""C07, every set of bonds between operands of up to three legs, of every kind"""
import numpy as np
from lib_enum import *
from CTL.tensor.contract.contract import merge
from CTL.tensor.contract.link import mergeLink
from CTL.tensor.contract.optimalContract import contractWithSequence
from CTL.tensor.tensorFunc import tensorSVDDecomposition
import CTL.funcs.funcs as funcs

LA = ['a', 'b', 'c', 'd']
LB = ['p', 'q', 'r', 's']


def keeps(t, names, what):
    expect(dtypes(t.a) == tuple(sorted(names)), what + ': the data type follows from the operands alone', t)
    expect(dtypes(t.dtype) == dtypes(t.a), what + ': the recorded data type is that of the data', t)


def mk(kind, name, labels, n):
    if kind == 'dense':
        return dense(name, labels, [n] * len(labels))
    if len(labels) == 0:
        return DiagonalTensor(data = arr(name, []))
    return diag(name, labels, n)


def sweep(ka, kb, ranks):
    n = dim('n')
    for na in ranks:
        for nb in ranks:
            for pairs in matchings(na, nb):
                a = mk(ka, 'A', LA[:na], n)
                b = mk(kb, 'B', LB[:nb], n)
                for x, y in pairs:
                    makeLink(LA[x], LB[y], a, b)
                keeps(contractTwoTensors(a, b, outProductWarning = False), ['dt_A', 'dt_B'], 'contraction')


def d_dense():
    sweep('dense', 'dense', [0, 1, 2, 3])


def d_dense_diag():
    sweep('dense', 'diag', [0, 1, 2, 3])


def d_diag_dense():
    sweep('diag', 'dense', [0, 1, 2, 3])


def d_diag_diag():
    sweep('diag', 'diag', [0, 1, 2, 3])


def d_single():
    for n in [1, 2, 3, 4]:
        e = dims(['i', 'j', 'k', 'l'])[:n]
        for p in selections(LA[:n], range(1, n + 1)):
            for op in range(7):
                t = dense('A', LA[:n], e)
                if op == 0:
                    t.moveLabelsToFront(p)
                elif op == 1:
                    t.outProduct(p, 'z')
                elif op == 2:
                    t.sumOutLegByLabel(p)
                elif op == 3:
                    t.renameLabels(p, [x + 'x' for x in p])
                elif op == 4:
                    t = t.copy()
                elif op == 5:
                    if len(p) == n:
                        t.reArrange(p)
                else:
                    x = t.toMatrix(rows = [t.getLeg(y) for y in p])
                    expect(dtypes(x) == ('dt_A',), 'toMatrix keeps the data type', t)
                keeps(t, ['dt_A'], 'operation on one tensor')


def d_single_diag():
    n = dim('n')
    for k in [1, 2, 3, 4]:
        for p in selections(LA[:k], range(1, k + 1)):
            for op in range(5):
                t = diag('D', LA[:k], n)
                if op == 0:
                    t.moveLabelsToFront(p)
                elif op == 1:
                    t.sumOutLegByLabel(p)
                elif op == 2:
                    t.renameLabels(p, [x + 'x' for x in p])
                elif op == 3:
                    t = t.copy()
                else:
                    x = t.toMatrix(rows = [t.getLeg(y) for y in p])
                    expect(dtypes(x) == ('dt_D',), 'toMatrix keeps the data type', t)
                    expect(dtypes(t.toTensor()) == ('dt_D',), 'toTensor keeps the data type', t)
                keeps(t, ['dt_D'], 'operation on one diagonal tensor')


def d_asked_for():
    """a tensor made without data gets data of the type asked for"""
    for make in [Tensor, DiagonalTensor]:
        for n in range(4):
            for tp, name in [(np.float32, 'float32'), (np.float64, 'float64'), (np.complex64, 'complex64'), (np.complex128, 'complex128'), (np.int64, 'int64')]:
                t = make(shape = tuple([dim('n')] * n), labels = LA[:n], dtype = tp)
                expect(isarray(t.a), 'data made for a tensor is an array', t)
                expect(dtypes(t.a) == (name,), 'data made for a tensor has the type asked for', t)
                expect(dtypes(t.dtype) == (name,), 'a tensor made without data records the type asked for', t)
                expect(dtypes(t.copy().a) == (name,) and dtypes(t.copy().dtype) == (name,), 'a copy has the type of the tensor', t)
                t = make(shape = tuple([dim('n')] * n), labels = LA[:n], dtype = tp, tensorLikeFlag = True)
                expect(dtypes(t.dtype) == (name,), 'a tensor without data records the type asked for', t)
                expect(dtypes(t.copy().dtype) == (name,), 'a copy has the type of the tensor', t)
            t = make(shape = tuple([dim('n')] * n), labels = LA[:n])
            expect(isarray(t.a) and dtypes(t.a) == ('float64',) and dtypes(t.dtype) == ('float64',), 'the type is double precision if none is asked for', t)


def d_weighted():
    n = dim('n')
    for k in [1, 2, 3]:
        for i in range(k):
            t = dense('A', LA[:k], [n] * k)
            t.sumOutLegByLabel(LA[i], weights = arr('W', [n]))
            expect(dtypes(t.a) == ('dt_A', 'dt_W'), 'a weighted sum has the common type of tensor and weights', t)
            expect(dtypes(t.dtype) == dtypes(t.a), 'a weighted sum records the type of its data', t)
            t = diag('D', LA[:k], n)
            t.sumOutLegByLabel(LA[i], weights = arr('W', [n]))
            expect(dtypes(t.a) == ('dt_D', 'dt_W'), 'a weighted sum has the common type of tensor and weights', t)
            expect(dtypes(t.dtype) == dtypes(t.a), 'a weighted sum records the type of its data', t)


def d_merge():
    n = dim('n')
    for na in [2, 3]:
        for nb in [2, 3]:
            for pairs in matchings(na, nb):
                if len(pairs) == 0 or len(pairs) == na or len(pairs) == nb:
                    continue
                for chi in [None, symint('chi')]:
                    a = mk('dense', 'A', LA[:na], n)
                    b = mk('dense', 'B', LB[:nb], n)
                    for x, y in pairs:
                        makeLink(LA[x], LB[y], a, b)
                    u, v = merge(a, b, chi = chi, renameWarning = False)
                    if chi is None:
                        keeps(u, ['dt_A'], 'merge')
                        keeps(v, ['dt_B'], 'merge')
                    else:
                        keeps(u, ['dt_A', 'dt_B'], 'merge')
                        keeps(v, ['dt_A', 'dt_B'], 'merge')


def svd(n):
    e = dims(['i', 'j', 'k', 'l'])[:n]
    cases = []
    for r in range(1, n):
        for rows in combinations(LA[:n], r):
            cases.append(list(rows))
    rows = choice(*cases)
    t = dense('A', LA[:n], e)
    x = tensorSVDDecomposition(t, rows = rows, cols = [y for y in LA[:n] if y not in rows], chi = symint('chi'))
    keeps(x['u'], ['dt_A'], 'tensorSVDDecomposition')
    keeps(x['v'], ['dt_A'], 'tensorSVDDecomposition')


def d_svd():
    svd(choice(2, 3, 4))


def d_sequence():
    n = dim('n')
    for kinds in product(['dense', 'diag'], repeat = 3):
        a = mk(kinds[0], 'A', ['a', 'b', 'c'], n)
        b = mk(kinds[1], 'B', ['p', 'q'], n)
        c = mk(kinds[2], 'C', ['u', 'v'], n)
        makeLink('b', 'p', a, b)
        makeLink('q', 'u', b, c)
        makeLink('v', 'c', c, a)
        for seq in [[(0, 1), (0, 2)], [(1, 2), (0, 1)], [(0, 2), (0, 1)]]:
            r = contractWithSequence([a, b, c], seq = seq)
            keeps(r, ['dt_A', 'dt_B', 'dt_C'], 'contraction of a list')


def d_buffers():
    """diagonal buffers of every rank"""
    n = dim('n')
    for k in [1, 2, 3, 4, 5]:
        expect(dtypes(funcs.diagonalNDTensor(arr('D', [n]), k)) == ('dt_D',), 'diagonalNDTensor keeps the data type')
