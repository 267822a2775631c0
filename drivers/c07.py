"""C07: results carry the data type of their operands"""
from lib_std import *
from CTL.tensor.contract.contract import merge
from CTL.tensor.contract.optimalContract import copyTensorList, contractWithSequence
from CTL.tensor.tensorFunc import tensorSVDDecomposition
from CTL.tensor.tensorFactory import makeSquareTensor, makeTriangleTensor, makeSquareOutTensor
from CTL.funcs.decompose import SVDDecomposition
from CTL.tensornetwork.tensornetwork import FiniteTensorNetwork
import CTL.funcs.funcs as funcs


def recorded(t, what):
    expect(dtypes(t.dtype) == dtypes(t.a), what + ': the recorded data type is that of the data', t)


def keeps(t, names, what):
    expect(dtypes(t.a) == tuple(sorted(names)), what + ': the data type follows from the operands alone', t)
    recorded(t, what)


def d_construct():
    i, j = dims('ij')
    t = dense('A', ['a', 'b'], [i, j])
    keeps(t, ['dt_A'], 'Tensor')
    keeps(Tensor(data = arr('A', [i, j]), shape = (i, j)), ['dt_A'], 'Tensor with a shape')
    keeps(Tensor(data = arr('A', [i * j]), shape = (i, j)), ['dt_A'], 'Tensor reshaped')
    keeps(Tensor(data = arr('A', [i, j]), legs = dense('B', ['x', 'y'], [i, j]).legs), ['dt_A'], 'Tensor with legs')
    d = diag('D', ['a', 'b'], i)
    keeps(d, ['dt_D'], 'DiagonalTensor')
    keeps(DiagonalTensor(data = arr('D', [i, i]), labels = ['a', 'b']), ['dt_D'], 'DiagonalTensor from dense data')
    keeps(makeSquareTensor(arr('A', [i, i, i, i])), ['dt_A'], 'makeSquareTensor')
    keeps(makeTriangleTensor(arr('A', [i, i, i])), ['dt_A'], 'makeTriangleTensor')
    keeps(makeSquareOutTensor(arr('A', [i, i, i]), 'ul'), ['dt_A'], 'makeSquareOutTensor')


def d_copy():
    i, j = dims('ij')
    t = dense('A', ['a', 'b'], [i, j])
    keeps(t.copy(), ['dt_A'], 'copy')
    for c in t.copyN(2):
        keeps(c, ['dt_A'], 'copyN')
    expect(t.toTensorLike().dtype == t.dtype, 'toTensorLike keeps the recorded data type', t)
    d = diag('D', ['a', 'b'], i)
    keeps(d.copy(), ['dt_D'], 'copy')
    expect(d.toTensorLike().dtype == d.dtype, 'toTensorLike keeps the recorded data type', d)
    for c in copyTensorList([t]):
        keeps(c, ['dt_A'], 'copyTensorList')


def d_single():
    i, j, k = dims('ijk')
    t = dense('A', ['a', 'b', 'c'], [i, j, k])
    t.reArrange(['c', 'a', 'b'])
    keeps(t, ['dt_A'], 'reArrange')
    expect(dtypes(t.toMatrix(rows = ['a'], cols = ['b', 'c'])) == ('dt_A',), 'toMatrix keeps the data type', t)
    expect(dtypes(t.toVector()) == ('dt_A',), 'toVector keeps the data type', t)
    expect(dtypes(t.toTensor(['a', 'b', 'c'])) == ('dt_A',), 'toTensor keeps the data type', t)
    t.outProduct(['a', 'c'], 'z')
    keeps(t, ['dt_A'], 'outProduct')
    t.sumOutLegByLabel('z')
    keeps(t, ['dt_A'], 'sumOutLeg')
    d = diag('D', ['a', 'b'], i)
    expect(dtypes(d.toTensor()) == ('dt_D',), 'the dense form of a diagonal tensor keeps the data type', d)
    expect(dtypes(d.toMatrix(['a'], ['b'])) == ('dt_D',), 'the matrix form of a diagonal tensor keeps the data type', d)
    expect(dtypes(d.toVector()) == ('dt_D',), 'the diagonal keeps the data type', d)
    d.sumOutLegByLabel('a')
    keeps(d, ['dt_D'], 'sumOutLeg')
    d.sumOutLegByLabel('b')
    keeps(d, ['dt_D'], 'sumOutLeg')


def mk(kind, name, labels, n):
    if kind == 'dense':
        return dense(name, labels, [n] * len(labels))
    return diag(name, labels, n)


def d_contract():
    n = dim('n')
    for ka in ['dense', 'diag']:
        for kb in ['dense', 'diag']:
            for pairs in [[], [('a', 'c')], [('b', 'c')], [('a', 'd'), ('b', 'c')]]:
                a = mk(ka, 'A', ['a', 'b'], n)
                b = mk(kb, 'B', ['c', 'd'], n)
                for x, y in pairs:
                    makeLink(x, y, a, b)
                r = contractTwoTensors(a, b)
                keeps(r, ['dt_A', 'dt_B'], 'contraction of ' + ka + ' and ' + kb)


def d_list():
    n = dim('n')
    a = mk('dense', 'A', ['a', 'b'], n)
    b = mk('diag', 'B', ['c', 'd'], n)
    c = mk('dense', 'C', ['e', 'f'], n)
    makeLink('b', 'c', a, b)
    makeLink('d', 'e', b, c)
    r = contractWithSequence([a, b, c], seq = [(0, 1), (0, 2)])
    keeps(r, ['dt_A', 'dt_B', 'dt_C'], 'contraction of a list')


def d_ftn():
    stub_sequence('left')
    n = dim('n')
    f = FiniteTensorNetwork(['x', 'y'])
    f.addLink('x', 'b', 'y', 'a')
    r = f.contract({'x': mk('dense', 'A', ['a', 'b'], n), 'y': mk('dense', 'B', ['a', 'b'], n)})
    keeps(r, ['dt_A', 'dt_B'], 'evaluating a network')


def d_merge():
    n = dim('n')
    chi = symint('chi')
    a = mk('dense', 'A', ['a', 'b', 'c'], n)
    b = mk('dense', 'B', ['d', 'e', 'f'], n)
    makeLink('b', 'd', a, b)
    makeLink('c', 'e', a, b)
    x, y = merge(a, b, chi = chi, bondName = 'z')
    keeps(x, ['dt_A', 'dt_B'], 'merge')
    keeps(y, ['dt_A', 'dt_B'], 'merge')


def d_svd():
    i, j, k = dims('ijk')
    t = dense('A', ['a', 'b', 'c'], [i, j, k])
    r = tensorSVDDecomposition(t, rows = ['a', 'c'], cols = ['b'], chi = symint('chi'))
    keeps(r['u'], ['dt_A'], 'tensorSVDDecomposition')
    keeps(r['v'], ['dt_A'], 'tensorSVDDecomposition')
    u, v, e = SVDDecomposition(arr('A', [i, j]), symint('chi'))
    expect(dtypes(u) == ('dt_A',) and dtypes(v) == ('dt_A',), 'the factors of a decomposition keep the data type', u, v)


def d_helpers():
    i, j = dims('ij')
    a = arr('A', [i, j])
    expect(dtypes(funcs.diagonalNDTensor(arr('D', [i]), 3)) == ('dt_D',), 'diagonalNDTensor keeps the data type')
    expect(dtypes(funcs.rightDiagonalProduct(a, arr('D', [j]))) == ('dt_A', 'dt_D'), 'rightDiagonalProduct')
    expect(dtypes(funcs.leftDiagonalProduct(a, arr('D', [i]))) == ('dt_A', 'dt_D'), 'leftDiagonalProduct')
    expect(dtypes(funcs.transposeConjugate(a)) == ('dt_A',), 'transposeConjugate')
    expect(dtypes(funcs.aDaggerAProduct(a)) == ('dt_A',), 'aDaggerAProduct')
    expect(dtypes(funcs.aADaggerProduct(a)) == ('dt_A',), 'aADaggerProduct')
    expect(dtypes(funcs.sumOnAxis(a, 0)) == ('dt_A',), 'sumOnAxis')
    expect(dtypes(funcs.sumOnAxis(a, 1, weights = arr('D', [j]))) == ('dt_A', 'dt_D'), 'sumOnAxis with weights')


def d_common_type():
    """the common type of two floating types"""
    import numpy as np
    reals = ['float16', 'float32', 'float64']
    size = {'float16': 0, 'float32': 1, 'float64': 2, 'complex64': 1, 'complex128': 2}
    for a in ['float16', 'float32', 'float64', 'complex64', 'complex128']:
        for b in ['float16', 'float32', 'float64', 'complex64', 'complex128']:
            top = max(size[a], size[b])
            if a in reals and b in reals:
                want = ['float16', 'float32', 'float64'][top]
            else:
                want = ['?', 'complex64', 'complex128'][top]
            r = funcs.priorDataType(np.dtype(a), np.dtype(b))
            expect(dtypes(r) == (want,), 'the common type has the higher precision and is complex if one of them is')
