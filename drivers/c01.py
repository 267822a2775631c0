"""C01: operations that are not in place leave their inputs as they were"""
from lib_enum import *
from CTL.tensor.contract.contract import merge
from CTL.tensor.contract.optimalContract import (copyTensorList, contractWithSequence, contractAndCostWithSequence,
                                                 makeTensorGraph, contractCost, generateOptimalSequence, generateGreedySequence)
from CTL.tensor.tensorFunc import tensorSVDDecomposition, isIsometry
from CTL.tensor.tensorFactory import makeSquareTensor, makeTriangleTensor, makeSquareOutTensor
from CTL.tensor.leg import Leg


def pair(mode, ka, kb):
    """two tensors with a bond between them and one to a third tensor"""
    n = dim('n')
    if ka == 'dense':
        a = dense('A', ['a', 'b', 'c'], [n, n, n])
    else:
        a = diag('A', ['a', 'b', 'c'], n)
    if kb == 'dense':
        b = dense('B', ['d', 'e', 'f'], [n, n, n])
    else:
        b = diag('B', ['d', 'e', 'f'], n)
    if mode == 1:
        makeLink('b', 'd', a, b)
    if mode == 2:
        makeLink(['c', 'a'], ['d', 'e'], a, b)
    return a, b


def d_tensor_queries():
    i, j, k = dims('ijk')
    a = dense('A', ['a', 'b', 'c'], [i, j, k])
    b = dense('B', ['d', 'e'], [i, j])
    makeLink('a', 'd', a, b)
    s = freeze(a, b)
    rows = ['c', 'a']
    cols = ['b']
    r = freeze(rows, cols)
    a.copy()
    unchanged(s, 'copying a tensor leaves it unchanged')
    a.copyN(2)
    unchanged(s, 'copying a tensor leaves it unchanged')
    a.toTensorLike()
    unchanged(s, 'making a TensorLike leaves the tensor unchanged')
    a.toVector()
    unchanged(s, 'toVector leaves the tensor unchanged')
    a.toMatrix(rows = rows, cols = cols)
    a.toMatrix(rows = rows)
    a.toMatrix(cols = rows)
    a.toMatrix(rows = [a.legs[2], a.legs[0]])
    a.toMatrix(cols = [])
    unchanged(s, 'toMatrix leaves the tensor unchanged')
    unchanged(r, 'toMatrix leaves the lists of rows and columns unchanged')
    a.toTensor()
    unchanged(s, 'toTensor without labels leaves the tensor unchanged')
    a.norm()
    unchanged(s, 'norm leaves the tensor unchanged')
    str(a)
    repr(a)
    str(a.legs[0])
    repr(a.legs[0].bond)
    unchanged(s, 'printing a tensor leaves it unchanged')
    a.indexOfLabel('b')
    a.indexOfLabel('b', backward = True)
    a.indexOfLabel('x')
    a.getLeg('b', backward = True)
    a.getLegsByLabel(['b', 'a'])
    a.getLabelIndices(['b', 'a'])
    a.getLabelIndices(['b', 'a'], backward = True)
    a.getLegIndices([a.legs[1]])
    a.complementLegs([a.legs[1]])
    a.shapeOfLabel('b')
    a.shapeOfLabels(['b', 'a'])
    a.shapeOfIndex(1)
    a.shapeOfIndices([1, 0])
    a.labelInTensor('b')
    a.labelsInTensor(['b', 'q'])
    a.typeName()
    a.chi
    a.dim
    a.shape
    a.labels
    a.totalSize
    a.isFloatTensor()
    a.legs[0].anotherSide()
    a.legs[0].bond.sideLeg(b)
    a.legs[0].bond.anotherSide(a.legs[0])
    unchanged(s, 'queries leave the tensor unchanged')


def d_trace():
    i, j = dims('ij')
    a = dense('A', ['a', 'b', 'c', 'd'], [i, j, i, j])
    s = freeze(a)
    a.trace(rows = ['a', 'b'], cols = ['c', 'd'])
    a.trace(rows = ['b', 'a'])
    unchanged(s, 'trace leaves the tensor unchanged')
    isIsometry(a, ['a', 'b'])
    unchanged(s, 'isIsometry leaves the tensor unchanged')
    d = diag('D', ['a', 'b'], i)
    s = freeze(d)
    d.trace(rows = ['a'], cols = ['b'])
    isIsometry(d, ['a'])
    unchanged(s, 'trace and isIsometry leave a diagonal tensor unchanged')


def d_diagonal_queries():
    n = dim('n')
    a = diag('A', ['a', 'b', 'c'], n)
    b = dense('B', ['d', 'e'], [n, n])
    makeLink('a', 'd', a, b)
    s = freeze(a, b)
    a.copy()
    a.copyN(2)
    a.toTensorLike()
    unchanged(s, 'copying a diagonal tensor leaves it unchanged')
    a.toVector()
    unchanged(s, 'toVector leaves a diagonal tensor unchanged')
    a.toMatrix(rows = ['c', 'a'], cols = ['b'])
    a.toMatrix(rows = ['c', 'a'])
    unchanged(s, 'toMatrix leaves a diagonal tensor unchanged')
    a.toTensor()
    unchanged(s, 'toTensor leaves a diagonal tensor unchanged')
    a.norm()
    str(a)
    repr(a)
    a.indexOfLabel('b', backward = True)
    a.getLegsByLabel(['b', 'a'])
    a.complementLegs([a.legs[1]])
    a.shapeOfLabels(['b', 'a'])
    a.bondDimension()
    a.shape
    unchanged(s, 'queries leave a diagonal tensor unchanged')
    e = DiagonalTensor(data = arr('S', []))
    s = freeze(e)
    e.copy()
    e.single()
    e.toTensor()
    unchanged(s, 'queries leave a scalar diagonal tensor unchanged')


def d_like_queries():
    i, j = dims('ij')
    a = dense('A', ['a', 'b'], [i, j]).toTensorLike()
    d = diag('D', ['c', 'd'], i).toTensorLike()
    makeLink('a', 'c', a, d)
    s = freeze(a, d)
    for t in [a, d]:
        t.copy()
        t.toTensorLike()
        str(t)
        t.getLegsByLabel(t.labels)
        t.shape
        t.totalSize
    unchanged(s, 'queries leave a TensorLike unchanged')


def d_construct():
    i, j = dims('ij')
    x = arr('X', [i, j])
    labels = ['a', 'b']
    shape = [i, j]
    s = freeze(x, labels, shape)
    Tensor(data = x, labels = labels)
    Tensor(data = x, labels = labels, shape = (i, j))
    Tensor(data = x, shape = (j, i), labels = labels)
    Tensor(labels = labels, shape = (i, j))
    unchanged(s, 'construction leaves the given data and labels unchanged')
    legs = [Leg(None, i, 'a'), Leg(None, j, 'b')]
    s = freeze(x, labels, legs)
    Tensor(data = x, labels = labels, legs = legs)
    unchanged(s, 'construction leaves the given data, labels and list of legs unchanged, except that it takes the legs over', 'Leg.tensor')
    v = arr('V', [i])
    m = arr('M', [i, i])
    s = freeze(v, m, labels)
    DiagonalTensor(data = v, labels = labels)
    DiagonalTensor(data = v, shape = (i, i))
    DiagonalTensor(data = m, labels = labels)
    unchanged(s, 'construction of a diagonal tensor leaves the given data and labels unchanged')
    y = arr('Y', [i, i, i, i])
    z = arr('Z', [i, i, i])
    ls = ['1', '3', '2']
    s = freeze(y, z, ls)
    makeSquareTensor(y)
    makeTriangleTensor(z, labels = ls)
    for loc in ['ul', 'ur', 'dl', 'dr']:
        makeSquareOutTensor(z, loc)
    unchanged(s, 'the tensor factories leave their arguments unchanged')


def d_write_after_construct():
    """writing into a constructed tensor in place does not reach the data it was made from"""
    i, j = dims('ij')
    x = arr('X', [i, j])
    s = freeze(x)
    t = Tensor(data = x, labels = ['a', 'b'])
    t.a /= t.norm()
    unchanged(s, 'normalising a tensor leaves the data it was made from unchanged')
    t = Tensor(data = x, shape = (j, i))
    t.a /= t.norm()
    unchanged(s, 'normalising a tensor leaves the data it was made from unchanged')
    v = arr('V', [i])
    s = freeze(v)
    d = DiagonalTensor(data = v, labels = ['a', 'b'])
    d.a /= d.norm()
    unchanged(s, 'normalising a diagonal tensor leaves the data it was made from unchanged')


def d_write_after_copy():
    i, j = dims('ij')
    a = dense('A', ['a', 'b'], [i, j])
    s = freeze(a)
    c = a.copy()
    c.a /= c.norm()
    c.renameLabel('a', 'z')
    c.moveLabelsToFront(['b'])
    c.addTensorTag('t')
    c.outProduct(['t-b', 't-z'], 'w')
    c.sumOutLegByLabel('w')
    unchanged(s, 'changing a copy leaves the original unchanged')
    d = diag('D', ['a', 'b'], i)
    s = freeze(d)
    c = d.copy()
    c.a /= c.norm()
    c.renameLabel('a', 'z')
    c.moveLabelsToFront(['b'])
    c.addTensorTag('t')
    c.sumOutLegByLabel('t-b')
    c.sumOutLegByLabel('t-z')
    unchanged(s, 'changing a copy leaves the original diagonal tensor unchanged')
    e = dense('E', ['a', 'b'], [i, j]).toTensorLike()
    s = freeze(e)
    c = e.copy()
    c.renameLabel('a', 'z')
    c.outProduct(['b', 'z'], 'w')
    unchanged(s, 'changing a copy leaves the original TensorLike unchanged')


def d_write_after_forms():
    """arrays handed out by toVector, toMatrix and diagonal forms are the caller's to write"""
    i, j = dims('ij')
    a = dense('A', ['a', 'b'], [i, j])
    s = freeze(a)
    v = a.toVector()
    v /= 2
    m = a.toMatrix(rows = ['a'], cols = ['b'])
    m /= 2
    m = a.toMatrix(rows = ['b'], cols = ['a'])
    m *= 3
    unchanged(s, 'writing into the vector or matrix form leaves the tensor unchanged')
    for k in range(1, 4):
        b = dense('B', ['a', 'b', 'c', 'd'][:k], dims('ijkl')[:k])
        expect(not shares(b.toVector(), b.a), 'the vector form has its own data', b)
        for r in range(0, k + 1):
            for rows in permutations(['a', 'b', 'c'][:k], r):
                cols = [x for x in ['a', 'b', 'c'][:k] if x not in rows]
                expect(not shares(b.toMatrix(rows = list(rows), cols = cols), b.a), 'the matrix form has its own data', b)
                expect(not shares(b.toMatrix(rows = list(rows)), b.a), 'the matrix form has its own data', b)
    d = diag('D', ['a', 'b'], i)
    s = freeze(d)
    v = d.toVector()
    v /= 2
    m = d.toMatrix(rows = ['a'], cols = ['b'])
    m /= 2
    t = d.toTensor()
    t /= 2
    unchanged(s, 'writing into the vector, matrix or dense form leaves a diagonal tensor unchanged')
    d = diag('D', ['a'], i)
    s = freeze(d)
    t = d.toTensor()
    t /= 2
    m = d.toMatrix(rows = ['a'], cols = [])
    m /= 2
    unchanged(s, 'writing into the dense form leaves a diagonal tensor unchanged')


def d_contract_data():
    """a contraction takes its operands' legs over but never writes into their data"""
    for ka in ['dense', 'diag']:
        for kb in ['dense', 'diag']:
            for mode in [0, 1, 2]:
                a, b = pair(mode, ka, kb)
                x, y = a.a, b.a
                s = freeze(x, y)
                r = contractTwoTensors(a, b)
                unchanged(s, 'a contraction leaves the data of its operands unchanged')
                r.a /= 2
                unchanged(s, 'writing into the result of a contraction leaves the data of its operands unchanged')


def d_cost():
    for ka in ['dense', 'diag']:
        for kb in ['dense', 'diag']:
            for mode in [1, 2]:
                a, b = pair(mode, ka, kb)
                s = freeze(a, b)
                contractCost(a, b)
                unchanged(s, 'asking for the cost of a contraction leaves the tensors unchanged', 'Bond.legs')
                l = [a, b]
                s = freeze(l)
                makeTensorGraph(l)
                unchanged(s, 'making the graph of a list of tensors leaves it unchanged', 'Bond.legs')


def chain(kb):
    i, j, k, l = dims('ijkl')
    if kb == 'diag':
        j = k
    a = dense('A', ['a', 'b'], [i, j])
    if kb == 'diag':
        b = diag('B', ['c', 'd'], j)
    else:
        b = dense('B', ['c', 'd'], [j, k])
    c = dense('C', ['e', 'f'], [k, l])
    makeLink('b', 'c', a, b)
    makeLink('d', 'e', b, c)
    return a, b, c


def seqcase(seq):
    a, b, c = chain(choice('dense', 'diag'))
    l = [a, b, c]
    s = freeze(l)
    if choice(True, False):
        r = contractWithSequence(l, seq = seq)
    else:
        r, cost = contractAndCostWithSequence(l, seq = seq, inplace = False)
    unchanged(s, 'contracting a list (not in place) leaves the list and its tensors unchanged', 'Bond.legs')
    r.a /= 2
    r.renameLabel('a', 'z')
    unchanged(s, 'changing the result of contracting a list leaves the list and its tensors unchanged', 'Bond.legs')


def d_sequence():
    seqcase([(0, 1), (0, 2)])


def d_sequence2():
    seqcase([(1, 2), (0, 1)])


def d_sequence3():
    seqcase([(2, 1), (1, 0)])


def d_sequence_given_kept():
    a, b, c = chain('dense')
    seq = [(1, 2), (0, 1)]
    s = freeze(seq)
    contractWithSequence([a, b, c], seq = seq)
    unchanged(s, 'a given sequence is left unchanged')
    x, y, z = chain('dense')
    contractWithSequence([x, y, z], seq = seq, inplace = True)
    unchanged(s, 'a given sequence is left unchanged')


def d_sequence_search():
    stub_sequence('left', 'right')
    a, b, c = chain('dense')
    l = [a, b, c]
    s = freeze(l)
    contractWithSequence(l)
    unchanged(s, 'contracting a list (not in place) leaves the list and its tensors unchanged', 'Bond.legs')
    generateOptimalSequence(l)
    generateGreedySequence(l)
    unchanged(s, 'searching a sequence leaves the list and its tensors unchanged', 'Bond.legs')


def d_search_real():
    a, b, c = chain(choice('dense', 'diag'))
    l = [a, b, c]
    s = freeze(l)
    if choice(True, False):
        generateOptimalSequence(l, bf = True)
    else:
        generateOptimalSequence(l)
    unchanged(s, 'searching a sequence leaves the list and its tensors unchanged', 'Bond.legs')


def d_copylist():
    a, b, c = chain(choice('dense', 'diag'))
    l = [a, b, c]
    s = freeze(l)
    copyTensorList(l)
    unchanged(s, 'copying a list leaves it unchanged')
    copyTensorList(l, tensorLikeFlag = True)
    unchanged(s, 'copying a list as TensorLikes leaves it unchanged')
    copyTensorList([a, b])
    unchanged(s, 'copying part of a network leaves it unchanged')
    r = copyTensorList(l)
    t = r[0] @ r[1]
    t.a /= 2
    unchanged(s, 'contracting a copied list leaves the original unchanged')


def d_svd():
    i, j, k = dims('ijk')
    a = dense('A', ['a', 'b', 'c'], [i, j, k])
    rows = ['c', 'a']
    cols = ['b']
    s = freeze(a, rows, cols)
    r = tensorSVDDecomposition(a, rows = rows, cols = cols, innerLabels = ('x', 'y'), chi = symint('chi'))
    unchanged(s, 'tensorSVDDecomposition leaves its argument unchanged')
    r['u'].a /= 2
    r['v'].a /= 2
    r['s'].a /= 2
    unchanged(s, 'writing into the factors leaves the decomposed tensor unchanged')
