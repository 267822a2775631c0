"""C01, networks, algorithms and helper functions"""
from lib_enum import *
from CTL.tensor.contract.contractExp import (squareContractFTN, squareContractOutFTN, triangleContractFTN, makeSquareTensorDict,
                                             makeTriangleTensorDict, triangleTensorTrace, squareTrace, selfTrace)
from CTL.tensornetwork.tensornetwork import FiniteTensorNetwork
from CTL.tensornetwork.tensordict import TensorDict
from CTL.tensor.tensorFactory import makeSquareTensor, makeTriangleTensor
from CTL.examples.HOTRG import HOTRG
from CTL.examples.TRG import SquareTRG, TriangleTRG
from CTL.examples.CTMRG import CTMRG
from CTL.examples.impurity import ImpurityTensorNetwork
from CTL.examples.MPS import FreeBoundaryMPS, commonLegs, commonBonds, getBondTensorIndices
from CTL.examples.Schimdt import matrixSchimdtDecomposition
from CTL.funcs.decompose import SVDDecomposition
from CTL.funcs.linalg import solveEnv
from CTL.tensor.contract.optimalContract import contractWithSequence, contractAndCostWithSequence, copyTensorList
import CTL.funcs.funcs as funcs


def square(name):
    v, h = dims('vh')
    return makeSquareTensor(arr(name, [v, h, v, h]))


def d_ftn():
    stub_sequence('left', 'right')
    f = squareContractFTN()
    a = square('A')
    b = square('B')
    d = makeSquareTensorDict(a, b)
    s = freeze(a, b, d)
    r = f.contract(d)
    unchanged(s, 'evaluating a network leaves the input tensors unchanged')
    r.a /= 2
    unchanged(s, 'writing into the result of a network leaves the input tensors unchanged')
    f.contract(d)
    unchanged(s, 'evaluating a network again leaves the input tensors unchanged')


def d_ftn_dict():
    stub_sequence('left')
    f = triangleContractFTN()
    n = dim('n')
    a = makeTriangleTensor(arr('A', [n, n, n]))
    b = makeTriangleTensor(arr('B', [n, n, n]))
    d = {'u': a, 'l': b, 'r': b}
    s = freeze(a, b, d)
    r = f.contract(d, removeTensorTag = choice(True, False))
    r.a /= 2
    unchanged(s, 'evaluating a network leaves the input dictionary and tensors unchanged')


def d_ftn_definition():
    stub_sequence('left')
    f = squareContractFTN()
    f.addPreNameChange('ul', 'u', 'x')
    f.addPreNameChange('ur', 'u', 'x')
    f.addPostNameChange('ul', 'x', 'y')
    f.outProductAfter = f.outProductAfter[1:]
    a = square('A')
    s = freeze(f.tensorNames, f.links, f.changeNameBefore, f.changeNameAfter, f.outProductAfter)
    f.contract(makeSquareTensorDict(a))
    f.contract(makeSquareTensorDict(a))
    unchanged(s, 'evaluating a network leaves its definition unchanged')


def d_ftn_bonded():
    """an input tensor that is bonded elsewhere stays bonded there"""
    stub_sequence('left')
    f = FiniteTensorNetwork(['x', 'y'])
    f.addPreNameChange('x', 'b', 'z')
    f.addLink('x', 'z', 'y', 'c')
    i, j, k = dims('ijk')
    a = dense('A', ['a', 'b'], [i, j])
    b = dense('B', ['c', 'd'], [j, k])
    c = dense('C', ['e', 'f'], [i, j])
    makeLink(['a', 'b'], ['e', 'f'], a, c)
    s = freeze(a, b, c)
    f.contract({'x': a, 'y': b})
    unchanged(s, 'evaluating a network leaves the input tensors and their bonds unchanged')


def d_traces():
    n = dim('n')
    a = makeTriangleTensor(arr('A', [n, n, n]))
    b = makeTriangleTensor(arr('B', [n, n, n]))
    s = freeze(a, b)
    triangleTensorTrace(a, b)
    unchanged(s, 'triangleTensorTrace leaves its arguments unchanged')
    selfTrace(a)
    unchanged(s, 'selfTrace leaves its argument unchanged')
    c = square('A')
    s = freeze(c)
    squareTrace(c)
    unchanged(s, 'squareTrace leaves its argument unchanged')


def d_decompositions():
    i, j, k = dims('ijk')
    a = arr('A', [i, j])
    e = arr('E', [i, i])
    w = arr('W', [i * j])
    m = arr('M', [k, i * j])
    s = freeze(a, e, w, m)
    u, v, err = SVDDecomposition(a, symint('chi'))
    u /= 2
    v /= 2
    SVDDecomposition(a, symint('chi'), returnSV = True, errorOrder = 4)
    unchanged(s, 'SVDDecomposition leaves the matrix unchanged')
    p, err = solveEnv(e, symint('chi'))
    p /= 2
    unchanged(s, 'solveEnv leaves the matrix unchanged')
    u, v = matrixSchimdtDecomposition(w, i, chi = symint('chi'))
    u /= 2
    v /= 2
    u, v = matrixSchimdtDecomposition(m, i)
    u /= 2
    v /= 2
    unchanged(s, 'matrixSchimdtDecomposition leaves the matrix unchanged')


def d_hotrg():
    stub_sequence('left')
    a = square('A')
    s = freeze(a)
    g = HOTRG(a, chiH = symint('chi'))
    unchanged(s, 'HOTRG leaves the given tensor unchanged')
    q = freeze(g.a, g.aArchive, g.aNorms, g.errors, g.projectors, g.directChoices)
    p = g.directedIterateTrial(choice('u', 'd', 'l', 'r'))
    unchanged(q, 'a trial of a direction leaves the tensor and the records unchanged')


def d_hotrg_step():
    stub_sequence('left')
    a = square('A')
    s = freeze(a)
    g = HOTRG(a, chiH = symint('chi'))
    g.iterate()
    unchanged(s, 'an HOTRG step leaves the given tensor unchanged')
    q = freeze(g.aArchive, g.aNorms, g.errors, g.projectors, g.directChoices, g.a)
    x = square('B')
    y = square('B')
    s = freeze(x, y)
    g.impurityIterate([x, y], 0)
    unchanged(s, 'an impurity step leaves the given tensors unchanged')
    g.logZDensity()
    g.pureTensorTrace(0)
    g.tensorTrace(x)
    g.getNorm(0)
    unchanged(s, 'measuring leaves the given tensors unchanged')
    unchanged(q, 'measuring leaves the records of an HOTRG unchanged')


def d_square_trg():
    stub_sequence('left')
    n = dim('n')
    a = makeSquareTensor(arr('A', [n, n, n, n]))
    s = freeze(a)
    g = SquareTRG(a, chi = symint('chi'))
    unchanged(s, 'SquareTRG leaves the given tensor unchanged')
    g.iterate()
    unchanged(s, 'a SquareTRG step leaves the given tensor unchanged')
    q = freeze(g)
    g.logZDensity()
    unchanged(q, 'logZDensity leaves a SquareTRG unchanged')


def d_ctmrg():
    stub_sequence('left')
    v, h = dims('vh')
    a = Tensor(data = arr('A', [h, h, v, v]), labels = ['l', 'r', 'u', 'd'])
    s = freeze(a)
    g = CTMRG(a, chi = symint('chi'))
    unchanged(s, 'CTMRG leaves the given tensor unchanged')
    g.iterate()
    unchanged(s, 'a CTMRG step leaves the given tensor unchanged')
    q = freeze(g.records, g.tensors, g.logScale, g.a)
    t, z = g.getTensorAndScale(choice('corner', 'hEdge', 'vEdge'), 0)
    t.a /= 2
    t.renameLabels(t.labels, ['x' + l for l in t.labels])
    unchanged(q, 'a recorded tensor that is handed out can be changed without changing the record')


def d_ctmrg_z():
    stub_sequence('left')
    v, h = dims('vh')
    a = Tensor(data = arr('A', [h, h, v, v]), labels = ['l', 'r', 'u', 'd'])
    g = CTMRG(a, chi = symint('chi'))
    q = freeze(g.records, g.tensors, g.logScale, g.a, g.errors)
    g.getZ(choice(1, 2, 3))
    unchanged(q, 'measuring leaves the tensors and records of a CTMRG unchanged')


def d_impurity():
    a = square('A')
    b = square('B')
    l = [a, b]
    s = freeze(l)
    t = ImpurityTensorNetwork(l, highestOrder = choice(None, 1, 2, 3))
    unchanged(s, 'ImpurityTensorNetwork leaves the given tensors unchanged')


def d_mps_queries():
    i, j, k, l, m = dims('ijklm')
    a = dense('A', ['p', 'v'], [i, j])
    b = dense('B', ['p', 'x', 'y'], [k, j, l])
    c = dense('C', ['v', 'p'], [l, m])
    makeLink('v', 'x', a, b)
    makeLink('y', 'v', b, c)
    x = FreeBoundaryMPS([a, b, c], chi = symint('chi'))
    d = dense('D', ['p', 'v'], [k, j])
    e = dense('E', ['v', 'p'], [j, m])
    makeLink('v', 'v', d, e)
    makeLink('o', 'p', b, d)
    y = FreeBoundaryMPS([d, e], chi = symint('chi2'))
    s = freeze(x, y)
    x.copyOfTensors()
    unchanged(s, 'copying the tensors of an MPS leaves it unchanged')
    x.hasTensor(b)
    x.tensorIndex(b)
    x.getTensor(1)
    x.isIndex(1)
    repr(x)
    commonLegs(x, y)
    bs = commonBonds(x, y)
    getBondTensorIndices(x, y, bs[0])
    unchanged(s, 'queries leave an MPS unchanged')
    x.checkCanonical(excepIdx = 1)
    unchanged(s, 'checking the canonical form leaves an MPS unchanged')


def d_mps_totensor():
    stub_sequence('left', 'right')
    i, j, k, l, m = dims('ijklm')
    a = dense('A', ['p', 'v'], [i, j])
    b = dense('B', ['p', 'x', 'y'], [k, j, l])
    c = dense('C', ['v', 'p'], [l, m])
    makeLink('v', 'x', a, b)
    makeLink('y', 'v', b, c)
    x = FreeBoundaryMPS([a, b, c], chi = symint('chi'))
    s = freeze(x)
    t = x.toTensor()
    t.a /= 2
    unchanged(s, 'making a tensor of an MPS leaves it unchanged', 'Bond.legs')
    z = FreeBoundaryMPS(x.copyOfTensors(), chi = 4)
    z.getTensor(0).a /= 2
    unchanged(s, 'changing a copy of the tensors of an MPS leaves it unchanged', 'Bond.legs')


def d_mps_copy():
    i, j, k, l, m = dims('ijklm')
    a = dense('A', ['p', 'v'], [i, j])
    b = dense('B', ['p', 'x', 'y'], [k, j, l])
    c = dense('C', ['v', 'p'], [l, m])
    makeLink('v', 'x', a, b)
    makeLink('y', 'v', b, c)
    t = [a, b, c]
    s = freeze(t)
    x = FreeBoundaryMPS(t, chi = symint('chi'), inplace = False)
    unchanged(s, 'an MPS made of copies leaves the given tensors unchanged', 'Bond.legs')
    x.getTensor(1).a /= 2
    x.canonicalize(1)
    unchanged(s, 'changing an MPS made of copies leaves the given tensors unchanged', 'Bond.legs')


def d_helpers_lists():
    x = ['a', 'b', 'c', 'a']
    y = ['a', 'b']
    s = freeze(x, y)
    funcs.listDifference(x, y)
    funcs.deleteAllInUsed(x, y)
    funcs.tupleRemoveByIndex(x, [0, 2])
    funcs.compareLists(x, y)
    funcs.commonElements(x, y)
    funcs.listSymmetricDifference(x, y)
    funcs.generateIndices(x, y)
    funcs.checkAllEqual(x)
    funcs.tupleProduct([2, 3])
    funcs.combineName(y)
    for p in funcs.pairIterator(x):
        pass
    unchanged(s, 'list helpers leave their arguments unchanged')
    z = [0, 2, 1]
    s = freeze(z)
    funcs.calculateDivisionTimes(z)
    unchanged(s, 'list helpers leave their arguments unchanged')
    d = {'a': ['x'], 'b': ['y', 'z']}
    n = ['b', 'a']
    s = freeze(d, n)
    funcs.getCombineSet(d, n)
    funcs.mapToDict(d, 3)
    funcs.identicalTensorDict(1, n)
    unchanged(s, 'dictionary helpers leave their arguments unchanged')


def d_helpers_arrays():
    i, j = dims('ij')
    a = arr('A', [i, j])
    b = arr('B', [i, i])
    d = arr('D', [i])
    e = arr('E', [j])
    s = freeze(a, b, d, e)
    r = funcs.leftDiagonalProduct(a, d)
    r /= 2
    r = funcs.rightDiagonalProduct(a, e)
    r /= 2
    unchanged(s, 'a product with a diagonal leaves its arguments unchanged')
    for n in [1, 2, 3]:
        r = funcs.diagonalNDTensor(d, n)
        r /= 2
    unchanged(s, 'making a diagonal array leaves the diagonal unchanged')
    r = funcs.sumOnAxis(a, 0)
    r /= 2
    r = funcs.sumOnAxis(a, 1, weights = e)
    r /= 2
    unchanged(s, 'summing over an axis leaves its arguments unchanged')
    funcs.aDaggerAProduct(a)
    funcs.aADaggerProduct(a)
    funcs.identityError(b)
    funcs.diagError(b)
    funcs.checkIdentity(b)
    funcs.symmetricError(b)
    funcs.projectorError(a)
    funcs.matDiffError(a, a)
    r = funcs.normalizeInfinity(a)
    r /= 2
    funcs.floatArrayEqual(a, b)
    unchanged(s, 'matrix helpers leave their arguments unchanged')


def kinds(name, k, n):
    """a tensor with k legs, dense or diagonal"""
    return choice(dense(name, ['a', 'b', 'c'][:k], [n] * k), diag(name, ['a', 'b', 'c'][:k], n) if k > 0 else DiagonalTensor(data = arr(name, [])))


def d_list_of_one():
    """a list of one tensor: the result is a tensor of its own"""
    n = dim('n')
    for k in range(3):
        for greedy in [False, True]:
            t = kinds('A', k, n)
            l = [t]
            s = freeze(l)
            r = contractAndCostWithSequence(l, greedy = greedy)[0]
            expect(r is not t and not shares(r.a, t.a), 'the result of contracting a list is not one of its tensors', r)
            r.addTensorTag('x')
            r.a /= 2
            unchanged(s, 'contracting a list (not in place) leaves the list and its tensors unchanged')
            r = contractWithSequence(l, seq = [])
            expect(r is not t and not shares(r.a, t.a), 'the result of contracting a list is not one of its tensors', r)
            unchanged(s, 'contracting a list (not in place) leaves the list and its tensors unchanged')


def d_list_scalars():
    """scalars in lists and networks are copied as well"""
    stub_sequence('left', 'right')
    n = dim('n')
    a = kinds('A', 0, n)
    b = dense('B', ['a', 'b'], [n, n])
    l = choice([a, b], [b, a], [a])
    s = freeze(l)
    r = copyTensorList(l)
    for x in r:
        for y in l:
            expect(x is not y and not shares(x.a, y.a), 'a copied list has tensors of its own', x)
    r = contractWithSequence(l, outProductWarning = False)
    for y in l:
        expect(r is not y and not shares(r.a, y.a), 'the result of contracting a list is not one of its tensors', r)
    r.a /= 2
    unchanged(s, 'contracting a list (not in place) leaves the list and its tensors unchanged')


def d_ftn_scalars():
    stub_sequence('left')
    n = dim('n')
    a = kinds('A', 0, n)
    b = dense('B', ['a', 'b'], [n, n])
    for names in [['x'], ['y'], ['x', 'y'], ['y', 'x']]:
        f = FiniteTensorNetwork(names)
        d = {}
        for x in names:
            d[x] = a if x == 'x' else b
        s = freeze(a, b, d)
        r = f.contract(d)
        expect(r is not a and r is not b and not shares(r.a, a.a) and not shares(r.a, b.a), 'the result of a network is none of its tensors', r)
        r.a /= 2
        unchanged(s, 'evaluating a network leaves the input tensors unchanged')
        if names == ['x', 'y']:
            t = f.contract({'x': a, 'y': a})
            expect(t is not a and not shares(t.a, a.a), 'the result of a network is none of its tensors', t)
            unchanged(s, 'evaluating a network leaves the input tensors unchanged')


def d_copy_every_kind():
    """copies have data, legs and a list of legs of their own"""
    n = dim('n')
    for k in range(4):
        t = kinds('A', k, n)
        s = freeze(t)
        cs = [t.copy()] + t.copyN(2)
        for i, c in enumerate(cs):
            for o in [t] + cs[:i]:
                expect(c is not o and not shares(c.a, o.a), 'a copy has data of its own', c)
                expect(c.legs is not o.legs and not [x for x in c.legs if x in o.legs], 'a copy has legs of its own', c)
            c.a /= 2
        unchanged(s, 'changing a copy leaves the original unchanged')


def d_contract_scalar():
    """products with scalars: the result has data of its own"""
    n = dim('n')
    for k in range(3):
        a = kinds('A', 0, n)
        b = kinds('B', k, n)
        s = freeze(a, b)
        for r in [contractTwoTensors(a, b, outProductWarning = False), contractTwoTensors(b, a, outProductWarning = False)]:
            expect(not shares(r.a, a.a) and not shares(r.a, b.a), 'a contraction has data of its own', r)
            r.a /= 2
            unchanged(s, 'a contraction leaves the data of its operands unchanged', 'Leg.tensor', 'Leg.name')
