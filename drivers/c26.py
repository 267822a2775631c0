"""C26: a call warns exactly where it does not do all it was asked to do"""
from lib_net import *
from lib_ftn import *
from lib_mps import *
from CTL.tensor.tensor import TensorLike
from CTL.tensor.contract.contract import contractTwoTensors, merge
from CTL.tensor.contract.link import mergeLink
from CTL.tensor.tensorFunc import isIsometry, tensorSVDDecomposition

LA = ['a', 'b', 'c']
LB = ['p', 'q', 'r']


def mk(kind, name, labels, n):
    if kind == 'dense':
        return dense(name, labels, [n] * len(labels))
    if kind == 'like':
        return TensorLike(shape = tuple([n] * len(labels)), labels = labels)
    if kind == 'diag like':
        return DiagonalTensor(shape = tuple([n] * len(labels)), labels = labels, tensorLikeFlag = True)
    if len(labels) == 0:
        return DiagonalTensor(data = arr(name, []))
    return diag(name, labels, n)


def pairwise(ka, kb):
    n = dim('n')
    for na in [0, 1, 2]:
        for nb in [0, 1, 2]:
            for pairs in matchings(na, nb):
                for flag in [None, True, False]:
                    a, b = mk(ka, 'A', LA[:na], n), mk(kb, 'B', LB[:nb], n)
                    for x, y in pairs:
                        makeLink(LA[x], LB[y], a, b)
                    w = warned()
                    if flag is None:
                        contractTwoTensors(a, b)
                    else:
                        contractTwoTensors(a, b, outProductWarning = flag)
                    if len(pairs) == 0 and flag is not False:
                        expect(warned() == w + 1, 'contracting tensors without a common bond gives one warning', a, b)
                    else:
                        expect(warned() == w, 'contracting tensors with a common bond, or with the warning off, gives no warning', a, b)


def d_pair_dense():
    pairwise('dense', 'dense')


def d_pair_mixed():
    pairwise(choice('dense', 'diag'), 'diag')


def d_pair_mixed2():
    pairwise('diag', 'dense')


def d_pair_like():
    pairwise(choice('like', 'diag like'), choice('like', 'diag like'))


def d_pair_bonds():
    """a list of bonds that is given decides"""
    n = dim('n')
    for flag in [True, False]:
        a, b = mk('dense', 'A', LA[:2], n), mk('dense', 'B', LB[:2], n)
        bond = makeLink('a', 'p', a, b)
        w = warned()
        contractTwoTensors(a, b, bonds = [a.legs[0].bond], outProductWarning = flag)
        expect(warned() == w, 'contracting over given bonds gives no warning', a, b)


def outer(ts, seq):
    """number of steps along a sequence without a common bond"""
    group = [[i] for i in range(len(ts))]
    def bonded(s, t):
        for i in group[s]:
            for leg in ts[i].legs:
                if leg.bond is not None and any([leg.anotherSide() in ts[j].legs for j in group[t]]):
                    return True
        return False
    k = 0
    for s, t in seq:
        if not bonded(s, t):
            k += 1
        group[min(s, t)] = group[s] + group[t]
    return k


def lists(net):
    for seq in sequences(len(NETS[net][0])):
        for flag in [True, False]:
            for inplace in [True, False]:
                ts = network(net, 'distinct')[0]
                k = outer(ts, seq) if flag else 0
                w = warned()
                contractWithSequence(ts, seq = list(seq), inplace = inplace, outProductWarning = flag)
                expect(warned() == w + k, 'a list warns once for every step without a common bond, unless the warning is off', ts)
                ts = network(net, 'distinct')[0]
                w = warned()
                contractAndCostWithSequence(ts, seq = list(seq), inplace = inplace, outProductWarning = flag)
                expect(warned() == w + k, 'a list warns once for every step without a common bond, unless the warning is off', ts)
        ts = network(net, 'distinct')[0]
        w = warned()
        contractWithSequence(ts, seq = list(seq))
        expect(warned() == w + outer(ts, seq), 'the warning is on by default', ts)


def d_list3():
    lists(choice('chain3', 'triangle', 'double bond', 'parted', 'free', 'scalars'))


def d_list_searched():
    """sequences that are searched for, by list and by network"""
    net = choice('chain3', 'triangle', 'parted', 'free', 'two', 'two closed', 'single')
    n = len(NETS[net][0])
    joined = net in ['chain3', 'triangle', 'two', 'two closed', 'single']
    for flag in [None, True, False]:
        ts = literal_network(net)[0]
        w = warned()
        if flag is None:
            contractTensorList(ts)
        else:
            contractTensorList(ts, outProductWarning = flag)
        if joined or flag is False:
            expect(warned() == w, 'a connected list, or a list with the warning off, gives no warning', ts)
        else:
            expect(warned() > w, 'a list of separate parts gives a warning', ts)
    for how in ['bf', 'cap', 'greedy']:
        for flag in [True, False]:
            ts = literal_network(net)[0]
            w = warned()
            if how == 'greedy':
                contractAndCostWithSequence(ts, greedy = True, outProductWarning = flag)
            else:
                contractAndCostWithSequence(ts, bf = how == 'bf', outProductWarning = flag)
            if joined or not flag:
                expect(warned() == w, 'a connected list, or a list with the warning off, gives no warning', ts)
            else:
                expect(warned() > w, 'a list of separate parts gives a warning', ts)


def d_searches():
    """only a greedy search with a typical dimension warns"""
    for net in ['chain3', 'triangle', 'parted', 'two']:
        ts = literal_network(net)[0]
        w = warned()
        generateOptimalSequence(ts)
        generateOptimalSequence(ts, bf = True)
        generateOptimalSequence(ts, typicalDim = None)
        generateGreedySequence(ts)
        makeTensorGraph(ts).optimalContractSequence(greedy = True, typicalDim = None)
        contractCost(ts[0], ts[1])
        copyTensorList(ts)
        expect(warned() == w, 'searches, costs and copies give no warning', ts)
        for d in [2, 10]:
            w = warned()
            makeTensorGraph(ts).optimalContractSequence(greedy = True, typicalDim = d)
            expect(warned() == w + 1, 'a typical dimension is ignored by a greedy search with a warning', ts)
        w = warned()
        makeTensorGraph(ts).optimalContractSequence(greedy = True)
        expect(warned() == w + 1, 'a typical dimension is ignored by a greedy search with a warning', ts)


def d_merge():
    n = dim('n')
    for like in [False, True]:
        kind = 'like' if like else 'dense'
        for k in [0, 1, 2]:
            for flag in [None, True, False]:
                for name in [None, 'x', ('x', 'y')]:
                    for chi in ['link', None, symint('chi')]:
                        a, b = mk(kind, 'A', LA, n), mk(kind, 'B', LB, n)
                        for x in range(k):
                            makeLink(LA[x], LB[x], a, b)
                        opt = {} if flag is None else {'renameWarning': flag}
                        w = warned()
                        if chi == 'link':
                            mergeLink(a, b, bondName = name, **opt)
                        elif name is not None and k != 1 and isinstance(name, tuple):
                            continue
                        else:
                            merge(a, b, chi = chi, bondName = name, **opt)
                        if k == 0:
                            expect(warned() > w, 'merging tensors without a common bond gives a warning', a, b)
                        elif k == 1 and flag is not False:
                            expect(warned() == w + 1, 'merging a single bond gives one warning', a, b)
                        else:
                            expect(warned() == w, 'merging several bonds, or one with the warning off, gives no warning', a, b)


KINDS = ['dense', 'diag', 'like', 'diag like']


def d_rename():
    n = dim('n')
    for kind in KINDS:
        t = mk(kind, 'A', LA, n)
        for frm, k in [('a', 0), ('z', 1), ('x', 0), ('a', 1)]:
            w = warned()
            t.renameLabel(frm, 'x')
            expect(warned() == w + k, 'renaming a label warns exactly if it is absent', t)
        for frm, k in [(['a'], 0), (['z'], 1), (['b', 'a'], 0), (['a', 'z'], 1), (['y', 'z'], 2), (['y', 'c', 'z'], 2), ([], 0), (['c', 'b', 'a'], 0)]:
            t = mk(kind, 'A', LA, n)
            w = warned()
            t.renameLabels(frm, ['u', 'v', 'w'][:len(frm)])
            expect(warned() == w + k, 'renaming labels warns once for every one that is absent', t)
            want = [['u', 'v', 'w'][frm.index(l)] if l in frm else l for l in LA]
            expect(t.labels == want, 'the labels that are there are renamed whatever is absent', t)


def d_tags():
    n = dim('n')
    for kind in KINDS:
        for labels in [['a', 'b', 'c'], ['x-a', 'b', 'c'], ['a', 'b', 'x-c'], ['x-a', 'y-b', 'z-c'], ['x-a', 'b', 'z-c'], []]:
            t = mk(kind, 'A', labels, n)
            w = warned()
            t.removeTensorTag()
            k = len([l for l in labels if '-' not in l])
            expect(warned() == w + k, 'taking tags off warns once for every label without one', t)
            expect(t.labels == [l[2:] if '-' in l else l for l in labels], 'tags are taken off all labels that have one', t)
        t = mk(kind, 'A', LA, n)
        w = warned()
        t.addTensorTag('T')
        t.removeTensorTag()
        expect(warned() == w and t.labels == LA, 'tags are put on and taken off without warning', t)


def d_sum_out():
    n = dim('n')
    for kind in KINDS:
        for k in [1, 2, 3]:
            for l in LA[:k]:
                for by in ['leg', 'label', 'list']:
                    for weights in [None] if 'like' in kind else [None, arr('W', [n])]:
                        for bonded in [None] + LA[:k]:
                            t = mk(kind, 'A', LA[:k], n)
                            if bonded is not None:
                                u = mk('like' if 'like' in kind else 'dense', 'B', LB, n)
                                makeLink(bonded, 'q', t, u)
                            w = warned()
                            if by == 'leg':
                                t.sumOutLeg(t.getLeg(l), weights = weights)
                            elif by == 'label':
                                t.sumOutLegByLabel(l, weights = weights)
                            else:
                                t.sumOutLegByLabel([l], weights = weights)
                            if bonded == l:
                                expect(warned() == w + 1, 'summing out a bonded leg gives a warning', t)
                            else:
                                expect(warned() == w, 'summing out a free leg gives no warning', t)
                            expect(t.labels == [x for x in LA[:k] if x != l], 'the leg is summed out', t)


def d_sum_out_absent():
    n = dim('n')
    for kind in KINDS:
        for k in [0, 1, 2, 3]:
            for by in ['leg', 'label', 'list', 'backward']:
                t = mk(kind, 'A', LA[:k], n)
                other = mk(kind, 'B', LA, n)
                before = freeze(t)
                w = warned()
                if by == 'leg':
                    t.sumOutLeg(other.legs[0])
                elif by == 'label':
                    t.sumOutLegByLabel('z')
                elif by == 'list':
                    t.sumOutLegByLabel(['z'])
                else:
                    t.sumOutLegByLabel('z', backward = True)
                expect(warned() > w, 'summing out an absent leg gives a warning', t)
                unchanged(before, 'summing out an absent leg does nothing')


def d_bond_dimension():
    for kind in ['dense', 'like']:
        for exts, k in [([2, 2], 0), ([2, 3], 1), ([3, 3, 3], 0), ([3, 3, 2], 1), ([2, 3, 3], 1), ([3, 2, 3], 1), ([5], 0)]:
            t = dense('A', LA[:len(exts)], exts) if kind == 'dense' else TensorLike(shape = tuple(exts), labels = LA[:len(exts)])
            w = warned()
            expect(t.bondDimension() == exts[0], 'the bond dimension is the first extent', t)
            expect(warned() == w + k, 'a bond dimension warns exactly if the extents are not all equal', t)
    n = dim('n')
    for kind in KINDS:
        t = mk(kind, 'A', LA, n)
        w = warned()
        expect(t.bondDimension() == n, 'the bond dimension is the extent', t)
        expect(warned() == w, 'a bond dimension warns exactly if the extents are not all equal', t)


def d_isometry():
    n = dim('n')
    for flag in [None, True, False]:
        opt = {} if flag is None else {'warningFlag': flag}
        t = mk('like', 'A', LA, n)
        w = warned()
        expect(isIsometry(t, ['a'], **opt), 'a TensorLike counts as an isometry', t)
        expect(warned() == w + (1 if flag else 0), 'checking a TensorLike warns exactly if asked to', t)
        t = mk('dense', 'A', LA, n)
        w = warned()
        isIsometry(t, ['a'], **opt)
        expect(warned() == w, 'checking a tensor gives no warning', t)


def d_quiet():
    """ordinary use of a tensor"""
    for kind in ['dense', 'like']:
        n = dim('n')
        w = warned()
        t = mk(kind, 'A', LA, n)
        t.copy()
        t.toTensorLike()
        t.getLeg('z')
        t.indexOfLabel('z')
        t.indexOfLabel('a', backward = True)
        t.shapeOfLabel('b')
        t.shapeOfLabel('z')
        t.labelsInTensor(['a'])
        t.getLegsByLabel(['c', 'a'])
        t.moveLabelsToFront(['c'])
        t.moveLegsToFront([t.legs[1]])
        t.reArrange(['b', 'a', 'c'])
        t.outProduct(['a', 'b'], 'x')
        if kind == 'dense':
            t.toTensor()
            t.toTensor(['c', 'x'])
            t.toVector()
            t.toMatrix(rows = ['x'], cols = ['c'])
            t.norm()
            mk(kind, 'B', ['a', 'b'], n).trace(rows = ['a'], cols = ['b'])
            tensorSVDDecomposition(t, rows = ['x'], cols = ['c'], chi = symint('chi'))
        expect(warned() == w, 'operations that do what they are asked give no warning', t)
    for kind in ['diag', 'diag like']:
        n = dim('n')
        w = warned()
        t = mk(kind, 'A', LA, n)
        t.copy()
        t.toTensorLike()
        t.getLeg('z')
        t.shapeOfLabel('z')
        t.moveLabelsToFront(['c'])
        t.reArrange(['b', 'a', 'c'])
        if kind == 'diag':
            t.toTensor()
            t.norm()
            t.trace(rows = ['a'], cols = ['b', 'c'])
        expect(warned() == w, 'operations that do what they are asked give no warning', t)


def d_network():
    """a network that is connected gives no warning, whichever way it is evaluated"""
    net = choice('two', 'two closed', 'chain3', 'triangle', 'double bond')
    ts, links, m, sums = parts(net, 'literal')
    for tagged in [True, False]:
        for cost in [True, False]:
            f = declared(list(ts), links, realCost = cost)
            w = warned()
            f.contract(ts, removeTensorTag = tagged)
            f.contract(ts, removeTensorTag = tagged)
            f.unlock()
            f.addPreNameChange('x', 'z', 'q')
            expect(warned() == w, 'evaluating a connected network gives no warning', f)
            f.contract(ts, removeTensorTag = tagged)
            expect(warned() == w + 1, 'renaming an absent label of a tensor of a network gives a warning', f)


def d_network_parts():
    ts, links, m, sums = parts(choice('parted', 'free'), 'literal')
    f = declared(list(ts), links)
    w = warned()
    f.contract(ts)
    expect(warned() > w, 'evaluating separate parts gives a warning', f)


def d_network_after():
    ts, links, m, sums = parts('two', 'literal')
    f = declared(list(ts), links)
    f.addPostNameChange('x', 'a', 'q')
    w = warned()
    f.contract(ts)
    expect(warned() == w, 'renaming a leg of the result gives no warning', f)
    f.unlock()
    f.addPostNameChange('x', 'a', 'r')
    w = warned()
    f.contract(ts)
    expect(warned() == w + 1, 'renaming an absent leg of the result gives a warning', f)


def d_mps():
    """queries and steps of an MPS"""
    for n in [1, 2, 3]:
        w = warned()
        x = mps('ABCD'[:n], chi = 4)
        expect(warned() == w, 'building an MPS gives no warning', x)
        for k in range(n):
            for flag in [None, True, False]:
                opt = {} if flag is None else {'warningFlag': flag}
                w = warned()
                x.moveTensor(k, k, **opt)
                expect(warned() == w + (0 if flag is False else 1), 'moving a tensor to where it is gives a warning, unless it is off', x)
        w = warned()
        x.canonicalize(0)
        x.checkCanonical()
        x.hasTensor(x.getTensor(0))
        x.copyOfTensors()
        if n > 1:
            x.swap(0, 1)
            x.makeAdjacent(0, n - 1)
            x.moveTensor(0, n - 1)
        expect(warned() == w, 'steps of an MPS give no warning', x)


def d_mps_made():
    for k in [1, 2, 3]:
        t = dense('T', LA[:k], dims('ijk')[:k])
        w = warned()
        createMPSFromTensor(t, chi = 4)
        expect(warned() == w + (1 if k == 1 else 0), 'making an MPS of a tensor warns exactly if it has one leg', t)


def d_mps_contract():
    for ca, cb in [(4, 4), (4, 5), (5, 4)]:
        for na, nb in [(1, 2), (2, 1), (2, 2)]:
            a, b = chain('ABCD'[:na], 'equal'), chain('EFGH'[:nb], 'equal')
            makeLink('p' + str(na - 1), 'p0', a[-1], b[0])
            x, y = FreeBoundaryMPS(a, chi = ca), FreeBoundaryMPS(b, chi = cb)
            w = warned()
            contractMPS(x, y)
            expect(warned() == w + (0 if ca == cb else 1), 'contracting MPSs warns exactly if they allow different bonds', x, y)
