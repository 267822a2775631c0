"""C06: a TensorLike goes through the same structure as the tensor it stands for, without data"""
from lib_std import *
from CTL.tensor.tensor import TensorLike
from CTL.tensor.leg import Leg
from CTL.tensor.contract.contract import merge, shareBonds
from CTL.tensor.contract.link import mergeLink
from CTL.tensor.contract.optimalContract import copyTensorList, contractAndCostWithSequence, generateOptimalSequence
from CTL.tensor.tensorFunc import isIsometry

LAB = ['a', 'b', 'c']


def pair(labels, exts):
    return dense('A', labels, exts), Tensor(shape = tuple(exts), labels = labels, tensorLikeFlag = True)


def agree(t, l, what):
    expect(l.a is None and l.tensorLikeFlag, what + ': a TensorLike has no data', l)
    expect(l.labels == t.labels, what + ': same labels as the tensor', l, t)
    expect(l.shape == t.shape, what + ': same shape as the tensor', l, t)
    if t.diagonalFlag or len(t.legs) > 0:
        expect(l.chi == t.chi and l.dim == t.dim, what + ': same bond dimension and number of legs as the tensor', l, t)
    expect(l.diagonalFlag == t.diagonalFlag, what + ': diagonal exactly when the tensor is', l, t)
    for leg in l.legs:
        expect(leg.tensor is l, what + ': legs belong to the TensorLike', l)


def d_structure():
    i, j, k = dims('ijk')
    for p in [['c', 'a', 'b'], ['b', 'a', 'c'], ['a', 'c', 'b']]:
        t, l = pair(LAB, [i, j, k])
        agree(t, l, 'construction')
        t.reArrange(p)
        l.reArrange(p)
        agree(t, l, 'reArrange')
        t, l = pair(LAB, [i, j, k])
        for x in [t, l]:
            x.moveLegsToFront([x.getLeg(p[0]), x.getLeg(p[1])])
        agree(t, l, 'moveLegsToFront')
        for n in [1, 2, 3]:
            t, l = pair(LAB, [i, j, k])
            t.outProduct(p[:n], 'z')
            l.outProduct(p[:n], 'z')
            agree(t, l, 'outProduct')
        t, l = pair(LAB, [i, j, k])
        t.sumOutLegByLabel(p[0])
        l.sumOutLegByLabel(p[0])
        agree(t, l, 'sumOutLeg')
        t, l = pair(LAB, [i, j, k])
        t.renameLabels(p[:2], ['x', 'y'])
        l.renameLabels(p[:2], ['x', 'y'])
        agree(t, l, 'renameLabels')
    t, l = pair(LAB, [i, j, k])
    expect(l.totalSize == t.totalSize and l.dim == t.dim and l.chi == t.chi, 'sizes agree', l, t)


def d_copies():
    i, j, k = dims('ijk')
    t, l = pair(LAB, [i, j, k])
    agree(t, t.toTensorLike(), 'toTensorLike')
    agree(t, l.copy(), 'copy')
    agree(t, l.toTensorLike(), 'toTensorLike of a TensorLike')
    expect(isarray(t.a) and not t.tensorLikeFlag, 'the tensor keeps its data', t)
    u = TensorLike(shape = (i, j, k), labels = LAB)
    agree(t, u, 'the TensorLike function')
    v = TensorLike(labels = LAB)
    expect(v.a is None and v.labels == LAB, 'a TensorLike can be made from labels alone', v)
    d = diag('D', ['a', 'b'], i)
    dl = DiagonalTensor(shape = (i, i), labels = ['a', 'b'], tensorLikeFlag = True)
    agree(d, dl, 'diagonal')
    agree(d, dl.copy(), 'diagonal copy')
    agree(d, d.toTensorLike(), 'diagonal toTensorLike')
    w = Tensor(data = arr('X', [i, j]), labels = ['a', 'b'], tensorLikeFlag = True)
    expect(w.a is None and w.shape == (i, j), 'data given to a TensorLike only sets its shape', w)


def d_rejects():
    i = dim('i')
    for l in [Tensor(shape = (i, i), labels = ['a', 'b'], tensorLikeFlag = True), DiagonalTensor(shape = (i, i), labels = ['a', 'b'], tensorLikeFlag = True)]:
        for f, what in [(lambda: l.toVector(), 'toVector'), (lambda: l.toMatrix(rows = ['a'], cols = ['b']), 'toMatrix'), (lambda: l.norm(), 'norm'),
                        (lambda: l.trace(rows = ['a'], cols = ['b']), 'trace'), (lambda: l.single(), 'single'), (lambda: l.toTensor(['a', 'b']), 'toTensor'), (lambda: l.toTensor(), 'toTensor')]:
            try:
                r = f()
            except AssertionError:
                ok()
            else:
                fail('an operation that needs data is rejected for a TensorLike: ' + what, l)


def d_mixed():
    i, j, k = dims('ijk')
    for bonded in [True, False]:
        for ka in ['dense', 'diag']:
            for kb in ['dense', 'diag']:
                for la in [True, False]:
                    a = mk(ka, 'A', ['a', 'b'], i, la)
                    b = mk(kb, 'B', ['c', 'd'], i, not la)
                    if bonded:
                        makeLink('b', 'c', a, b)
                    try:
                        r = contractTwoTensors(a, b)
                    except TypeError:
                        ok()
                    else:
                        fail('a tensor and a TensorLike cannot be contracted with each other', r)


def mk(kind, name, labels, n, like):
    if kind == 'dense':
        if like:
            return Tensor(shape = tuple([n] * len(labels)), labels = labels, tensorLikeFlag = True)
        return Tensor(data = arr(name, [n] * len(labels)), labels = labels)
    if like:
        return DiagonalTensor(shape = tuple([n] * len(labels)), labels = labels, tensorLikeFlag = True)
    return DiagonalTensor(data = arr(name, [n]), labels = labels)


def d_contract():
    n = dim('n')
    cases = [([], 2, 2), ([('a', 'd')], 2, 2), ([('b', 'd')], 3, 2), ([('a', 'f'), ('b', 'd')], 3, 3), ([('a', 'e'), ('b', 'd')], 2, 2), ([('a', 'd')], 1, 2), ([('a', 'd'), ('c', 'f')], 3, 3), ([], 1, 3)]
    for ka in ['dense', 'diag']:
        for kb in ['dense', 'diag']:
            for pairs, na, nb in cases:
                out = []
                for like in [False, True]:
                    a = mk(ka, 'A', ['a', 'b', 'c'][:na], n, like)
                    b = mk(kb, 'B', ['d', 'e', 'f'][:nb], n, like)
                    for x, y in pairs:
                        makeLink(x, y, a, b)
                    out.append(contractTwoTensors(a, b))
                agree(out[0], out[1], 'contraction')


def d_contract_extents():
    i, j, k, l = dims('ijkl')
    out = []
    for like in [False, True]:
        a = Tensor(shape = (i, j, k), labels = ['a', 'b', 'c'], data = None if like else arr('A', [i, j, k]), tensorLikeFlag = like)
        b = Tensor(shape = (k, l, i), labels = ['d', 'e', 'f'], data = None if like else arr('B', [k, l, i]), tensorLikeFlag = like)
        c = DiagonalTensor(shape = (l, l, l), labels = ['g', 'h', 'o'], data = None if like else arr('C', [l]), tensorLikeFlag = like)
        makeLink('a', 'f', a, b)
        makeLink('c', 'd', a, b)
        makeLink('e', 'h', b, c)
        r = contractTwoTensors(a, b)
        out.append(r.copy())
        out.append(contractTwoTensors(r, c))
    agree(out[0], out[2], 'contraction')
    agree(out[1], out[3], 'contraction')


def d_list():
    """copies of a list of tensors as TensorLikes have the same structure and links"""
    i, j, k = dims('ijk')
    a = Tensor(data = arr('A', [i, j, k]), labels = ['a', 'b', 'c'])
    b = Tensor(data = arr('B', [j, i]), labels = ['b', 'a'])
    c = diag('C', ['c', 'd'], k)
    makeLink('a', 'a', a, b)
    makeLink('b', 'b', a, b)
    makeLink('c', 'd', a, c)
    for src in [[a, b, c], [c, a, b]]:
        ls = copyTensorList(src, tensorLikeFlag = True)
        expect(len(ls) == 3, 'one copy per tensor', ls)
        for x in range(3):
            agree(src[x], ls[x], 'list copy')
            for y in range(len(src[x].legs)):
                o = src[x].legs[y].anotherSide()
                p = ls[x].legs[y].anotherSide()
                if o is None:
                    expect(p is None, 'free legs stay free in the copy', ls[x])
                else:
                    expect(p is not None and p.tensor is ls[src.index(o.tensor)] and p.name == o.name, 'links are copied', ls[x])
        real = contractAndCostWithSequence(src, seq = [(0, 1), (0, 2)])
        like = contractAndCostWithSequence(ls, seq = [(0, 1), (0, 2)])
        agree(real[0], like[0], 'contraction of a list')
        expect(real[1] == like[1], 'the contraction cost does not depend on the data', like[0])


def d_merge():
    i, j, k, l = dims('ijkl')
    out = []
    for like in [False, True]:
        a = Tensor(shape = (i, j, k), labels = ['a', 'b', 'c'], data = None if like else arr('A', [i, j, k]), tensorLikeFlag = like)
        b = Tensor(shape = (k, l, j), labels = ['d', 'e', 'f'], data = None if like else arr('B', [k, l, j]), tensorLikeFlag = like)
        makeLink('b', 'f', a, b)
        makeLink('c', 'd', a, b)
        mergeLink(a, b, bondName = 'z')
        out.append((a, b))
    agree(out[0][0], out[1][0], 'mergeLink')
    agree(out[0][1], out[1][1], 'mergeLink')
    chi = symint('chi')
    a, b = out[1]
    x, y = merge(a, b, chi = chi, bondName = 'w', renameWarning = False)
    expect(x.a is None and y.a is None and x.tensorLikeFlag and y.tensorLikeFlag, 'merging TensorLikes gives TensorLikes', x, y)
    expect(x.labels == ['a', 'w'] and y.labels == ['w', 'e'], 'legs of the merged TensorLikes', x, y)
    expect(atmost(x.shapeOfLabel('w'), chi), 'the merged bond is at most chi', x)
    expect(x.shapeOfLabel('w') == y.shapeOfLabel('w'), 'both sides of the merged bond agree', x, y)
    expect(len(shareBonds(x, y)) == 1, 'the results are bonded', x, y)
    try:
        r = merge(a, out[0][1], chi = chi)
    except AssertionError:
        ok()
    else:
        fail('a tensor and a TensorLike cannot be merged', r)


def merge_bound(ea, eb, pairs, chi):
    """the bond of a truncating merge of TensorLikes: no more than chi, than the merged bonds, than the other legs of either side"""
    la, lb = ['a', 'b', 'c', 'd'][:len(ea)], ['p', 'q', 'r', 's'][:len(eb)]
    a = Tensor(shape = tuple(ea), labels = la, tensorLikeFlag = True)
    b = Tensor(shape = tuple(eb), labels = lb, tensorLikeFlag = True)
    for x, y in pairs:
        makeLink(la[x], lb[y], a, b)
    x, y = merge(a, b, chi = chi, bondName = 'w', renameWarning = False)
    fa = [la[q] for q in range(len(ea)) if q not in [p[0] for p in pairs]]
    fb = [lb[q] for q in range(len(eb)) if q not in [p[1] for p in pairs]]
    expect(x.a is None and y.a is None and x.tensorLikeFlag and y.tensorLikeFlag, 'merging TensorLikes gives TensorLikes', x, y)
    expect(x.labels == fa + ['w'] and y.labels == ['w'] + fb, 'legs of the merged TensorLikes', x, y)
    expect(x.getLeg('w').anotherSide() is y.getLeg('w') and len(shareBonds(x, y)) == 1, 'the results are bonded', x, y)
    w = x.shapeOfLabel('w')
    rows, cols, mid = 1, 1, 1
    for q in range(len(ea)):
        if q in [p[0] for p in pairs]:
            mid = mid * ea[q]
        else:
            rows = rows * ea[q]
    for q in range(len(eb)):
        if q not in [p[1] for p in pairs]:
            cols = cols * eb[q]
    expect(y.shapeOfLabel('w') == w, 'both sides of the merged bond agree', x, y)
    expect(atmost(w, chi), 'the merged bond is at most chi', x)
    expect(atmost(w, mid), 'the merged bond is not larger than the bonds it replaces', x)
    expect(atmost(w, rows) and atmost(w, cols), 'the merged bond is not larger than the other legs of either side', x)
    expect(equivalent(w, min(chi, mid, rows, cols)), 'the merged bond has the rank of a generic tensor', x)


def d_merge_bound():
    chi = symint('chi')
    i, j, k, l, m = dims('ijklm')
    merge_bound([i, j], [j, k], [(1, 0)], chi)
    merge_bound([i, j, k], [k, l, j], [(1, 2), (2, 0)], chi)
    merge_bound([i, j, k], [k, l, m], [(2, 0)], chi)
    merge_bound([i, j], [k, j, l], [(1, 1)], chi)
    merge_bound([k, j, l], [i, j], [(1, 1)], chi)


def d_merge_bound_literal():
    for ea, eb, pairs in [([2, 7], [7, 3], [(1, 0)]), ([3, 7], [7, 2], [(1, 0)]), ([2, 4, 4], [4, 4, 9], [(1, 0), (2, 1)]), ([6, 2], [2, 7], [(1, 0)]),
                          ([9, 4, 4], [4, 4, 2, 2], [(1, 1), (2, 0)]), ([5, 1], [1, 5], [(1, 0)]), ([1, 5], [5, 4], [(1, 0)]), ([2, 3, 9], [9, 2, 2], [(2, 0)])]:
        for chi in [1, 3, 5, 100]:
            merge_bound(ea, eb, pairs, chi)


def d_isometry():
    i = dim('i')
    l = Tensor(shape = (i, i), labels = ['a', 'b'], tensorLikeFlag = True)
    expect(isIsometry(l, ['a']) == True, 'the isometry test accepts a TensorLike without touching data', l)
