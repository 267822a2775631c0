"""C06, every set of bonds between operands of up to three legs, and histories of operations"""
from lib_enum import *
from CTL.tensor.contract.link import mergeLink

LA = ['a', 'b', 'c', 'd']
LB = ['p', 'q', 'r', 's']


def mk(kind, name, labels, exts, like):
    n = len(labels)
    if kind == 'dense':
        if like:
            return Tensor(shape = tuple(exts), labels = labels, tensorLikeFlag = True)
        return Tensor(data = arr(name, exts), labels = labels)
    if like:
        return DiagonalTensor(shape = tuple([exts[0]] * n), labels = labels, tensorLikeFlag = True)
    return DiagonalTensor(data = arr(name, [exts[0]]), labels = labels)


def agree(t, l, what):
    expect(l.a is None and l.tensorLikeFlag and not t.tensorLikeFlag, what + ': a TensorLike has no data', l)
    expect(l.labels == t.labels, what + ': same labels as the tensor', l, t)
    expect(l.shape == t.shape, what + ': same shape as the tensor', l, t)
    expect([x.dim for x in l.legs] == [x.dim for x in t.legs], what + ': same extents as the tensor', l, t)
    if t.diagonalFlag or len(t.legs) > 0:
        expect(l.chi == t.chi and l.dim == t.dim, what + ': same bond dimension and number of legs as the tensor', l, t)
    expect(l.diagonalFlag == t.diagonalFlag, what + ': diagonal exactly when the tensor is', l, t)
    expect(l.totalSize == t.totalSize, what + ': same size as the tensor', l, t)
    for leg in l.legs:
        expect(leg.tensor is l, what + ': legs belong to the TensorLike', l)


def sweep(ka, kb, na, nb):
    for pairs in matchings(na, nb):
        out = []
        pool = dims(['i', 'j', 'k', 'l', 'm', 'o', 'x', 'y']) if ka == 'dense' and kb == 'dense' else [dim('n')] * 8
        ea, eb = pool[:na], pool[na:na + nb]
        for x, y in pairs:
            eb[y] = ea[x]
        for like in [False, True]:
            a = mk(ka, 'A', LA[:na], ea, like)
            b = mk(kb, 'B', LB[:nb], eb, like)
            for x, y in pairs:
                makeLink(LA[x], LB[y], a, b)
            out.append(contractTwoTensors(a, b, outProductWarning = False))
        agree(out[0], out[1], 'contraction')


def d_dense():
    for na in [1, 2, 3]:
        for nb in [1, 2, 3]:
            sweep('dense', 'dense', na, nb)


def d_dense_diag():
    for na in [1, 2, 3]:
        for nb in [1, 2, 3]:
            sweep('dense', 'diag', na, nb)


def d_diag_dense():
    for na in [1, 2, 3]:
        for nb in [1, 2, 3]:
            sweep('diag', 'dense', na, nb)


def d_diag_diag():
    for na in [1, 2, 3, 4]:
        for nb in [1, 2, 3]:
            sweep('diag', 'diag', na, nb)


def d_single():
    for n in [1, 2, 3, 4]:
        e = dims(['i', 'j', 'k', 'l'])[:n]
        for p in selections(LA[:n], range(1, n + 1)):
            for op in range(6):
                out = []
                for like in [False, True]:
                    t = mk('dense', 'A', LA[:n], e, like)
                    if op == 0:
                        t.moveLabelsToFront(p)
                    elif op == 1:
                        t.moveLegsToFront([t.getLeg(x) for x in p])
                    elif op == 2:
                        t.outProduct(p, 'z')
                    elif op == 3:
                        t.sumOutLegByLabel(p)
                    elif op == 4:
                        t.renameLabels(p, [x + 'x' for x in p])
                    elif len(p) == n:
                        t.reArrange(p)
                    out.append(t)
                agree(out[0], out[1], ['moveLabelsToFront', 'moveLegsToFront', 'outProduct', 'sumOutLegByLabel', 'renameLabels', 'reArrange'][op])


def d_single_diag():
    n = dim('n')
    for k in [1, 2, 3, 4]:
        for p in selections(LA[:k], range(1, k + 1)):
            for op in range(4):
                out = []
                for like in [False, True]:
                    t = mk('diag', 'A', LA[:k], [n], like)
                    if op == 0:
                        t.moveLabelsToFront(p)
                    elif op == 1:
                        t.sumOutLegByLabel(p)
                    elif op == 2:
                        t.renameLabels(p, [x + 'x' for x in p])
                    elif len(p) == k:
                        t.reArrange(p)
                    out.append(t)
                agree(out[0], out[1], ['moveLabelsToFront', 'sumOutLegByLabel', 'renameLabels', 'reArrange'][op])
                agree(out[0], out[0].toTensorLike(), 'toTensorLike')
                agree(out[0], out[1].copy(), 'copy')


def d_merge():
    for na in [2, 3]:
        for nb in [2, 3]:
            for pairs in matchings(na, nb):
                out = []
                pool = dims(['i', 'j', 'k', 'l', 'm', 'o'])
                ea, eb = pool[:na], pool[na:na + nb]
                for x, y in pairs:
                    eb[y] = ea[x]
                for like in [False, True]:
                    a = mk('dense', 'A', LA[:na], ea, like)
                    b = mk('dense', 'B', LB[:nb], eb, like)
                    for x, y in pairs:
                        makeLink(LA[x], LB[y], a, b)
                    mergeLink(a, b, renameWarning = False)
                    out.append((a, b))
                agree(out[0][0], out[1][0], 'mergeLink')
                agree(out[0][1], out[1][1], 'mergeLink')
