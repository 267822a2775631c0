"""helpers shared by driver programs (abstractly interpreted, never executed)"""
from CTL.tensor.tensor import Tensor
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensor.contract.contract import contractTwoTensors, makeLink


def dims(names):
    return [dim(x) for x in names]


def dense(name, labels, exts):
    """a dense tensor; leg number i of tensor X carries the axis tag X.i"""
    return Tensor(data = arr(name, exts), labels = labels)


def tagmap(name, labels):
    m = {}
    for i, l in enumerate(labels):
        m[l] = name + '.' + str(i)
    return m


def check_legs(t, tagof, what):
    """every leg of t names the axis its label says, has the right extent and belongs to t"""
    expect(tags(t.a) == tuple([tagof[l] for l in t.labels]), what + ': the axes of the data follow the legs', t)
    shp = t.a.shape
    expect(len(shp) == len(t.legs), what + ': one leg per axis', t)
    for i in range(len(t.legs)):
        expect(t.legs[i].dim == shp[i], what + ': leg extent equals the axis extent', t)
        expect(t.legs[i].tensor is t, what + ': legs belong to the tensor that carries them', t)


def diag(name, labels, n):
    """a diagonal tensor; its single stored axis carries the tag X.0"""
    return DiagonalTensor(data = arr(name, [n]), labels = labels)


def only(tagstring):
    """the set of origins of one axis, as a tuple of strings"""
    return tuple(sorted(tagstring.split('+')))
