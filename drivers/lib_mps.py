"""matrix product states for drivers"""
from lib_enum import *
from CTL.tensor.contract.contract import shareBonds
from CTL.examples.MPS import (FreeBoundaryMPS, makeRandomMPS, commonLegs, commonBonds, contractMPS, doubleMerge,
                              getBondTensorIndices, doubleMergeByBond, mergeMPS, createMPSFromTensor, contractWithMPS)


def chain(names, mode = 'distinct', order = 0):
    """tensors of a chain with physical legs p0, p1, ...; order permutes the legs of the tensors"""
    n = len(names)
    ps = dims(['p', 'q', 'r', 's', 't'])[:n] if mode == 'distinct' else [dim('p')] * n
    vs = dims(['v', 'w', 'x', 'y'])[:n - 1] if mode == 'distinct' else [dim('v')] * (n - 1)
    ts = []
    for i in range(n):
        ls, ds = ['p' + str(i)], [ps[i]]
        if i > 0:
            ls, ds = ls + ['a' + str(i)], ds + [vs[i - 1]]
        if i < n - 1:
            ls, ds = ls + ['b' + str(i)], ds + [vs[i]]
        k = (i + order) % 3
        if k == 1:
            ls, ds = ls[::-1], ds[::-1]
        if k == 2:
            ls, ds = ls[1:] + ls[:1], ds[1:] + ds[:1]
        ts.append(dense(names[i], ls, ds))
    for i in range(n - 1):
        makeLink('b' + str(i), 'a' + str(i + 1), ts[i], ts[i + 1])
    return ts


def mps(names, chi = None, mode = 'distinct', order = 0):
    return FreeBoundaryMPS(chain(names, mode, order), chi = symint('chi') if chi is None else chi)


def outer_legs(x):
    return [x.getTensor(i).getLeg('o') for i in range(x.n)]


def well_formed(x, n, what):
    """labels l, o, r, a bond between neighbours, legs in step with the data"""
    expect(x.n == n, what + ': number of tensors', x)
    for i in range(x.n):
        t = x.getTensor(i)
        want = ['o']
        if i > 0:
            want = want + ['l']
        if i < x.n - 1:
            want = want + ['r']
        expect(sorted(t.labels) == sorted(want), what + ': every tensor has a leg o, and l and r towards its neighbours', t)
        for k in range(len(t.legs)):
            expect(t.legs[k].tensor is t and t.legs[k].dim == t.shape[k], what + ': legs follow the data', t)
        if i < x.n - 1:
            r, l = t.getLeg('r'), x.getTensor(i + 1).getLeg('l')
            if r is not None and l is not None:
                expect(r.bond is not None and r.anotherSide() is l and l.anotherSide() is r, what + ': neighbours are bonded r to l', t)
                expect(r.dim == l.dim, what + ': bonded legs have equal extent', t)


def physical(x, wanted, what):
    """the physical axis of tensor i is wanted[i]"""
    for i in range(len(wanted)):
        t = x.getTensor(i)
        expect(tags(t.a)[t.labels.index('o')] == wanted[i], what + ': the physical legs come in the expected order', t)


def linked(pairs, na, nb):
    """two MPSs whose physical legs are bonded as listed"""
    a = chain('ABCD'[:na], 'equal')
    b = chain('EFGH'[:nb], 'equal')
    for s, t in pairs:
        makeLink('p' + str(s), 'p' + str(t), a[s], b[t])
    return FreeBoundaryMPS(a, chi = symint('chi')), FreeBoundaryMPS(b, chi = symint('chi'))
