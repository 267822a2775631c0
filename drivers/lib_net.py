"""networks of a few tensors, sequences and what contracting along them must give"""
from lib_enum import *
from CTL.tensor.tensor import TensorLike
from CTL.tensor.contract.contract import shareBonds
from CTL.tensor.contract.optimalContract import (copyTensorList, contractCost, makeTensorGraph, generateOptimalSequence,
                                                 generateGreedySequence, contractAndCostWithSequence, contractWithSequence,
                                                 contractTensorList)

# networks: number of legs of every tensor and the bonds between (tensor, leg) pairs
NETS = {
    'chain3': ([2, 2, 2], [((0, 1), (1, 0)), ((1, 1), (2, 0))]),
    'chain3b': ([2, 2, 2], [((2, 1), (0, 0)), ((0, 1), (1, 1))]),
    'triangle': ([2, 2, 2], [((0, 1), (1, 0)), ((1, 1), (2, 0)), ((2, 1), (0, 0))]),
    'open triangle': ([3, 3, 3], [((0, 1), (1, 0)), ((1, 2), (2, 0)), ((2, 1), (0, 0))]),
    'double bond': ([3, 3, 2], [((0, 0), (1, 2)), ((0, 2), (1, 0)), ((1, 1), (2, 1))]),
    'parted': ([2, 2, 2], [((0, 0), (2, 1))]),
    'free': ([1, 1, 1], []),
    'scalars': ([0, 2, 2], [((1, 0), (2, 1)), ((1, 1), (2, 0))]),
    'chain4': ([2, 2, 2, 2], [((0, 1), (1, 0)), ((1, 1), (2, 0)), ((2, 1), (3, 0))]),
    'ring4': ([3, 3, 3, 3], [((0, 1), (1, 0)), ((1, 1), (2, 0)), ((2, 1), (3, 0)), ((3, 1), (0, 0))]),
    'star4': ([3, 1, 1, 2], [((0, 0), (1, 0)), ((0, 1), (2, 0)), ((0, 2), (3, 1))]),
    'pairs4': ([2, 2, 2, 2], [((0, 0), (3, 1)), ((1, 1), (2, 0))]),
    'single': ([3], []),
    'two': ([2, 2], [((0, 1), (1, 0))]),
    'two closed': ([2, 2], [((0, 1), (1, 0)), ((0, 0), (1, 1))]),
}
N3 = ['chain3', 'chain3b', 'triangle', 'open triangle', 'double bond', 'parted', 'free', 'scalars']
N4 = ['chain4', 'ring4', 'star4', 'pairs4']
NOUT = ['single', 'two', 'two closed']


def network(net, mode):
    """dense tensors A, B, C, ... with legs a0, a1, b0, ...; returns the list, the open legs and the sums"""
    legs, bonds = NETS[net]
    pool = dims(['i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's', 't'])
    if mode == 'equal':
        pool = [dim('n')] * 12
    ext = []
    x = 0
    for n in legs:
        ext.append(pool[x:x + n])
        x += n
    for (s, a), (t, b) in bonds:
        ext[t][b] = ext[s][a]
    ts = [dense('ABCD'[i], ['abcd'[i] + str(k) for k in range(legs[i])], ext[i]) for i in range(len(legs))]
    for (s, a), (t, b) in bonds:
        makeLink(ts[s].legs[a], ts[t].legs[b])
    bonded = [p for q in bonds for p in q]
    m = {}
    for i in range(len(legs)):
        for k in range(legs[i]):
            if (i, k) not in bonded:
                m['abcd'[i] + str(k)] = 'ABCD'[i] + '.' + str(k)
    sums = []
    for (s, a), (t, b) in bonds:
        sums.append('~'.join(sorted(['ABCD'[s] + '.' + str(a), 'ABCD'[t] + '.' + str(b)])))
    return ts, m, tuple(sorted(sums))


def valid(seq, n):
    """every step takes two tensors that are there, and puts the result at the smaller position"""
    if len(seq) != n - 1:
        return False
    left = list(range(n))
    for s, t in seq:
        if s == t or s not in left or t not in left:
            return False
        left.remove(max(s, t))
    return left == [0]


def sequences(n):
    """all valid sequences, both ways round"""
    if n < 2:
        return [[]]
    res = []
    def go(left, seq):
        if len(left) == 1:
            res.append(seq)
            return
        for s in left:
            for t in left:
                if s != t:
                    go([x for x in left if x != max(s, t)], seq + [(s, t)])
    go(list(range(n)), [])
    return res


def right(r, m, sums, what):
    expect(sorted(r.labels) == sorted(m), what + ': the result has exactly the open legs of the network', r)
    for l in m:
        leg = r.getLeg(l)
        if leg is not None:
            expect(tags(r.a)[r.labels.index(l)] == m[l], what + ': every axis is the axis its leg stood for', r)
            expect(leg.bond is None and leg.tensor is r, what + ': the open legs are free and belong to the result', r)
    expect(sumpairs(r.a) == sums, what + ': exactly the bonds are summed', r)


def literal_network(net):
    legs, bonds = NETS[net]
    ext = [[[2, 3, 5, 7][(i + 2 * k) % 4] for k in range(legs[i])] for i in range(len(legs))]
    for (s, a), (t, b) in bonds:
        ext[t][b] = ext[s][a]
    ts = [TensorLike(shape = tuple(ext[i]), labels = ['abcd'[i] + str(k) for k in range(legs[i])]) for i in range(len(legs))]
    for (s, a), (t, b) in bonds:
        makeLink(ts[s].legs[a], ts[t].legs[b])
    return ts, None, None


def searched(ts, how):
    if how == 'capping':
        return generateOptimalSequence(ts)
    if how == 'brute force':
        return generateOptimalSequence(ts, bf = True)
    if how == 'typical 3':
        return generateOptimalSequence(ts, typicalDim = 3)
    if how == 'real':
        return generateOptimalSequence(ts, typicalDim = None)
    if how == 'real brute force':
        return generateOptimalSequence(ts, typicalDim = None, bf = True)
    return generateGreedySequence(ts)
