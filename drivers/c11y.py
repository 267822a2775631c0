"""C11: costs with literal extents, searches on networks of five and six tensors, legs of the same name"""
from lib_net import *
from CTL.tensor.contract.tensorGraph import TensorGraph


def d_real_extents():
    for d in range(2, 31):
        for e in [1, d, 7]:
            for f in [1, 3]:
                a = TensorLike(shape = (d, e, f), labels = ['a', 'b', 'c'])
                b = TensorLike(shape = (f, e, d), labels = ['c', 'b', 'a'])
                makeLink('a', 'a', a, b)
                if e != 7:
                    makeLink('b', 'b', a, b)
                g = makeTensorGraph([a, b])
                g.optimalContractSequence(bf = True, typicalDim = None)
                expect(g.optimalCostResult() == d * e * f * f * (7 if e == 7 else 1), 'the reported cost is that of a cheapest sequence', g)


# number of tensors, free legs (tensor, extent), bonds (tensor, tensor, extent)
BIG = {
    'halves': (6, [(i, 2) for i in range(6)], [(0, 1, 9), (1, 2, 9), (3, 4, 9), (4, 5, 9), (0, 2, 9), (3, 5, 9), (2, 3, 3)]),
    'thirds': (6, [(0, 5), (2, 3), (4, 7)], [(0, 1, 11), (2, 3, 13), (4, 5, 12), (1, 2, 3), (3, 4, 2), (5, 0, 4)]),
    'ladder': (6, [(0, 2), (5, 3)], [(0, 1, 3), (1, 2, 4), (3, 4, 5), (4, 5, 2), (0, 3, 6), (1, 4, 3), (2, 5, 7)]),
    'star': (5, [(1, 3), (2, 4), (3, 5), (4, 2)], [(0, 1, 7), (0, 2, 2), (0, 3, 6), (0, 4, 5)]),
    'ring': (5, [(0, 2), (1, 3), (2, 5), (3, 2), (4, 7)], [(0, 1, 4), (1, 2, 2), (2, 3, 6), (3, 4, 3), (4, 0, 5)]),
    'chain': (6, [(0, 10), (5, 10)], [(0, 1, 2), (1, 2, 9), (2, 3, 3), (3, 4, 8), (4, 5, 2)]),
    'apart': (5, [(0, 3), (1, 2), (4, 4)], [(0, 2, 5), (1, 3, 6), (2, 0, 2)]),
    'cross': (5, [(1, 2), (3, 3)], [(0, 1, 4), (1, 2, 3), (2, 3, 4), (3, 0, 5), (0, 4, 6), (4, 2, 7)]),
}


def graph(name):
    n, free, bonds = BIG[name]
    g = TensorGraph(n)
    for i, e in free:
        g.addFreeEdge(i, e)
    for i, j, e in bonds:
        g.addEdge(i, j, e)
    return g


def indices(name, typical):
    """the indices of every tensor with their extents"""
    n, free, bonds = BIG[name]
    own = [set() for _ in range(n)]
    ext = []
    for i, e in free:
        own[i].add(len(ext))
        ext.append(e)
    for i, j, e in bonds:
        own[i].add(len(ext))
        own[j].add(len(ext))
        ext.append(e)
    if typical is not None:
        ext = [typical] * len(ext)
    return own, ext


def product_of(xs, ext):
    r = 1
    for x in xs:
        r *= ext[x]
    return r


def best(own, ext):
    """cost of a cheapest sequence, by sets of tensors"""
    n = len(own)
    left = {}
    cost = {}
    for x in range(1, 2 ** n):
        s = set()
        for i in range(n):
            if x & (2 ** i):
                s = s ^ own[i]
        left[x] = s
        low = x & -x
        if x == low:
            cost[x] = 0
            continue
        rest = x - low
        y = rest
        c = None
        while True:
            y = (y - 1) & rest
            a = y + low
            b = x - a
            z = cost[a] + cost[b] + product_of(left[a] | left[b], ext)
            if c is None or z < c:
                c = z
            if y == 0:
                break
        cost[x] = c
    return cost[2 ** n - 1]


def along(own, ext, seq):
    cur = list(own)
    total = 0
    for s, t in seq:
        total += product_of(cur[s] | cur[t], ext)
        cur[min(s, t)] = cur[s] ^ cur[t]
    return total


def big_case(names):
    for name in names:
        for typical in [None, 3]:
            own, ext = indices(name, typical)
            want = best(own, ext)
            for bf in [True, False]:
                g = graph(name)
                seq = g.optimalContractSequence(bf = bf, typicalDim = typical)
                expect(valid(seq, len(own)), 'a sequence contracts every tensor exactly once, into position 0', seq)
                expect(along(own, ext, seq) == want, 'the sequence is a cheapest one', seq)
                expect(g.optimalCostResult() == want, 'the reported cost is that of a cheapest sequence', g)
        g = graph(name)
        seq = g.optimalContractSequence(greedy = True, typicalDim = None)
        expect(valid(seq, len(own)), 'a sequence contracts every tensor exactly once, into position 0', seq)
        expect(g.greedyCost == along(own, indices(name, None)[1], seq), 'the reported cost of a greedy search is that of its sequence', g)


def d_big_halves():
    big_case(['halves'])


def d_big_thirds():
    big_case(['thirds'])


def d_big_ladder():
    big_case(['ladder'])


def d_big_chain():
    big_case(['chain'])


def d_big_five():
    big_case(['star', 'ring'])


def d_big_five_b():
    big_case(['apart', 'cross'])


def same_names(net):
    ts, m, sums = network(net, 'equal')
    for t in ts:
        for l in t.legs:
            l.name = 'x'
    return ts, sums


def d_copy_names():
    """bonds are copied leg by leg, whatever the legs are called"""
    net = choice(*(NOUT + N3 + N4))
    ts, sums = same_names(net)
    like = choice(True, False)
    us = copyTensorList(ts, tensorLikeFlag = like)
    for x in range(len(ts)):
        for k in range(len(ts[x].legs)):
            la, lb = ts[x].legs[k], us[x].legs[k]
            if la.bond is None:
                expect(lb.bond is None, 'copying a list: a free leg stays free', us[x])
            else:
                p = la.anotherSide()
                y = ts.index(p.tensor)
                expect(lb.bond is not None and lb.anotherSide() is us[y].legs[p.tensor.legs.index(p)], 'copying a list: the copies are linked as the originals', us[x])


def d_contract_names():
    net = choice(*(NOUT + N3 + N4))
    ts, sums = same_names(net)
    n = len(ts)
    seq = [(0, i) for i in range(1, n)]
    r = contractWithSequence(ts, seq = seq, outProductWarning = False)
    expect(sumpairs(r.a) == sums, 'contracting a list: exactly the bonds are summed', r)


# which tensors are diagonal, free legs, bonds; the legs of a diagonal tensor have one extent
DIAG = {
    'kite': ([False, True, True, False], [(0, 2), (3, 5)], [(0, 1, 3), (1, 2, 3), (1, 3, 3), (2, 3, 3)]),
    'chain': ([False, True, False, False], [(0, 4), (1, 3), (3, 2)], [(0, 1, 3), (1, 2, 3), (2, 3, 5)]),
    'bundle': ([False, True, True, True], [(0, 4), (1, 4)], [(2, 1, 4), (2, 1, 4), (1, 3, 4), (2, 1, 4), (0, 1, 4)]),
    'cycle': ([True, True, True, True], [], [(0, 1, 3), (3, 1, 3), (2, 1, 3), (0, 1, 3)]),
    'hub': ([True, False, False, False], [(1, 2), (2, 5), (3, 7)], [(0, 1, 3), (0, 2, 3), (0, 3, 3), (1, 2, 4)]),
    'two hubs': ([True, True, False, False], [(0, 3), (2, 6), (3, 2)], [(0, 2, 3), (1, 3, 5), (2, 3, 4), (0, 3, 3), (1, 2, 5)]),
    'pair': ([True, True], [(0, 5), (1, 5)], [(0, 1, 5)]),
    'mixed pair': ([False, True], [(0, 7), (1, 5), (1, 5)], [(0, 1, 5)]),
    'ends': ([True, False, True], [(0, 2), (2, 6), (1, 4)], [(0, 1, 2), (1, 2, 6)]),
}


def diag_graph(name):
    flags, free, bonds = DIAG[name]
    g = TensorGraph(len(flags), diagonalFlags = list(flags))
    own = [set() for _ in flags]
    ext = []
    for i, e in free:
        g.addFreeEdge(i, e)
        own[i].add(len(ext))
        ext.append(e)
    for i, j, e in bonds:
        g.addEdge(i, j, e)
        own[i].add(len(ext))
        own[j].add(len(ext))
        ext.append(e)
    g.addEdgeIndex()
    return g, [(own[i], flags[i]) for i in range(len(flags))], ext


def diag_pair(a, b, ext):
    """what remains of a pair and what it costs: a diagonal operand costs the size of the result, two joined ones one extent"""
    rest = (a[0] ^ b[0], a[1] and b[1] and len(a[0] & b[0]) > 0)
    if rest[1]:
        return rest, ext[min(a[0])]
    if a[1] or b[1]:
        return rest, product_of(a[0] ^ b[0], ext)
    return rest, product_of(a[0] | b[0], ext)


def diag_best(cur, ext):
    if len(cur) == 1:
        return 0
    c = None
    for i in range(len(cur)):
        for j in range(i + 1, len(cur)):
            r, z = diag_pair(cur[i], cur[j], ext)
            left = [cur[k] for k in range(len(cur)) if k != i and k != j] + [r]
            z = z + diag_best(left, ext)
            if c is None or z < c:
                c = z
    return c


def diag_along(own, ext, seq):
    cur = list(own)
    total = 0
    for s, t in seq:
        r, z = diag_pair(cur[s], cur[t], ext)
        total += z
        cur[min(s, t)] = r
    return total


def diag_case(names):
    for name in names:
        for typical in [None, 3]:
            for way in ['capping', 'brute force', 'greedy']:
                g, own, ext = diag_graph(name)
                if typical is not None:
                    ext = [typical] * len(ext)
                if way == 'greedy':
                    if typical is not None:
                        continue
                    seq = g.optimalContractSequence(greedy = True, typicalDim = None)
                    cost = g.greedyCost
                else:
                    seq = g.optimalContractSequence(bf = way == 'brute force', typicalDim = typical)
                    cost = g.optimalCostResult()
                expect(valid(seq, len(own)), 'a sequence contracts every tensor exactly once, into position 0', seq)
                expect(cost == diag_along(own, ext, seq), 'the reported cost is that of the sequence, with diagonal tensors', seq)
                if way != 'greedy':
                    expect(cost == diag_best(own, ext), 'the sequence is a cheapest one, with diagonal tensors', seq)


def d_diag_search():
    diag_case(['kite', 'chain', 'bundle'])


def d_diag_search_b():
    diag_case(['cycle', 'hub', 'two hubs'])


def d_diag_search_c():
    diag_case(['pair', 'mixed pair', 'ends'])
