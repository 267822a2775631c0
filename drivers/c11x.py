"""C11, copies of lists, costs, cheapest sequences, networks with diagonal tensors"""
from lib_net import *


def replay_cost(net, seq, size):
    """cost of a sequence on a dense network: size(legs) of all distinct indices of the two tensors, summed over the steps"""
    legs, bonds = NETS[net]
    idx = [{(i, k) for k in range(legs[i])} for i in range(len(legs))]
    for (s, a), (t, b) in bonds:
        idx[t].discard((t, b))
        idx[t].add((s, a))
    total = 0
    cur = list(idx)
    for s, t in seq:
        total = total + size(cur[s] | cur[t])
        cur[min(s, t)] = (cur[s] | cur[t]) - (cur[s] & cur[t])
    return total


def power(base):
    def f(x):
        r = 1
        for _ in x:
            r = r * base
        return r
    return f


def cheapest(net, size):
    best = None
    for seq in sequences(len(NETS[net][0])):
        c = replay_cost(net, seq, size)
        if best is None or c < best:
            best = c
    return best


def cheapest_case(nets):
    net = choice(*nets)
    base = choice(10, 3, 2)
    ts, m, sums = network(net, 'distinct')
    g = makeTensorGraph(ts)
    seq = g.optimalContractSequence(bf = choice(True, False), typicalDim = base)
    expect(valid(seq, len(ts)), 'a sequence contracts every tensor exactly once, into position 0', seq)
    want = cheapest(net, power(base))
    expect(replay_cost(net, seq, power(base)) == want, 'the sequence is a cheapest one when all extents are the typical one', seq)
    expect(g.optimalCostResult() == want, 'the reported cost is that of a cheapest sequence', g)


def d_cheapest():
    cheapest_case(['two', 'two closed'] + N3[:3])


def d_cheapest_b():
    cheapest_case(N3[3:])


def d_cheapest_four():
    cheapest_case(N4)


def literal_extents(net):
    legs, bonds = NETS[net]
    ext = [[[2, 3, 5, 7][(i + 2 * k) % 4] for k in range(legs[i])] for i in range(len(legs))]
    for (s, a), (t, b) in bonds:
        ext[t][b] = ext[s][a]
    return ext


def d_cheapest_real():
    net = choice(*(['two', 'two closed'] + N3 + N4))
    ts, m, sums = literal_network(net)
    ext = literal_extents(net)
    def size(x):
        r = 1
        for i, k in x:
            r = r * ext[i][k]
        return r
    g = makeTensorGraph(ts)
    seq = g.optimalContractSequence(bf = choice(True, False), typicalDim = None)
    expect(replay_cost(net, seq, size) == cheapest(net, size), 'the sequence is a cheapest one for the real extents', seq)
    expect(g.optimalCostResult() == cheapest(net, size), 'the reported cost is that of a cheapest sequence', g)


def d_cost_first():
    """the cost can be asked for before a search"""
    net = choice(*(['two'] + N3))
    ts, m, sums = network(net, 'distinct')
    g = makeTensorGraph(ts)
    expect(g.optimalCostResult() == cheapest(net, power(10)), 'the reported cost is that of a cheapest sequence', g)


def d_pair_cost():
    """the cost of a pair of dense tensors: every distinct index once"""
    for na in [0, 1, 2, 3]:
        for nb in [0, 1, 2, 3]:
            for pairs in matchings(na, nb):
                pool = dims(['i', 'j', 'k', 'l', 'm', 'n'])
                ea = pool[:na]
                eb = pool[na:na + nb]
                for x, y in pairs:
                    eb[y] = ea[x]
                a = dense('A', NAMES[:na], ea)
                b = dense('B', NAMES[:nb], eb)
                for x, y in pairs:
                    makeLink(a.legs[x], b.legs[y])
                cost, level = contractCost(a, b)
                want = 1
                for e in ea:
                    want = want * e
                for y in range(nb):
                    if y not in [p[1] for p in pairs]:
                        want = want * eb[y]
                expect(cost == want, 'the cost of a contraction is the product of the extents of its distinct indices', a, b)
                expect(level == na + nb - len(pairs), 'the order of the cost is the number of distinct indices', a, b)
                cost, level = contractCost(b, a)
                expect(cost == want and level == na + nb - len(pairs), 'the cost does not depend on the order of the operands', a, b)


def diag_cost(ka, kb):
    """a pair with a diagonal operand costs the size of the result; two joined diagonal tensors one extent"""
    for na in [1, 2, 3]:
        for nb in [1, 2, 3]:
            for pairs in matchings(na, nb):
                pool = dims(['i', 'j', 'k', 'l', 'm', 'n'])
                n = pool[0]
                if ka == 'diag':
                    ea = [n] * na
                    eb = pool[1:1 + nb] if kb == 'dense' else [pool[1]] * nb
                else:
                    ea = pool[1:1 + na]
                    eb = [n] * nb
                if len(pairs) > 0 and ka == 'diag' and kb == 'diag':
                    eb = [n] * nb
                for x, y in pairs:
                    if ka == 'diag':
                        eb[y] = n
                    else:
                        ea[x] = n
                a = dense('A', NAMES[:na], ea) if ka == 'dense' else DiagonalTensor(data = arr('A', [ea[0]]), labels = NAMES[:na])
                b = dense('B', NAMES[:nb], eb) if kb == 'dense' else DiagonalTensor(data = arr('B', [eb[0]]), labels = NAMES[:nb])
                for x, y in pairs:
                    makeLink(a.legs[x], b.legs[y])
                if ka == kb and len(pairs) > 0:
                    want, order = n, 1
                else:
                    want, order = 1, na + nb - 2 * len(pairs)
                    for x in range(na):
                        if x not in [p[0] for p in pairs]:
                            want = want * ea[x]
                    for y in range(nb):
                        if y not in [p[1] for p in pairs]:
                            want = want * eb[y]
                for u, v in [(a, b), (b, a)]:
                    cost, level = contractCost(u, v)
                    expect(cost == want, 'the cost with a diagonal operand is the size of the result, of two joined diagonal tensors one extent', a, b)
                    expect(level == order, 'the order of the cost with a diagonal operand', a, b)


def d_diag_dense_cost():
    diag_cost('diag', 'dense')


def d_dense_diag_cost():
    diag_cost('dense', 'diag')


def d_diag_diag_cost():
    diag_cost('diag', 'diag')


def d_total_cost():
    """the total cost is the sum over the steps"""
    net = choice(*(N3 + ['two', 'single']))
    for seq in sequences(len(NETS[net][0])):
        ts, m, sums = network(net, 'distinct')
        us, m, sums = network(net, 'distinct')
        r, total = contractAndCostWithSequence(ts, seq = seq, outProductWarning = False)
        want = 0
        for s, t in seq:
            cost, level = contractCost(us[s], us[t])
            want = want + cost
            us[min(s, t)] = contractTwoTensors(us[s], us[t], outProductWarning = False)
        expect(total == want, 'the total cost is the sum of the costs of the steps', r)


def searched_case(nets):
    """contracting with a sequence that is searched for"""
    net = choice(*nets)
    ts, m, sums = network(net, 'equal')
    how = choice('list', 'sequence', 'brute force', 'cost', 'inplace')
    if how == 'list':
        r = contractTensorList(ts, outProductWarning = False)
    elif how == 'sequence':
        r = contractWithSequence(ts, outProductWarning = False)
    elif how == 'brute force':
        r = contractWithSequence(ts, bf = True, outProductWarning = False)
    elif how == 'cost':
        r, cost = contractAndCostWithSequence(ts, typicalDim = 4, outProductWarning = False)
    else:
        r = contractWithSequence(ts, inplace = True, outProductWarning = False)
    right(r, m, sums, 'contracting a list')


def d_searched():
    searched_case(NOUT)


def d_searched3():
    searched_case(N3[:4])


def d_searched3b():
    searched_case(N3[4:])


def d_searched4():
    searched_case(N4)


def mixed(net, kinds):
    """a network in which some tensors are diagonal; all extents are equal"""
    legs, bonds = NETS[net]
    n = dim('n')
    ts = []
    for i in range(len(legs)):
        ls = ['abcd'[i] + str(k) for k in range(legs[i])]
        if kinds[i]:
            ts.append(diag('ABCD'[i], ls, n))
        else:
            ts.append(dense('ABCD'[i], ls, [n] * legs[i]))
    for (s, a), (t, b) in bonds:
        makeLink(ts[s].legs[a], ts[t].legs[b])
    bonded = [p for q in bonds for p in q]
    open_legs = ['abcd'[i] + str(k) for i in range(len(legs)) for k in range(legs[i]) if (i, k) not in bonded]
    return ts, open_legs


def mixed_case(nets, count):
    net = choice(*nets)
    how = choice('capping', 'brute force', 'typical 3')
    for kinds in product([False, True], repeat = count):
        if kinds[0] and NETS[net][0][0] == 0:
            continue
        ts, open_legs = mixed(net, kinds)
        seq = searched(ts, how)
        expect(valid(seq, count), 'a sequence contracts every tensor exactly once, into position 0', seq)
        r = contractWithSequence(ts, seq = seq, outProductWarning = False)
        expect(sorted(r.labels) == open_legs, 'the result has exactly the open legs of the network', r)
        for l in r.legs:
            expect(l.bond is None and l.tensor is r, 'the open legs are free and belong to the result', r)


def d_mixed2():
    mixed_case(['two', 'two closed'], 2)


def d_mixed3():
    mixed_case(N3, 3)


def d_mixed4():
    mixed_case(N4, 4)


def d_mixed_given():
    """every order of a network with diagonal tensors"""
    net = choice(*N3)
    for kinds in product([False, True], repeat = 3):
        if kinds[0] and NETS[net][0][0] == 0:
            continue
        for seq in sequences(3):
            ts, open_legs = mixed(net, kinds)
            r = contractWithSequence(ts, seq = seq, outProductWarning = False)
            expect(sorted(r.labels) == open_legs, 'the result has exactly the open legs of the network', r)


def copied(ts, us, what, out = []):
    """us is linked as ts is, tensor by tensor and leg by leg, and shares nothing with it"""
    expect(len(us) == len(ts), what + ': one copy per tensor', us)
    for x in range(len(ts)):
        a, b = ts[x], us[x]
        expect(a is not b and a.labels == b.labels and a.diagonalFlag == b.diagonalFlag, what + ': the copies have the same legs', b)
        for k in range(len(a.legs)):
            la, lb = a.legs[k], b.legs[k]
            if (x, k) in out:
                continue
            expect(la is not lb and lb.tensor is b and la.dim == lb.dim, what + ': the copies have legs of their own', b)
            if la.bond is None:
                expect(lb.bond is None, what + ': a free leg stays free', b)
            else:
                p = la.anotherSide()
                if p.tensor in ts:
                    y = ts.index(p.tensor)
                    expect(lb.bond is not None and lb.bond is not la.bond, what + ': the copies have bonds of their own', b)
                    if lb.bond is not None:
                        expect(lb.anotherSide() is us[y].legs[p.tensor.legs.index(p)], what + ': the copies are linked as the originals', b)


def d_copy_list():
    net = choice(*(NOUT + N3 + N4))
    ts, m, sums = network(net, 'distinct')
    like = choice(True, False)
    us = copyTensorList(ts, tensorLikeFlag = like)
    copied(ts, us, 'copying a list')
    for u in us:
        expect(u.tensorLikeFlag == like and (u.a is None) == like, 'the copies hold data iff tensorLikeFlag is not set', u)


def d_copy_list_mixed():
    net = choice(*(N3 + ['two', 'two closed']))
    n = len(NETS[net][0])
    like = choice(True, False)
    for kinds in product([False, True], repeat = n):
        if kinds[0] and NETS[net][0][0] == 0:
            continue
        ts, open_legs = mixed(net, kinds)
        us = copyTensorList(ts, tensorLikeFlag = like)
        copied(ts, us, 'copying a list')


def d_copy_part():
    """part of a network: the outgoing bonds stay with the originals, or go over to the copies"""
    net = choice(*(['chain3', 'chain3b', 'triangle', 'open triangle', 'double bond', 'parted'] + N4))
    n = len(NETS[net][0])
    link = choice(True, False)
    for keep in [[0, 1], [1, 0], [0], [1, 2], [2, 0], [1]]:
        ts, m, sums = network(net, 'distinct')
        part = [ts[x] for x in keep]
        out = []
        for x in keep:
            for l in ts[x].legs:
                if l.bond is not None and l.anotherSide().tensor not in part:
                    out.append((x, ts[x].legs.index(l), l, l.anotherSide()))
        us = copyTensorList(part, linkOutgoingBonds = link)
        copied(part, us, 'copying part of a network', [(keep.index(o[0]), o[1]) for o in out])
        for x, k, l, p in out:
            c = us[keep.index(x)].legs[k]
            if link:
                expect(c.bond is not None and c.anotherSide() is p and p.anotherSide() is c, 'outgoing bonds go over to the copies', c)
                expect(l.bond is None, 'the original leg is free then', l)
            else:
                expect(c.bond is None, 'the copies of outgoing legs are free', c)
                expect(l.anotherSide() is p and p.anotherSide() is l, 'outgoing bonds stay with the originals', l)


def d_given_positions():
    """a sequence may name the positions either way round"""
    ts, m, sums = network('ring4', 'distinct')
    r = contractWithSequence(ts, seq = choice([(3, 2), (2, 1), (1, 0)], [(0, 3), (2, 1), (1, 0)], [(2, 0), (3, 1), (1, 0)]), outProductWarning = False)
    right(r, m, sums, 'contracting along a sequence')
