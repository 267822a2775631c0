"""C13, pairs of MPSs with common bonds, MPSs made from tensors, contraction of networks with MPSs"""
from lib_mps import *
from lib_net import network, NETS, sequences


def name(x, i):
    """the physical axis of tensor i"""
    t = x.getTensor(i)
    return tags(t.a)[t.labels.index('o')]


def pair(pairs, na, nb, mode = 'distinct', chis = None):
    """two MPSs whose physical legs are bonded as listed, all with names of their own"""
    pool = dims(['i', 'j', 'k', 'l', 'm', 'n', 'o', 'q'])
    pa = pool[:na]
    pb = pool[na:na + nb]
    for s, t in pairs:
        pb[t] = pa[s]
    def one(names, ps, v):
        n = len(names)
        vs = dims([v + '1', v + '2', v + '3'])[:n - 1]
        ts = []
        for i in range(n):
            ls, ds = ['p' + str(i)], [ps[i]]
            if i > 0:
                ls, ds = ['a' + str(i)] + ls, [vs[i - 1]] + ds
            if i < n - 1:
                ls, ds = ls + ['b' + str(i)], ds + [vs[i]]
            ts.append(dense(names[i], ls, ds))
        for i in range(n - 1):
            makeLink('b' + str(i), 'a' + str(i + 1), ts[i], ts[i + 1])
        return ts
    a = one('ABCD'[:na], pa, 'v')
    b = one('EFGH'[:nb], pb, 'w')
    for k in range(len(pairs)):
        s, t = pairs[k]
        if k % 2 == 0:
            makeLink('p' + str(s), 'p' + str(t), a[s], b[t])
        else:
            makeLink('p' + str(t), 'p' + str(s), b[t], a[s])
    if chis is None:
        chis = [symint('chi'), symint('chj')]
    return FreeBoundaryMPS(a, chi = chis[0]), FreeBoundaryMPS(b, chi = chis[1])


def pairings(na, nb):
    return matchings(na, nb)


def d_common():
    """the common legs and bonds of two MPSs, for every set of bonds"""
    for na, nb in [(1, 1), (1, 2), (2, 2), (3, 2), (3, 3)]:
        for pairs in pairings(na, nb):
            x, y = pair(pairs, na, nb, chis = [1, 1])
            ia, ib = commonLegs(x, y)
            want = sorted(pairs)
            expect(list(ia) == [p[0] for p in want] and list(ib) == [p[1] for p in want], 'the common legs of two MPSs are their bonded physical legs', x, y)
            bs = commonBonds(x, y)
            expect(len(bs) == len(want), 'the common bonds of two MPSs', x, y)
            for k in range(len(want)):
                o = x.getTensor(want[k][0]).getLeg('o')
                expect(bs[k] is o.bond, 'the common bonds of two MPSs', x, y)
                expect(getBondTensorIndices(x, y, o.bond) == want[k], 'a bond gives the positions of its two tensors', x, y)
                expect(getBondTensorIndices(y, x, o.bond) == (want[k][1], want[k][0]), 'a bond gives the positions of its two tensors', x, y)


def rest(x, used, names):
    return [n for n in names]


def after_merge(x, y, pairs, pa, pb, na, nb, what):
    """one common bond is left; the other physical legs are kept"""
    well_formed(x, na - len(pairs) + 1, what)
    well_formed(y, nb - len(pairs) + 1, what)
    ia, ib = commonLegs(x, y)
    expect(len(ia) == 1 and len(ib) == 1, what + ': exactly one common bond is left', x, y)
    if len(ia) == 1 and len(ib) == 1:
        o = x.getTensor(ia[0]).getLeg('o')
        expect(o.anotherSide() is y.getTensor(ib[0]).getLeg('o'), what + ': the common bond joins the two MPSs', x, y)
        expect([name(x, k) for k in range(x.n) if k != ia[0]] == [pa[k] for k in range(na) if k not in [p[0] for p in pairs]], what + ': the other physical legs stay in order', x)
        expect([name(y, k) for k in range(y.n) if k != ib[0]] == [pb[k] for k in range(nb) if k not in [p[1] for p in pairs]], what + ': the other physical legs stay in order', y)
        expect(atmost(o.dim, x.chi) and atmost(o.dim, y.chi), what + ': the common bond is at most chi', o)
    for z in [x, y]:
        for k in range(z.n):
            expect(z.getTensor(k).getLeg('o').bond is None or k == (ia[0] if z is x else ib[0]), what + ': the other physical legs are free', z)


def merge_case(na, nb, sel):
    pairs = choice(*[p for p in pairings(na, nb) if len(p) > 1 and sel(p)])
    x, y = pair(pairs, na, nb, chis = [symint('chi'), 4])
    pa, pb = [name(x, k) for k in range(na)], [name(y, k) for k in range(nb)]
    mergeMPS(x, y)
    after_merge(x, y, pairs, pa, pb, na, nb, 'mergeMPS')


def d_merge22():
    merge_case(2, 2, lambda p: True)


def d_merge32():
    merge_case(3, 2, lambda p: True)


def d_merge23():
    merge_case(2, 3, lambda p: True)


def d_merge33():
    merge_case(3, 3, lambda p: len(p) == 2 and p[0][0] == 0)


def d_merge33b():
    merge_case(3, 3, lambda p: len(p) == 2 and p[0][0] != 0)


def d_merge33c():
    merge_case(3, 3, lambda p: len(p) == 3)


def d_merge_nothing():
    """without two common bonds there is nothing to merge"""
    pairs = choice([], [(0, 1)], [(2, 0)])
    x, y = pair(pairs, 3, 2)
    s = freeze(x, y)
    mergeMPS(x, y)
    unchanged(s, 'MPSs with at most one common bond are left alone')


def d_double_merge():
    a = choice(0, 1)
    b = choice(0, 1)
    flip = choice(True, False)
    pairs = [(a, b + 1), (a + 1, b)] if flip else [(a, b), (a + 1, b + 1)]
    x, y = pair(pairs, 3, 3)
    pa, pb = [name(x, k) for k in range(3)], [name(y, k) for k in range(3)]
    bond = doubleMerge(x, y, a, b)
    after_merge(x, y, pairs, pa, pb, 3, 3, 'doubleMerge')
    expect(x.getTensor(a).getLeg('o').bond is bond and y.getTensor(b).getLeg('o').bond is bond, 'the new common bond is returned', x, y)


def d_double_merge_by_bond():
    pairs = choice([(0, 0), (2, 2)], [(0, 2), (2, 0)], [(1, 0), (2, 2)], [(2, 1), (0, 2)])
    x, y = pair(pairs, 3, 3)
    pa, pb = [name(x, k) for k in range(3)], [name(y, k) for k in range(3)]
    bs = commonBonds(x, y)
    if choice(True, False):
        bs = bs[::-1]
    bond = doubleMergeByBond(x, y, bs[0], bs[1])
    after_merge(x, y, pairs, pa, pb, 3, 3, 'doubleMergeByBond')
    ia, ib = commonLegs(x, y)
    expect(x.getTensor(ia[0]).getLeg('o').bond is bond, 'the new common bond is returned', x, y)


def contract_case(na, nb, cases):
    s, t = choice(*cases)
    x, y = pair([(s, t)], na, nb, chis = [3, 3])
    pa, pb = [name(x, k) for k in range(na)], [name(y, k) for k in range(nb)]
    z = contractMPS(x, y)
    expect(isinstance(z, FreeBoundaryMPS), 'the contraction of two MPSs with open legs is an MPS', z)
    want = [pa[k] for k in range(na) if k != s] + [pb[k] for k in range(nb) if k != t]
    well_formed(z, na + nb - 2, 'contractMPS')
    physical(z, want, 'contractMPS')
    for k in range(z.n):
        expect(z.getTensor(k).getLeg('o').bond is None, 'contractMPS: the open legs stay free', z)


def d_contract12():
    contract_case(1, 2, [(0, 0), (0, 1)])


def d_contract21():
    contract_case(2, 1, [(0, 0), (1, 0)])


def d_contract13():
    contract_case(1, 3, [(0, 0), (0, 1), (0, 2)])


def d_contract31():
    contract_case(3, 1, [(0, 0), (1, 0), (2, 0)])


def d_contract22_0():
    contract_case(2, 2, [(0, 0), (0, 1)])


def d_contract22_1():
    contract_case(2, 2, [(1, 0), (1, 1)])


def d_contract32_0():
    contract_case(3, 2, [(0, 0), (0, 1)])


def d_contract32_1():
    contract_case(3, 2, [(1, 0), (1, 1)])


def d_contract32_2():
    contract_case(3, 2, [(2, 0), (2, 1)])


def d_contract23_0():
    contract_case(2, 3, [(0, 0), (0, 1), (0, 2)])


def d_contract23_1():
    contract_case(2, 3, [(1, 0), (1, 1), (1, 2)])


def d_contract33_0():
    contract_case(3, 3, [(0, 0), (0, 1), (0, 2)])


def d_contract33_1():
    contract_case(3, 3, [(1, 0), (1, 1), (1, 2)])


def d_contract33_2():
    contract_case(3, 3, [(2, 0), (2, 1), (2, 2)])


def d_contract11():
    x, y = pair([(0, 0)], 1, 1, chis = [2, 3])
    z = contractMPS(x, y)
    expect(z.labels == [] and sumpairs(z.a) == ('A.0~E.0',), 'the contraction of two vectors is a number', z)


def d_contract_chi():
    for a, b in [(2, 9), (9, 2), (4, 4)]:
        ts = [dense('A', ['p', 'v'], [dim('i'), 2]), dense('B', ['v', 'p'], [2, dim('j')])]
        us = [dense('C', ['p', 'v'], [dim('k'), 2]), dense('D', ['v', 'p'], [2, dim('j')])]
        makeLink('v', 'v', ts[0], ts[1])
        makeLink('v', 'v', us[0], us[1])
        makeLink('p', 'p', ts[1], us[1])
        z = contractMPS(FreeBoundaryMPS(ts, chi = a), FreeBoundaryMPS(us, chi = b))
        expect(atmost(min(a, b), z.chi), 'the new chi is not below the smaller one', z)


def d_contract_rejects():
    pairs = choice([], [(0, 0), (1, 1)], [(0, 1), (2, 0)])
    x, y = pair(pairs, 3, 2)
    try:
        contractMPS(x, y)
    except AssertionError:
        ok()
    else:
        fail('MPSs that do not have exactly one common bond are not contracted', x, y)


def from_tensor_case(n, mode = None):
    mode = choice("distinct", "equal", "literal") if mode is None else mode
    ls = NAMES[:n]
    t = dense('A', ls, extents(mode, n))
    legs = list(t.legs)
    es = []
    for k in range(n):
        if k % 2 == 0:
            e = dense('EFGH'[k], ['e'], [t.legs[k].dim])
            makeLink(t.legs[k], e.legs[0])
            es.append(e.legs[0])
        else:
            es.append(None)
    chi = choice(symint('chi'), 2)
    x = createMPSFromTensor(t, chi = chi)
    well_formed(x, n, 'an MPS made from a tensor')
    physical(x, ['A.' + str(k) for k in range(n)], 'an MPS made from a tensor')
    for k in range(n):
        o = x.getTensor(k).getLeg('o')
        expect(o.bond is None if es[k] is None else (o.bond is not None and o.anotherSide() is es[k] and es[k].anotherSide() is o), 'an MPS made from a tensor keeps its bonds', x)
        if k < n - 1:
            expect(atmost(x.getTensor(k).shapeOfLabel('r'), chi), 'an MPS made from a tensor has no bond larger than chi', x)


def d_from_tensor1():
    from_tensor_case(1)


def d_from_tensor2():
    from_tensor_case(2)


def d_from_tensor3():
    from_tensor_case(3)


def d_from_tensor4():
    from_tensor_case(4)


def d_from_scalar():
    t = dense('A', [], [])
    try:
        createMPSFromTensor(t)
    except AssertionError:
        ok()
    else:
        fail('there is no MPS of a number', t)


def network_case(net, given, kind = 'left'):
    ts, m, sums = network(net, 'equal')
    n = len(ts)
    stub_sequence(kind)
    if given is None:
        r = contractWithMPS(ts, chi = 3)
    else:
        r = contractWithMPS(ts, chi = 3, seq = given)
    expect(len(r.labels) == len(m), 'contracting with MPSs leaves exactly the open legs', r)
    expect(sorted(tags(r.a)) == sorted([m[l] for l in m]), 'contracting with MPSs leaves exactly the open axes', r)
    for l in r.legs:
        expect(l.bond is None, 'contracting with MPSs leaves the open legs free', r)


def d_network_two():
    network_case(choice('two', 'two closed'), choice(None, [(0, 1)], [(1, 0)]))


def bonded_sequences(net):
    """the sequences that only contract pairs with a bond between them"""
    legs, bonds = NETS[net]
    out = []
    for seq in sequences(len(legs)):
        at = list(range(len(legs)))
        good = True
        for s, t in seq:
            good = good and any([sorted([at[p[0]], at[q[0]]]) == sorted([s, t]) for p, q in bonds])
            at = [min(s, t) if x == max(s, t) else x for x in at]
        if good:
            out.append(seq)
    return out


def d_network_chain():
    network_case('chain3', choice(*bonded_sequences('chain3')))


def d_network_chainb():
    network_case('chain3b', choice(*bonded_sequences('chain3b')), 'right')


def d_network_triangle():
    network_case('triangle', choice(*bonded_sequences('triangle')))


def d_network_open_triangle():
    network_case('open triangle', choice(*bonded_sequences('open triangle')))


def d_network_double():
    network_case('double bond', choice(*bonded_sequences('double bond')), 'right')


def d_network_chain4():
    network_case('chain4', choice([(0, 1), (0, 2), (0, 3)], [(3, 2), (2, 1), (0, 1)], [(1, 2), (3, 1), (0, 1)]))


def d_network_ring4():
    network_case('ring4', choice([(0, 1), (2, 3), (0, 2)], [(3, 2), (2, 1), (0, 1)]))


def d_network_star4():
    network_case('star4', choice([(0, 1), (0, 2), (0, 3)], [(3, 0), (2, 0), (1, 0)]))
