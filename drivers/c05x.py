"""C05, every set of bonds between two tensors of up to three legs, with a third tensor on the other legs"""
from lib_enum import *
from CTL.tensor.leg import Leg
from CTL.tensor.bond import Bond
from CTL.tensor.contract.link import mergeLink
from CTL.tensor.contract.contract import merge, shareBonds

LA = ['a', 'b', 'c', 'd']
LB = ['p', 'q', 'r', 's']


def network(na, nb, pairs, mode, flip, order):
    """A and B linked by pairs; every other leg is linked to a leg of C"""
    pool = dims(['i', 'j', 'k', 'l', 'm', 'o', 'x', 'y']) if mode == 'distinct' else [dim('n')] * 8
    ea = pool[:na]
    eb = pool[na:na + nb]
    for x, y in pairs:
        eb[y] = ea[x]
    a = dense('A', LA[:na], ea)
    b = dense('B', LB[:nb], eb)
    ra = [x for x in range(na) if x not in [p[0] for p in pairs]]
    rb = [y for y in range(nb) if y not in [p[1] for p in pairs]]
    c = dense('C', ['u' + str(x) for x in ra] + ['w' + str(y) for y in rb], [ea[x] for x in ra] + [eb[y] for y in rb])
    for x in ra:
        makeLink(a.getLeg(LA[x]), c.getLeg('u' + str(x)))
    for k in order:
        x, y = pairs[k]
        if flip:
            makeLink(LB[y], LA[x], b, a)
        else:
            makeLink(LA[x], LB[y], a, b)
    for y in rb:
        makeLink(c.getLeg('w' + str(y)), b.getLeg(LB[y]))
    return a, b, c, ra, rb


def two_sided(x, y, what):
    expect(x.bond is not None and x.bond is y.bond, what + ': both legs carry the same bond', x, y)
    expect(x.anotherSide() is y and y.anotherSide() is x, what + ': each leg sees the other as its other side', x, y)
    p, q = x.bond.legs
    expect((p is x and q is y) or (p is y and q is x), what + ': the bond joins exactly these two legs', x.bond)
    expect(x.dim == y.dim, what + ': bonded legs have equal extent', x, y)


def others(a, b, c, ra, rb, what):
    for x in ra:
        two_sided(a.getLeg(LA[x]), c.getLeg('u' + str(x)), what)
        expect(a.getLeg(LA[x]).tensor is a, what + ': legs belong to the tensor that carries them', a)
    for y in rb:
        two_sided(b.getLeg(LB[y]), c.getLeg('w' + str(y)), what)
        expect(b.getLeg(LB[y]).tensor is b, what + ': legs belong to the tensor that carries them', b)


def linked(na, nb, mode):
    for pairs in matchings(na, nb):
        n = len(pairs)
        for flip in [False, True]:
            for order in permutations(range(n)):
                a, b, c, ra, rb = network(na, nb, pairs, mode, flip, order)
                for x, y in pairs:
                    two_sided(a.getLeg(LA[x]), b.getLeg(LB[y]), 'makeLink')
                others(a, b, c, ra, rb, 'makeLink')
                s = shareBonds(a, b)
                expect(len(s) == n, 'shared bonds are exactly the bonds between the two tensors', a, b)
                for x, y in pairs:
                    expect(a.getLeg(LA[x]).bond in s, 'shared bonds are exactly the bonds between the two tensors', a, b)
                for bond in s:
                    expect(bond.legs[0].tensor is a and bond.legs[1].tensor is b, 'shared bonds run from the first to the second tensor', bond)
                for x, y in pairs:
                    two_sided(a.getLeg(LA[x]), b.getLeg(LB[y]), 'shareBonds')
                others(a, b, c, ra, rb, 'shareBonds')
                s = shareBonds(b, a)
                expect(len(s) == n, 'shared bonds are exactly the bonds between the two tensors', a, b)


def d_linked2():
    linked(2, 2, 'distinct')
    linked(1, 3, 'distinct')
    linked(2, 3, 'equal')


def d_linked3():
    linked(3, 3, 'distinct')


def merged(na, nb, mode, name):
    for pairs in matchings(na, nb):
        n = len(pairs)
        if n == 0:
            continue
        for flip in [False, True]:
            for order in [list(range(n)), list(range(n))[::-1]]:
                a, b, c, ra, rb = network(na, nb, pairs, mode, flip, order)
                ma, mb = tagmap('A', LA[:na]), tagmap('B', LB[:nb])
                if name is None:
                    mergeLink(a, b, renameWarning = False)
                elif flip:
                    mergeLink(b, a, bondName = name, renameWarning = False)
                else:
                    mergeLink(a, b, bondName = name, renameWarning = False)
                others(a, b, c, ra, rb, 'mergeLink')
                expect(len(a.legs) == na - n + 1 and len(b.legs) == nb - n + 1, 'all common bonds become one', a, b)
                za = [l for l in a.legs if l.anotherSide().tensor is b]
                zb = [l for l in b.legs if l.anotherSide().tensor is a]
                expect(len(za) == 1 and len(zb) == 1, 'all common bonds become one', a, b)
                two_sided(za[0], zb[0], 'mergeLink')
                if name is not None:
                    expect(za[0].name == name and zb[0].name == name, 'the merged legs get the requested name', a, b)
                for x in ra:
                    expect(tags(a.a)[a.legs.index(a.getLeg(LA[x]))] == ma[LA[x]], 'the other legs keep their axes', a)
                for y in rb:
                    expect(tags(b.a)[b.legs.index(b.getLeg(LB[y]))] == mb[LB[y]], 'the other legs keep their axes', b)
                ga = tags(a.a)[a.legs.index(za[0])].split('*')
                gb = tags(b.a)[b.legs.index(zb[0])].split('*')
                expect(len(ga) == n and len(gb) == n, 'the merged leg runs over all common bonds', a, b)
                if len(ga) == n and len(gb) == n:
                    for k in range(n):
                        x = int(ga[k][2:])
                        y = int(gb[k][2:])
                        expect((x, y) in pairs, 'both merged legs run over the bonds in the same order', a, b)


def d_merged22():
    merged(2, 2, 'distinct', 'z')
    merged(2, 2, 'equal', None)


def d_merged33():
    merged(3, 3, 'distinct', 'z')


def d_merged33_equal():
    merged(3, 3, 'equal', None)


def d_merged34():
    merged(4, 3, 'distinct', None)


def d_merged43():
    merged(3, 4, 'equal', 'z')


def survive(na, nb, mode):
    for pairs in matchings(na, nb):
        for flip in [False, True]:
            a, b, c, ra, rb = network(na, nb, pairs, mode, flip, list(range(len(pairs))))
            r = contractTwoTensors(b, a, outProductWarning = False) if flip else contractTwoTensors(a, b, outProductWarning = False)
            for x in ra:
                two_sided(r.getLeg(LA[x]), c.getLeg('u' + str(x)), 'after a contraction')
            for y in rb:
                two_sided(r.getLeg(LB[y]), c.getLeg('w' + str(y)), 'after a contraction')
            for leg in r.legs:
                expect(leg.tensor is r, 'legs belong to the result', r)
            expect(len(shareBonds(r, c)) == len(ra) + len(rb), 'the result shares the surviving bonds', r, c)
            if len(ra) + len(rb) > 0:
                x = contractTwoTensors(c, r)
                expect(x.shape == (), 'contracting the rest leaves a scalar', x)


def d_survive():
    survive(2, 2, 'distinct')
    survive(3, 2, 'distinct')
    survive(2, 3, 'equal')


def d_survive33():
    survive(3, 3, 'distinct')


def d_lists():
    """lists of links bond the pairs in order"""
    for n in [1, 2, 3, 4]:
        for p in permutations(range(n)):
            pool = dims(['i', 'j', 'k', 'l'])[:n]
            a = dense('A', LA[:n], pool)
            b = dense('B', LB[:n], [pool[list(p).index(k)] for k in range(n)])
            bonds = makeLink(LA[:n], [LB[p[k]] for k in range(n)], a, b)
            expect(len(bonds) == n, 'one bond per pair', a, b)
            for k in range(n):
                two_sided(a.getLeg(LA[k]), b.getLeg(LB[p[k]]), 'makeLink with lists')
                expect(bonds[k] is a.getLeg(LA[k]).bond, 'the new bonds are returned in order', a, b)


def d_list_rejects():
    """a bad pair anywhere in a list"""
    for n in [1, 2, 3]:
        for bad in range(n):
            pool = dims(['i', 'j', 'k'])[:n]
            a = dense('A', LA[:n], pool)
            e = list(pool)
            e[bad] = dim('x')
            b = dense('B', LB[:n], e)
            try:
                makeLink(LA[:n], LB[:n], a, b)
            except AssertionError:
                for k in range(n):
                    expect(a.legs[k].bond is None and b.legs[k].bond is None, 'a rejected link leaves all legs as they were', a, b)
            else:
                fail('legs with different extents cannot be linked', a, b)


def d_relink():
    """a leg that gets a new bond leaves its old partner without one"""
    i = dim('i')
    x, y, z = Leg(None, i, 'x'), Leg(None, i, 'y'), Leg(None, i, 'z')
    old = Bond(x, y)
    if choice(True, False):
        new = Bond(x, z)
        two_sided(x, z, 'a new bond')
        expect(y.bond is None and y.anotherSide() is None, 'the old partner of a leg with a new bond is free', y)
    else:
        new = Bond(z, y)
        two_sided(y, z, 'a new bond')
        expect(x.bond is None and x.anotherSide() is None, 'the old partner of a leg with a new bond is free', x)
    w = Leg(None, i, 'w')
    pair = choice(['x', 'y'], ['y', 'x'], ['x', 'w'], ['w', 'z'], ['z', 'w'])
    legs = {'x': x, 'y': y, 'z': z, 'w': w}
    p, q = legs[pair[0]], legs[pair[1]]
    Bond(p, q)
    two_sided(p, q, 'a third bond')
    for n in ['x', 'y', 'z', 'w']:
        if n not in pair:
            l = legs[n]
            if l.bond is not None:
                two_sided(l, l.anotherSide(), 'a bond that is left alone')
                expect(l.anotherSide() is not p and l.anotherSide() is not q, 'a leg has one partner', l)


def d_relink_tensors():
    """the same through makeLink, between three tensors"""
    i, j = dims('ij')
    a = dense('A', ['a', 'x'], [i, j])
    b = dense('B', ['b', 'y'], [i, j])
    c = dense('C', ['c', 'z'], [i, j])
    makeLink('a', 'b', a, b)
    makeLink('x', 'y', a, b)
    makeLink('a', 'c', a, c)
    two_sided(a.getLeg('a'), c.getLeg('c'), 'relinking')
    two_sided(a.getLeg('x'), b.getLeg('y'), 'the other link')
    expect(b.getLeg('b').bond is None, 'the old partner is free', b)
    s = shareBonds(a, b)
    expect(len(s) == 1 and s[0] is a.getLeg('x').bond, 'the shared bonds after relinking', a, b)
    r = contractTwoTensors(a, b)
    expect(sumpairs(r.a) == ('A.1~B.1',), 'the contraction after relinking', r)
    expect(r.labels == ['a', 'b'] and r.getLeg('a').anotherSide() is c.getLeg('c') and r.getLeg('b').bond is None, 'the legs after relinking', r)


def d_merge_link_names():
    """merging one or two parallel bonds names both sides as asked"""
    n = choice(1, 2, 3)
    pool = dims(['i', 'j', 'k'])[:n]
    a = dense('A', LA[:n] + ['f'], pool + [dim('f')])
    b = dense('B', LB[:n] + ['g'], pool + [dim('g')])
    makeLink(LA[:n], LB[:n], a, b)
    m = choice('one', 'pair', 'list', 'none')
    la, lb = '|'.join(LA[:n]), '|'.join(LB[:n])
    if m == 'one':
        mergeLink(a, b, 'w', renameWarning = False)
        la, lb = 'w', 'w'
    elif m == 'pair':
        mergeLink(a, b, ('v', 'w'), renameWarning = False)
        la, lb = 'v', 'w'
    elif m == 'list':
        mergeLink(a, b, ['v', 'w'], renameWarning = False)
        la, lb = 'v', 'w'
    else:
        mergeLink(a, b, renameWarning = False)
    expect(sorted(a.labels) == sorted([la, 'f']) and sorted(b.labels) == sorted([lb, 'g']), 'the merged legs carry the requested names', a, b)
    two_sided(a.getLeg(la), b.getLeg(lb), 'mergeLink')
