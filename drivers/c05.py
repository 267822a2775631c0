"""C05: bonds are two-sided, equal-extent links between legs"""
from lib_std import *
from CTL.tensor.leg import Leg
from CTL.tensor.bond import Bond
from CTL.tensor.contract.link import mergeLink
from CTL.tensor.contract.contract import merge, shareBonds


def two_sided(x, y, what):
    """x and y are the two sides of one bond"""
    expect(x.bond is not None and x.bond is y.bond, what + ': both legs carry the same bond', x, y)
    expect(x.anotherSide() is y and y.anotherSide() is x, what + ': each leg sees the other as its other side', x, y)
    a, b = x.bond.legs
    expect((a is x and b is y) or (a is y and b is x), what + ': the bond joins exactly these two legs', x.bond)
    expect(x.dim == y.dim, what + ': bonded legs have equal extent', x, y)


def d_bond():
    i = dim('i')
    x = Leg(None, i, 'x')
    y = Leg(None, i, 'y')
    expect(x.anotherSide() is None, 'a free leg has no other side', x)
    b = Bond(x, y, 'nm')
    two_sided(x, y, 'Bond')
    expect(b.name == 'nm', 'bond name', b)
    expect(b.anotherSide(x) is y and b.anotherSide(y) is x, 'other side of a bond', b)
    z = Leg(None, i, 'z')
    try:
        r = b.anotherSide(z)
    except AssertionError:
        ok()
    else:
        fail('asking for the other side of a leg that is not in the bond is rejected', b)


def d_bond_rejects():
    i, j = dims('ij')
    x = Leg(None, i, 'x')
    y = Leg(None, j, 'y')
    try:
        b = Bond(x, y)
    except AssertionError:
        expect(x.bond is None and y.bond is None, 'a rejected bond leaves both legs free', x, y)
    else:
        fail('legs with different extents cannot be bonded', b)
    try:
        b = Bond(x, None)
    except AssertionError:
        expect(x.bond is None, 'a rejected bond leaves the leg free', x)
    else:
        fail('a bond needs two legs', b)
    t = dense('A', ['a'], [i])
    try:
        b = Bond(x, t)
    except AssertionError:
        expect(x.bond is None, 'a rejected bond leaves the leg free', x)
    else:
        fail('a bond needs two legs', b)


def d_side():
    i, j, k = dims('ijk')
    a = dense('A', ['a', 'b'], [i, j])
    b = dense('B', ['c', 'd'], [j, k])
    c = dense('C', ['e'], [j])
    bond = makeLink('b', 'c', a, b)[0]
    expect(bond.sideLeg(a) is a.getLeg('b') and bond.sideLeg(b) is b.getLeg('c'), 'the side of a bond at a tensor is the leg of that tensor', bond)
    try:
        r = bond.sideLeg(c)
    except ValueError:
        ok()
    else:
        fail('a bond has no side at a tensor it does not touch', bond)


def d_make_link():
    i, j, k, l = dims('ijkl')
    for mode in ['label', 'labels', 'leg', 'legs', 'mixed']:
        a = dense('A', ['a', 'b', 'c'], [i, j, k])
        b = dense('B', ['d', 'e', 'f'], [k, l, j])
        x, y = a.getLeg('b'), b.getLeg('f')
        u, v = a.getLeg('c'), b.getLeg('d')
        if mode == 'label':
            r = makeLink('b', 'f', a, b)
            r = r + makeLink('d', 'c', b, a)
        elif mode == 'labels':
            r = makeLink(['b', 'c'], ['f', 'd'], a, b)
        elif mode == 'leg':
            r = makeLink(x, y)
            r = r + makeLink(u, v)
        elif mode == 'legs':
            r = makeLink([x, u], [y, v])
        else:
            r = makeLink('b', y, tensorA = a)
            r = r + makeLink([u], ['d'], tensorB = b)
        expect(len(r) == 2 and r[0] is x.bond and r[1] is u.bond, 'the new bonds are returned in order', x, u)
        two_sided(x, y, 'makeLink')
        two_sided(u, v, 'makeLink')
        expect(a.getLeg('a').bond is None and b.getLeg('e').bond is None, 'other legs stay free', a, b)
        expect(a.labels == ['a', 'b', 'c'] and b.labels == ['d', 'e', 'f'], 'linking does not touch the legs of the tensors', a, b)


def d_make_link_rejects():
    i, j = dims('ij')
    a = dense('A', ['a', 'b'], [i, j])
    b = dense('B', ['c', 'd'], [i, j])
    snap = freeze(a, b)
    try:
        makeLink('a', 'd', a, b)
    except AssertionError:
        unchanged(snap, 'a rejected link changes nothing')
    else:
        fail('legs with different extents cannot be linked', a, b)
    try:
        makeLink(['a', 'b'], ['c'], a, b)
    except AssertionError:
        unchanged(snap, 'a rejected link changes nothing')
    else:
        fail('link lists of different lengths are rejected', a, b)
    try:
        makeLink('a', 'c')
    except AssertionError:
        unchanged(snap, 'a rejected link changes nothing')
    else:
        fail('a label needs a tensor', a, b)


def d_share():
    i, j, k = dims('ijk')
    a = dense('A', ['a', 'b', 'c'], [i, j, k])
    b = dense('B', ['d', 'e', 'f'], [i, j, k])
    c = dense('C', ['g'], [k])
    makeLink('e', 'b', b, a)
    makeLink('c', 'g', a, c)
    makeLink('a', 'd', a, b)
    s = shareBonds(a, b)
    expect(len(s) == 2 and a.getLeg('a').bond in s and a.getLeg('b').bond in s, 'shared bonds are exactly the bonds between the two tensors', a, b)
    for bond in s:
        expect(bond.legs[0].tensor is a and bond.legs[1].tensor is b, 'shared bonds run from the first to the second tensor', bond)
    two_sided(a.getLeg('b'), b.getLeg('e'), 'shareBonds')
    two_sided(a.getLeg('a'), b.getLeg('d'), 'shareBonds')
    two_sided(a.getLeg('c'), c.getLeg('g'), 'shareBonds')
    expect(shareBonds(b, c) == [], 'tensors without a common bond share none', b, c)


def d_contract_keeps():
    """bonds to third tensors survive a contraction"""
    i, j, k, l = dims('ijkl')
    for flip in [False, True]:
        a = dense('A', ['a', 'b', 'c'], [i, j, k])
        b = dense('B', ['d', 'e'], [j, l])
        c = dense('C', ['g', 'h'], [k, l])
        makeLink('b', 'd', a, b)
        makeLink('c', 'g', a, c)
        makeLink('h', 'e', c, b)
        r = contractTwoTensors(b, a) if flip else contractTwoTensors(a, b)
        two_sided(r.getLeg('c'), c.getLeg('g'), 'after a contraction')
        two_sided(r.getLeg('e'), c.getLeg('h'), 'after a contraction')
        expect(r.getLeg('a').bond is None, 'free legs stay free', r)
        for leg in r.legs:
            expect(leg.tensor is r, 'legs belong to the result', r)
        expect(len(shareBonds(r, c)) == 2, 'the result shares the surviving bonds', r, c)
        x = contractTwoTensors(r, c)
        expect(x.labels == ['a'], 'only the free leg is left', x)


def d_merge_link():
    i, j, k, l = dims('ijkl')
    for order in [False, True]:
        for nm in [None, 'z', ('p', 'q')]:
            a = dense('A', ['a', 'b', 'c'], [i, j, k])
            b = dense('B', ['d', 'e', 'f'], [k, l, j])
            if order:
                makeLink('b', 'f', a, b)
                makeLink('d', 'c', b, a)
            else:
                makeLink('c', 'd', a, b)
                makeLink('b', 'f', a, b)
            if nm is None:
                ra, rb = mergeLink(a, b)
            else:
                ra, rb = mergeLink(a, b, bondName = nm)
            expect(ra is a and rb is b, 'mergeLink works on the given tensors', a, b)
            expect(len(a.legs) == 2 and len(b.legs) == 2, 'all common bonds become one', a, b)
            x = a.legs[0]
            y = x.anotherSide()
            expect(y is not None and y.tensor is b, 'the merged leg is bonded to the other tensor', a, b)
            two_sided(x, y, 'mergeLink')
            expect(x.dim == j * k, 'the merged extent is the product', x)
            tx = tags(a.a)[a.legs.index(x)]
            ty = tags(b.a)[b.legs.index(y)]
            expect((tx, ty) in [('A.1*A.2', 'B.2*B.0'), ('A.2*A.1', 'B.0*B.2')], 'both merged legs run over the bonds in the same order', a, b)
            expect(tags(a.a)[1 - a.legs.index(x)] == 'A.0' and tags(b.a)[1 - b.legs.index(y)] == 'B.1', 'the other legs are untouched', a, b)
            if nm == 'z':
                expect(x.name == 'z' and y.name == 'z', 'the merged legs get the requested name', x, y)
            if nm == ('p', 'q'):
                expect(x.name == 'p' and y.name == 'q', 'the merged legs get the requested names', x, y)


def d_merge_link_one():
    i, j, k = dims('ijk')
    a = dense('A', ['a', 'b'], [i, j])
    b = dense('B', ['c', 'd'], [j, k])
    x, y = a.getLeg('b'), b.getLeg('c')
    makeLink('b', 'c', a, b)
    mergeLink(a, b, bondName = 'z', renameWarning = False)
    two_sided(x, y, 'mergeLink with one bond')
    expect(a.labels == ['a', 'z'] and b.labels == ['z', 'd'], 'a single bond is only renamed', a, b)
    check_legs(a, {'a': 'A.0', 'z': 'A.1'}, 'mergeLink with one bond')
    c = dense('C', ['c'], [k])
    snap = freeze(a, c)
    mergeLink(a, c)
    unchanged(snap, 'merging without a common bond changes nothing')


def d_merge_outgoing():
    """bonds to other tensors stay out of a merge"""
    i, j, k, l = dims('ijkl')
    a = dense('A', ['a', 'b', 'c'], [i, j, k])
    b = dense('B', ['d', 'e', 'f'], [k, l, j])
    c = dense('C', ['g'], [i])
    makeLink('a', 'g', a, c)
    makeLink('c', 'd', a, b)
    makeLink('b', 'f', a, b)
    mergeLink(a, b, bondName = 'z')
    two_sided(a.getLeg('a'), c.getLeg('g'), 'mergeLink')
    two_sided(a.getLeg('z'), b.getLeg('z'), 'mergeLink')
    expect(len(a.legs) == 2, 'only the common bonds are merged', a)
