"""C04: what a pairwise contraction sums over and what its result's legs mean"""
from lib_std import *


def pair_case(la, lb, da, db, pairs, order, swap):
    """contract A(la) with B(lb) over the listed (labelA, labelB) pairs, linked in the given order/orientation"""
    a = dense('A', la, da)
    b = dense('B', lb, db)
    ta = tagmap('A', la)
    tb = tagmap('B', lb)
    tagof = dict(ta)
    for l in tb:
        tagof[l] = tb[l]
    want = []
    gone = []
    k = 0
    for x, y in [pairs[i] for i in order]:
        if swap[k]:
            makeLink(y, x, b, a)
        else:
            makeLink(x, y, a, b)
        k = k + 1
        want.append(ta[x] + '~' + tb[y])
        gone.append(x)
        gone.append(y)
    remain = [l for l in la + lb if l not in gone]
    r = contractTwoTensors(a, b)
    expect(sumpairs(r.a) == tuple(sorted(want)), 'contraction sums over exactly the bonded index pairs', r)
    expect(sorted(r.labels) == sorted(remain), 'the result carries exactly the unbonded legs of both operands', r)
    check_legs(r, tagof, 'dense contraction')
    expect(same(term(r.a), term(a.a) * term(b.a)) == True, 'the result is built from both operands exactly once', r)


def d_one_bond():
    i, j, k, l, m = dims('ijklm')
    pair_case(['a', 'b'], ['c', 'd'], [i, j], [j, k], [('b', 'c')], [0], [False])
    pair_case(['a', 'b'], ['c', 'd'], [j, i], [k, j], [('a', 'd')], [0], [True])
    pair_case(['a', 'b', 'e'], ['c', 'd', 'f'], [i, j, k], [l, j, m], [('b', 'd')], [0], [maybe()])


def d_two_bonds():
    i, j, k, l = dims('ijkl')
    for order in [[0, 1], [1, 0]]:
        for s0 in [False, True]:
            for s1 in [False, True]:
                pair_case(['a', 'b', 'c'], ['d', 'e', 'f'], [i, j, k], [k, l, i], [('a', 'f'), ('c', 'd')], order, [s0, s1])
                pair_case(['a', 'b', 'c', 'g'], ['d', 'e', 'f'], [i, j, i, k], [i, l, j], [('a', 'd'), ('b', 'f')], order, [s0, s1])


def d_full():
    i, j, k = dims('ijk')
    pair_case(['a', 'b'], ['c', 'd'], [i, j], [j, i], [('a', 'd'), ('b', 'c')], [1, 0], [False, True])
    pair_case(['a', 'b', 'x'], ['c', 'd', 'y'], [i, j, k], [k, i, j], [('a', 'd'), ('b', 'y'), ('x', 'c')], [2, 0, 1], [False, True, False])


def build(kind, name, labels, exts):
    if kind == 'dense':
        return dense(name, labels, exts)
    return diag(name, labels, exts[0])


def tagof(kind, name, labels):
    m = {}
    for i in range(len(labels)):
        if kind == 'dense':
            m[labels[i]] = name + '.' + str(i)
        else:
            m[labels[i]] = name + '.0'
    return m


def d_diag_dense():
    """a diagonal operand: the surviving legs of the diagonal tensor all run along the diagonal, the others are untouched"""
    n, j, k = dims('njk')
    cases = [
        (['a', 'b'], ['c', 'd'], [n, j], [('b', 'c')]),
        (['a', 'b'], ['c', 'd'], [j, n], [('a', 'd')]),
        (['a', 'b', 'e'], ['c', 'd'], [j, n], [('a', 'd')]),
        (['a', 'b', 'e'], ['c', 'd', 'f'], [j, n, k], [('e', 'd')]),
        (['a', 'b'], ['c', 'd', 'f'], [n, j, n], [('a', 'f'), ('b', 'c')]),
        (['a', 'b', 'e'], ['c', 'd', 'f'], [n, j, n], [('a', 'f'), ('e', 'c')]),
        (['a', 'b', 'e', 'g'], ['c', 'd', 'f'], [n, j, n], [('a', 'f'), ('e', 'c')]),
        (['a', 'b', 'e'], ['c', 'd', 'f'], [n, n, n], [('a', 'f'), ('b', 'd'), ('e', 'c')]),
        (['a'], ['c', 'd'], [n, j], [('a', 'c')]),
        (['a'], ['d', 'c'], [j, n], [('a', 'c')]),
    ]
    for la, lb, db, pairs in cases:
        for flip in [False, True]:
            for rev in [False, True]:
                a = diag('D', la, n)
                b = dense('B', lb, db)
                tb = tagmap('B', lb)
                gone = []
                hit = []
                for x, y in (pairs[::-1] if rev else pairs):
                    if rev:
                        makeLink(y, x, b, a)
                    else:
                        makeLink(x, y, a, b)
                    gone.append(x)
                    gone.append(y)
                    hit.append(tb[y])
                if flip:
                    r = contractTwoTensors(b, a)
                else:
                    r = contractTwoTensors(a, b)
                arem = [l for l in la if l not in gone]
                brem = [l for l in lb if l not in gone]
                expect(sorted(r.labels) == sorted(arem + brem), 'the result carries exactly the unbonded legs of both operands', r)
                want = {}
                for l in brem:
                    want[l] = tb[l]
                joint = '+'.join(sorted(hit + ['D.0']))
                for l in arem:
                    want[l] = joint
                if len(arem) == 0:
                    expect(sumpairs(r.a) == ('~'.join(sorted(hit + ['D.0'])),), 'contraction with a diagonal operand sums over exactly the bonded indices', r)
                else:
                    expect(sumpairs(r.a) == (), 'legs that stay open along the diagonal are not summed', r)
                check_legs(r, want, 'diagonal-dense contraction')
                expect(r.diagonalFlag == False, 'a diagonal-dense contraction gives a dense tensor', r)


def d_diag_diag():
    n = dim('n')
    cases = [
        (['a', 'b'], ['c', 'd'], [('b', 'c')]),
        (['a', 'b', 'e'], ['c', 'd'], [('e', 'c')]),
        (['a', 'b', 'e'], ['c', 'd'], [('e', 'c'), ('a', 'd')]),
        (['a', 'b'], ['c', 'd'], [('b', 'c'), ('a', 'd')]),
        (['a', 'b', 'e'], ['c', 'd', 'f'], [('b', 'c'), ('a', 'd'), ('e', 'f')]),
    ]
    for la, lb, pairs in cases:
        for flip in [False, True]:
            a = diag('D', la, n)
            b = diag('E', lb, n)
            gone = []
            for x, y in pairs:
                makeLink(x, y, a, b)
                gone.append(x)
                gone.append(y)
            r = contractTwoTensors(b, a) if flip else contractTwoTensors(a, b)
            rem = [l for l in la + lb if l not in gone]
            expect(sorted(r.labels) == sorted(rem), 'the result carries exactly the unbonded legs of both operands', r)
            expect(same(term(r.a), term(a.a) * term(b.a)) == True, 'the diagonal of the product is the product of the diagonals', r)
            if len(rem) == 0:
                expect(sumpairs(r.a) == ('D.0~E.0',), 'a full contraction of diagonal tensors sums over the diagonal', r)
                expect(r.shape == (), 'a full contraction is a scalar', r)
            else:
                expect(sumpairs(r.a) == (), 'legs that stay open along the diagonal are not summed', r)
                expect(tags(r.a) == ('D.0+E.0',), 'the diagonal runs along the diagonals of both operands', r)
                expect(r.diagonalFlag == True, 'the contraction of two bonded diagonal tensors is diagonal', r)
            for leg in r.legs:
                expect(leg.tensor is r, 'legs belong to the tensor that carries them', r)
                expect(leg.dim == n, 'leg extent equals the axis extent', r)


def d_outer():
    """no shared bond: the outer product, with every leg of both operands in place"""
    n, m, j, k = dims('nmjk')
    for ka, da in [('dense', [n, j]), ('diag', [n, n])]:
        for kb, db in [('dense', [k, m]), ('diag', [m, m])]:
            for lb in [['c', 'd']]:
                a = build(ka, 'A', ['a', 'b'], da)
                b = build(kb, 'B', lb, db)
                m1 = tagof(ka, 'A', ['a', 'b'])
                m2 = tagof(kb, 'B', lb)
                for l in m2:
                    m1[l] = m2[l]
                r = contractTwoTensors(a, b, outProductWarning = False)
                expect(sorted(r.labels) == ['a', 'b', 'c', 'd'], 'an outer product carries every leg of both operands', r)
                expect(sumpairs(r.a) == (), 'an outer product sums over nothing', r)
                check_legs(r, m1, 'outer product')
    for ka, da, la in [('dense', [n], ['a']), ('diag', [n, n, n], ['a', 'x', 'y'])]:
        a = build(ka, 'A', la, da)
        b = build('dense', 'B', ['c', 'd', 'e'], [k, n, j])
        m1 = tagof(ka, 'A', la)
        m2 = tagof('dense', 'B', ['c', 'd', 'e'])
        for l in m2:
            m1[l] = m2[l]
        r = contractTwoTensors(b, a, outProductWarning = False)
        check_legs(r, m1, 'outer product')


def d_scalar_factor():
    """a leg-free operand only scales the other one"""
    n, j = dims('nj')
    for kb, db in [('dense', [n, j]), ('diag', [n, n])]:
        for ka in ['dense', 'diag']:
            if ka == 'dense':
                a = Tensor(data = arr('S', []), labels = [])
            else:
                a = DiagonalTensor(data = arr('S', []))
            b = build(kb, 'B', ['c', 'd'], db)
            r = contractTwoTensors(a, b, outProductWarning = False)
            expect(sorted(r.labels) == ['c', 'd'], 'a scalar factor adds no legs', r)
            if kb == 'dense':
                check_legs(r, tagof(kb, 'B', ['c', 'd']), 'scalar factor')


def d_scalar_products():
    """products of diagonal tensors one of which has no legs"""
    n = dim('n')
    x = DiagonalTensor(shape = (), data = arr('A', []))
    y = DiagonalTensor(shape = (), data = arr('B', []))
    z = DiagonalTensor(shape = (n, n), labels = ['u', 'v'], data = arr('C', [n]))
    w = DiagonalTensor(shape = (n, ), labels = ['u'], data = arr('D', [n]))
    for p, q in [(x, y), (x, z), (z, y), (w, x), (x, w)]:
        m = term(p.a) * term(q.a)
        labels = p.labels + q.labels
        shape = p.shape + q.shape
        r = contractTwoTensors(p, q, outProductWarning = False)
        expect(equivalent(term(r.a), m), 'the product with a scalar has the products of the entries', r)
        expect(r.labels == labels and r.shape == shape, 'the product with a scalar has the legs of the other operand', r)
        expect(r.diagonalFlag == True, 'the product of diagonal tensors with a scalar is diagonal', r)


def d_given_bonds():
    """contracting over a chosen subset of the shared bonds leaves the other bonds open"""
    i, j, k, l = dims('ijkl')
    for flip in [False, True]:
        a = dense('A', ['a', 'b', 'c'], [i, j, k])
        b = dense('B', ['d', 'e', 'f'], [k, l, i])
        keep = makeLink('a', 'f', a, b)
        if flip:
            use = makeLink('d', 'c', b, a)
        else:
            use = makeLink('c', 'd', a, b)
        r = contractTwoTensors(a, b, bonds = use)
        expect(sumpairs(r.a) == ('A.2~B.0',), 'only the given bonds are contracted', r)
        m = tagmap('A', ['a', 'b', 'c'])
        m2 = tagmap('B', ['d', 'e', 'f'])
        for x in m2:
            m[x] = m2[x]
        expect(sorted(r.labels) == ['a', 'b', 'e', 'f'], 'legs of bonds that were not given stay open', r)
        check_legs(r, m, 'contraction over given bonds')
        expect(r.getLeg('a').anotherSide() is r.getLeg('f'), 'bonds that were not given stay in place', r)


def d_chain():
    """legs that survive one contraction keep their bonds and are contracted correctly in the next"""
    i, j, k, l, m = dims('ijklm')
    a = dense('A', ['a', 'b', 'x'], [i, j, m])
    b = dense('B', ['c', 'd'], [j, k])
    c = dense('C', ['e', 'f', 'y'], [k, l, m])
    makeLink('b', 'c', a, b)
    makeLink('d', 'e', b, c)
    makeLink('y', 'x', c, a)
    first = choice(0, 1, 2)
    if first == 0:
        r = contractTwoTensors(contractTwoTensors(a, b), c)
    elif first == 1:
        r = contractTwoTensors(contractTwoTensors(c, b), a)
    else:
        r = contractTwoTensors(b, contractTwoTensors(a, c))
    expect(sumpairs(r.a) == ('A.1~B.0', 'A.2~C.2', 'B.1~C.0'), 'a sequence of contractions sums over every bond once', r)
    check_legs(r, {'a': 'A.0', 'f': 'C.1'}, 'contraction sequence')


def d_matmul_operator():
    i, j, k = dims('ijk')
    a = dense('A', ['a', 'b'], [i, j])
    b = dense('B', ['c', 'd'], [k, j])
    makeLink('b', 'd', a, b)
    r = a @ b
    expect(sumpairs(r.a) == ('A.1~B.1',), 'the @ operator contracts the shared bonds', r)
    check_legs(r, {'a': 'A.0', 'c': 'B.0'}, '@ operator')
    d = diag('D', ['e', 'f'], i)
    makeLink('a', 'e', a, d)
    r = d @ a
    expect(sumpairs(r.a) == ('A.0~D.0',) or sumpairs(r.a) == (), 'the @ operator of a diagonal tensor', r)
    expect(set(r.labels) == {'b', 'f'}, 'the @ operator of a diagonal tensor contracts the shared bonds', r)
    e = diag('E', ['g', 'h'], i)
    f = diag('F', ['p', 'q'], i)
    makeLink('h', 'p', e, f)
    r = e @ f
    expect(r.diagonalFlag and set(r.labels) == {'g', 'q'}, 'the @ operator of two diagonal tensors contracts the shared bonds', r)
