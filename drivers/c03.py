"""C03: single-tensor operations keep data axes and legs in step"""
from lib_std import *

L3 = ['a', 'b', 'c']


def three():
    i, j, k = dims('ijk')
    return dense('A', ['a', 'b', 'c'], [i, j, k])


def four():
    i, j, k, l = dims('ijkl')
    return dense('A', ['a', 'b', 'c', 'd'], [i, j, k, l])


M3 = tagmap('A', ['a', 'b', 'c'])
M4 = tagmap('A', ['a', 'b', 'c', 'd'])
PERM3 = [['a', 'b', 'c'], ['a', 'c', 'b'], ['b', 'a', 'c'], ['b', 'c', 'a'], ['c', 'a', 'b'], ['c', 'b', 'a']]


def d_build():
    t = three()
    check_legs(t, M3, 'construction')
    expect(t.labels == ['a', 'b', 'c'], 'labels in the given order', t)
    i, j = dims('ij')
    u = Tensor(data = arr('A', [i, j]), shape = (i, j))
    expect(tags(u.a) == ('A.0', 'A.1'), 'generated labels keep the axis order', u)
    expect(u.labels == ['a', 'b'], 'default labels', u)
    expect(u.shape == (i, j), 'shape', u)


def d_move_front():
    for p in PERM3:
        for n in [1, 2, 3]:
            t = three()
            s = sumpairs(t.a)
            t.moveLegsToFront([t.getLeg(x) for x in p[:n]])
            rest = [x for x in ['a', 'b', 'c'] if x not in p[:n]]
            expect(t.labels == p[:n] + rest, 'legs moved to the front in the requested order', t)
            check_legs(t, M3, 'moveLegsToFront')
            u = three()
            u.moveLabelsToFront(p[:n])
            expect(u.labels == p[:n] + rest, 'labels moved to the front in the requested order', u)
            check_legs(u, M3, 'moveLabelsToFront')


def d_rearrange():
    for p in PERM3:
        t = three()
        t.reArrange(p)
        expect(t.labels == p, 'reArrange gives the requested order', t)
        check_legs(t, M3, 'reArrange')
        u = three()
        x = u.toTensor(p)
        expect(tags(x) == tuple([M3[l] for l in p]), 'toTensor gives the data in the requested order', u)
    t = four()
    t.reArrange(['d', 'b', 'a', 'c'])
    check_legs(t, M4, 'reArrange')
    expect(t.labels == ['d', 'b', 'a', 'c'], 'reArrange gives the requested order', t)
    t.reArrange(['c', 'a', 'd', 'b'])
    check_legs(t, M4, 'reArrange twice')


def d_rearrange_rejects():
    t = three()
    snap = freeze(t)
    try:
        t.reArrange(['a', 'b'])
    except AssertionError:
        unchanged(snap, 'a rejected rearrangement changes nothing')
    else:
        fail('an incomplete label list is rejected by reArrange', t)
    try:
        t.reArrange(['a', 'b', 'x'])
    except AssertionError:
        ok()
    else:
        fail('an unknown label is rejected by reArrange', t)


def merged(ls, m):
    return '*'.join([m[x] for x in ls])


def d_to_matrix():
    cases = [(['a'], ['b', 'c']), (['b'], ['a', 'c']), (['b', 'a'], ['c']), (['c', 'a'], ['b']), (['c'], ['b', 'a']), (['a', 'b'], ['c']),
             (['b', 'c'], ['a'])]
    for rows, cols in cases:
        for mode in ['both', 'rows', 'cols', 'legs']:
            t = three()
            wr, wc = rows, cols
            if mode == 'both':
                m = t.toMatrix(rows = rows, cols = cols)
            elif mode == 'legs':
                m = t.toMatrix(rows = [t.getLeg(x) for x in rows], cols = [t.getLeg(x) for x in cols])
            elif mode == 'rows':
                m = t.toMatrix(rows = rows, cols = None)
                wc = [x for x in ['a', 'b', 'c'] if x not in rows]
            else:
                m = t.toMatrix(rows = None, cols = cols)
                wr = [x for x in ['a', 'b', 'c'] if x not in cols]
            expect(tags(m) == (merged(wr, M3), merged(wc, M3)), 'rows and columns of the matrix are the requested legs in the requested order', m)
            check_legs(t, M3, 'toMatrix leaves the tensor as it was')
            expect(t.labels == ['a', 'b', 'c'], 'toMatrix leaves the legs as they were', t)
    t = four()
    m = t.toMatrix(rows = ['d', 'a'], cols = ['c', 'b'])
    expect(tags(m) == ('A.3*A.0', 'A.2*A.1'), 'rows and columns of the matrix are the requested legs in the requested order', m)


def d_to_matrix_rejects():
    t = three()
    try:
        m = t.toMatrix(rows = ['a'], cols = ['b'])
    except AssertionError:
        ok()
    else:
        fail('a matrix that leaves out a leg is rejected', t)
    try:
        m = t.toMatrix(rows = None, cols = None)
    except AssertionError:
        ok()
    else:
        fail('a matrix without rows and columns is rejected', t)


def d_to_vector():
    t = three()
    v = t.toVector()
    expect(tags(v) == ('A.0*A.1*A.2',), 'the vector runs over the legs in order', v)


def d_outproduct():
    for p in PERM3:
        for n in [1, 2, 3]:
            for byleg in [False, True]:
                t = three()
                d = 1
                for x in p[:n]:
                    d = d * t.shapeOfLabel(x)
                if byleg:
                    leg = t.outProduct([t.getLeg(x) for x in p[:n]], 'z')
                else:
                    leg = t.outProduct(p[:n], 'z')
                rest = [x for x in ['a', 'b', 'c'] if x not in p[:n]]
                m = dict(M3)
                m['z'] = merged(p[:n], M3)
                expect(t.labels == ['z'] + rest, 'the merged leg comes first, the others keep their order', t)
                expect(leg is t.legs[0], 'outProduct returns the merged leg', t)
                check_legs(t, m, 'outProduct')
                expect(leg.dim == d, 'the merged extent is the product of the merged extents', t)


def d_sum_out():
    for x in ['a', 'b', 'c']:
        for byleg in [False, True]:
            for weighted in [False, True]:
                t = three()
                w = None
                want = (M3[x],)
                if weighted:
                    w = arr('W', [t.shapeOfLabel(x)])
                if byleg:
                    t.sumOutLeg(t.getLeg(x), weights = w)
                else:
                    t.sumOutLegByLabel(x, weights = w)
                expect(t.labels == [y for y in ['a', 'b', 'c'] if y != x], 'summing a leg out removes that leg and no other', t)
                check_legs(t, M3, 'sumOutLeg')
                if weighted:
                    expect(sumpairs(t.a) == (M3[x] + '~W.0',), 'the weighted sum runs over the requested axis', t)
                else:
                    expect(sumpairs(t.a) == want, 'the sum runs over the requested axis', t)
    t = three()
    t.sumOutLegByLabel(['c', 'a'])
    check_legs(t, M3, 'sumOutLegByLabel list')
    expect(t.labels == ['b'], 'summing out a list of labels removes exactly them', t)
    expect(sumpairs(t.a) == ('A.0', 'A.2'), 'the sums run over the requested axes', t)


def d_sum_out_missing():
    t = three()
    snap = freeze(t)
    t.sumOutLegByLabel('x')
    unchanged(snap, 'summing out an absent label changes nothing')
    u = dense('B', ['a', 'b'], dims('ij'))
    t.sumOutLeg(u.getLeg('a'))
    unchanged(snap, 'summing out a foreign leg changes nothing')


def d_sum_out_duplicates():
    """equal labels: the first one by default, the last one when searching backward"""
    i, j, k = dims('ijk')
    for back in [False, True]:
        t = dense('A', ['a', 'b', 'a'], [i, j, k])
        t.sumOutLegByLabel('a', backward = back)
        if back:
            expect(tags(t.a) == ('A.0', 'A.1'), 'backward label search sums the last leg of that name', t)
        else:
            expect(tags(t.a) == ('A.1', 'A.2'), 'label search sums the first leg of that name', t)
        expect(len(t.legs) == 2 and t.legs[0].dim == t.a.shape[0] and t.legs[1].dim == t.a.shape[1], 'legs follow the data', t)


def d_trace():
    i, j = dims('ij')
    t = dense('A', ['a', 'b'], [i, i])
    r = t.trace(rows = ['a'], cols = ['b'])
    expect(sumpairs(r) == ('A.0~A.1',), 'the trace pairs rows with columns', t)
    u = dense('A', ['a', 'b', 'c', 'd'], [i, j, j, i])
    r = u.trace(rows = ['a', 'b'], cols = ['d', 'c'])
    expect(sumpairs(r) == ('A.0~A.3', 'A.1~A.2'), 'the trace pairs rows with columns', u)
    w = dense('A', ['a', 'b'], [i, j])
    try:
        r = w.trace(rows = ['a'], cols = ['b'])
    except AssertionError:
        ok()
    else:
        fail('the trace of a rectangular matrix is rejected', w)


def d_diag_moves():
    """a diagonal tensor looks the same along every leg: only the leg order changes"""
    n = dim('n')
    for p in PERM3:
        for k in [1, 2, 3]:
            t = diag('D', ['a', 'b', 'c'], n)
            t.moveLabelsToFront(p[:k])
            rest = [x for x in ['a', 'b', 'c'] if x not in p[:k]]
            expect(t.labels == p[:k] + rest, 'labels moved to the front in the requested order', t)
            expect(tags(t.a) == ('D.0',), 'the diagonal is untouched', t)
            expect(t.shape == (n, n, n), 'shape', t)


def d_foreign_leg_order():
    """several operations in a row"""
    t = four()
    t.moveLabelsToFront(['c', 'b'])
    leg = t.outProduct(['d', 'c'], 'z')
    t.sumOutLegByLabel('a')
    m = dict(M4)
    m['z'] = 'A.3*A.2'
    check_legs(t, m, 'a history of operations')
    expect(sorted(t.labels) == ['b', 'z'], 'the remaining legs', t)
    expect(sumpairs(t.a) == ('A.0',), 'the sum ran over the requested axis', t)


def d_rename():
    t = three()
    t.renameLabel('b', 'y')
    expect(t.labels == ['a', 'y', 'c'], 'renaming changes that label and no other', t)
    check_legs(t, {'a': 'A.0', 'y': 'A.1', 'c': 'A.2'}, 'renameLabel')
    t.renameLabels(['a', 'c'], ['x', 'z'])
    expect(t.labels == ['x', 'y', 'z'], 'renaming changes those labels and no other', t)
    check_legs(t, {'x': 'A.0', 'y': 'A.1', 'z': 'A.2'}, 'renameLabels')
    u = three()
    u.addTensorTag('T')
    expect(u.labels == ['T-a', 'T-b', 'T-c'], 'every label gets the tensor tag', u)
    u.removeTensorTag()
    expect(u.labels == ['a', 'b', 'c'], 'removing the tag gives the labels back', u)
    check_legs(u, M3, 'tags')
    w = three()
    snap = freeze(w)
    w.renameLabel('x', 'y')
    unchanged(snap, 'renaming an absent label changes nothing')


def d_complement():
    for p in PERM3:
        for n in [0, 1, 2, 3]:
            t = three()
            rest = t.complementLegs([t.getLeg(x) for x in p[:n]])
            expect([l.name for l in rest] == [x for x in ['a', 'b', 'c'] if x not in p[:n]], 'the complement lists the other legs in their order', t)
            got = t.getLegsByLabel(p[:n])
            expect(len(got) == n, 'one leg per label', t)
            for i in range(n):
                expect(got[i] is t.getLeg(p[i]), 'legs are found in the order of the labels', t)


def d_all_legs_to_front():
    t = three()
    t.moveLegsToFront(t.legs)
    expect(t.labels == ['a', 'b', 'c'], 'moving all legs to the front in their order changes nothing', t)
    check_legs(t, M3, 'moveLegsToFront with all legs')


def d_caller_list():
    """an operation leaves the list of legs the caller passed alone"""
    t = three()
    ls = [t.getLeg('c'), t.getLeg('a')]
    t.moveLegsToFront(ls)
    expect([l.name for l in ls] == ['c', 'a'], 'the caller\'s list of legs is not changed', t)
    u = three()
    ls = [u.getLeg('c'), u.getLeg('a')]
    u.outProduct(ls, 'z')
    expect([l.name for l in ls] == ['c', 'a'], 'the caller\'s list of legs is not changed', u)
    v = three()
    ls = ['c', 'a', 'b']
    v.reArrange(ls)
    expect(ls == ['c', 'a', 'b'], 'the caller\'s list of labels is not changed', v)


def d_sum_out_list_weights():
    t = three()
    w = arr('W', [t.shapeOfLabel('b')])
    t.sumOutLegByLabel(['b'], weights = w)
    expect(sumpairs(t.a) == ('A.1~W.0',), 'weights given with a list of labels are used', t)
