"""C03, every structure up to rank four: ordered selections of legs, duplicate labels, histories of two operations"""
from lib_enum import *


def fresh(mode, n):
    ls = NAMES[:n]
    return dense('A', ls, extents(mode, n)), ls, tagmap('A', ls)


def tg(ls, m):
    if len(ls) == 0:
        return '-'
    return '*'.join([m[x] for x in ls])


def move(n, modes):
    for mode in modes:
        for p in selections(NAMES[:n], range(1, n + 1)):
            t, ls, m = fresh(mode, n)
            rest = [x for x in ls if x not in p]
            t.moveLabelsToFront(p)
            expect(t.labels == p + rest, 'labels moved to the front in the requested order', t)
            check_legs(t, m, 'moveLabelsToFront')
            t, ls, m = fresh(mode, n)
            t.moveLegsToFront([t.getLeg(x) for x in p])
            expect(t.labels == p + rest, 'legs moved to the front in the requested order', t)
            check_legs(t, m, 'moveLegsToFront')
            if len(p) == n:
                t, ls, m = fresh(mode, n)
                x = t.toTensor(p)
                expect(tags(x) == tuple([m[l] for l in p]), 'toTensor gives the data in the requested order', t)
                check_legs(t, m, 'toTensor')


def d_move1():
    move(1, MODES)


def d_move2():
    move(2, MODES)


def d_move3():
    move(3, MODES)


def d_move4():
    move(4, ['distinct', 'equal'])


def d_move4_literal():
    move(4, ['literal', 'two'])


def outer(n, modes):
    for mode in modes:
        for p in selections(NAMES[:n], range(1, n + 1)):
            t, ls, m = fresh(mode, n)
            rest = [x for x in ls if x not in p]
            d = 1
            for x in p:
                d = d * t.shapeOfLabel(x)
            leg = t.outProduct(p, 'z')
            m['z'] = tg(p, m)
            expect(t.labels == ['z'] + rest, 'the merged leg comes first, the others keep their order', t)
            expect(leg is t.legs[0], 'outProduct returns the merged leg', t)
            expect(leg.dim == d, 'the merged extent is the product of the merged extents', t)
            check_legs(t, m, 'outProduct')


def d_outer1():
    outer(1, ['distinct', 'literal'])


def d_outer2():
    outer(2, ['distinct', 'equal', 'literal'])


def d_outer3():
    outer(3, ['distinct', 'equal', 'literal'])


def d_outer4():
    outer(4, ['distinct'])


def d_outer4_equal():
    outer(4, ['equal'])


def matrix(n, mode):
    for p in permutations(NAMES[:n]):
        p = list(p)
        for r in range(0, n + 1):
            rows, cols = p[:r], p[r:]
            for how in ['both', 'rows', 'cols']:
                t, ls, m = fresh(mode, n)
                lr = [t.getLeg(x) for x in rows]
                lc = [t.getLeg(x) for x in cols]
                wr, wc = rows, cols
                if how == 'both':
                    x = t.toMatrix(rows = lr, cols = lc)
                elif how == 'rows':
                    x = t.toMatrix(rows = lr, cols = None)
                    wc = [y for y in ls if y not in rows]
                else:
                    x = t.toMatrix(rows = None, cols = lc)
                    wr = [y for y in ls if y not in cols]
                expect(tags(x) == (tg(wr, m), tg(wc, m)), 'rows and columns of the matrix are the requested legs in the requested order', x)
                expect(t.labels == ls, 'toMatrix leaves the legs as they were', t)
                check_legs(t, m, 'toMatrix')


def d_matrix12():
    matrix(1, 'distinct')
    matrix(2, 'distinct')
    matrix(2, 'equal')


def d_matrix3():
    matrix(3, 'distinct')


def d_matrix3_equal():
    matrix(3, 'equal')


def d_matrix3_literal():
    matrix(3, 'literal')


def d_matrix4():
    matrix(4, 'distinct')


def d_matrix4_equal():
    matrix(4, 'equal')


def d_matrix_empty_labels():
    """an empty list stands for no rows or no columns"""
    for n in [1, 2, 3]:
        t, ls, m = fresh('distinct', n)
        x = t.toMatrix(rows = t.legs, cols = [])
        expect(tags(x) == (tg(ls, m), '-'), 'a matrix without column legs has one column', x)
        x = t.toMatrix(rows = [], cols = t.legs)
        expect(tags(x) == ('-', tg(ls, m)), 'a matrix without row legs has one row', x)


def summed(n, modes):
    for mode in modes:
        for x in range(n):
            for weighted in [False, True]:
                for byleg in [False, True]:
                    t, ls, m = fresh(mode, n)
                    w = arr('W', [t.legs[x].dim]) if weighted else None
                    if byleg:
                        t.sumOutLeg(t.legs[x], weights = w)
                    else:
                        t.sumOutLegByLabel(ls[x], weights = w)
                    expect(t.labels == ls[:x] + ls[x + 1:], 'summing a leg out removes that leg and no other', t)
                    check_legs(t, m, 'sumOutLeg')
                    expect(sumpairs(t.a) == ((m[ls[x]] + '~W.0') if weighted else m[ls[x]],), 'the sum runs over the requested axis', t)


def d_sum1():
    summed(1, ['distinct'])
    summed(2, ['distinct', 'equal'])
    summed(3, ['distinct', 'equal'])
    summed(4, ['distinct', 'equal'])


def d_sum_list():
    for n in [2, 3, 4]:
        for p in selections(NAMES[:n], range(1, n + 1)):
            t, ls, m = fresh('equal', n)
            t.sumOutLegByLabel(p)
            expect(t.labels == [x for x in ls if x not in p], 'summing out a list of labels removes exactly them', t)
            check_legs(t, m, 'sumOutLegByLabel')
            expect(sumpairs(t.a) == tuple(sorted([m[x] for x in p])), 'the sums run over the requested axes', t)


def d_duplicates():
    """equal labels on several legs"""
    for n in [2, 3, 4]:
        for ls in product('ab', repeat = n):
            ls = list(ls)
            for back in [False, True]:
                t = dense('A', ls, extents('distinct', n))
                for lab in ['a', 'b', 'x']:
                    hits = [i for i in range(n) if ls[i] == lab]
                    want = -1 if len(hits) == 0 else (hits[-1] if back else hits[0])
                    expect(t.indexOfLabel(lab, backward = back) == want, 'the index of a label is that of its first leg, or of its last when searching backward', t)
                    leg = t.getLeg(lab, backward = back)
                    if want == -1:
                        expect(leg is None, 'no leg for an absent label', t)
                    else:
                        expect(leg is t.legs[want], 'the leg of a label is its first, or its last when searching backward', t)
                        expect(t.shapeOfLabel(lab, backward = back) == t.legs[want].dim, 'the extent of a label is that of its leg', t)
                expect(t.labels == ls, 'looking labels up leaves the legs as they were', t)
                for x in range(n):
                    t = dense('A', ls, extents('distinct', n))
                    leg = t.legs[x]
                    expect(t.indexOfLeg(leg) == x, 'the index of a leg is its position', t)
                    t.sumOutLeg(leg)
                    expect(tags(t.a) == tuple(['A.' + str(i) for i in range(n) if i != x]), 'summing a leg out sums that leg, also when another has its label', t)
                    expect(t.labels == ls[:x] + ls[x + 1:], 'summing a leg out removes that leg and no other', t)
                    t = dense('A', ls, extents('distinct', n))
                    legs = t.legs
                    t.moveLegsToFront([legs[x]])
                    expect(tags(t.a) == tuple(['A.' + str(x)] + ['A.' + str(i) for i in range(n) if i != x]), 'moving a leg moves that leg, also when another has its label', t)
                if ls.count('a') > 0:
                    t = dense('A', ls, extents('distinct', n))
                    t.sumOutLegByLabel('a', backward = back)
                    hits = [i for i in range(n) if ls[i] == 'a']
                    x = hits[-1] if back else hits[0]
                    expect(tags(t.a) == tuple(['A.' + str(i) for i in range(n) if i != x]), 'label search sums the first leg of that name, or the last when searching backward', t)


def d_duplicates_rearrange():
    """legs with equal labels keep their order when rearranged by label"""
    for n in [2, 3, 4]:
        for ls in product('ab', repeat = n):
            ls = list(ls)
            for p in permutations(ls):
                p = list(p)
                t = dense('A', ls, extents('equal', n))
                t.reArrange(p)
                expect(t.labels == p, 'reArrange gives the requested order', t)
                used = []
                for l in p:
                    i = [x for x in range(n) if ls[x] == l and x not in used][0]
                    used.append(i)
                expect(sorted(tags(t.a)) == sorted(['A.' + str(x) for x in range(n)]), 'reArrange keeps every axis', t)
                for x in range(n):
                    w = tags(t.a)[x]
                    expect(t.legs[x].name == ls[int(w[2:])], 'every axis keeps its label', t)


def d_labels_other():
    """rearranging to labels that are not exactly those of the tensor is rejected"""
    for ls, p in [('abc', 'abb'), ('abc', 'aabc'), ('aab', 'abb'), ('abc', 'acbd'), ('ab', 'a'), ('ab', 'bac'), ('abc', 'abx')]:
        t = dense('A', list(ls), extents('equal', len(ls)))
        snap = freeze(t)
        try:
            t.reArrange(list(p))
        except AssertionError:
            unchanged(snap, 'a rejected rearrangement changes nothing')
        else:
            fail('labels that are not those of the tensor are rejected by reArrange', t)
        try:
            t.moveLabelsToFront(['x'] + list(p)[:1])
        except ValueError:
            unchanged(snap, 'a rejected move changes nothing')
        else:
            fail('an unknown label is rejected by moveLabelsToFront', t)


def step(t, ls, m, op, sums):
    """one operation on t; returns the expected labels"""
    n = len(ls)
    if op == 'rev':
        t.reArrange(ls[::-1])
        return ls[::-1]
    if op == 'last':
        t.moveLegsToFront([t.legs[-1]])
        return [ls[-1]] + ls[:-1]
    if op == 'two':
        t.moveLabelsToFront([ls[-1], ls[1]])
        return [ls[-1], ls[1]] + [x for x in ls if x not in [ls[-1], ls[1]]]
    if op == 'merge':
        new = 'z' + str(len(sums)) + str(n)
        t.outProduct([ls[-1], ls[0]], new)
        m[new] = m[ls[-1]] + '*' + m[ls[0]]
        return [new] + ls[1:-1]
    if op == 'sum':
        t.sumOutLegByLabel(ls[1])
        sums.append(m[ls[1]])
        return [ls[0]] + ls[2:]
    if op == 'rename':
        t.renameLabel(ls[0], ls[0] + 'r')
        m[ls[0] + 'r'] = m[ls[0]]
        return [ls[0] + 'r'] + ls[1:]
    if op == 'matrix':
        x = t.toMatrix(rows = [ls[-1]], cols = ls[:-1])
        expect(tags(x) == (m[ls[-1]], '*'.join([m[l] for l in ls[:-1]])), 'rows and columns of the matrix are the requested legs in the requested order', x)
        return ls
    if op == 'vector':
        x = t.toVector()
        expect(tags(x) == ('*'.join([m[l] for l in ls]),), 'the vector runs over the legs in order', x)
        return ls
    return ls


OPS = ['rev', 'last', 'two', 'merge', 'sum', 'rename', 'matrix', 'vector']


def history(mode, k):
    for ops in product(OPS, repeat = k):
        t, ls, m = fresh(mode, 5 if k > 2 else 4)
        sums = []
        for op in ops:
            if len(ls) < 3 and op in ['two', 'merge', 'sum']:
                continue
            ls = step(t, ls, m, op, sums)
            if op != 'sum':
                expect(t.labels == ls, 'the legs come in the requested order after a history of operations', t)
        if 'sum' in ops and 'merge' in ops:
            expect(t.labels == ls, 'the legs come in the requested order after a history of operations', t)
            for i in range(len(t.legs)):
                expect(t.legs[i].dim == t.a.shape[i] and t.legs[i].tensor is t, 'legs follow the data after a history of operations', t)
        else:
            expect(t.labels == ls, 'the legs come in the requested order after a history of operations', t)
            check_legs(t, m, 'a history of operations')
        if 'merge' not in ops:
            expect(sumpairs(t.a) == tuple(sorted(sums)), 'the sums ran over the requested axes', t)


def d_history2():
    history('distinct', 2)


def d_history2_equal():
    history('equal', 2)


def d_history3():
    history('distinct', 3)


def d_sum_list_backward():
    """a list of labels, some of them on several legs: every label in turn, the first or the last leg of its name"""
    for names in [['a', 'a'], ['a', 'b', 'a'], ['a', 'a', 'b'], ['b', 'a', 'a', 'a']]:
        for p in [['a'], ['a', 'a'], ['a', 'b'], ['b', 'a']]:
            for back in [False, True]:
                for weighted in [False, True]:
                    if [x for x in p if p.count(x) > names.count(x)]:
                        continue
                    d = dim('d')
                    t = dense('A', names, [d] * len(names))
                    w = arr('W', [d]) if weighted else None
                    left = list(range(len(names)))
                    for x in p:
                        hit = [k for k in left if names[k] == x]
                        left.remove(hit[-1] if back else hit[0])
                    g = diag('D', names, d)
                    legs = [g.legs[k] for k in left]
                    g.sumOutLegByLabel(p, backward = back, weights = w)
                    expect(len(g.legs) == len(legs) and all([x is y for x, y in zip(g.legs, legs)]), 'diagonal: every label of a list is searched in the direction asked for', g)
                    t.sumOutLegByLabel(p, backward = back, weights = w)
                    expect(tags(t.a) == tuple(['A.%d' % k for k in left]), 'every label of a list is searched in the direction asked for', t)
                    expect(t.labels == [names[k] for k in left], 'summing out a list of labels removes exactly them', t)
