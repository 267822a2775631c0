"""C18: labels find legs, and renaming changes exactly the labels it is given"""
from lib_enum import *
from CTL.tensor.tensor import TensorLike

KINDS = ['dense', 'diag', 'like', 'diaglike']


def build(kind, name, ls):
    n = len(ls)
    if kind == 'dense':
        return dense(name, ls, extents('distinct', n))
    if kind == 'like':
        return TensorLike(shape = tuple(extents('distinct', n)), labels = ls)
    t = diag(name, ls, dim('n'))
    if kind == 'diaglike':
        return t.toTensorLike()
    return t


def index(ls, lab, back):
    hits = [i for i in range(len(ls)) if ls[i] == lab]
    if len(hits) == 0:
        return -1
    return hits[-1] if back else hits[0]


def d_lookup():
    """every query by label, with equal and absent labels"""
    kind = choice('dense', 'diag', 'like', 'diaglike')
    for n in [1, 2, 3, 4]:
        for ls in product('ab', repeat = n):
            ls = list(ls)
            t = build(kind, 'A', ls)
            legs = list(t.legs)
            snap = freeze(t)
            for back in [False, True]:
                for lab in ['a', 'b', 'x', '']:
                    i = index(ls, lab, back)
                    expect(t.indexOfLabel(lab, backward = back) == i, 'the index of a label is that of its first leg, or of its last when searching backward', t)
                    leg = t.getLeg(lab, backward = back)
                    expect(leg is None if i == -1 else leg is legs[i], 'the leg of a label is its first, or its last when searching backward', t)
                    expect(t.shapeOfLabel(lab, backward = back) == (-1 if i == -1 else legs[i].dim), 'the extent of a label is that of its leg, -1 for none', t)
                    expect(t.labelInTensor(lab) == (i != -1), 'a label is in the tensor iff a leg has it', t)
            unchanged(snap, 'looking labels up changes nothing')


def d_lookup_distinct():
    """lists of labels, in every order"""
    kind = choice('dense', 'diag', 'like', 'diaglike')
    for n in [1, 2, 3, 4]:
        ls = NAMES[:n]
        t = build(kind, 'A', ls)
        legs = list(t.legs)
        snap = freeze(t)
        for k in range(n + 1):
            for p in permutations(range(n), k):
                want = [ls[i] for i in p]
                back = (k % 2 == 1)
                expect(list(t.getLabelIndices(want, backward = back)) == list(p), 'the indices come in the order of the labels', t)
                got = t.shapeOfLabels(want, backward = back)
                expect(len(got) == k, 'one extent per label', t)
                for x in range(k):
                    expect(got[x] == legs[p[x]].dim, 'the extents come in the order of the labels', t)
                got = t.getLegsByLabel(want)
                expect(len(got) == k, 'one leg per label', t)
                for x in range(k):
                    expect(got[x] is legs[p[x]], 'the legs come in the order of the labels', t)
                    expect(t.indexOfLeg(got[x]) == p[x], 'the index of a leg is its position', t)
                    expect(t.shapeOfIndex(p[x]) == legs[p[x]].dim, 'the extent of a position is that of its leg', t)
                expect(list(t.getLegIndices(got)) == list(p), 'the indices come in the order of the legs', t)
                s = t.shapeOfIndices(list(p))
                for x in range(k):
                    expect(s[x] == legs[p[x]].dim, 'the extents come in the order of the positions', t)
                expect(t.labelsInTensor(want), 'all labels are in the tensor', t)
                for x in range(k + 1):
                    expect(not t.labelsInTensor(want[:x] + ['x'] + want[x:]), 'an absent label is noticed anywhere in the list', t)
                rest = t.complementLegs(got)
                expect([l.name for l in rest] == [l for l in ls if l not in want], 'the complement lists the other legs in their order', t)
        for bad in [['x'], ['x', 'a'], ['a', 'x'], ['a', 'a'] if n > 1 else ['x', 'x']]:
            try:
                t.getLegsByLabel(bad)
            except ValueError:
                ok()
            else:
                fail('a list with labels the tensor does not have is rejected', t)
        expect(tuple(t.shapeOfLabels(['x', 'a', 'y'])) == (-1, t.legs[0].dim, -1), 'an absent label has extent -1', t)
        expect(list(t.getLabelIndices(['x', 'a', 'y'])) == [-1, 0, -1], 'an absent label has index -1', t)
        unchanged(snap, 'looking labels up changes nothing')


def d_two_equal():
    """a label that is asked for twice"""
    kind = choice('dense', 'diag', 'like', 'diaglike')
    for ls in [['a', 'a'], ['a', 'b', 'a'], ['b', 'a', 'a'], ['a', 'a', 'b'], ['b', 'a', 'c', 'a']]:
        t = build(kind, 'A', ls)
        first, last = index(ls, 'a', False), index(ls, 'a', True)
        expect(list(t.getLabelIndices(['a', 'a'])) == [first, last], 'the first occurrence is the first leg, the next is the last', t)
        expect(list(t.getLabelIndices(['a', 'a'], backward = True)) == [last, first], 'backward: the first occurrence is the last leg, the next is the first', t)
        got = t.getLegsByLabel(['a', 'a'])
        expect(got[0] is not got[1] and got[0].name == 'a' and got[1].name == 'a', 'two occurrences of a label give two legs', t)


def d_lists_of_equal():
    """lists of labels for tensors with equal labels"""
    kind = choice('dense', 'diag', 'like', 'diaglike')
    for n in [2, 3]:
        for ls in product('ab', repeat = n):
            ls = list(ls)
            t = build(kind, 'A', ls)
            legs = list(t.legs)
            for back in [False, True]:
                for want in [['a'], ['b'], ['a', 'b'], ['b', 'a'], ['b', 'x', 'a'], ['a', 'a'], ['b', 'b'], ['a', 'b', 'a'], ['b', 'a', 'b'], ['a', 'a', 'b']]:
                    got = t.shapeOfLabels(want, backward = back)
                    expect(len(got) == len(want), 'one extent per label', t)
                    for x in range(len(want)):
                        i = index(ls, want[x], back)
                        expect(got[x] == (-1 if i == -1 else legs[i].dim), 'the extents are those of the first legs, or of the last when searching backward', t)
                    idx = t.getLabelIndices(want, backward = back)
                    expect(len(idx) == len(want), 'one index per label', t)
                    for x in range(len(want)):
                        again = want[x] in want[:x]
                        expect(idx[x] == index(ls, want[x], back != again), 'a label asked for the first time gives its first leg (backward: its last), the second time the other', t)
                    if ls.count('a') == want.count('a') and ls.count('b') == want.count('b') and 'x' not in want:
                        legsFound = t.getLegsByLabel(want)
                        expect([l.name for l in legsFound] == want, 'the legs come in the order of the labels', t)
                        for x in range(len(want)):
                            expect(legsFound[x] is legs[index(ls, want[x], want[x] in want[:x])], 'a label asked for twice gives its first leg, then its last', t)


def d_rename_one():
    kind = choice('dense', 'diag', 'like', 'diaglike')
    for n in [1, 2, 3]:
        for ls in product('ab', repeat = n):
            ls = list(ls)
            for lab in ['a', 'b', 'x']:
                for new in ['a', 'b', 'z']:
                    t = build(kind, 'A', ls)
                    legs = list(t.legs)
                    t.renameLabel(lab, new)
                    i = index(ls, lab, False)
                    expect(t.labels == [new if x == i else ls[x] for x in range(n)], 'renaming changes the first leg of that label and no other', t)
                    for x in range(n):
                        expect(t.legs[x] is legs[x], 'renaming keeps the legs', t)


def d_rename_many():
    """every map of distinct labels, also onto labels that are in use"""
    kind = choice('dense', 'diag', 'like', 'diaglike')
    for n in [1, 2, 3]:
        ls = NAMES[:n]
        for k in range(n + 1):
            for p in permutations(range(n), k):
                for new in product(NAMES[:n] + ['z'], repeat = k):
                    t = build(kind, 'A', ls)
                    legs = list(t.legs)
                    t.renameLabels([ls[x] for x in p], list(new))
                    want = list(ls)
                    for x in range(k):
                        want[p[x]] = new[x]
                    expect(t.labels == want, 'renaming a set of labels gives every leg its own new label', t)
                    for x in range(n):
                        expect(t.legs[x] is legs[x], 'renaming keeps the legs', t)
    t = build(kind, 'A', ['a', 'b'])
    t.renameLabels(['x', 'b'], ['y', 'c'])
    expect(t.labels == ['a', 'c'], 'an absent label is skipped', t)
    snap = freeze(t)
    try:
        t.renameLabels(['a', 'c'], ['y'])
    except AssertionError:
        unchanged(snap, 'a rejected renaming changes nothing')
    else:
        fail('lists of different lengths are rejected', t)


def d_tags():
    """tensor tags: name-label"""
    kind = choice('dense', 'diag', 'like', 'diaglike')
    for ls in [['a'], ['a', 'b'], ['b', 'a', 'a'], ['', 'a'], ['a|b', 'c_d', 'e']]:
        for name in ['T', 'a', '', 'uv']:
            t = build(kind, 'A', ls)
            legs = list(t.legs)
            t.addTensorTag(name)
            expect(t.labels == [name + '-' + l for l in ls], 'every label gets the tag of the tensor', t)
            t.removeTensorTag()
            expect(t.labels == ls, 'removing the tags gives the labels back', t)
            for x in range(len(ls)):
                expect(t.legs[x] is legs[x], 'tags keep the legs', t)
    t = build(kind, 'A', ['a', 'b'])
    t.legs[1].name = 'x-b'
    try:
        t.addTensorTag('T')
    except AssertionError:
        ok()
    else:
        fail('a label that has a tag already does not get another', t)
    u = build(kind, 'B', ['a', 'b', 'c'])
    u.legs[1].name = 'x-b'
    u.removeTensorTag()
    expect(u.labels == ['a', 'b', 'c'], 'labels without a tag are kept', u)
    u.legs[1].name = 'x-y-b'
    u.removeTensorTag()
    expect(u.labels == ['a', 'y-b', 'c'], 'one tag is removed at a time', u)


def d_generated():
    """labels that are not given"""
    for n in [0, 1, 2, 3, 4]:
        t = Tensor(data = arr('A', extents('distinct', n)))
        expect(t.labels == list('abcd')[:n], 'the default labels are a, b, c, ...', t)
        t = TensorLike(shape = tuple(extents('distinct', n)))
        expect(t.labels == list('abcd')[:n], 'the default labels are a, b, c, ...', t)
        if n > 0:
            t = DiagonalTensor(data = arr('D', [dim('n')]), shape = tuple([dim('n')] * n))
            expect(t.labels == list('abcd')[:n], 'the default labels are a, b, c, ...', t)
