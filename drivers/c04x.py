"""C04, every pair of operands up to rank three (four for dense ones): all sets of bonds, kinds, orders and orientations"""
from lib_enum import *

LA = ['a', 'b', 'c', 'd', 'e']
LB = ['p', 'q', 'r', 's', 't']


def build(kind, name, labels, exts):
    if kind == 'dense':
        return dense(name, labels, exts)
    if len(labels) == 0:
        return DiagonalTensor(data = arr(name, []))
    return diag(name, labels, exts[0])


def unions(ka, kb, na, nb, pairs):
    """axes that carry one index, as lists of (operand, position)"""
    cls = {}
    for i in range(na):
        cls[('A', i)] = [('A', i)]
    for i in range(nb):
        cls[('B', i)] = [('B', i)]
    links = [(('A', x), ('B', y)) for x, y in pairs]
    if ka == 'diag':
        links = links + [(('A', 0), ('A', i)) for i in range(1, na)]
    if kb == 'diag':
        links = links + [(('B', 0), ('B', i)) for i in range(1, nb)]
    for x, y in links:
        if y not in cls[x]:
            new = cls[x] + cls[y]
            for z in new:
                cls[z] = new
    out = []
    for x in cls:
        if cls[x][0] == x:
            out.append(cls[x])
    return out


def origin(ka, kb, c):
    out = []
    for t, i in c:
        k = ka if t == 'A' else kb
        w = t + '.' + (str(i) if k == 'dense' else '0')
        if w not in out:
            out.append(w)
    return sorted(out)


def expected(ka, kb, na, nb, pairs):
    """(tags of the remaining legs, sums)"""
    gone = [('A', x) for x, y in pairs] + [('B', y) for x, y in pairs]
    sums, tagof = [], {}
    for c in unions(ka, kb, na, nb, pairs):
        left = [x for x in c if x not in gone]
        if len(left) == 0:
            sums.append('~'.join(origin(ka, kb, c)))
        for t, i in left:
            tagof[(LA if t == 'A' else LB)[i]] = '+'.join(origin(ka, kb, c))
    return tagof, tuple(sorted(sums))


def axes_extents(mode, ka, kb, na, nb, pairs):
    if mode == 'equal' or mode == 'two':
        n = dim('i') if mode == 'equal' else 2
        return [n] * na, [n] * nb
    pool = dims(['i', 'j', 'k', 'l', 'm', 'o', 'x', 'y', 'z', 'w'])
    ea, eb = [0] * na, [0] * nb
    n = 0
    for c in unions(ka, kb, na, nb, pairs):
        for t, i in c:
            if t == 'A':
                ea[i] = pool[n]
            else:
                eb[i] = pool[n]
        n = n + 1
    return ea, eb


def case(ka, kb, na, nb, pairs, mode, order, flip, use):
    """contract over the pairs in use (indices into pairs, or None for all); the other bonds stay open"""
    ea, eb = axes_extents(mode, ka, kb, na, nb, pairs)
    a = build(ka, 'A', LA[:na], ea)
    b = build(kb, 'B', LB[:nb], eb)
    bonds = [None] * len(pairs)
    for k in order:
        x, y = pairs[k]
        if (k % 2 == 0) == flip:
            bonds[k] = makeLink(LB[y], LA[x], b, a)[0]
        else:
            bonds[k] = makeLink(LA[x], LB[y], a, b)[0]
    ta, tb = term(a.a), term(b.a)
    if use is None:
        done = pairs
        r = contractTwoTensors(b, a, outProductWarning = False) if flip else contractTwoTensors(a, b, outProductWarning = False)
    else:
        done = [pairs[k] for k in use]
        bs = [bonds[k] for k in use]
        r = contractTwoTensors(b, a, bonds = bs, outProductWarning = False) if flip else contractTwoTensors(a, b, bonds = bs, outProductWarning = False)
    tagof, sums = expected(ka, kb, na, nb, done)
    gone = [LA[x] for x, y in done] + [LB[y] for x, y in done]
    rest = [l for l in LA[:na] + LB[:nb] if l not in gone]
    expect(sorted(r.labels) == sorted(rest), 'the result carries exactly the unbonded legs of both operands', r)
    expect(sumpairs(r.a) == sums, 'contraction sums over exactly the bonded index pairs', r)
    if r.diagonalFlag:
        expect(ka == 'diag' and kb == 'diag', 'a contraction with a dense operand gives a dense tensor', r)
        shp = r.a.shape
        for leg in r.legs:
            expect(leg.tensor is r and leg.dim == shp[0], 'legs of the result have its extent and belong to it', r)
            expect(tags(r.a) == (tagof[leg.name],), 'every leg of a diagonal result runs along its diagonal', r)
    else:
        check_legs(r, tagof, 'contraction')
    for k in range(len(pairs)):
        if use is not None and k not in use:
            x, y = pairs[k]
            u, v = r.getLeg(LA[x]), r.getLeg(LB[y])
            expect(u.bond is not None and u.bond is v.bond and u.anotherSide() is v, 'bonds that were not given stay in place', r)


def sweep(ka, kb, na, nb, modes, subsets):
    for pairs in matchings(na, nb):
        n = len(pairs)
        for mode in modes:
            for flip in [False, True]:
                case(ka, kb, na, nb, pairs, mode, list(range(n))[::-1] if flip else list(range(n)), flip, None)
                if subsets and n > 1:
                    for r in range(0, n):
                        for use in combinations(range(n), r):
                            case(ka, kb, na, nb, pairs, mode, list(range(n)), flip, list(use)[::-1] if flip else list(use))
                elif subsets and n == 1:
                    case(ka, kb, na, nb, pairs, mode, [0], flip, [0])
                    case(ka, kb, na, nb, pairs, mode, [0], flip, [])


def d_dense_small():
    for na in [0, 1, 2]:
        for nb in [0, 1, 2]:
            if not (na > 2 and nb > 2):
                sweep('dense', 'dense', na, nb, ['distinct', 'equal', 'two'], True)


def d_dense_13():
    sweep('dense', 'dense', 1, 3, ['distinct', 'equal'], True)
    sweep('dense', 'dense', 3, 1, ['distinct', 'equal'], True)
    sweep('dense', 'dense', 0, 3, ['distinct', 'equal'], True)
    sweep('dense', 'dense', 3, 0, ['distinct', 'equal'], True)


def d_dense_23():
    sweep('dense', 'dense', 2, 3, ['distinct', 'equal'], True)


def d_dense_32():
    sweep('dense', 'dense', 3, 2, ['distinct', 'equal'], True)


def d_dense_33():
    sweep('dense', 'dense', 3, 3, ['distinct'], True)


def d_dense_33_equal():
    sweep('dense', 'dense', 3, 3, ['equal'], True)


def d_dense_24():
    sweep('dense', 'dense', 2, 4, ['distinct', 'equal'], True)


def d_dense_42():
    sweep('dense', 'dense', 4, 2, ['distinct', 'equal'], True)


def d_dense_34():
    sweep('dense', 'dense', 3, 4, ['distinct'], False)


def d_dense_43():
    sweep('dense', 'dense', 4, 3, ['equal'], False)


def d_diag_dense_small():
    for na in [0, 1, 2]:
        for nb in [0, 1, 2]:
            sweep('diag', 'dense', na, nb, ['distinct', 'equal', 'two'], False)


def d_diag_dense_23():
    sweep('diag', 'dense', 2, 3, ['distinct', 'equal'], False)


def d_diag_dense_32():
    sweep('diag', 'dense', 3, 2, ['distinct', 'equal'], False)


def d_diag_dense_13():
    sweep('diag', 'dense', 1, 3, ['distinct', 'equal'], False)
    sweep('diag', 'dense', 3, 1, ['distinct', 'equal'], False)
    sweep('diag', 'dense', 0, 3, ['distinct', 'equal'], False)
    sweep('diag', 'dense', 3, 0, ['distinct', 'equal'], False)


def d_diag_dense_33():
    sweep('diag', 'dense', 3, 3, ['distinct'], False)


def d_diag_dense_33_equal():
    sweep('diag', 'dense', 3, 3, ['equal'], False)


def d_diag_dense_43():
    sweep('diag', 'dense', 4, 3, ['equal'], False)


def d_diag_dense_34():
    sweep('diag', 'dense', 3, 4, ['equal'], False)


def d_dense_diag():
    for na in [0, 1, 2, 3]:
        for nb in [0, 1, 2]:
            sweep('dense', 'diag', na, nb, ['distinct', 'equal'], False)


def d_dense_diag_33():
    sweep('dense', 'diag', 3, 3, ['distinct'], False)


def d_dense_diag_23():
    sweep('dense', 'diag', 2, 3, ['distinct', 'equal'], False)


def d_diag_diag():
    for na in [0, 1, 2, 3]:
        for nb in [0, 1, 2, 3]:
            sweep('diag', 'diag', na, nb, ['equal'], False)


def d_diag_diag_distinct():
    for na in [0, 1, 2, 3]:
        for nb in [0, 1, 2, 3]:
            sweep('diag', 'diag', na, nb, ['distinct'], False)


def d_dense_44():
    sweep('dense', 'dense', 4, 4, ['equal'], False)


def d_diag_dense_subsets():
    for na in [1, 2, 3]:
        for nb in [1, 2, 3]:
            if na + nb < 6:
                sweep('diag', 'dense', na, nb, ['equal'], True)


def d_dense_diag_subsets():
    for na in [1, 2, 3]:
        for nb in [1, 2, 3]:
            if na + nb < 6:
                sweep('dense', 'diag', na, nb, ['distinct'], True)


def d_diag_diag_subsets():
    for na in [1, 2, 3]:
        for nb in [1, 2, 3]:
            sweep('diag', 'diag', na, nb, ['equal'], True)
