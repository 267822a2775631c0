"""C13: the structure of a matrix product state"""
from lib_mps import *


def check(x, names, order, what):
    """well formed, with the physical legs in the given order"""
    well_formed(x, len(order), what)
    physical(x, [names[k] for k in order], what)


def phys(names, order = 0):
    """the tags of the physical axes of chain(names, order)"""
    ts = chain(names, order = order)
    return [tags(ts[i].a)[ts[i].labels.index('p' + str(i))] for i in range(len(names))]


def d_build():
    """an MPS names its legs l, o, r by its bonds, whatever they were called"""
    n = choice(1, 2, 3, 4)
    for order in [0, 1, 2]:
        names = 'ABCD'[:n]
        ts = chain(names, order = order)
        legs = [list(t.legs) for t in ts]
        ps = [ts[i].getLeg('p' + str(i)) for i in range(n)]
        given = list(ts)
        x = FreeBoundaryMPS(ts, chi = symint('chi'))
        check(x, phys(names, order), range(n), 'a new MPS')
        for i in range(n):
            expect(x.getTensor(i) is given[i], 'an MPS made in place holds the given tensors', x)
            expect(ps[i].name == 'o', 'the leg without a bond to a neighbour is the physical one', x)
            for k in range(len(legs[i])):
                expect(x.getTensor(i).legs[k] is legs[i][k], 'an MPS keeps the legs of its tensors', x)


def d_build_copies():
    n = choice(1, 2, 3, 4)
    names = 'ABCD'[:n]
    ts = chain(names)
    x = FreeBoundaryMPS(ts, chi = symint('chi'), inplace = False)
    check(x, phys(names), range(n), 'an MPS of copies')
    for i in range(n):
        expect(x.getTensor(i) is not ts[i], 'an MPS of copies holds copies', x)


def d_build_outgoing():
    """physical legs that are bonded elsewhere: the bond stays, or goes over to the copy"""
    inplace = choice(True, False)
    for k in range(3):
        ts = chain('ABC')
        e = dense('E', ['e', 'f'], [ts[k].shapeOfLabel('p' + str(k)), dim('f')])
        makeLink('p' + str(k), 'e', ts[k], e)
        x = FreeBoundaryMPS(ts, chi = symint('chi'), inplace = inplace)
        check(x, phys('ABC'), range(3), 'an MPS with an outgoing bond')
        for i in range(3):
            o = x.getTensor(i).getLeg('o')
            if i == k:
                expect(o.bond is not None and o.anotherSide() is e.getLeg('e') and e.getLeg('e').anotherSide() is o, 'the outgoing bond stays', x)
            else:
                expect(o.bond is None, 'the other physical legs are free', x)


def d_build_rejects():
    """tensors that are not an MPS"""
    i, j, k = dims('ijk')
    def bad(ts):
        try:
            FreeBoundaryMPS(ts, chi = 8)
        except ValueError:
            ok()
        else:
            fail('tensors that do not form an MPS are rejected', ts[0] if len(ts) > 0 else None)
    bad([])
    a, b = dense('A', ['p', 'v'], [i, j]), dense('B', ['p', 'v'], [k, j])
    bad([a, b])
    ts = chain('ABC')
    bad([ts[0], ts[2], ts[1]])
    bad(chain('ABC')[:2])
    bad(chain('ABC')[1:])
    ts = chain('ABCD')
    bad([ts[0], ts[1], ts[3]])
    ts = chain('ABC')
    t = dense('D', ['x', 'y', 'z', 'w'], [ts[0].shapeOfLabel('b0'), i, j, k])
    s = dense('E', ['p', 'v'], [i, k])
    makeLink('b0', 'x', ts[0], t)
    makeLink('w', 'v', t, s)
    bad([ts[0], t, s])
    a, b = dense('A', ['p', 'v', 'w'], [i, j, k]), dense('B', ['p', 'v', 'w'], [i, j, k])
    makeLink(['v', 'w'], ['v', 'w'], a, b)
    bad([a, b])


def chi_case(v, w, given):
    ts = [dense('A', ['p', 'v'], [dim('p'), v]), dense('B', ['x', 'p', 'y'], [v, dim('q'), w]), dense('C', ['v', 'p'], [w, dim('r')])]
    makeLink('v', 'x', ts[0], ts[1])
    makeLink('y', 'v', ts[1], ts[2])
    return FreeBoundaryMPS(ts, chi = given)


def d_chi():
    """chi is the given one if no bond is larger"""
    for v, w in [(2, 5), (5, 2), (3, 3)]:
        for given in [max(v, w), 6, 16]:
            x = chi_case(v, w, given)
            expect(x.chi == given, 'chi is the given one, when no bond is larger', x)


def d_chi_default():
    for v, w in [(2, 5), (5, 2), (3, 3)]:
        x = chi_case(v, w, None)
        expect(x.chi == max(v, w), 'chi = None: the largest bond', x)


def d_chi_small():
    for v, w in [(2, 5), (5, 2), (3, 3)]:
        for given in [1, 2]:
            x = chi_case(v, w, given)
            expect(x.chi >= max(v, w), 'a given chi below a bond is raised to the largest bond', x)


def d_chi_symbolic():
    chi = symint('chi')
    x = mps('ABC', chi = chi)
    expect(atmost(chi, x.chi), 'chi is at least the given one', x)


def bounded(x, what):
    for i in range(x.n - 1):
        expect(atmost(x.getTensor(i).shapeOfLabel('r'), x.chi), what + ': no bond is larger than chi', x)


def canonical_case(n):
    names = 'ABCD'[:n]
    for idx in range(n):
        x = mps(names, order = idx)
        chi = x.chi
        os = outer_legs(x)
        x.canonicalize(idx)
        check(x, phys(names, idx), range(n), 'canonicalize')
        bounded(x, 'canonicalize')
        expect(x.chi == chi, 'canonicalize keeps chi', x)


def d_canonicalize1():
    canonical_case(1)


def d_canonicalize2():
    canonical_case(2)


def d_canonicalize3():
    canonical_case(3)


def d_canonicalize4():
    canonical_case(4)


def swap_case(n):
    names = 'ABCD'[:n]
    for a in range(n - 1):
        for back in [False, True]:
            x = mps(names, order = a)
            if back:
                x.swap(a + 1, a)
            else:
                x.swap(a, a + 1)
            order = list(range(n))
            order[a], order[a + 1] = a + 1, a
            check(x, phys(names, a), order, 'swap')
            expect(atmost(x.getTensor(a).shapeOfLabel('r'), x.chi), 'swap: no bond is larger than chi', x)


def d_swap2():
    swap_case(2)


def d_swap3():
    swap_case(3)


def d_swap4():
    swap_case(4)


def d_swap_rejects():
    for a, b in [(0, 2), (1, 1), (2, 3), (-1, 0), (0, -1), (3, 2)]:
        x = mps('ABC')
        try:
            x.swap(a, b)
        except AssertionError:
            ok()
        else:
            fail('tensors that are not neighbours are not swapped', x)


def move_case(n):
    names = 'ABCD'[:n]
    for a in range(n):
        for b in range(n):
            x = mps(names)
            x.moveTensor(a, b, warningFlag = False)
            order = [k for k in range(n) if k != a]
            order = order[:b] + [a] + order[b:]
            check(x, phys(names), order, 'moveTensor')


def d_move2():
    move_case(2)


def d_move3():
    move_case(3)


def d_move4():
    move_case(4)


def adjacent_case(n):
    names = 'ABCD'[:n]
    for a in range(n):
        for b in range(n):
            if a != b:
                x = mps(names)
                i, j = x.makeAdjacent(a, b)
                lo, hi = min(a, b), max(a, b)
                expect((i, j) == (hi - 1, hi), 'makeAdjacent gives the two positions in order', x)
                order = [k for k in range(n) if k != lo]
                order = order[:hi - 1] + [lo] + order[hi - 1:]
                well_formed(x, n, 'makeAdjacent')
                got = [tags(x.getTensor(k).a)[x.getTensor(k).labels.index('o')] for k in range(n)]
                p = phys(names)
                expect({got[i], got[j]} == {p[a], p[b]}, 'makeAdjacent brings the two tensors together', x)
                expect(sorted(got) == sorted(p), 'makeAdjacent keeps all tensors', x)
                expect([g for g in got if g not in [p[a], p[b]]] == [p[k] for k in range(n) if k != a and k != b], 'makeAdjacent keeps the order of the other tensors', x)


def d_adjacent2():
    adjacent_case(2)


def d_adjacent3():
    adjacent_case(3)


def d_adjacent4():
    adjacent_case(4)


def d_outgoing_swapped():
    """bonds of physical legs move along with them"""
    op = choice('swap', 'swap back', 'move', 'canonicalize', 'canonicalize end')
    ts = chain('ABC')
    es = []
    for k in range(3):
        e = dense('EFG'[k], ['e'], [ts[k].shapeOfLabel('p' + str(k))])
        makeLink('p' + str(k), 'e', ts[k], e)
        es.append(e)
    x = FreeBoundaryMPS(ts, chi = symint('chi'))
    order = [0, 1, 2]
    if op == 'swap':
        x.swap(0, 1)
        order = [1, 0, 2]
    elif op == 'swap back':
        x.swap(2, 1)
        order = [0, 2, 1]
    elif op == 'move':
        x.moveTensor(0, 2)
        order = [1, 2, 0]
    elif op == 'canonicalize':
        x.canonicalize(1)
    else:
        x.canonicalize(0)
    well_formed(x, 3, 'with outgoing bonds')
    for i in range(3):
        o = x.getTensor(i).getLeg('o')
        e = es[order[i]].getLeg('e')
        expect(o.bond is not None and o.anotherSide() is e and e.anotherSide() is o, 'bonds of physical legs move along with them', x)


def d_merge_tensor():
    for idx in [0, 1, 2]:
        x = mps('ABCD')
        rest = [x.getTensor(k) for k in range(4) if k != idx and k != idx + 1]
        t = x.getTensor(idx) @ x.getTensor(idx + 1)
        x.mergeTensor(idx, t)
        expect(x.n == 3 and x.getTensor(idx) is t, 'the new tensor replaces the two tensors', x)
        expect(all([x.getTensor(k) is (rest[:idx] + [t] + rest[idx:])[k] for k in range(3)]), 'the other tensors stay in order', x)
    x = mps('ABC')
    for idx in [-1, 2, 3]:
        try:
            x.mergeTensor(idx, x.getTensor(0))
        except AssertionError:
            expect(x.n == 3, 'a rejected merge changes nothing', x)
        else:
            fail('only neighbours inside of the MPS are merged', x)


def d_set_tensor():
    for idx in range(3):
        x = mps('ABC')
        old = [x.getTensor(k) for k in range(3)]
        t = old[idx].copy()
        x.setTensor(idx, t)
        for k in range(3):
            expect(x.getTensor(k) is (t if k == idx else old[k]), 'setting a tensor replaces that one', x)
        expect(x.hasTensor(t) and not x.hasTensor(old[idx]) and x.tensorIndex(t) == idx, 'the new tensor is found at its position', x)
        for k in range(3):
            expect(x.isIndex(k), 'positions', x)
        expect(not x.isIndex(3) and not x.isIndex(-1), 'positions', x)


def d_copies():
    n = choice(1, 2, 3, 4)
    x = mps('ABCD'[:n])
    ts = x.copyOfTensors()
    expect(len(ts) == n, 'one copy per tensor', x)
    y = FreeBoundaryMPS(ts, chi = x.chi)
    check(y, phys('ABCD'[:n]), range(n), 'an MPS of the copied tensors')
    for i in range(n):
        expect(ts[i] is not x.getTensor(i) and not mayshare(ts[i].a, x.getTensor(i).a), 'the copies are independent', y)


def d_to_tensor():
    stub_sequence('left', 'right')
    n = choice(1, 2, 3)
    x = mps('ABC'[:n])
    p = phys('ABC'[:n])
    t = x.toTensor()
    expect(t.labels == ['o'] * n, 'the tensor of an MPS has its physical legs', t)
    expect(sorted(tags(t.a)) == sorted(p), 'the tensor of an MPS has its physical axes', t)
    expect(len(sumpairs(t.a)) == n - 1, 'all bonds are summed', t)


def d_random():
    n = choice(2, 3, 4)
    kind = choice('numbers', 'lists')
    if kind == 'numbers':
        p, v = dims('pv')
        x = makeRandomMPS(n, v, p)
        ps, vs = [p] * n, [v] * (n - 1)
    else:
        ps, vs = dims(['p', 'q', 'r', 's'])[:n], dims(['u', 'v', 'w'])[:n - 1]
        x = makeRandomMPS(n, vs, ps, chi = 100)
    well_formed(x, n, 'a random MPS')
    for i in range(n):
        expect(x.getTensor(i).shapeOfLabel('o') == ps[i], 'the physical extents are the requested ones', x)
        if i < n - 1:
            expect(x.getTensor(i).shapeOfLabel('r') == vs[i] and x.getTensor(i + 1).shapeOfLabel('l') == vs[i], 'the bond extents are the requested ones', x)
