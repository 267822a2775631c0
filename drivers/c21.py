"""C21: Ising tensors and networks represent the Ising model (interpreted abstractly; couplings are symbols)"""
import numpy as np
from itertools import product, combinations
from lib_std import *
from CTL.models.Ising import (squareIsingTensor, plaquetteIsingTensor, infiniteIsingExactM, IsingEdgeMatrix, IsingSiteTensor,
                              IsingTNFromUndirectedGraph, getIsingWeight, exactZFromGraphIsing)
from CTL.funcs.graph import UndirectedGraph, Graph


def bits(s, n):
    return [(s >> i) % 2 for i in range(n)]


def spin(b):
    return 1.0 if b else -1.0


def build(n, edges, weights):
    g = UndirectedGraph(n)
    for (x, y), w in zip(edges, weights):
        g.addEdge(x, y, weight = w)
    return g


def weight_of(edges, weights, b):
    e = 0.0
    for (x, y), w in zip(edges, weights):
        e = e + w * (1.0 if b[x] == b[y] else -1.0)
    return np.exp(e)


def partition(n, edges, weights):
    z = 0.0
    for s in range(1 << n):
        z = z + weight_of(edges, weights, bits(s, n))
    return z


def contraction(ts, order):
    r = ts[order[0]]
    for k in order[1:]:
        r = contractTwoTensors(r, ts[k])
    return r


def check_network(n, edges, weights, g, ts, what):
    expect(len(ts) == n, what + ': one tensor per site')
    at = [[] for _ in range(n)]
    for i, (x, y) in enumerate(edges):
        at[x].append(i)
        at[y].append(i)
    for v in range(n):
        expect(len(ts[v].legs) == len(at[v]), what + ': one leg per edge of the site', ts[v])
        expect(len(set(ts[v].labels)) == len(at[v]), what + ': the legs of a site have different labels', ts[v])
        for leg in ts[v].legs:
            expect(leg.tensor is ts[v] and leg.dim == 2, what + ': legs of two states, of their tensor', ts[v])
            expect(leg.bond is not None, what + ': no leg of a network stays open', ts[v])
    for x in range(n):
        for y in range(x + 1, n):
            joined = [leg for leg in ts[x].legs if leg.bond is not None and leg.anotherSide().tensor is ts[y]]
            wanted = [e for e in edges if tuple(sorted(e)) == (x, y)]
            expect(len(joined) == len(wanted), what + ': one bond per edge between two sites', ts[x], ts[y])


def check_model(n, edges, weights, what, networks = True, g = None):
    if g is None:
        g = build(n, edges, weights)
    z = partition(n, edges, weights)
    expect(equivalent(exactZFromGraphIsing(g), z), what + ': the enumerated partition function is the sum of all Boltzmann weights')
    for s in range(1 << n):
        expect(equivalent(getIsingWeight(g, s), weight_of(edges, weights, bits(s, n))), what + ': the weight of a configuration is the Boltzmann weight')
    if networks:
        ts = IsingTNFromUndirectedGraph(g)
        check_network(n, edges, weights, g, ts, what)
        r = contraction(ts, list(range(n)))
        expect(len(r.legs) == 0, what + ': the contracted network is a number', r)
        expect(equivalent(r.a, z), what + ': the network contracts to the partition function', r)


def ws(k, mode):
    if mode == 'equal':
        return [symfloat('w0')] * k
    return [symfloat('w' + str(i)) for i in range(k)]


PAIRS3 = [(0, 1), (2, 1), (0, 2)]
PAIRS4 = [(0, 1), (2, 1), (2, 3), (3, 0), (0, 2), (1, 3)]


def d_two():
    for mode in ['distinct', 'equal']:
        for edges in [[], [(0, 1)], [(1, 0)], [(0, 1), (1, 0)], [(0, 1), (0, 1), (1, 0)]]:
            check_model(2, edges, ws(len(edges), mode), 'two sites')


def d_one():
    g = UndirectedGraph(1)
    ts = IsingTNFromUndirectedGraph(g)
    expect(len(ts) == 1 and len(ts[0].legs) == 0, 'one site without edges: a tensor without legs')
    expect(equivalent(ts[0].a, 2.0), 'one site without edges: two states')
    expect(equivalent(exactZFromGraphIsing(g), 2.0), 'one site without edges: two states')


def d_three():
    for mode in ['distinct', 'equal']:
        for r in range(4):
            for edges in combinations(PAIRS3, r):
                check_model(3, list(edges), ws(r, mode), 'three sites')


def d_three_multi():
    for edges in [[(0, 1), (1, 0), (1, 2)], [(2, 1), (1, 2), (0, 1), (0, 2)], [(0, 2), (2, 0)]]:
        check_model(3, edges, ws(len(edges), 'distinct'), 'three sites, repeated edges')


def d_four_trees():
    for edges in [[(0, 1), (2, 1), (2, 3)], [(0, 1), (0, 2), (0, 3)], [(3, 1), (3, 0)], [(0, 1), (3, 2)], [(1, 2), (3, 0), (0, 1)]]:
        check_model(4, edges, ws(len(edges), 'distinct'), 'four sites, trees')


def d_four_cycles():
    for edges in [[(0, 1), (2, 1), (2, 3), (3, 0)], [(0, 1), (1, 2), (2, 0), (3, 2)], [(0, 2), (2, 1), (1, 3), (3, 0), (0, 1)]]:
        check_model(4, edges, ws(len(edges), 'distinct'), 'four sites, cycles')


def d_four_complete():
    check_model(4, PAIRS4, ws(6, 'distinct'), 'four sites, complete')


def d_orders():
    edges = [(0, 1), (2, 1), (2, 0)]
    w = ws(3, 'distinct')
    z = partition(3, edges, w)
    for order in [[0, 1, 2], [2, 0, 1], [1, 0, 2]]:
        r = contraction(IsingTNFromUndirectedGraph(build(3, edges, w)), order)
        expect(equivalent(r.a, z), 'any order of contraction gives the partition function', r)


def d_extended():
    """a graph that is extended after it was used"""
    w = ws(3, 'distinct')
    g = build(3, [(0, 1)], w[:1])
    check_model(3, [(0, 1)], w[:1], 'graph before it is extended', g = g)
    g.addEdge(2, 1, weight = w[1])
    check_model(3, [(0, 1), (2, 1)], w[:2], 'graph extended after it was used', g = g)
    g.addEdge(0, 1, w[2])
    check_model(3, [(0, 1), (2, 1), (0, 1)], w, 'graph extended twice', g = g)


def d_larger_weights():
    """weights of single configurations on larger graphs"""
    edges = [(0, 1), (1, 2), (3, 2), (3, 4), (4, 5), (5, 0), (1, 4)]
    w = ws(7, 'distinct')
    g = build(6, edges, w)
    for s in [0, 1, 5, 18, 32, 41, 63]:
        expect(equivalent(getIsingWeight(g, s), weight_of(edges, w, bits(s, 6))), 'the weight of a configuration of six sites is the Boltzmann weight')


def d_five_network():
    edges = [(0, 1), (1, 2), (3, 2), (3, 4), (4, 0)]
    w = ws(5, 'distinct')
    g = build(5, edges, w)
    ts = IsingTNFromUndirectedGraph(g)
    check_network(5, edges, w, g, ts, 'five sites')
    r = contraction(ts, [0, 1, 2, 3, 4])
    expect(equivalent(r.a, partition(5, edges, w)), 'five sites: the network contracts to the partition function', r)


def d_edge_matrix():
    w = symfloat('w')
    m = IsingEdgeMatrix(w)
    expect(m.shape == (2, 2), 'edge matrix: two states on both sides')
    for x in range(2):
        for y in range(2):
            e = m[x][0] * m[0][y] + m[x][1] * m[1][y]
            expect(equivalent(e, np.exp(w if x == y else -w)), 'edge matrix: its square is the weight of the edge')
            expect(equivalent(m[x][y], m[y][x]), 'edge matrix: symmetric')


def root(w, same):
    a = np.sqrt(np.cosh(w) * 0.5)
    b = np.sqrt(np.sinh(w) * 0.5)
    return a + b if same else a - b


def check_site(t, ws, labels, what):
    k = len(ws)
    expect(len(t.legs) == k, what + ': one leg per edge', t)
    if labels is not None:
        expect(list(t.labels) == labels, what + ': labels in the order given', t)
    expect(t.a.shape == (2,) * k, what + ': two states per leg', t)
    for s in range(1 << k):
        b = bits(s, k)
        z = 0.0
        for site in range(2):
            p = 1.0
            for i in range(k):
                p = p * root(ws[i], site == b[i])
            z = z + p
        expect(equivalent(t.a[tuple(b)], z), what + ': every entry sums over the site the product of the edge matrices of its legs', t)


def d_site():
    for k in [1, 2, 3]:
        w = ws(k, 'distinct')
        check_site(IsingSiteTensor(w, dim = k), w, None, 'site tensor with a coupling per leg')
        labels = ['p', 'q', 'r'][:k]
        check_site(IsingSiteTensor(betaJ = w, dim = k, labels = labels), w, labels, 'site tensor with a coupling per leg and labels')
        check_site(IsingSiteTensor(w[0], dim = k, labels = labels), [w[0]] * k, labels, 'site tensor with one coupling')
        check_site(IsingSiteTensor(betaJ = 2, dim = k), [2] * k, None, 'site tensor with an integer coupling')


def d_site4():
    w = ws(4, 'distinct')
    check_site(IsingSiteTensor(w, labels = ['u', 'l', 'd', 'r']), w, ['u', 'l', 'd', 'r'], 'site tensor of four legs')
    check_site(IsingSiteTensor(w[0]), [w[0]] * 4, None, 'site tensor of four legs by default')


def d_site0():
    t = IsingSiteTensor(symfloat('w'), dim = 0)
    expect(len(t.legs) == 0, 'site tensor without edges: no leg', t)
    expect(equivalent(t.a, 2.0), 'site tensor without edges: two states', t)


def d_site_rejects():
    k = choice('list too short', 'list too long', 'labels too short', 'labels too long')
    w = ws(4, 'distinct')
    try:
        if k == 'list too short':
            IsingSiteTensor(w[:2], dim = 3)
        if k == 'list too long':
            IsingSiteTensor(w, dim = 3)
        if k == 'labels too short':
            IsingSiteTensor(w[0], dim = 3, labels = ['a', 'b'])
        if k == 'labels too long':
            IsingSiteTensor(w[:3], dim = 3, labels = ['a', 'b', 'c', 'd'])
    except (AssertionError, ValueError):
        ok('rejected')
        return
    fail('site tensor: couplings or labels that do not fit the number of legs are rejected')


def local_energy(b, wv, wh):
    e = 0.0
    for i in range(4):
        e = e + (wv if i % 2 == 0 else wh) * (-1.0 if b[i] == b[(i + 1) % 4] else 1.0)
    return e


def check_square(t, beta, obs, h, what):
    expect(list(t.labels) == ['u', 'l', 'd', 'r'], what + ': labels u, l, d, r', t)
    expect(t.a.shape == (2, 2, 2, 2), what + ': two states per leg', t)
    expect(t.degreeOfFreedom == 2, what + ': two degrees of freedom', t)
    for s in range(16):
        b = bits(s, 4)
        m = 0.0
        for x in b:
            m = m + 0.5 * spin(x)
        e = local_energy(b, 1.0, 1.0)
        w = np.exp(-beta * e)
        if h is not None:
            w = w * np.exp(h * m)
        if obs == 'M':
            w = w * m
        if obs == 'E':
            w = w * e
        expect(equivalent(t.a[tuple(b)], w), what + ': every entry is the Boltzmann weight of its four spins, times the observable', t)


def d_square():
    beta = symfloat('beta')
    h = symfloat('h')
    for obs in [None, 'M', 'E']:
        name = 'square tensor' if obs is None else 'square tensor with observable ' + obs
        check_square(squareIsingTensor(beta, obs = obs), beta, obs, None, name)
        check_square(squareIsingTensor(beta, obs, h), beta, obs, h, name + ' in a field')


def d_square_default():
    beta = symfloat('beta')
    check_square(squareIsingTensor(beta), beta, None, None, 'square tensor by default')
    check_square(squareIsingTensor(beta, symmetryBroken = 0.25), beta, None, 0.25, 'square tensor in a given field')


def d_square_rejects():
    try:
        squareIsingTensor(symfloat('beta'), obs = choice('X', 'e', 'ME'))
    except (AssertionError, ValueError, KeyError):
        ok('rejected')
        return
    fail('square tensor: an unknown observable is rejected')


def check_plaquette(t, wv, wh, labels, what):
    expect(list(t.labels) == labels, what + ': labels', t)
    expect(t.a.shape == (2, 2, 2, 2), what + ': two states per leg', t)
    expect(t.degreeOfFreedom == 2, what + ': two degrees of freedom', t)
    for s in range(16):
        b = bits(s, 4)
        expect(equivalent(t.a[tuple(b)], np.exp(-local_energy(b, wv, wh))), what + ': every entry is the Boltzmann weight of its four spins', t)


PL = ['ru', 'rd', 'ld', 'lu']
DIAMOND = ['r', 'd', 'l', 'u']


def d_plaquette():
    w, v = symfloat('w'), symfloat('v')
    check_plaquette(plaquetteIsingTensor(w), w, w, PL, 'plaquette tensor with one coupling')
    check_plaquette(plaquetteIsingTensor((w, v)), w, v, PL, 'plaquette tensor with vertical and horizontal couplings')
    check_plaquette(plaquetteIsingTensor([w, v]), w, v, PL, 'plaquette tensor with a list of couplings')
    check_plaquette(plaquetteIsingTensor(0.5), 0.5, 0.5, PL, 'plaquette tensor with a given coupling')


def d_diamond():
    w, v = symfloat('w'), symfloat('v')
    check_plaquette(plaquetteIsingTensor(w, diamondForm = True), w, w, DIAMOND, 'plaquette tensor as a diamond')
    check_plaquette(plaquetteIsingTensor((w, v), diamondForm = True), w, v, DIAMOND, 'plaquette tensor as a diamond with two couplings')


def d_plaquette_arguments():
    w, v = symfloat('w'), symfloat('v')
    ls = [w, v]
    plaquetteIsingTensor(ls)
    plaquetteIsingTensor(ls, diamondForm = True)
    expect(len(ls) == 2 and same(ls[0], w) and same(ls[1], v), 'plaquette tensor: the list of couplings is left alone')
    try:
        plaquetteIsingTensor(choice((w, v, w), (w,)))
    except (AssertionError, ValueError):
        ok('rejected')
        return
    fail('plaquette tensor: other than one or two couplings are rejected')


def d_magnetization():
    t, j = symfloat('T'), symfloat('J')
    m = infiniteIsingExactM(t, j)
    tc = 2.0 / np.log(1.0 + np.sqrt(2))
    if t / j > tc:
        expect(equivalent(m, 0.0), 'exact magnetization: none above the critical temperature')
    else:
        expect(equivalent(m, (1.0 - np.sinh(2.0 * j / t) ** (-4)) ** 0.125), 'exact magnetization: Onsager formula below the critical temperature')


def d_magnetization_default():
    for t in [0.5, 1.0, 1.5, 2.0, 2.2]:
        m = infiniteIsingExactM(t)
        expect(equivalent(m, (1.0 - np.sinh(2.0 / t) ** (-4)) ** 0.125), 'exact magnetization at a given temperature below the critical one')
    for t in [2.3, 2.5, 3.0, 10.0]:
        expect(equivalent(infiniteIsingExactM(t), 0.0), 'exact magnetization at a given temperature above the critical one')


def d_rejects():
    k = choice('network', 'weight', 'partition function')
    g = Graph(2)
    g.addEdge(0, 1, 0.5)
    try:
        if k == 'network':
            IsingTNFromUndirectedGraph(g)
        if k == 'weight':
            getIsingWeight(g, 1)
        if k == 'partition function':
            exactZFromGraphIsing(g)
    except (AssertionError, ValueError, TypeError):
        ok('rejected')
        return
    fail('a directed graph is rejected', k)


def d_graph_kept():
    """building a network leaves the graph alone, and networks share no tensor"""
    edges = [(0, 1), (2, 1), (0, 2)]
    w = ws(3, 'distinct')
    g = build(3, edges, w)
    a = IsingTNFromUndirectedGraph(g)
    s = freeze(g)
    t = freeze(a)
    b = IsingTNFromUndirectedGraph(g)
    exactZFromGraphIsing(g)
    unchanged(s, 'a second network leaves the graph alone')
    unchanged(t, 'a second network leaves the first one alone')
    check_network(3, edges, w, g, b, 'second network of a graph')
