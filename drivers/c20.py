"""C20: graphs keep their edges; lattice builders join exactly the neighbours (interpreted abstractly; weights are symbols)"""
from itertools import permutations, product, combinations
from CTL.funcs.graph import Graph, UndirectedGraph, GraphEdge, GraphVertex
from CTL.funcs.graphFuncs import squareLatticePBC, squareLatticeFBC, doubleSquareLatticeFBC, completeGraph


def key(e, weights):
    """(smaller end, larger end, number of the weight)"""
    a, b = e.vertices
    k = [i for i in range(len(weights)) if same(e.weight, weights[i])]
    return (min(a.index, b.index), max(a.index, b.index), k[0] if len(k) > 0 else -1)


def check_graph(g, n, wanted, weights, what_edges, what_degree, what_vertex):
    """wanted: list of (x, y, number of the weight); weights are different symbols"""
    expect(len(g.v) == n and g.n == n, what_vertex)
    for i in range(n):
        expect(g.v[i].index == i, what_vertex)
    es = g.getEdges()
    got = sorted([key(e, weights) for e in es])
    want = sorted([(min(x, y), max(x, y), k) for x, y, k in wanted])
    expect(len(es) == len(wanted), what_edges)
    expect(got == want, what_edges)
    degree = [0] * n
    for x, y, k in wanted:
        degree[x] += 1
        degree[y] += 1
    for i in range(n):
        expect(g.v[i].degree == degree[i], what_degree)
        expect(len(g.v[i].edges) == degree[i], what_degree)
        for e in g.v[i].edges:
            expect(e.vertices[0] is g.v[i] or e.vertices[1] is g.v[i], what_degree)
            expect(len([f for f in es if f is e]) == 1, what_edges)
            o = e.anotherSide(g.v[i])
            expect((e.vertices[0] is o and e.vertices[1] is g.v[i]) or (e.vertices[1] is o and e.vertices[0] is g.v[i]),
                   'the other side of an edge is its other end')
        want = sorted([(y if x == i else x) for x, y, k in wanted if x == i or y == i] + [i for x, y, k in wanted if x == i and y == i])
        expect(sorted([e.anotherSide(g.v[i]).index for e in g.v[i].edges]) == want, what_degree)


E = 'undirected graph: its edges are those added, each once, with its weight'
D = 'undirected graph: every vertex has the edges that end there'
V = 'undirected graph: the vertices are numbered from 0'


def d_histories():
    """every history of up to three additions between three vertices, with and without asking for the edges in between"""
    ends = [(0, 1), (1, 0), (1, 2), (2, 0)]
    ws = [symfloat('w0'), symfloat('w1'), symfloat('w2')]
    for r in range(4):
        for es in product(ends, repeat = r):
            for ask in product([False, True], repeat = r):
                g = UndirectedGraph(3)
                wanted = []
                for i in range(r):
                    if ask[i]:
                        check_graph(g, 3, wanted, ws, E, D, V)
                    e = g.addEdge(es[i][0], es[i][1], weight = ws[i])
                    expect(same(e.weight, ws[i]) and e.vertices[0] is g.v[es[i][0]] and e.vertices[1] is g.v[es[i][1]],
                           'undirected graph: the edge returned joins the two vertices')
                    wanted.append((es[i][0], es[i][1], i))
                check_graph(g, 3, wanted, ws, E, D, V)
                check_graph(g, 3, wanted, ws, E, D, V)


def d_long_histories():
    ws = [symfloat('w' + str(i)) for i in range(6)]
    for es in [[(0, 1), (1, 2), (2, 3), (3, 4), (4, 0), (0, 2)], [(4, 3), (3, 4), (4, 3), (0, 1), (0, 1), (1, 0)], [(3, 0), (2, 0), (1, 0), (0, 4), (4, 3), (2, 1)]]:
        g = UndirectedGraph(5)
        wanted = []
        for i in range(6):
            g.addEdge(es[i][0], es[i][1], ws[i])
            wanted.append((es[i][0], es[i][1], i))
            check_graph(g, 5, wanted, ws, E, D, V)


def d_empty():
    for n in range(4):
        g = UndirectedGraph(n)
        check_graph(g, n, [], [], E, D, V)
        check_graph(g, n, [], [], E, D, V)


def d_separate():
    """two graphs share nothing"""
    w = [symfloat('w')]
    a = UndirectedGraph(3)
    b = UndirectedGraph(3)
    a.getEdges()
    b.getEdges()
    a.addEdge(0, 1, w[0])
    check_graph(b, 3, [], w, 'a graph keeps its edges when another one gets an edge', 'a graph keeps its edges when another one gets an edge', V)
    check_graph(a, 3, [(0, 1, 0)], w, E, D, V)


def d_weightless():
    g = UndirectedGraph(2)
    e = g.addEdge(0, 1)
    expect(e.weight is None, 'an edge without weight has no weight')


def d_directed():
    """a directed graph: an edge belongs to the vertex where it starts"""
    ends = [(0, 1), (1, 0), (2, 0), (2, 1), (1, 1)]
    ws = [symfloat('w0'), symfloat('w1'), symfloat('w2')]
    for r in range(4):
        for es in product(ends, repeat = r):
            g = Graph(3)
            for i in range(r):
                e = g.addEdge(es[i][0], es[i][1], weight = ws[i])
                expect(same(e.weight, ws[i]) and e.vertices[0] is g.v[es[i][0]] and e.vertices[1] is g.v[es[i][1]],
                       'directed graph: the edge returned joins the two vertices')
            for v in range(3):
                want = [(v, es[i][1], i) for i in range(r) if es[i][0] == v]
                got = [(e.vertices[0].index, e.vertices[1].index, [k for k in range(3) if same(e.weight, ws[k])][0]) for e in g.v[v].edges]
                expect(got == want, 'directed graph: a vertex has the edges that start there')
                expect(g.v[v].degree == len(want), 'directed graph: a vertex has the edges that start there')


def d_loops():
    """an edge from a vertex to itself ends there twice"""
    ws = [symfloat('w0'), symfloat('w1')]
    g = UndirectedGraph(2)
    g.addEdge(1, 1, ws[0])
    check_graph(g, 2, [(1, 1, 0)], ws, 'an edge from a vertex to itself is one edge', 'an edge from a vertex to itself ends there twice', V)
    g.addEdge(0, 1, ws[1])
    check_graph(g, 2, [(1, 1, 0), (0, 1, 1)], ws, 'an edge from a vertex to itself is one edge', 'an edge from a vertex to itself ends there twice', V)


def d_other_side():
    a, b, c = GraphVertex(0), GraphVertex(1, name = 'b'), GraphVertex(0)
    w = symfloat('w')
    e = GraphEdge(a, b, weight = w)
    expect(e.anotherSide(a) is b and e.anotherSide(b) is a, 'the other side of an edge is its other end')
    expect(same(e.weight, w), 'an edge keeps its weight')
    expect(GraphEdge(a, a).anotherSide(a) is a, 'the other side of an edge from a vertex to itself is that vertex')
    try:
        e.anotherSide(c)
    except (ValueError, AssertionError, KeyError):
        ok('rejected')
        return
    fail('a vertex that is not an end of the edge has no other side')


def d_rejects():
    """vertices that do not exist, and nothing is added for them"""
    x, y = choice((0, 3), (3, 0), (-1, 1), (1, -1), (4, 4))
    undirected = choice(True, False)
    g = UndirectedGraph(3) if undirected else Graph(3)
    g.addEdge(0, 1, 1.0)
    s = freeze(g)
    try:
        g.addEdge(x, y, 2.0)
    except (AssertionError, ValueError, IndexError, KeyError):
        unchanged(s, 'a rejected edge leaves the graph as it was')
        return
    fail('an edge to a vertex outside the graph is rejected', x, y)


WH = symfloat('H')
WV = symfloat('V')
SIZES = [(1, 1), (1, 2), (2, 1), (1, 4), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 3), (3, 5)]


def forms():
    """weight argument, weights, number of the first and of the second weight"""
    return [(WV, [WV], 0, 0), ((WV, WH), [WV, WH], 0, 1), ([WV, WH], [WV, WH], 0, 1)]


def pbc(n, m, a, b):
    out = []
    for x in range(n):
        for y in range(m):
            out.append((x * m + y, x * m + (y + 1) % m, b))
            out.append((x * m + y, ((x + 1) % n) * m + y, a))
    return out


def fbc(n, m, a, b):
    out = []
    for x in range(n):
        for y in range(m):
            if y + 1 < m:
                out.append((x * m + y, x * m + y + 1, b))
            if x + 1 < n:
                out.append((x * m + y, (x + 1) * m + y, a))
    return out


def double(n, m, a, b):
    """plaquettes (x, y) with corners up, down, left, right; a: left-up to right-bottom, b: right-up to left-bottom"""
    out = []
    for x in range(n):
        for y in range(m):
            up, down = x * m + y, (x + 1) * m + y
            left = (n + 1) * m + x * (m + 1) + y
            right = left + 1
            out.append((left, up, b))
            out.append((right, down, b))
            out.append((left, down, a))
            out.append((up, right, a))
    return out


def d_pbc():
    for n, m in SIZES:
        for arg, ws, a, b in forms():
            check_graph(squareLatticePBC(n, m, arg), n * m, pbc(n, m, a, b), ws, 'periodic square lattice: every site is joined to the next one in its row and in its column',
                        'periodic square lattice: every site has the edges to its four neighbours', 'periodic square lattice: one vertex per site')


def d_fbc():
    for n, m in SIZES:
        for arg, ws, a, b in forms():
            check_graph(squareLatticeFBC(n, m, arg), n * m, fbc(n, m, a, b), ws, 'free square lattice: every site is joined to the next one in its row and in its column',
                        'free square lattice: every site has the edges to its neighbours', 'free square lattice: one vertex per site')


def d_double():
    for n, m in SIZES:
        for arg, ws, a, b in forms():
            check_graph(doubleSquareLatticeFBC(n, m, arg), n * (m + 1) + m * (n + 1), double(n, m, a, b), ws, 'double square lattice: every plaquette joins its four corners in a ring',
                        'double square lattice: every site has the edges of its plaquettes', 'double square lattice: one vertex per corner of plaquettes')


def d_complete():
    for n in range(7):
        check_graph(completeGraph(n, WV), n, [(x, y, 0) for x in range(n) for y in range(x)], [WV], 'complete graph: every two vertices are joined once',
                    'complete graph: every vertex is joined to all others', 'complete graph: n vertices')


def d_defaults():
    for n in [1, 2, 3]:
        z = [0.0]
        for g, edges, nv in [(squareLatticePBC(n), pbc(n, n, 0, 0), n * n), (squareLatticeFBC(n), fbc(n, n, 0, 0), n * n),
                             (doubleSquareLatticeFBC(n), double(n, n, 0, 0), 2 * n * (n + 1)), (completeGraph(n), [(x, y, 0) for x in range(n) for y in range(x)], n)]:
            check_graph(g, nv, edges, z, 'lattice of n rows: n columns and weight 0 by default', 'lattice of n rows: n columns and weight 0 by default', 'lattice of n rows: n columns by default')
        for f in [squareLatticePBC, squareLatticeFBC, doubleSquareLatticeFBC]:
            g = f(n, weight = (WV, WH))
            h = f(n, n, (WV, WH))
            expect(sorted([key(e, [WV, WH]) for e in g.getEdges()]) == sorted([key(e, [WV, WH]) for e in h.getEdges()]), 'lattice of n rows: n columns by default')


def d_numbers():
    """plain numbers as weights"""
    for w in [0.5, 1]:
        check_graph(squareLatticePBC(3, 3, w), 9, pbc(3, 3, 0, 0), [w], 'lattice with a number as weight', 'lattice with a number as weight', V)
        check_graph(squareLatticeFBC(2, 3, weight = w), 6, fbc(2, 3, 0, 0), [w], 'lattice with a number as weight', 'lattice with a number as weight', V)
        check_graph(doubleSquareLatticeFBC(2, 1, w), 7, double(2, 1, 0, 0), [w], 'lattice with a number as weight', 'lattice with a number as weight', V)
        check_graph(completeGraph(3, w), 3, [(0, 1, 0), (0, 2, 0), (1, 2, 0)], [w], 'lattice with a number as weight', 'lattice with a number as weight', V)


def d_extended():
    """a lattice can be extended after it was used"""
    w = symfloat('w')
    ws = [WV, WH, w]
    g = squareLatticeFBC(2, 2, (WV, WH))
    check_graph(g, 4, fbc(2, 2, 0, 1), ws, E, D, V)
    g.addEdge(3, 0, w)
    check_graph(g, 4, fbc(2, 2, 0, 1) + [(0, 3, 2)], ws, 'a lattice that was used can be extended', 'a lattice that was used can be extended', V)


def d_size_rejects():
    f = choice(squareLatticePBC, squareLatticeFBC, doubleSquareLatticeFBC, completeGraph)
    n = choice(2.0, '2', None)
    try:
        f(n, weight = 0.5)
    except (AssertionError, ValueError, TypeError):
        ok('rejected')
        return
    fail('a size that is not an integer is rejected', n)
