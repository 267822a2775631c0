"""C19: the graph of a list of tensors, and lists of tensors described by text (interpreted abstractly)"""
from lib_net import *
from CTL.tensor.contract.tensorGraph import TensorGraph, decodeSubText, createTensorFromText, createTensorListFromText
from CTL.tensor.contract.optimalContract import makeTensorGraphFromText


def ends(e):
    return tuple(sorted([-1 if v is None else v.index for v in e.vertices]))


def check_graph(g, ts, wanted, what):
    """wanted: list of (smaller vertex or -1, larger vertex, extent)"""
    es = g.getEdges()
    expect(len(g.v) == len(ts), 'graph of a list of tensors: one vertex per tensor')
    expect(len(es) == len(wanted), 'graph of a list of tensors: one edge per bond and one per open leg')
    expect(sorted([ends(e) for e in es]) == sorted([(x, y) for x, y, d in wanted]), 'graph of a list of tensors: an edge joins the tensors of its bond')
    expect(sorted([e.index for e in es]) == list(range(len(es))), 'graph of a list of tensors: the edges are numbered, each once')
    for e in es:
        expect(len([1 for x, y, d in wanted if (x, y) == ends(e) and d == e.weight]) > 0, 'graph of a list of tensors: the weight of an edge is the extent of its bond or leg')
    for i in range(len(ts)):
        expect(g.v[i].index == i, 'graph of a list of tensors: vertices in the order of the tensors')
        expect(g.v[i].degree == len(ts[i].legs), 'graph of a list of tensors: every leg of a tensor is an edge of its vertex')
        expect(g.v[i].name == ts[i].name, 'graph of a list of tensors: a vertex has the name of its tensor')
        expect(g.diagonalFlags[i] == ts[i].diagonalFlag, 'graph of a list of tensors: a vertex knows whether its tensor is diagonal')
        for e in g.v[i].edges:
            expect(i in ends(e), 'graph of a list of tensors: every leg of a tensor is an edge of its vertex')


def wanted_edges(net, ts):
    legs, bonds = NETS[net]
    out = []
    used = []
    for (s, a), (t, b) in bonds:
        out.append((min(s, t), max(s, t), ts[s].legs[a].dim))
        used += [(s, a), (t, b)]
    for i in range(len(legs)):
        for k in range(legs[i]):
            if (i, k) not in used:
                out.append((-1, i, ts[i].legs[k].dim))
    return out


def d_networks():
    for net in NOUT + N3 + N4:
        for mode in ['distinct', 'equal']:
            ts, m, sums = network(net, mode)
            s = freeze(ts)
            g = makeTensorGraph(ts)
            check_graph(g, ts, wanted_edges(net, ts), net)
            unchanged(s, 'graph of a list of tensors: the tensors are left alone')


def d_orders():
    """the same tensors in any order"""
    for net in ['chain3b', 'double bond', 'ring4', 'star4']:
        legs, bonds = NETS[net]
        ts, m, sums = network(net, 'distinct')
        for p in permutations(range(len(ts))):
            us = [ts[i] for i in p]
            w = []
            for x, y, d in wanted_edges(net, ts):
                q = [-1 if z < 0 else p.index(z) for z in (x, y)]
                w.append((min(q), max(q), d))
            check_graph(makeTensorGraph(us), us, w, net)


def d_named():
    """names and tensors without data; diagonal tensors"""
    n = dim('n')
    a = Tensor(data = arr('A', [n, dim('k')]), labels = ['p', 'q'], name = 'first')
    b = DiagonalTensor(data = arr('B', [n]), labels = ['p', 'q', 'r'])
    c = TensorLike(labels = ['x', 'y'], shape = (n, n), name = 'third')
    makeLink('p', 'q', a, b)
    makeLink('r', 'y', b, c)
    check_graph(makeTensorGraph([a, b, c]), [a, b, c], [(0, 1, n), (1, 2, n), (-1, 0, a.legs[1].dim), (-1, 1, n), (-1, 2, n)], 'named')


def d_graph_steps():
    """edges added one by one, with numbers asked for in between"""
    for ask in product(['', 'number', 'list'], repeat = 4):
        g = TensorGraph(3)
        w = []
        for i, (x, y) in enumerate([(0, 1), (-1, 2), (2, 1), (-1, 0)]):
            if ask[i] == 'number':
                g.addEdgeIndex()
            if ask[i] == 'list':
                g.getEdges()
            if x < 0:
                g.addFreeEdge(y, weight = 2 + i)
            else:
                g.addEdge(x, y, weight = 2 + i)
            w.append((min(x, y), max(x, y), 2 + i))
        if i % 2 == 1:
            g.getEdges()
        g.addEdgeIndex()
        es = g.getEdges()
        expect(sorted([ends(e) + (e.weight,) for e in es]) == sorted(w), 'graph: the edges added so far, each with its weight')
        expect(sorted([e.index for e in es]) == [0, 1, 2, 3], 'graph: the edges are numbered anew when edges were added')
        expect([v.degree for v in g.v] == [2, 2, 2], 'graph: free edges belong to one vertex, others to two')
        expect(list(g.diagonalFlags) == [False, False, False], 'graph: no vertex is diagonal unless it is said')


def d_flags():
    g = TensorGraph(2, diagonalFlags = [True, False])
    expect(list(g.diagonalFlags) == [True, False], 'graph: the diagonal vertices are those given')


def text(name, legs):
    """every letter form: plain one-letter names, one-digit sizes without braces"""
    r = name
    for n, d in legs:
        r = r + (n if len(n) == 1 else '{' + n + '}')
        if d is not None:
            r = r + '{' + str(d) + '}'
    return r


LEGS = [('i', None), ('j', 3), ('k', 12), ('mn', None), ('opq', 7), ('rs', 120)]


def d_decode():
    """every ordered selection of up to three legs of all kinds"""
    for r in [1, 2, 3]:
        for ls in permutations(LEGS, r):
            t = text('', ls)
            labels, shape = decodeSubText(t)
            expect(list(labels) == [n for n, d in ls], 'text: the names of the legs, in order', t)
            expect(list(shape) == [d for n, d in ls], 'text: the sizes of the legs, in order, none where none is given', t)


def d_decode_digits():
    """sizes of one digit need no braces"""
    for t, names, sizes in [('i2', ['i'], [2]), ('i2j', ['i', 'j'], [2, None]), ('ij4', ['i', 'j'], [None, 4]), ('i2j3k9', ['i', 'j', 'k'], [2, 3, 9]),
                            ('{ab}5c', ['ab', 'c'], [5, None]), ('i2{ab}', ['i', 'ab'], [2, None]), ('i{15}j2', ['i', 'j'], [15, 2]), ('', [], [])]:
        labels, shape = decodeSubText(t)
        expect(list(labels) == names, 'text: the names of the legs, in order', t)
        expect(list(shape) == sizes, 'text: the sizes of the legs, in order, none where none is given', t)


def d_decode_longer():
    for ls in [LEGS, LEGS[::-1], LEGS[2:] + LEGS[:2]]:
        labels, shape = decodeSubText(text('', ls))
        expect(list(labels) == [n for n, d in ls], 'text: the names of the legs, in order')
        expect(list(shape) == [d for n, d in ls], 'text: the sizes of the legs, in order, none where none is given')


def d_tensor():
    for r in [1, 2, 3]:
        for ls in permutations(LEGS[:4], r):
            t = createTensorFromText(text('T', ls))
            expect(t.name == 'T', 'text: the capital letter names the tensor')
            expect(list(t.labels) == [n for n, d in ls], 'text: a tensor has the legs described, in order', t)
            expect([leg.dim for leg in t.legs] == [d for n, d in ls], 'text: a tensor has the sizes described', t)
            for leg in t.legs:
                expect(leg.tensor is t and leg.bond is None, 'text: a tensor has the legs described, in order', t)


def check_list(desc, sizes):
    """desc: list of (name, [(leg, size or None)]); sizes: extent of every leg name in the end"""
    t = ''
    for name, ls in desc:
        t = t + text(name, ls)
    ts = createTensorListFromText(t)
    expect(len(ts) == len(desc), 'text: one tensor per capital letter', t)
    where = {}
    for i, (name, ls) in enumerate(desc):
        expect(ts[i].name == name, 'text: the tensors in order', t)
        expect(list(ts[i].labels) == [n for n, d in ls], 'text: a tensor has the legs described, in order', t)
        for k, (n, d) in enumerate(ls):
            where[n] = where.get(n, []) + [ts[i].legs[k]]
    w = []
    for n in where:
        for leg in where[n]:
            expect(leg.dim == sizes[n], 'text: legs of the same name have the size given to one of them', t)
        if len(where[n]) == 2:
            x, y = where[n]
            expect(x.bond is not None and x.bond is y.bond and x.anotherSide() is y and y.anotherSide() is x, 'text: legs of the same name are linked', t)
            i, j = [[k for k in range(len(ts)) if ts[k] is leg.tensor][0] for leg in (x, y)]
            w.append((min(i, j), max(i, j), sizes[n]))
        else:
            expect(where[n][0].bond is None, 'text: a leg of its own name stays open', t)
            i = [k for k in range(len(ts)) if ts[k] is where[n][0].tensor][0]
            w.append((-1, i, sizes[n]))
    check_graph(makeTensorGraph(ts), ts, w, 'text')
    check_graph(makeTensorGraphFromText(t), ts, w, 'text')


def d_lists():
    """chains, rings, double bonds, in every order of tensors; the size is given at either end, at both or at none"""
    for si, sk in product([(None, None), (3, None), (None, 14), (3, 3)], repeat = 2):
        i = si[0] if si[0] is not None else si[1]
        k = sk[0] if sk[0] is not None else sk[1]
        parts = [('A', [('i', si[0]), ('xy', 5)]), ('B', [('kl', sk[0]), ('i', si[1]), ('z', None)]), ('C', [('w', 2), ('kl', sk[1])])]
        for p in permutations(parts):
            check_list(list(p), {'i': i, 'kl': k, 'xy': 5, 'z': None, 'w': 2})


def d_lists_rings():
    parts = [('A', [('i', 2), ('j', None), ('p', 4)]), ('B', [('j', 13), ('k', 6), ('q', None)]), ('C', [('k', None), ('i', 2), ('q', 8)])]
    for p in permutations(parts):
        check_list(list(p), {'i': 2, 'j': 13, 'k': 6, 'p': 4, 'q': 8})
    check_list([('A', [('i', 2), ('j', 3)]), ('A', [('j', 3), ('i', 2)])], {'i': 2, 'j': 3})
    check_list([('Z', [('a', None)])], {'a': None})


def d_rejects():
    t = choice('AijBikCi', 'Ai{2}Bi{3}', 'ijk', 'aBi', '', 'Ai}', 'A i B i C i'[0:0], 'AiBij{4}Cj{5}')
    try:
        createTensorListFromText(t)
    except (AssertionError, ValueError, IndexError):
        ok('rejected')
        return
    fail('text: a name used three times, sizes that differ, a missing tensor or an unmatched brace is rejected', t)


def d_rejects_sizes():
    """different sizes of one name, in either order and in every place"""
    for t in ['Ai2Bi3', 'Ai3Bi2', 'Ai{13}Bi{12}', 'Ai{12}Bi{13}', 'Ai{2}Bi{3}', 'Ai{3}Bi{2}', 'Aj2i5Bi4k', 'A{xy}{12}B{xy}{2}', 'A{xy}{2}B{xy}{12}',
              'Ai1Bi2', 'Ai2Bi1', 'Ai2j3Bj3i1', 'Ai2j3Bj4i2']:
        try:
            createTensorListFromText(t)
        except (AssertionError, ValueError, IndexError):
            ok('rejected')
            continue
        fail('text: different sizes of one name are rejected', t)
    for t in ['AiBiCi', 'AiiBi', 'AiBii', 'Ai2Bi2Ci2', 'AijBjkCki2Di', 'Ai2jBijCi', 'AxAxAx']:
        try:
            createTensorListFromText(t)
        except (AssertionError, ValueError, IndexError):
            ok('rejected')
            continue
        fail('text: a name used three times is rejected', t)
