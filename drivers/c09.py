"""C09: a finite tensor network evaluates exactly what it declares"""
from lib_ftn import *


def network_case(nets, mode, tagged, orders):
    """every order of the names, with another order of the dictionary and of the links"""
    net = choice(*nets)
    for k, order in enumerate(orders):
        stub_sequence('left' if k % 2 == 0 else 'right')
        ts, links, m, sums = parts(net, mode)
        names = sorted(ts)
        f = declared([names[i] for i in order if i < len(names)], links if k % 2 == 0 else links[::-1])
        d = {}
        for i in range(len(names)):
            nm = names[(i + k) % len(names)]
            d[nm] = ts[nm]
        if k % 3 == 1:
            d = TensorDict(d)
        if tagged:
            r = f.contract(d, removeTensorTag = False)
        else:
            r = f.contract(d)
        evaluated(r, m, sums, tagged, 'evaluating a network')


def d_single():
    network_case(NOUT, 'distinct', True, orders(2))


def d_single_untagged():
    network_case(NOUT, 'distinct', False, orders(2))


def d_three():
    network_case(N3, 'distinct', True, orders(3))


def d_three_equal():
    network_case(N3, 'equal', True, orders(3))


def d_three_untagged():
    network_case(N3, 'distinct', False, orders(3))


def d_four():
    network_case(N4, 'distinct', True, [[0, 1, 2, 3], [3, 1, 2, 0], [2, 0, 3, 1]])


def d_four_untagged():
    network_case(N4, 'equal', False, [[0, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2]])


def d_searched():
    """with the sequence the search really gives"""
    net = choice(*N3)
    real = choice(True, False)
    ts, links, m, sums = parts(net, 'literal')
    f = declared(['y', 'z', 'x'], links, realCost = real)
    r = f.contract(ts, removeTensorTag = False)
    evaluated(r, m, sums, True, 'evaluating a network')


def d_built():
    """tensors and links declared one by one, reversed links, names removed again"""
    net = choice(*N3)
    stub_sequence('left')
    ts, links, m, sums = parts(net, 'distinct')
    f = FiniteTensorNetwork(['z'])
    f.addTensor('gone')
    f.addTensor('x')
    f.removeTensor('gone')
    for a, la, b, lb in links:
        f.addLink(b, lb, a, la)
    f.addTensor('y')
    expect(f.tensorCount == 3, 'the number of tensors', f)
    evaluated(f.contract(ts, removeTensorTag = False), m, sums, True, 'a network built step by step')


def d_pre_rename():
    """legs renamed before the links are made"""
    net = choice('triangle', 'chain3', 'open triangle', 'double bond')
    stub_sequence('left')
    ts, links, m, sums = parts(net, 'distinct')
    mode = choice('cycle', 'fresh', 'twice', 'removed')
    f = FiniteTensorNetwork(['x', 'y', 'z'])
    if mode == 'fresh':
        f.addPreNameChange('x', 'b', 'u')
        f.addPreNameChange('z', 'a', 'b2')
        f.addPreNameChange('y', 'b', 'b2')
        new = {'xb': 'u', 'za': 'b2', 'yb': 'b2'}
    elif mode == 'cycle':
        f.addPreNameChange('x', 'b', 'u')
        f.addPreNameChange('x', 'a', 'b')
        f.addPreNameChange('x', 'u', 'a')
        new = {'xb': 'a', 'xa': 'b'}
    elif mode == 'twice':
        f.addPreNameChange('y', 'a', 'u')
        f.addPreNameChange('y', 'u', 'v')
        f.addPreNameChange('z', 'b', 'u')
        new = {'ya': 'v', 'zb': 'u'}
    else:
        f.addPreNameChange('y', 'a', 'u')
        f.addPreNameChange('z', 'b', 'u')
        f.removePreNameChange('y', 'a', 'u')
        new = {'zb': 'u'}
    for a, la, b, lb in links:
        f.addLink(a, new.get(a + la, la), b, new.get(b + lb, lb))
    m2 = {}
    for l in m:
        n, x = l.split('-')
        m2[n + '-' + new.get(n + x, x)] = m[l]
    s = freeze(ts['x'], ts['y'], ts['z'])
    evaluated(f.contract(ts, removeTensorTag = False), m2, sums, True, 'legs renamed before linking')
    unchanged(s, 'the tensors given keep their labels')


def d_post_rename():
    """legs renamed after the contraction"""
    tagged = choice(True, False)
    stub_sequence('left')
    ts, links, m, sums = parts('open triangle', 'distinct')
    f = declared(['x', 'y', 'z'], links)
    f.addPostNameChange('x', 'c', 'u')
    f.addPostNameChange('z', 'c', 'w')
    f.addPostNameChange('y', 'c', 'gone')
    f.addPostNameChange('z', 'w', 'v')
    f.removePostNameChange('y', 'c', 'gone')
    new = {'x-c': 'x-u', 'z-c': 'z-v'}
    m2 = {}
    for l in m:
        m2[new.get(l, l)] = m[l]
    for again in range(2):
        evaluated(f.contract(ts, removeTensorTag = not tagged), m2, sums, tagged, 'legs renamed after the contraction')


def d_post_product():
    """open legs merged after the contraction, in the order given"""
    order = choice(*[list(p) for p in permutations(['x', 'y', 'z'], 2)])
    how = choice('tuple', 'string', 'mixed')
    stub_sequence('left', 'right')
    ts, links, m, sums = parts('open triangle', 'distinct')
    ext, ax = {}, {}
    for n in ['x', 'y', 'z']:
        lab = [l for l in m if l[0] == n][0]
        ax[n] = m[lab]
        ext[n] = ts[n].shapeOfLabel(lab[2:])
    labs = {}
    for n in order:
        l = [y for y in m if y[0] == n][0]
        labs[n] = l
    f = declared(['x', 'y', 'z'], links)
    first = (order[0], labs[order[0]][2:]) if how != 'string' else labs[order[0]]
    second = (order[1], labs[order[1]][2:]) if how == 'tuple' else labs[order[1]]
    f.addPostOutProduct([first, second], 'P')
    f.addPostNameChange('res', 'P', 'Q')
    r = f.contract(ts, removeTensorTag = False)
    rest = [n for n in ['x', 'y', 'z'] if n not in order][0]
    expect(sorted(r.labels) == sorted(['res-Q', [l for l in m if l[0] == rest][0]]), 'merged legs become one leg of the result', r)
    if 'res-Q' in r.labels:
        k = r.labels.index('res-Q')
        expect(tags(r.a)[k] == ax[order[0]] + '*' + ax[order[1]], 'legs are merged in the order given', r)
        expect(r.legs[k].dim == ext[order[0]] * ext[order[1]], 'the merged leg has the product of the extents', r)
        expect(tags(r.a)[1 - k] == ax[rest], 'the other legs are kept', r)
    expect(sumpairs(r.a) == sums, 'merging legs sums nothing', r)


def d_products():
    """several merges, of two and three legs"""
    stub_sequence('left')
    ts, links, m, sums = parts('ring4', 'distinct')
    f = declared(['x', 'y', 'z', 'w'], links)
    opened = sorted(m)
    a, b, c, d = [l.split('-') for l in opened]
    f.addPostOutProduct([tuple(c), tuple(a)], 'P')
    f.addPostOutProduct(['-'.join(b), tuple(d)], 'R')
    tagged = choice(True, False)
    r = f.contract(ts, removeTensorTag = not tagged)
    pre = 'res-' if tagged else ''
    expect(sorted(r.labels) == [pre + 'P', pre + 'R'], 'merged legs become legs of the result', r)
    if sorted(r.labels) == [pre + 'P', pre + 'R']:
        expect(tags(r.a)[r.labels.index(pre + 'P')] == m[opened[2]] + '*' + m[opened[0]], 'legs are merged in the order given', r)
        expect(tags(r.a)[r.labels.index(pre + 'R')] == m[opened[1]] + '*' + m[opened[3]], 'legs are merged in the order given', r)


def d_dictionary():
    """a tensor dictionary holds what was set last, under its name"""
    a, b, c = dense('A', ['a'], dims(['i'])), dense('B', ['a'], dims(['i'])), dense('C', ['a'], dims(['i']))
    d = TensorDict()
    d.setTensor('x', a)
    d.setTensor('y', b)
    e = TensorDict()
    expect(e.tensorCount == 0 and d.tensorCount == 2, 'every dictionary has its own tensors', d)
    expect(d.getTensor('x') is a and d.getTensor('y') is b, 'a tensor is found under its name', d)
    d.setTensor('x', c)
    expect(d.getTensor('x') is c and d.getTensor('y') is b and d.tensorCount == 2, 'a tensor set later replaces the earlier one', d)
    d.deleteTensor('y')
    expect(d.tensorCount == 1 and d.getTensor('x') is c, 'a tensor is deleted', d)
    for op in range(2):
        try:
            if op == 0:
                d.deleteTensor('y')
            else:
                d.getTensor('y')
        except Exception:
            ok()
        else:
            fail('a missing tensor is reported', d)


def d_names():
    """the tensors given must be exactly those declared"""
    stub_sequence('left')
    ts, links, m, sums = parts('triangle', 'distinct')
    f = declared(['x', 'y', 'z'], links)
    how = choice('missing', 'extra', 'wrong', 'none')
    d = {}
    for n in ts:
        d[n] = ts[n]
    if how == 'missing':
        del d['y']
    elif how == 'extra':
        d['w'] = dense('D', ['a'], dims(['i']))
    elif how == 'wrong':
        d['q'] = d.pop('z')
    else:
        d = {}
    try:
        f.contract(TensorDict(d) if choice(True, False) else d)
    except Exception:
        ok()
    else:
        fail('tensors that do not match the declared names are rejected', f)


def d_links():
    """links between legs that are not there, or of unequal extents, are rejected"""
    bad = choice(('x', 'q', 'y', 'b'), ('x', 'b', 'y', 'q'), ('x', 'b', 'y', 'b'), ('x', 'a', 'q', 'a'))
    stub_sequence('left')
    a, b = dense('A', ['a', 'b'], [2, 3]), dense('B', ['a', 'b'], [2, 4])
    f = FiniteTensorNetwork(['x', 'y'])
    f.addLink(*bad)
    try:
        f.contract({'x': a, 'y': b})
    except Exception:
        ok()
    else:
        fail('an impossible link is rejected', f)


def d_remove_unknown():
    f = FiniteTensorNetwork(['x'])
    try:
        f.removeTensor('y')
    except Exception:
        ok()
    else:
        fail('a tensor that is not there cannot be removed', f)
    expect(f.tensorCount == 1, 'the tensors are kept', f)
