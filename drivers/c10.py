"""C10: evaluating a network again, changing it, and locking"""
from lib_ftn import *


def d_again():
    """evaluated again, with the same tensors and with others of other extents"""
    net = choice('triangle', 'open triangle', 'double bond', 'parted', 'chain3b')
    real = choice(True, False)
    f = None
    for mode in ['literal', 'literal', 'literal b', 'literal']:
        ts, links, m, sums = parts(net, mode)
        if f is None:
            f = declared(['x', 'y', 'z'], links, realCost = real)
        evaluated(f.contract(ts, removeTensorTag = False), m, sums, True, 'evaluating a network again')


def d_searched_again():
    """with real costs, other extents mean another search, whichever extent it is"""
    which = choice('bond', 'open', 'back')
    f = FiniteTensorNetwork(['x', 'y', 'z'], realCost = True)
    f.addLink('x', 'b', 'y', 'a')
    f.addLink('y', 'b', 'z', 'a')
    stub_sequence('left')
    def given(i, j, k, l):
        return {'x': dense('A', ['a', 'b'], [i, j]), 'y': dense('B', ['a', 'b'], [j, k]), 'z': dense('C', ['a', 'b'], [k, l])}
    f.contract(given(2, 3, 4, 5))
    n = searches()
    expect(n > 0, 'a sequence is searched for', f)
    if which == 'bond':
        f.contract(given(2, 7, 4, 5))
    elif which == 'open':
        f.contract(given(2, 3, 4, 9))
    else:
        f.contract(given(9, 3, 4, 5))
        k = searches()
        expect(k > n, 'other extents mean another search', f)
        n = k
        f.contract(given(2, 3, 4, 5))
    expect(searches() > n, 'other extents mean another search', f)


def d_searched_after_change():
    """a changed network is searched anew; the same network is not searched twice"""
    what = choice('link', 'tensor', 'removed', 'nothing')
    real = choice(True, False)
    f = FiniteTensorNetwork(['x', 'y', 'z'], realCost = real)
    f.addLink('x', 'b', 'y', 'a')
    if what != 'removed':
        f.addLink('y', 'b', 'z', 'a')
    stub_sequence('left')
    ts = {'x': dense('A', ['a', 'b'], [2, 3]), 'y': dense('B', ['a', 'b'], [3, 4]), 'z': dense('C', ['a', 'b'], [4, 2])}
    f.contract(ts)
    n = searches()
    if what == 'nothing':
        f.contract(ts)
        expect(searches() == n, 'the same network is not searched twice', f)
        return
    f.unlock()
    if what == 'link':
        f.addLink('z', 'b', 'x', 'a')
    elif what == 'tensor':
        f.addTensor('w')
        ts['w'] = dense('D', ['a'], [5])
    else:
        f.removeTensor('z')
        ts.pop('z')
    f.contract(ts)
    expect(searches() > n, 'a changed network is searched again', f)


def changes(f):
    return [lambda: f.addTensor('w'),
            lambda: f.removeTensor('x'),
            lambda: f.addLink('x', 'c', 'y', 'c'),
            lambda: f.addPreNameChange('x', 'c', 'd'),
            lambda: f.addPostNameChange('x', 'c', 'd'),
            lambda: f.removePreNameChange('x', 'c', 'u'),
            lambda: f.removePostNameChange('y', 'b', 'u'),
            lambda: f.addPostOutProduct([('x', 'u'), ('z', 'c')], 'P')]


def lock_case(how):
    stub_sequence('left')
    ts, links, m, sums = parts('open triangle', 'distinct')
    f = declared(['x', 'y', 'z'], links)
    f.addPreNameChange('x', 'c', 'u')
    f.addPostNameChange('y', 'b', 'u')
    m2 = {}
    new = {'x-c': 'x-u', 'y-b': 'y-u'}
    for l in m:
        m2[new.get(l, l)] = m[l]
    if how == 'lock':
        f.lock()
    else:
        f.contract(ts)
    if how == 'again':
        f.unlock()
        f.contract(ts)
    for op in changes(f):
        s = freeze(f)
        try:
            op()
        except Exception:
            ok()
        else:
            fail('a locked network cannot be changed', f)
        unchanged(s, 'a locked network stays as it is')
    evaluated(f.contract(ts, removeTensorTag = False), m2, sums, True, 'a locked network')
    f.unlock()
    for op in changes(f)[3:]:
        op()
    f.addPreNameChange('x', 'd', 'u')


def d_locked():
    lock_case('lock')


def d_locked_by_evaluation():
    lock_case('evaluated')


def d_locked_again():
    lock_case('again')


def d_unlocked():
    """an unlocked network can be extended and evaluated again"""
    net = choice('two', 'two closed')
    first = choice(True, False)
    real = choice(True, False)
    ts, links, m, sums = parts(net, 'literal')
    f = declared(['x', 'y'], links, realCost = real)
    if first:
        f.contract(ts)
        f.unlock()
    f.addTensor('z')
    ts['z'] = dense('C', ['a', 'b'], [4, 6])
    m['z-a'], m['z-b'] = 'C.0', 'C.1'
    evaluated(f.contract(ts, removeTensorTag = False), m, sums, True, 'a network extended by a tensor')
    if net == 'two':
        f.unlock()
        f.addLink('z', 'a', 'y', 'b')
        ts['z'] = dense('C', ['a', 'b'], [ts['y'].shapeOfLabel('b'), 6])
        m2 = {'x-a': 'A.0', 'z-b': 'C.1'}
        evaluated(f.contract(ts, removeTensorTag = False), m2, tuple(sorted(list(sums) + ['B.1~C.0'])), True, 'a network extended by a link')


def d_reduced():
    """a tensor without links is taken out again"""
    net = choice('parted', 'free')
    real = choice(True, False)
    ts, links, m, sums = parts(net, 'literal')
    f = declared(['x', 'y', 'z'], links, realCost = real)
    f.contract(ts)
    f.unlock()
    f.removeTensor('y')
    ts.pop('y')
    m2 = {}
    for l in m:
        if l[0] != 'y':
            m2[l] = m[l]
    evaluated(f.contract(ts, removeTensorTag = False), m2, sums, True, 'a network without one of its tensors')


def d_renamed_later():
    """renames, merges and their removal take effect at the next evaluation"""
    stub_sequence('left')
    ts, links, m, sums = parts('open triangle', 'distinct')
    f = declared(['x', 'y', 'z'], links)
    f.contract(ts)
    f.unlock()
    f.addPostNameChange('x', 'c', 'u')
    m2 = {}
    for l in m:
        m2[{'x-c': 'x-u'}.get(l, l)] = m[l]
    evaluated(f.contract(ts, removeTensorTag = False), m2, sums, True, 'a rename added later')
    f.unlock()
    f.removePostNameChange('x', 'c', 'u')
    evaluated(f.contract(ts, removeTensorTag = False), m, sums, True, 'a rename removed later')
    f.unlock()
    f.addPreNameChange('y', 'b', 'v')
    m3 = {}
    for l in m:
        m3[{'y-b': 'y-v'}.get(l, l)] = m[l]
    evaluated(f.contract(ts, removeTensorTag = False), m3, sums, True, 'a rename added later')


def d_own_state():
    """networks do not share what they declare, nor do they follow the list of names they were made from"""
    stub_sequence('left')
    ts, links, m, sums = parts('chain3', 'distinct')
    ours = ['x', 'y', 'z']
    f = FiniteTensorNetwork(ours) if choice(True, False) else FiniteTensorNetwork()
    g = FiniteTensorNetwork(ours) if choice(True, False) else FiniteTensorNetwork()
    for n in ours:
        if n not in f.tensorNames:
            f.addTensor(n)
    s = freeze(g)
    for l in links:
        f.addLink(*l)
    f.addPreNameChange('x', 'a', 'u')
    f.addPostNameChange('x', 'u', 'v')
    f.addPostOutProduct([('x', 'v')], 'P')
    f.removePreNameChange('x', 'a', 'u')
    f.removePostNameChange('x', 'u', 'v')
    f.outProductAfter.pop()
    f.addTensor('w')
    f.removeTensor('w')
    f.contract(ts)
    f.unlock()
    unchanged(s, 'networks do not share what they declare')
    expect(ours == ['x', 'y', 'z'], 'the list of names given is not changed', f)
    ours.append('q')
    evaluated(f.contract(ts, removeTensorTag = False), m, sums, True, 'a network keeps its names')
    h = FiniteTensorNetwork()
    expect(h.tensorCount == 0, 'a new network is empty', h)


def d_results_apart():
    """a result belongs to the caller"""
    stub_sequence('left')
    ts, links, m, sums = parts(choice('chain3', 'open triangle'), 'distinct')
    f = declared(['x', 'y', 'z'], links)
    r = f.contract(ts, removeTensorTag = False)
    s = freeze(r)
    q = f.contract(ts, removeTensorTag = False)
    unchanged(s, 'evaluating again leaves earlier results alone')
    expect(not shares(r.a, q.a), 'two results do not share data', r, q)
    q.renameLabel(q.labels[0], 'other')
    evaluated(f.contract(ts, removeTensorTag = False), m, sums, True, 'a network after its result was renamed')


def d_renames_of_one_label():
    """renames of one label, one of them taken back: the other stays"""
    before = choice(True, False)
    evaluate = choice(True, False)
    take = choice('u', 'v')
    f = FiniteTensorNetwork(tensorNames = ['x'])
    change = f.addPreNameChange if before else f.addPostNameChange
    back = f.removePreNameChange if before else f.removePostNameChange
    change('x', 'a', 'u')
    change('x', 'b', 'w')
    change('x', 'a', 'v')
    n, m, k = dim('n'), dim('m'), dim('k')
    ts = {'x': dense('A', ['a', 'a', 'b'], [n, m, k])}
    if evaluate:
        r = f.contract(ts)
        expect(r.labels == ['u', 'v', 'w'], 'a label that two legs carry is renamed twice', r)
        f.unlock()
    back('x', 'a', take)
    r = f.contract(ts)
    expect(r.labels == ['v' if take == 'u' else 'u', 'a', 'w'], 'taking a rename back leaves the other renames', r)
    f.unlock()
    back('x', 'b', 'w')
    r = f.contract(ts)
    expect(r.labels == ['v' if take == 'u' else 'u', 'a', 'b'], 'taking a rename back leaves the other renames', r)


def d_same_rename_twice():
    """the same rename declared twice and taken back once still happens once"""
    before = choice(True, False)
    stub_sequence('left')
    f = FiniteTensorNetwork(tensorNames = ['x', 'y'])
    change = f.addPreNameChange if before else f.addPostNameChange
    back = f.removePreNameChange if before else f.removePostNameChange
    change('x', 'a', 'u')
    change('y', 'a', 'u')
    change('x', 'a', 'u')
    back('x', 'a', 'u')
    n, m = dim('n'), dim('m')
    r = f.contract({'x': dense('A', ['a', 'a'], [n, m]), 'y': dense('B', ['a'], [n])}, removeTensorTag = False)
    expect(sorted(r.labels) == ['x-a', 'x-u', 'y-u'], 'a rename declared twice and taken back once happens once', r)
