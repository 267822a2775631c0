"""finite tensor networks declared from the enumerated networks"""
from lib_net import *
from CTL.tensornetwork.tensornetwork import FiniteTensorNetwork
from CTL.tensornetwork.tensordict import TensorDict

# all tensors use the same labels, so that only their tags tell the legs apart
LS = ['a', 'b', 'c']


def parts(net, mode, names = 'xyzw', used = LS):
    """the tensors of a network (not linked), the declared links, and the axis every open leg stands for"""
    legs, bonds = NETS[net]
    pool = dims(['i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's', 't'])
    if mode == 'equal':
        pool = [dim('n')] * 12
    if mode == 'literal':
        pool = [2, 3, 5, 2, 4, 3, 2, 7, 3, 2, 5, 3]
    if mode == 'literal b':
        pool = [3, 2, 2, 5, 3, 4, 3, 2, 7, 2, 3, 5]
    ext = []
    x = 0
    for n in legs:
        ext.append(pool[x:x + n])
        x += n
    for (s, a), (t, b) in bonds:
        ext[t][b] = ext[s][a]
    ts = {}
    for i in range(len(legs)):
        ts[names[i]] = dense('ABCD'[i], used[:legs[i]], ext[i])
    links = [(names[s], used[a], names[t], used[b]) for (s, a), (t, b) in bonds]
    bonded = [p for q in bonds for p in q]
    m = {}
    for i in range(len(legs)):
        for k in range(legs[i]):
            if (i, k) not in bonded:
                m[names[i] + '-' + used[k]] = 'ABCD'[i] + '.' + str(k)
    sums = []
    for (s, a), (t, b) in bonds:
        sums.append('~'.join(sorted(['ABCD'[s] + '.' + str(a), 'ABCD'[t] + '.' + str(b)])))
    return ts, links, m, tuple(sorted(sums))


def declared(names, links, **options):
    f = FiniteTensorNetwork(names, **options)
    for l in links:
        f.addLink(*l)
    return f


def evaluated(r, m, sums, tagged, what):
    if tagged:
        expect(sorted(r.labels) == sorted(m), what + ': the result has exactly the open legs', r)
        for l in m:
            if l in r.labels:
                expect(tags(r.a)[r.labels.index(l)] == m[l], what + ': every leg stands for its axis', r)
    else:
        back = {}
        for l in m:
            back[m[l]] = l[l.find('-') + 1:]
        expect(sorted(tags(r.a)) == sorted(back), what + ': the result has exactly the open axes', r)
        if sorted(tags(r.a)) == sorted(back):
            expect(r.labels == [back[x] for x in tags(r.a)], what + ': the tags are taken off the labels', r)
    shp = r.a.shape
    for k in range(len(r.legs)):
        expect(r.legs[k].bond is None and r.legs[k].tensor is r and r.legs[k].dim == shp[k], what + ': the legs are free', r)
    expect(sumpairs(r.a) == sums, what + ': exactly the declared links are summed', r)


def orders(n):
    return [list(p) for p in permutations(range(n))]
