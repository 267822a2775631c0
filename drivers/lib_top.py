"""predefined networks against the legs they must join"""
from lib_ftn import *

LETTERS = 'ABCDEFGHI'


def built(tensors, links):
    """one tensor per name with legs in the order given; linked legs get equal extents, all others their own"""
    names = sorted(tensors)
    ext = {}
    for k in range(len(links)):
        a, b = links[k]
        ext[a] = ext[b] = dim('d' + str(k))
    ts, tag = {}, {}
    for i in range(len(names)):
        n = names[i]
        ls = tensors[n].split()
        es = []
        for x in range(len(ls)):
            p = n + '-' + ls[x]
            if p not in ext:
                ext[p] = dim('e' + p)
            es.append(ext[p])
            tag[p] = LETTERS[i] + '.' + str(x)
        ts[n] = dense(LETTERS[i], ls, es)
    return ts, tag


def ends(links):
    """'a-x:b-y ...' -> pairs"""
    return [tuple(l.split(':')) for l in links.split()]


def topology(f, tensors, links, out, what):
    """the network sums exactly these links, and its legs are these (a list of legs merged row-major each)"""
    stub_sequence('left', 'right')
    links = ends(links)
    ts, tag = built(tensors, links)
    r = f.contract(ts)
    expect(sorted(r.labels) == sorted(out), what + ': the open legs', r)
    for l in out:
        if l in r.labels:
            expect(tags(r.a)[r.labels.index(l)] == '*'.join([tag[x] for x in out[l].split()]), what + ': every open leg stands for the right axes, in order', r)
    expect(sumpairs(r.a) == tuple(sorted(['~'.join(sorted([tag[a], tag[b]])) for a, b in links])), what + ': exactly the neighbouring legs are joined', r)
