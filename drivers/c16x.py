"""C16, the networks of the TNR and the coarse-graining steps"""
from lib_top import *
from CTL.examples.TNR import createQxAFTN, createCFTN, createCCFTN, createSCEnvSFTN
from CTL.examples.TRG import SquareTRG, TriangleTRG
from CTL.examples.HOTRG import HOTRG
from CTL.tensor.tensorFactory import makeTriangleTensor, makeSquareTensor


def d_tnr():
    topology(createQxAFTN(), {'q': 'h v o', 'A': 'l u r d'}, 'q-h:A-l q-v:A-u', {'h': 'A-r', 'v': 'A-d', 'o': 'q-o'}, 'createQxAFTN')
    topology(createCCFTN(), {'u': 'ul ur dl dr', 'd': 'ul ur dl dr'}, 'u-dl:d-dl u-dr:d-dr', {'ul': 'u-ul', 'ur': 'u-ur', 'dl': 'd-ul', 'dr': 'd-ur'}, 'createCCFTN')


def d_tnr_c():
    legs = {}
    for n in ['ul', 'ur', 'dl', 'dr']:
        legs[n] = 'h v o'
    topology(createCFTN(), legs, 'ul-v:dl-v ur-v:dr-v ul-h:ur-h dl-h:dr-h', {'ul': 'ul-o', 'ur': 'ur-o', 'dl': 'dl-o', 'dr': 'dr-o'}, 'createCFTN')


def d_tnr_env():
    topology(createSCEnvSFTN(), {'CC': 'ul ur dl dr', 'ql': 'h v o', 'qr': 'h v o', 'u': 'ol or il ir', 'yl': 'h v o', 'yr': 'h v o'},
             'CC-dl:ql-o CC-dr:qr-o ql-h:yl-h qr-h:yr-h ql-v:u-or qr-v:u-ol yl-v:u-ir yr-v:u-il',
             {'ul': 'CC-ul', 'ur': 'CC-ur', 'dl': 'yl-o', 'dr': 'yr-o'}, 'createSCEnvSFTN')


def pairs(text):
    return tuple(sorted(['~'.join(sorted(p.split(':'))) for p in text.split()]))


def joined(r):
    """the pairs of given axes that are summed (not those inside a decomposition)"""
    return tuple([x for x in sumpairs(r.a) if '~' in x])


def d_square_step():
    """u and d come from one decomposition, l and r from the other, and the plaquette is closed"""
    stub_sequence('left', 'right')
    v, h = dims('vh')
    ls = choice(['u', 'l', 'd', 'r'], ['l', 'd', 'r', 'u'], ['d', 'u', 'r', 'l'])
    e = {'u': v, 'd': v, 'l': h, 'r': h}
    a = Tensor(data = arr('A', [e[x] for x in ls]), labels = ls)
    g = SquareTRG(a, chi = symint('chi'))
    g.iterate()
    for r in [g.a, g.aArchive[1]]:
        expect(sorted(r.labels) == ['d', 'l', 'r', 'u'], 'a coarse square tensor has legs u, l, d, r', r)
        if sorted(r.labels) == ['d', 'l', 'r', 'u']:
            t = [tags(r.a)[r.labels.index(x)] for x in ['u', 'd', 'l', 'r']]
            expect(t[0] == t[1] and t[2] == t[3] and t[0] != t[2], 'opposite legs come from one decomposition', r)
            s = [r.shapeOfLabel(x) for x in ['u', 'd', 'l', 'r']]
            expect(s[0] == s[1] and s[2] == s[3], 'opposite legs have equal extents', r)
            expect(atmost(s[0], symint('chi')) and atmost(s[2], symint('chi')), 'the extents are at most chi', r)
        def p(x, y):
            return '~'.join(sorted(['A.' + str(ls.index(x)), 'A.' + str(ls.index(y))]))
        expect(joined(r) == tuple(sorted([p('u', 'd'), p('u', 'd'), p('l', 'r'), p('l', 'r')])), 'the plaquette is closed along both directions', r)


def d_square_two():
    """with two tensors"""
    stub_sequence('left', 'right')
    v, h = dims('vh')
    a = makeSquareTensor(arr('A', [v, h, v, h]))
    b = makeSquareTensor(arr('B', [v, h, v, h]))
    g = SquareTRG(a, b, chi = symint('chi'))
    r = g.a
    expect(joined(r) == pairs('A.0:B.2 A.2:B.0 A.1:B.3 A.3:B.1'), 'the plaquette of alternating tensors is closed', r)
    t = [tags(r.a)[r.labels.index(x)] for x in ['u', 'd', 'l', 'r']]
    expect(t[0] == t[1] and t[2] == t[3] and t[0] != t[2], 'opposite legs come from one decomposition', r)


def d_triangle_step():
    stub_sequence('left', 'right')
    g = TriangleTRG(alpha = 0.5, chi = symint('chi'))
    n = dim('n')
    g.a = makeTriangleTensor(arr('A', dims('ijk')))
    g.b = makeTriangleTensor(arr('B', dims('ijk')))
    g.a.degreeOfFreedom = g.b.degreeOfFreedom = 1
    g.iterate()
    ar, br = g.a, g.b
    expect(sorted(ar.labels) == ['1', '2', '3'] and sorted(br.labels) == ['1', '2', '3'], 'coarse triangle tensors have legs 1, 2, 3', ar, br)
    t = list(tags(ar.a)) + list(tags(br.a))
    expect(len(t) == 6 and t.count(t[0]) == 6, 'all legs of the two coarse triangles come from one decomposition', ar, br)
    expect(joined(ar) == pairs('A.1:B.1 A.1:B.1 A.1:B.1') and joined(br) == pairs('A.2:B.2 A.2:B.2 A.2:B.2'), 'three corners close a coarse triangle', ar, br)
    expect(atmost(ar.legs[0].dim, symint('chi')) and ar.shape == br.shape, 'the extents are at most chi', ar, br)


def d_hotrg_step():
    """the two tensors are joined along the direction of the projection, and projected on both sides alike"""
    stub_sequence('left', 'right')
    d = choice('u', 'd', 'l', 'r')
    v, h = dims('vh')
    x, y = Tensor(data = arr('A', [h, v, v, h]), labels = ['l', 'd', 'u', 'r']), Tensor(data = arr('B', [v, v, h, h]), labels = ['u', 'd', 'l', 'r'])
    g = HOTRG(makeSquareTensor(arr('C', [v, h, v, h])), chiH = symint('chi'))
    e = h if d in ['l', 'r'] else v
    p = arr('P', [e, e, dim('q')]).reshape((e * e, dim('q')))
    r = g.directedIterate(d, p, x, y)
    expect(sorted(r.labels) == ['d', 'l', 'r', 'u'], 'a coarse square tensor has legs u, l, d, r', r)
    t = {}
    for l in r.labels:
        t[l] = tags(r.a)[r.labels.index(l)]
    if d in ['l', 'r']:
        expect(t['l'] == 'P.2' and t['r'] == 'P.2' and t['u'] == 'A.2' and t['d'] == 'B.1', 'the projected legs, and the outer legs of the two tensors', r)
        expect(joined(r) == pairs('A.1:B.0 A.0:P.0 A.3:P.0 B.2:P.1 B.3:P.1'), 'the first tensor is above the second, and the projectors join both', r)
    else:
        expect(t['u'] == 'P.2' and t['d'] == 'P.2' and t['l'] == 'A.0' and t['r'] == 'B.3', 'the projected legs, and the outer legs of the two tensors', r)
        expect(joined(r) == pairs('A.3:B.2 A.1:P.0 A.2:P.0 B.0:P.1 B.1:P.1'), 'the first tensor is left of the second, and the projectors join both', r)


def d_hotrg_iterate():
    """a step projects the direction it records, on both sides alike"""
    stub_sequence('left')
    ls = choice(['u', 'l', 'd', 'r'], ['r', 'd', 'u', 'l'])
    v, h = dims('vh')
    e = {'u': v, 'd': v, 'l': h, 'r': h}
    g = HOTRG(Tensor(data = arr('A', [e[x] for x in ls]), labels = ls), chiH = symint('chi'), chiV = symint('chj'))
    assume_less(0, symint('chi'))
    assume_less(0, symint('chj'))
    g.iterate()
    d = g.directChoices[0]
    r = g.a
    ax = {}
    for x in ls:
        ax[x] = 'A.' + str(ls.index(x))
    expect(sorted(r.labels) == ['d', 'l', 'r', 'u'], 'a coarse square tensor has legs u, l, d, r', r)
    t = {}
    for l in r.labels:
        t[l] = tags(r.a)[r.labels.index(l)]
    x, y = ('l', 'r') if d in ['l', 'r'] else ('u', 'd')
    p, q = ('u', 'd') if d in ['l', 'r'] else ('l', 'r')
    expect(t[x] == t[y] and t[x][:2] == 'ev', 'both sides of the direction chosen are projected', r)
    expect(t[p] == ax[p] and t[q] == ax[q], 'the legs across are those of the outer tensors', r)
    expect(r.shapeOfLabel(x) == r.shapeOfLabel(y), 'opposite legs have equal extents', r)
    expect(joined(r) == pairs(ax[p] + ':' + ax[q] + ' ' + ax[x] + ':' + ax[y] + ' ' + ax[x] + ':' + ax[y]), 'the two tensors are joined across, and the projectors join both', r)
    expect(atmost(r.shapeOfLabel(x), symint('chi') if x == 'l' else symint('chj')), 'the projected legs are at most chi', r)
