"""C16: the predefined networks join the right legs"""
import itertools
from lib_top import *
from CTL.tensor.contract.contractExp import (triangleContractFTN, squareContractFTN, squareContractOutFTN, CTMRGHEdgeExtendFTN,
                                             CTMRGVEdgeExtendFTN, CTMRGCornerExtendFTN, CTMRGHEdgeBuildFTN, CTMRGVEdgeBuildFTN,
                                             CTMRGEvenZFTN, CTMRGOddFTN, squareHorizontalContractFTN, squareVerticalContractFTN,
                                             HOTRGHorizontalContractFTN, HOTRGVerticalContractFTN, EvenblyTNRQEnvFTN,
                                             makeTriangleTensorDict, makeSquareTensorDict, triangleTensorTrace, squareTrace, selfTrace)
from CTL.tensor.tensorFactory import makeTriangleTensor, makeSquareTensor, makeSquareOutTensor
import CTL.funcs.funcs as funcs


def d_triangle():
    topology(triangleContractFTN(), {'u': '1 2 3', 'l': '1 2 3', 'r': '1 2 3'}, 'u-2:l-3 u-3:r-2 l-2:r-3',
             {'1': 'u-1', '2': 'l-1', '3': 'r-1'}, 'triangleContractFTN')


SQUARE = 'ul-d:dl-u ul-r:ur-l ur-d:dr-u dl-r:dr-l'


def d_square():
    topology(squareContractFTN(), {'ul': 'u l d r', 'ur': 'l u r d', 'dl': 'd r u l', 'dr': 'r d l u'}, SQUARE,
             {'u': 'ul-u ur-u', 'l': 'ul-l dl-l', 'd': 'dl-d dr-d', 'r': 'ur-r dr-r'}, 'squareContractFTN')


def d_square_out():
    topology(squareContractOutFTN(), {'ul': 'd r o', 'ur': 'd l o', 'dl': 'u r o', 'dr': 'u l o'}, SQUARE,
             {'u': 'ul-o', 'r': 'ur-o', 'l': 'dl-o', 'd': 'dr-o'}, 'squareContractOutFTN')


def d_ctmrg_edges():
    topology(CTMRGHEdgeExtendFTN(), {'p': 'l u r', 'w': 'l r u d'}, 'p-u:w-d', {'l': 'p-l w-l', 'r': 'p-r w-r', 'u': 'w-u'}, 'CTMRGHEdgeExtendFTN')
    topology(CTMRGVEdgeExtendFTN(), {'p': 'u d r', 'w': 'l r u d'}, 'p-r:w-l', {'u': 'p-u w-u', 'd': 'p-d w-d', 'r': 'w-r'}, 'CTMRGVEdgeExtendFTN')


def d_ctmrg_corner():
    topology(CTMRGCornerExtendFTN(), {'c': 'u r', 'ph': 'l u r', 'pv': 'u d r', 'w': 'l r u d'}, 'c-u:pv-d c-r:ph-l pv-r:w-l ph-u:w-d',
             {'u': 'pv-u w-u', 'r': 'ph-r w-r'}, 'CTMRGCornerExtendFTN')


def d_ctmrg_build():
    topology(CTMRGHEdgeBuildFTN(), {'p': 'l u r', 'al': 'l r', 'ar': 'l r'}, 'al-r:p-l ar-r:p-r', {'l': 'al-l', 'r': 'ar-l', 'u': 'p-u'}, 'CTMRGHEdgeBuildFTN')
    topology(CTMRGVEdgeBuildFTN(), {'p': 'u d r', 'au': 'u d', 'ad': 'u d'}, 'ad-u:p-d au-u:p-u', {'d': 'ad-d', 'u': 'au-d', 'r': 'p-r'}, 'CTMRGVEdgeBuildFTN')


CORNERS = {'alu': 'u r', 'ald': 'u r', 'aru': 'r u', 'ard': 'r u'}


def d_ctmrg_even():
    topology(CTMRGEvenZFTN(), CORNERS, 'alu-u:ald-u aru-u:ard-u alu-r:aru-r ald-r:ard-r', {}, 'CTMRGEvenZFTN')


def d_ctmrg_odd():
    tensors = {'pu': 'l u r', 'pd': 'u r l', 'pl': 'u d r', 'pr': 'r u d', 'w': 'l r u d'}
    for n in CORNERS:
        tensors[n] = CORNERS[n]
    topology(CTMRGOddFTN(), tensors, 'pu-l:alu-r pu-r:aru-r pd-l:ald-r pd-r:ard-r pl-u:alu-u pl-d:ald-u pr-u:aru-u pr-d:ard-u '
             'pl-r:w-l pr-r:w-r pd-u:w-d pu-u:w-u', {}, 'CTMRGOddFTN')


def d_environments():
    """the environment of a direction: the row (column) of two closed around, and glued to its mirror image"""
    legs = {'ul': 'u l d r', 'ur': 'l u r d', 'dl': 'd r u l', 'dr': 'r d l u'}
    topology(squareHorizontalContractFTN('l'), legs, 'ul-d:dl-u ul-r:ur-r ur-d:dr-u dl-r:dr-r ul-u:ur-u dl-d:dr-d',
             {'l': 'ul-l dl-l', 'r': 'ur-l dr-l'}, 'squareHorizontalContractFTN(l)')
    topology(squareHorizontalContractFTN('r'), legs, 'ul-d:dl-u ul-l:ur-l ur-d:dr-u dl-l:dr-l ul-u:ur-u dl-d:dr-d',
             {'r': 'ur-r dr-r', 'l': 'ul-r dl-r'}, 'squareHorizontalContractFTN(r)')


def d_environments_vertical():
    legs = {'ul': 'u l d r', 'ur': 'l u r d', 'dl': 'd r u l', 'dr': 'r d l u'}
    topology(squareVerticalContractFTN('u'), legs, 'ul-d:dl-d ul-r:ur-l ur-d:dr-d dl-r:dr-l ul-l:dl-l ur-r:dr-r',
             {'u': 'ul-u ur-u', 'd': 'dl-u dr-u'}, 'squareVerticalContractFTN(u)')
    topology(squareVerticalContractFTN('d'), legs, 'ul-u:dl-u ul-r:ur-l ur-u:dr-u dl-r:dr-l ul-l:dl-l ur-r:dr-r',
             {'d': 'dl-d dr-d', 'u': 'ul-d ur-d'}, 'squareVerticalContractFTN(d)')


def d_directions():
    for f in [squareHorizontalContractFTN, squareVerticalContractFTN]:
        for d in ['l', 'r', 'u', 'd', 'x', '']:
            good = (d in ['l', 'r']) if f is squareHorizontalContractFTN else (d in ['u', 'd'])
            if not good:
                try:
                    f(d)
                except Exception:
                    ok()
                else:
                    fail('a direction across is rejected', f)


def d_hotrg():
    topology(HOTRGHorizontalContractFTN(), {'u': 'u l d r', 'd': 'l r d u', 'l': 'u d o', 'r': 'o d u'}, 'u-l:l-u u-r:r-u d-l:l-d d-r:r-d u-d:d-u',
             {'u': 'u-u', 'd': 'd-d', 'l': 'l-o', 'r': 'r-o'}, 'HOTRGHorizontalContractFTN')
    topology(HOTRGVerticalContractFTN(), {'u': 'l r o', 'd': 'o r l', 'l': 'u l d r', 'r': 'l r d u'}, 'u-l:l-u u-r:r-u d-l:l-d d-r:r-d l-r:r-l',
             {'l': 'l-l', 'r': 'r-r', 'u': 'u-o', 'd': 'd-o'}, 'HOTRGVerticalContractFTN')


def d_tnr_environment():
    legs = {}
    for n in ['uul', 'uur', 'udl', 'udr', 'dul', 'dur', 'ddl', 'ddr']:
        legs[n] = 'l u r d'
    topology(EvenblyTNRQEnvFTN(), legs,
             'udl-r:dul-r udl-d:dul-d udr-r:dur-r udr-d:dur-d udl-l:udr-l dul-l:dur-l uur-l:ddr-l uur-u:ddr-u udr-u:uur-d dur-u:ddr-d '
             'uul-r:uur-r uul-d:udl-u ddl-r:ddr-r ddl-d:dul-u', {'1': 'uul-l uul-u', '2': 'ddl-l ddl-u'}, 'EvenblyTNRQEnvFTN')


def d_dictionaries():
    a, b = dense('A', ['u', 'l', 'd', 'r'], dims('ijij')), dense('B', ['u', 'l', 'd', 'r'], dims('ijij'))
    d = makeTriangleTensorDict(a)
    expect(d.tensorCount == 3, 'a triangle has three tensors', d)
    for n in ['u', 'l', 'r']:
        expect(d.getTensor(n) is a, 'a triangle holds the tensor three times', d)
    d = makeSquareTensorDict(a)
    expect(d.tensorCount == 4, 'a square has four tensors', d)
    for n in ['ul', 'ur', 'dl', 'dr']:
        expect(d.getTensor(n) is a, 'a square holds the tensor four times', d)
    d = makeSquareTensorDict(a, b)
    expect(d.tensorCount == 4 and d.getTensor('ul') is a and d.getTensor('dr') is a and d.getTensor('ur') is b and d.getTensor('dl') is b,
           'the two tensors of a square alternate', d)
    e = funcs.identicalTensorDict(a, ['x', 'y', 'z'])
    expect(len(e) == 3 and e['x'] is a and e['y'] is a and e['z'] is a, 'a dictionary of one tensor under several names', e)
    for x, y in [('l', 'r'), ('r', 'l'), ('u', 'd'), ('d', 'u')]:
        expect(funcs.oppositeSingleDirection(x) == y and funcs.oppositeDirection(x) == y, 'the opposite direction', x)
    expect(funcs.oppositeDirection('ul') == 'dr' and funcs.oppositeDirection('rdl') == 'lur' and funcs.oppositeDirection('') == '', 'the opposite of several directions', 'ul')


def d_factories():
    x = makeTriangleTensor(arr('A', dims('ijk')))
    expect(x.labels == ['1', '2', '3'] and tags(x.a) == ('A.0', 'A.1', 'A.2'), 'a triangle tensor has legs 1, 2, 3', x)
    x = makeTriangleTensor(arr('A', dims('ijk')), labels = ['p', 'q', 's'])
    expect(x.labels == ['p', 'q', 's'] and tags(x.a) == ('A.0', 'A.1', 'A.2'), 'a triangle tensor has the given labels', x)
    x = makeSquareTensor(arr('A', dims('ijkl')))
    expect(x.labels == ['u', 'l', 'd', 'r'] and tags(x.a) == ('A.0', 'A.1', 'A.2', 'A.3'), 'a square tensor has legs u, l, d, r', x)
    for loc, ls in [('ul', ['d', 'r', 'o']), ('ur', ['d', 'l', 'o']), ('dl', ['u', 'r', 'o']), ('dr', ['u', 'l', 'o'])]:
        x = makeSquareOutTensor(arr('A', dims('ijk')), loc)
        expect(x.labels == ls and tags(x.a) == ('A.0', 'A.1', 'A.2'), 'a corner of a square has its inner legs and o', x)
    for k in range(3):
        try:
            if k == 0:
                makeTriangleTensor(arr('A', dims('ij')))
            elif k == 1:
                makeSquareTensor(arr('A', dims('ijk')))
            else:
                makeSquareOutTensor(arr('A', dims('ijk')), 'lu')
        except Exception:
            ok()
        else:
            fail('data of the wrong dimension, or an unknown corner, is rejected', k)


def d_traces():
    a, b = dense('A', ['1', '2', '3'], dims('ijk')), dense('B', ['2', '3', '1'], dims('jki'))
    r = triangleTensorTrace(a, b)
    expect(r.labels == [] and sumpairs(r.a) == ('A.0~B.2', 'A.1~B.0', 'A.2~B.1'), 'the trace of two triangle tensors joins equal legs', r)
    a, b = dense('A', ['1', 'x', '2', '3'], dims('imjk')), dense('B', ['2', '3', 'y', '1'], dims('jkni'))
    r = triangleTensorTrace(a, b)
    expect(sorted(r.labels) == ['x', 'y'] and sumpairs(r.a) == ('A.0~B.3', 'A.2~B.0', 'A.3~B.1'), 'the trace of two triangle tensors joins equal legs and keeps the others', r)
    for ls in itertools.permutations(['u', 'l', 'd', 'r']):
        ls = list(ls)
        e = {'u': dim('i'), 'd': dim('i'), 'l': dim('j'), 'r': dim('j')}
        c = dense('A', ls, [e[x] for x in ls])
        r = squareTrace(c)
        p = ['~'.join(sorted(['A.' + str(ls.index(x)), 'A.' + str(ls.index(y))])) for x, y in [('u', 'd'), ('l', 'r')]]
        expect(sumpairs(r) == tuple(sorted(p)), 'the trace of a square tensor joins opposite legs', c)
    c = dense('A', ['u', 'l', 'd'], dims('ijk'))
    r = selfTrace(c)
    expect(r.labels == [] and sumpairs(r.a) == ('A.0', 'A.1', 'A.2'), 'a tensor closed with itself joins every leg with its copy', r)


def d_again():
    """every call gives a network of its own"""
    for f in [triangleContractFTN, squareContractFTN, squareContractOutFTN, CTMRGHEdgeExtendFTN, CTMRGVEdgeExtendFTN, CTMRGCornerExtendFTN,
              CTMRGHEdgeBuildFTN, CTMRGVEdgeBuildFTN, CTMRGEvenZFTN, CTMRGOddFTN, HOTRGHorizontalContractFTN, HOTRGVerticalContractFTN, EvenblyTNRQEnvFTN]:
        g = f()
        s = freeze(g)
        h = f()
        expect(g is not h, 'every call gives a network of its own', g)
        h.addTensor('more')
        h.addPostNameChange('more', 'a', 'b')
        h.addLink('more', 'a', 'more', 'b')
        unchanged(s, 'every call gives a network of its own')
