"""C17: array functions come from the configured backend (interpreted abstractly)"""
import numpy as np
import CTL
import CTL.funcs.xplib as xplib
import CTL.funcs.funcs as funcs
from CTL.tensor.tensor import Tensor
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensor.contract.contract import contractTwoTensors, makeLink
from CTL.funcs.decompose import SVDDecomposition
from CTL.models.Ising import squareIsingTensor, IsingSiteTensor


class Backend:
    """another array library: it keeps count of the calls of its functions"""

    def __init__(self, name, lib = np, calls = None):
        self.name = name
        self.lib = lib
        self.calls = [] if calls is None else calls

    def __getattr__(self, name):
        f = getattr(self.lib, name)
        if name in ['random', 'linalg']:
            return Backend(self.name, f, self.calls)
        if name in TYPES:
            return f
        calls = self.calls

        def counted(*args, **options):
            calls.append(name)
            return f(*args, **options)
        return counted


TYPES = ['float64', 'float32', 'complex128', 'complex64', 'int64', 'ndarray', 'floating', 'complexfloating', 'issubdtype', 'pi']


def d_set():
    first = xplib.xp
    expect(first is np, 'numpy is the array library until another one is set')
    for b in [Backend('b'), Backend('c'), None, np, Backend('d'), first]:
        CTL.setXP(b)
        expect(xplib.xp is b, 'the array library set last is the one in use')
        CTL.setXP(b)
        expect(xplib.xp is b, 'setting the array library again changes nothing')


def used(f, what, needed = False):
    b = Backend('b')
    c = Backend('c')
    for x, y in [(b, c), (c, b), (b, c)]:
        CTL.setXP(x)
        n = len(x.calls)
        m = len(y.calls)
        f()
        expect(len(y.calls) == m, what + ' does not come from an array library set earlier')
        if needed:
            expect(len(x.calls) > n, what + ' comes from the array library in use')


def d_create():
    used(lambda: Tensor(shape = (2, 3), labels = ['a', 'b']), 'a random tensor', True)
    used(lambda: DiagonalTensor(shape = (2, 2), labels = ['a', 'b']), 'a unit tensor', True)
    used(lambda: IsingSiteTensor(symfloat('b'), dim = 4), 'an Ising tensor', True)
    used(lambda: squareIsingTensor(symfloat('b')), 'a square Ising tensor', True)


def d_functions():
    m = arr('M', [dim('n'), dim('m')])
    used(lambda: SVDDecomposition(m, 2), 'a decomposition', True)
    used(lambda: Tensor(data = m, labels = ['a', 'b']).norm(), 'a norm')
    used(lambda: funcs.diagonalNDTensor(arr('V', [dim('n')]), 3), 'a diagonal tensor')
    used(lambda: funcs.transposeConjugate(m), 'an adjoint')


def d_contract():
    n = dim('n')
    a = Tensor(data = arr('A', [n, dim('m')]), labels = ['a', 'b'])
    b = Tensor(data = arr('B', [n, dim('k')]), labels = ['a', 'c'])
    d = DiagonalTensor(data = arr('D', [n]), labels = ['a', 'd'])
    used(lambda: shareBonds(a, b), 'a contraction')
    used(lambda: shareBonds(a, d), 'a contraction with a diagonal tensor')


def shareBonds(a, b):
    x = a.copy()
    y = b.copy()
    makeLink('a', 'a', x, y)
    return contractTwoTensors(x, y)


def d_none():
    t = Tensor(data = arr('M', [dim('n'), dim('m')]), labels = ['a', 'b'])
    CTL.setXP(None)
    for f in [lambda: Tensor(shape = (2, 3)), lambda: SVDDecomposition(t.a, 2), lambda: IsingSiteTensor(0.5, dim = 4)]:
        failed = False
        try:
            f()
        except AttributeError:
            failed = True
        expect(failed, 'nothing is computed without an array library')
    CTL.setXP(np)
    r = Tensor(shape = (2, 3))
    expect(isarray(r.a), 'setting an array library again makes it work again')
