"""enumeration of structures (abstractly interpreted, never executed)"""
from itertools import permutations, product, combinations
from lib_std import *

NAMES = ['a', 'b', 'c', 'd', 'e', 'f']


def extents(mode, n):
    """extents for n axes: all generic and different, all generic and equal, with an axis of length one, or literal"""
    if mode == 'distinct':
        return dims(['i', 'j', 'k', 'l', 'm', 'o'][:n])
    if mode == 'equal':
        return [dim('i')] * n
    if mode == 'first one':
        return [1] + dims(['j', 'k', 'l', 'm', 'o'][:n - 1]) if n > 0 else []
    if mode == 'last one':
        return dims(['j', 'k', 'l', 'm', 'o'][:n - 1]) + [1] if n > 0 else []
    if mode == 'two':
        return [2] * n
    return [2, 3, 2, 4, 5, 3][:n]


MODES = ['distinct', 'equal', 'first one', 'last one', 'two', 'literal']


def selections(ls, sizes):
    """all ordered selections"""
    out = []
    for r in sizes:
        for p in permutations(ls, r):
            out.append(list(p))
    return out


def matchings(na, nb):
    """all sets of pairs (x, y) of axes of two tensors of ranks na and nb, each axis used at most once"""
    out = []
    for r in range(min(na, nb) + 1):
        for xs in combinations(range(na), r):
            for ys in permutations(range(nb), r):
                out.append(list(zip(xs, ys)))
    return out
