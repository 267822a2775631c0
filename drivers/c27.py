"""C27: helpers on lists, indices, digits and labels (interpreted abstractly)"""
from itertools import product, permutations
import CTL.funcs.funcs as funcs

AB = ['a', 'b', 'c']


def rejected(f):
    try:
        f()
    except (ValueError, AssertionError, KeyError, IndexError):
        return True
    return False


def words(letters, most):
    res = []
    for n in range(most + 1):
        for w in product(letters, repeat = n):
            res.append(list(w))
    return res


def count(w, x):
    return len([y for y in w if y == x])


def d_difference():
    for w in words(['a', 'b'], 4):
        for u in words(['a', 'b', 'c'], 2):
            z = list(w)
            y = list(u)
            if all([count(u, x) <= count(w, x) for x in AB]):
                r = funcs.listDifference(w, u)
                for x in AB:
                    expect(count(r, x) == count(w, x) - count(u, x), 'the difference of lists takes every used element out once')
            else:
                expect(rejected(lambda: funcs.listDifference(w, u)), 'the difference of lists rejects elements that are not there')
            expect(w == z and u == y, 'list helpers leave their arguments alone')
            r = funcs.deleteAllInUsed(w, u)
            expect(r == [x for x in z if x not in y], 'deleting removes every appearance and keeps the order of the others')
            expect(w == z and u == y, 'list helpers leave their arguments alone')


def d_difference_order():
    for w in permutations(['a', 'b', 'c', 'd']):
        for k in range(5):
            u = list(w[:k])
            r = funcs.listDifference(['a', 'b', 'c', 'd'], u)
            expect(r == [x for x in ['a', 'b', 'c', 'd'] if x not in u], 'the difference of lists keeps the order of the others')
            r = funcs.deleteAllInUsed(('a', 'b', 'c', 'd'), u)
            expect(r == [x for x in ['a', 'b', 'c', 'd'] if x not in u], 'deleting removes every appearance and keeps the order of the others')


def d_remove():
    e = [sym('x0'), sym('x1'), sym('x2'), sym('x3')]
    for n in range(5):
        for k in range(n + 1):
            for w in permutations(list(range(n)), k):
                r = funcs.tupleRemoveByIndex(tuple(e[:n]), list(w))
                left = [i for i in range(n) if i not in w]
                expect(isinstance(r, tuple), 'removal from a tuple gives a tuple')
                expect(len(r) == len(left), 'removal by position removes exactly the given positions')
                for i in range(len(left)):
                    expect(same(r[i], e[left[i]]), 'removal by position keeps the others in order')


def d_remove_literal():
    for e in [(1, 0, 3, 2), (2, 2, 0, 5), ('a', 'b', 'a', 'c'), (7, 8, 9, 10)]:
        for k in range(5):
            for w in permutations(list(range(4)), k):
                want = [e[i] for i in range(4) if i not in w]
                expect(list(funcs.tupleRemoveByIndex(e, list(w))) == want, 'removal by position removes exactly the given positions')
                expect(list(funcs.tupleRemoveByIndex(list(e), tuple(w))) == want, 'removal by position removes exactly the given positions')


def d_compare():
    ws = words(['a', 'b'], 3)
    for w in ws:
        for u in ws:
            eq = (sorted(w) == sorted(u))
            expect(funcs.compareLists(w, u) == eq, 'two lists are the same exactly if one is a permutation of the other')
    for w in permutations(['a', 'b', 'c', 'c']):
        expect(funcs.compareLists(list(w), ['c', 'a', 'c', 'b']), 'two lists are the same exactly if one is a permutation of the other')
        expect(not funcs.compareLists(list(w), ['c', 'a', 'b', 'b']), 'two lists are the same exactly if one is a permutation of the other')


def d_common():
    ws = words(['a', 'b', 'c'], 3)
    us = words(['a', 'b', 'd'], 2)
    for w in ws:
        for u in us:
            r = funcs.commonElements(w, u)
            for x in ['a', 'b', 'c', 'd']:
                expect(count(r, x) == (1 if x in w and x in u else 0), 'the common elements appear once each, and no others')
            expect(isinstance(r, list), 'the common elements come as a list')
            r = funcs.listSymmetricDifference(w, u)
            expect(isinstance(r, list), 'the symmetric difference comes as a list')
            for x in ['a', 'b', 'c', 'd']:
                expect(count(r, x) == (1 if (x in w) != (x in u) else 0), 'the symmetric difference has the elements of exactly one of the lists')


def d_product():
    e = [symint('n0'), symint('n1'), symint('n2'), symint('n3')]
    want = 1
    for n in range(5):
        expect(equivalent(funcs.tupleProduct(tuple(e[:n])), want), 'the product of all extents, 1 if there are none')
        if n < 4:
            want = want * e[n]


def d_chain():
    e = [symfloat('s0'), symfloat('s1'), symfloat('s2'), symfloat('s3'), symfloat('s4')]
    for n in range(1, 6):
        want = sum([e[i] * e[(i + 1) % n] for i in range(n)])
        expect(equivalent(funcs.spinChainProductSum(e[:n]), want), 'a chain of spins is closed: every spin times its next one')
    for n in [1, 2, 3, 4]:
        for s in product([1, -1], repeat = n):
            want = sum([s[i] * s[(i + 1) % n] for i in range(n)])
            expect(funcs.spinChainProductSum(list(s)) == want, 'a chain of spins is closed: every spin times its next one')


def d_digits():
    x = symint('x')
    p = 1
    for n in range(6):
        b = funcs.intToBitList(x, n)
        t = funcs.intToBitTuple(x, n)
        expect(len(b) == n and len(t) == n, 'as many digits as asked for')
        expect(isinstance(b, list) and isinstance(t, tuple), 'bits as a list and as a tuple')
        for i in range(n):
            expect(equivalent(b[i], (x // (2 ** i)) % 2), 'bits come lowest first')
            expect(equivalent(t[i], (x // (2 ** i)) % 2), 'bits come lowest first')
    for D in [2, 3, 5, 10, symint('D') + 2]:
        for n in range(5):
            t = funcs.intToDBaseTuple(x, n, D)
            expect(len(t) == n, 'as many digits as asked for')
            expect(isinstance(t, tuple), 'digits come as a tuple')
            for i in range(n):
                expect(equivalent(t[i], (x // (D ** i)) % D), 'digits of a base come lowest first')


def d_digits_all():
    for n in range(5):
        for x in range(2 ** n):
            b = funcs.intToBitList(x, n)
            t = funcs.intToBitTuple(x, n)
            expect(sum([b[i] * 2 ** i for i in range(n)]) == x and all([q in [0, 1] for q in b]), 'the bits make up the number')
            expect(list(t) == b, 'bits as a tuple are the bits as a list')
    for D in [2, 3, 4]:
        for n in range(4):
            for x in range(D ** n):
                t = funcs.intToDBaseTuple(x, n, D)
                expect(len(t) == n and sum([t[i] * D ** i for i in range(n)]) == x and all([0 <= q and q < D for q in t]), 'the digits make up the number')


def d_mod():
    x = symint('x')
    m = symint('m') + 1
    expect(equivalent(funcs.safeMod(x, m), x % m), 'the remainder is between 0 and the modulus')
    expect(equivalent(funcs.safeMod(-x, m), (-x) % m), 'the remainder is between 0 and the modulus')
    for m in range(1, 6):
        for x in range(-12, 13):
            r = funcs.safeMod(x, m)
            expect(0 <= r and r < m and (x - r) % m == 0, 'the remainder is between 0 and the modulus')


def d_index_dict():
    x = symint('x')
    e = [symint('n0') + 1, symint('n1') + 1, symint('n2') + 1, symint('n3') + 1]
    ls = ['a', 'b', 'c', 'd']
    for n in range(5):
        r = funcs.getIndexDict(x, ls[:n], tuple(e[:n]))
        expect(len(r) == n, 'an index per label')
        stride = 1
        for i in range(n - 1, -1, -1):
            expect(equivalent(r[ls[i]], (x // stride) % e[i]), 'the index of every label, the last one running fastest')
            stride = stride * e[i]
    for shape in [(2, 3), (3, 2), (2, 3, 4), (4, 1, 3)]:
        k = 0
        for p in product(*[range(d) for d in shape]):
            r = funcs.getIndexDict(k, ls[:len(shape)], shape)
            expect([r[l] for l in ls[:len(shape)]] == list(p), 'the index of every label, the last one running fastest')
            k += 1


def d_generate():
    for w in words(['a', 'b'], 4):
        for u in words(['a', 'b', 'c'], 3):
            r = funcs.generateIndices(w, u)
            expect(len(r) == len(u), 'one index per element asked for')
            for i in range(len(u)):
                where = [j for j in range(len(w)) if w[j] == u[i]]
                k = count(u[:i], u[i])
                expect(r[i] == (where[k] if k < len(where) else None), 'an element asked for again gets its next position, or none')


def d_swap():
    x, y = sym('x'), sym('y')
    r = funcs.tupleSwap((x, y))
    expect(len(r) == 2 and same(r[0], y) and same(r[1], x), 'a swapped pair')
    expect(rejected(lambda: funcs.tupleSwap((x, y, x))), 'only pairs are swapped')


def d_all_equal():
    for w in words(['a', 'b'], 4):
        expect(funcs.checkAllEqual(w) == (len(set(w)) <= 1), 'all are equal exactly if there are no two different ones')
        expect(funcs.checkAllEqual(tuple(w)) == (len(set(w)) <= 1), 'all are equal exactly if there are no two different ones')


def d_pairs():
    e = [sym('x0'), sym('x1'), sym('x2'), sym('x3'), sym('x4')]
    for n in range(6):
        r = list(funcs.pairIterator(e[:n]))
        want = [(i, j) for i in range(n) for j in range(i + 1, n)]
        expect(len(r) == len(want), 'every pair exactly once')
        for p, q in zip(r, want):
            expect(same(p[0], e[q[0]]) and same(p[1], e[q[1]]), 'every pair exactly once, in order')


def compositions(n, k):
    return [list(p) for p in product(range(n + 1), repeat = k) if sum(p) == n]


def d_divide():
    for k in range(1, 5):
        for n in range(5 if k < 4 else 4):
            r = list(funcs.divideIntoKParts(n, k))
            want = compositions(n, k)
            expect(len(r) == len(want), 'every division into k parts exactly once')
            for w in want:
                expect(len([x for x in r if x == w]) == 1, 'every division into k parts exactly once')


def factorial(n):
    r = 1
    for i in range(2, n + 1):
        r *= i
    return r


def d_comb():
    n = symint('n') + 6
    for p in range(6):
        want = 1
        for i in range(p):
            want = want * (n - i)
        expect(equivalent(funcs.myComb(n, p), want // factorial(p)), 'the binomial coefficient')
    for m in range(9):
        for p in range(m + 1):
            expect(funcs.myComb(m, p) == factorial(m) // factorial(p) // factorial(m - p), 'the binomial coefficient')
    for d in product(range(4), repeat = 3):
        want = factorial(sum(d))
        for p in d:
            want = want // factorial(p)
        expect(funcs.calculateDivisionTimes(list(d)) == want, 'the number of ways of a division is the multinomial coefficient')
    for d in product(range(3), repeat = 4):
        want = factorial(sum(d))
        for p in d:
            want = want // factorial(p)
        expect(funcs.calculateDivisionTimes(list(d)) == want, 'the number of ways of a division is the multinomial coefficient')


def d_combine():
    ds = {'a': ['x', 'y'], 'b': ['y', 'z'], 'c': []}
    for k in range(4):
        for w in permutations(['a', 'b', 'c'], k):
            want = []
            for x in w:
                want = want + ds[x]
            expect(isinstance(funcs.getCombineSet(ds, list(w)), set), 'the union of the lists of the given names')
            expect(funcs.getCombineSet(ds, list(w)) == set(want), 'the union of the lists of the given names')
    expect(ds == {'a': ['x', 'y'], 'b': ['y', 'z'], 'c': []}, 'the lists are left alone')
    expect(rejected(lambda: funcs.getCombineSet(ds, ['a', 'd'])), 'unknown names are rejected')


def d_maps():
    x = sym('x')
    for n in range(4):
        r = funcs.mapToDict(['a', 'b', 'c'][:n], x)
        q = funcs.identicalTensorDict(x, ['a', 'b', 'c'][:n])
        expect(len(r) == n and len(q) == n, 'one entry per key')
        for k in ['a', 'b', 'c'][:n]:
            expect(same(r[k], x) and same(q[k], x), 'every key has the value given')


def d_letters():
    al = 'abcdefghijklmnopqrstuvwxyz'
    for i in range(26):
        expect(funcs.indexTupleToStr((i,)) == al[i], 'every index has its own letter')
        for j in range(26):
            expect(funcs.indexTupleToStr((i, j)) == al[i] + al[j], 'letters in the order of the indices')
    expect(funcs.indexTupleToStr(()) == '', 'letters in the order of the indices')
    expect(funcs.indexTupleToStr((3, 0, 25, 0, 7)) == 'dazah', 'letters in the order of the indices')
    for bad in [(26,), (0, 26), (27, 1), (1, 100, 2)]:
        expect(rejected(lambda: funcs.indexTupleToStr(bad)), 'indices without a letter are rejected')
    expect(rejected(lambda: funcs.indexTupleToStr([0, 1])), 'only tuples are accepted')


def d_directions():
    op = {'l': 'r', 'r': 'l', 'u': 'd', 'd': 'u'}
    for x in op:
        expect(funcs.oppositeSingleDirection(x) == op[x], 'the opposite direction')
    for n in range(4):
        for w in product(['l', 'r', 'u', 'd'], repeat = n):
            r = funcs.oppositeDirection(''.join(w))
            expect(r == ''.join([op[x] for x in w]), 'the opposite of every direction, in order')
    for bad in ['x', 'L', 'o']:
        expect(rejected(lambda: funcs.oppositeSingleDirection(bad)), 'unknown directions are rejected')
        expect(rejected(lambda: funcs.oppositeDirection('l' + bad)), 'unknown directions are rejected')


def d_names():
    expect(funcs.combineName(['a']) == 'a', 'names are joined in order')
    expect(funcs.combineName(['a', 'bc']) == 'a|bc', 'names are joined in order')
    expect(funcs.combineName(['c', 'b', 'a']) == 'c|b|a', 'names are joined in order')
    x = symstr('x')
    expect(same(funcs.combineName(['a', 'b'], givenName = x), x), 'a given name is taken')
    expect(funcs.combineName(['a', 'b'], givenName = '') == '', 'a given name is taken')


def d_cutoff():
    s = [symfloat('s0'), symfloat('s1'), symfloat('s2')]
    th = symfloat('th')
    r = funcs.getCutoff(s, th)
    if r == 0:
        expect(s[0] < th, 'the cutoff is the first value below the threshold')
    elif r == 1:
        expect(not (s[0] < th), 'the cutoff is the first value below the threshold')
        expect(s[1] < th, 'the cutoff is the first value below the threshold')
    elif r == 2:
        expect(not (s[0] < th), 'the cutoff is the first value below the threshold')
        expect(not (s[1] < th), 'the cutoff is the first value below the threshold')
        expect(s[2] < th, 'the cutoff is the first value below the threshold')
    else:
        expect(r == 3, 'the cutoff is the length if no value is below the threshold')
        expect(not (s[0] < th), 'the cutoff is the first value below the threshold')
        expect(not (s[1] < th), 'the cutoff is the first value below the threshold')
        expect(not (s[2] < th), 'the cutoff is the first value below the threshold')


def d_cutoff_literal():
    for w in product([1.0, 2.0, 3.0], repeat = 3):
        s = sorted(w, reverse = True)
        for th in [0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0]:
            r = funcs.getCutoff(s, th)
            expect(r == len([x for x in s if x >= th]), 'the cutoff is the first value below the threshold')
    expect(funcs.getCutoff([], 1.0) == 0, 'the cutoff is the length if no value is below the threshold')


def d_valid():
    for w in product([-5.0, -1.0, 0.0, 2.0, 3.0], repeat = 3):
        for th in [0.5, 2.0, 4.0]:
            r = funcs.getValidValues(list(w), threshold = th)
            expect(r[0] == [i for i in range(3) if abs(w[i]) < th], 'valid values come with their positions')
            expect(r[1] == [x for x in w if abs(x) < th], 'valid values are those below the threshold in absolute value')
    r = funcs.getValidValues([1e11, 1e9, -1e9, -1e11])
    expect(r[0] == [1, 2] and r[1] == [1e9, -1e9], 'the threshold is 1e10 by default')


def d_range():
    f = funcs.getInRangeFunc(1.0, 3.0)
    for x, want in [(0.0, False), (1.0, False), (1.5, True), (2.9, True), (3.0, False), (4.0, False)]:
        expect(f(x) == want, 'a number is in range exactly if it is between both ends')
    g = funcs.getInRangeFunc(-2.0, 0.5)
    for x, want in [(-3.0, False), (-2.0, False), (-1.0, True), (0.5, False), (2.0, False)]:
        expect(g(x) == want, 'a number is in range exactly if it is between both ends')
        expect(f(2.0), 'ranges are independent of each other')


def d_search():
    for t in [0.25, 0.7, 1.3, 2.9]:
        for lr in [(0.0, 3.0), (-2.0, 3.5)]:
            for eps in [0.5, 0.1, 0.01]:
                r = funcs.binarySearch(lr[0], lr[1], lambda x: x > t, eps)
                expect(abs(r - t) <= eps, 'the search ends within the accuracy of the dividing point')
    for lr in [(0.0, 1.0), (3.0, 4.0), (-4.0, -3.0)]:
        r = funcs.binarySearch(lr[0], lr[1], lambda x: x > lr[0] + 0.3, 2.0)
        expect(lr[0] <= r and r <= lr[1], 'the search stays in the range')
    expect(rejected(lambda: funcs.binarySearch(1.0, 1.0, lambda x: x > 0.0, 0.1)), 'an empty range is rejected')
    expect(rejected(lambda: funcs.binarySearch(2.0, 1.0, lambda x: x > 1.5, 0.1)), 'an empty range is rejected')


def d_real():
    expect(funcs.isRealNumber(1) and funcs.isRealNumber(1.5), 'integers and floats are real numbers')
    for x in [1j, 'a', None, [1], (1.0,)]:
        expect(not funcs.isRealNumber(x), 'nothing else is a real number')


def d_assert():
    funcs.assertInSet('a', ['a', 'b'], 'letter')
    expect(rejected(lambda: funcs.assertInSet('c', ['a', 'b'], 'letter')), 'a value outside the set is rejected')
