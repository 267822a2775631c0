"""C23: generated names are new (interpreted abstractly; the letters drawn are chosen by an adversary)"""
from itertools import permutations, product, combinations
from CTL.funcs.stringSet import StringSet, getBondName, getTensorName, getMLBondName, BondStringSet, TensorStringSet, MLStringSet
import CTL.funcs.funcs as funcs


def rejected(f, x):
    try:
        f(x)
    except (AssertionError, ValueError, KeyError):
        return True
    return False


def apply_op(s, used, op, name):
    """one step of a history; `used`: the names in use before it.  Returns the names in use after it."""
    z = freeze(s)
    if op == 'given':
        if name in used:
            expect(rejected(s.newString, name), 'a given name that is in use is rejected')
            unchanged(z, 'a rejected name leaves the set as it was')
            return used
        expect(s.newString(name) == name, 'a given name that is free is taken')
        return used + [name]
    if op == 'add':
        if name in used:
            expect(rejected(s.add, name), 'adding a name that is in use is rejected')
            unchanged(z, 'a rejected name leaves the set as it was')
            return used
        s.add(name)
        return used + [name]
    if op == 'remove':
        if name in used:
            s.remove(name)
            return [x for x in used if x != name]
        expect(rejected(s.remove, name), 'removing a name that is not in use is rejected')
        unchanged(z, 'a rejected removal leaves the set as it was')
        return used
    # generated: the source yields names that are in use before it yields the new one
    draws(*([x for x in used if len(x) == 1] + [x for x in reversed(used) if len(x) == 1] + [name]))
    fresh = name not in used
    if not fresh:
        return used
    r = s.newString()
    expect(r not in used, 'a generated name is not in use')
    expect(drawn(), 'names in use are drawn again')
    return used + [r]


def check_set(s, used, names):
    for x in names:
        expect(s.contains(x) == (x in used), 'the set contains exactly the names in use')


OPS = ['given', 'add', 'remove', 'generated']


def history(steps):
    s = StringSet(1)
    used = []
    for op, name in steps:
        used = apply_op(s, used, op, name)
        check_set(s, used, ['a', 'b', 'c', 'A', ''])


def d_histories():
    for r in [1, 2, 3]:
        for ops in product(OPS, repeat = r):
            for names in product(['a', 'b'], repeat = r):
                history(list(zip(ops, names)))


def d_histories4():
    for ops in product(OPS, repeat = 4):
        for names in [('a', 'a', 'a', 'a'), ('a', 'b', 'a', 'b'), ('a', 'b', 'b', 'a'), ('a', 'b', 'c', 'a'), ('a', 'b', 'c', 'd')]:
            history(list(zip(ops, names)))


def d_long():
    history([('add', 'a'), ('given', 'b'), ('generated', 'c'), ('remove', 'b'), ('generated', 'd'), ('generated', 'b'), ('remove', 'a'), ('generated', 'a'), ('given', 'e'), ('remove', 'c'), ('generated', 'c')])
    history([('generated', x) for x in 'abcdefgh'] + [('remove', 'd'), ('generated', 'd'), ('given', 'a')])


def d_many_collisions():
    for k in [1, 2, 3, 10, 33, 120]:
        s = StringSet(1)
        s.add('a')
        draws(*(['a'] * k + ['b']))
        expect(s.newString() == 'b', 'a name in use is drawn again, however often it is drawn')


def d_length():
    for n in [1, 2, 3, 7]:
        s = StringSet(n)
        draws('abcdefg')
        r = s.newString()
        expect(len(r) == n, 'generated names have the length of the set')
        draws('abcdefg'[:n], 'bcdefga'[:n])
        t = s.newString()
        expect(len(t) == n and t != r, 'generated names have the length of the set, and are new')
    s = StringSet()
    draws('abcdefghijklmno')
    expect(len(s.newString()) == 10, 'generated names have ten letters by default')
    draws('abcdefghijklmno')
    expect(len(funcs.randomString()) == 10 and len(funcs.randomString(3)) == 3, 'random strings have the length asked for')


def d_partial_collisions():
    """names of several letters that agree in some letters only, or in another case"""
    s = StringSet(2)
    for x in ['ab', 'aB', 'ba', 'aa', 'bA']:
        draws(x)
        expect(s.newString() == x, 'a name that is free is taken')
    draws('ab', 'aB', 'ba', 'aa', 'bA', 'ab', 'Ba')
    expect(s.newString() == 'Ba', 'a generated name is not in use')


def d_separate():
    a = StringSet(1)
    b = StringSet(1)
    a.add('a')
    expect(not b.contains('a'), 'sets of names share nothing')
    draws('a')
    expect(b.newString() == 'a', 'sets of names share nothing')
    b.remove('a')
    expect(a.contains('a'), 'sets of names share nothing')


def d_global():
    f, s, others = choice((getBondName, BondStringSet, (TensorStringSet, MLStringSet)), (getTensorName, TensorStringSet, (BondStringSet, MLStringSet)),
                          (getMLBondName, MLStringSet, (BondStringSet, TensorStringSet)))
    draws('aaaaaaaaaa', 'aaaaaaaaaa', 'aaaaaaaaaa', 'bbbbbbbbbb')
    x = f()
    y = f()
    expect(x != y, 'two names for bonds or tensors are different')
    expect(s.contains(x) and s.contains(y), 'names for bonds or tensors are kept as used')
    expect(rejected(f, x), 'a name of a bond or tensor is not given away twice')
    for o in others:
        expect(not o.contains(x), 'names of bonds and of tensors are kept apart')


def d_new_string():
    for known in [[], ['a'], ['a', 'b'], ['b', 'a', 'c']]:
        for rep in [0, 1, 2, 3]:
            draws(*(known * rep + ['z']))
            s = set(known)
            r = funcs.getNewString(s, n = 1)
            expect(r not in known, 'a generated name is not in use')
            expect(drawn(), 'names in use are drawn again')
            expect(s == set(known), 'looking for a new name leaves the names in use alone')
    draws(*list('abcabdxyzuvwpqr'))
    r = funcs.getNewString(set(['abc', 'abd']), n = 3)
    expect(r == 'xyz', 'a generated name has the length asked for and is not in use')
    draws(*list('abcdefghijabcdefghik'))
    r = funcs.getNewString(set(['abcdefghij']))
    expect(r == 'abcdefghik', 'a generated name has ten letters by default and is not in use')
