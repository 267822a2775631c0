"""C12: the canonical centre of a matrix product state"""
from lib_mps import *
import CTL.examples.MPS as M


def centred(x, idx, what):
    """every tensor but that of idx is an isometry towards it, and idx is recorded"""
    expect(x.activeIdx == idx, what + ': the canonical centre is recorded', x)
    for i in range(x.n):
        if i != idx:
            t = x.getTensor(i)
            side = 'r' if i < idx else 'l'
            expect(orthonormal(t.a), what + ': every tensor but the centre is an isometry', t)
            inner = tags(t.a)[t.labels.index(side)]
            expect(inner.startswith('sv') or inner.startswith('ev') or inner.startswith('qr'), what + ': the isometries point to the centre', t)
            for l in t.labels:
                if l != side:
                    expect(tags(t.a)[t.labels.index(l)] != inner, what + ': the isometries point to the centre', t)


def spoiled(x, what):
    """no canonical centre is claimed"""
    expect(x.activeIdx is None, what + ': no canonical centre is claimed', x)


def canonical_case(names):
    mode = choice('distinct', 'equal')
    for idx in range(len(names)):
        x = mps(names, mode = mode, order = idx)
        spoiled(x, 'a new MPS')
        x.canonicalize(idx)
        centred(x, idx, 'canonicalize')


def d_canonicalize1():
    canonical_case('A')


def d_canonicalize2():
    canonical_case('AB')


def d_canonicalize3():
    canonical_case('ABC')


def d_canonicalize4():
    canonical_case('ABCD')


def d_canonicalize_again():
    """moving the centre"""
    i = choice(0, 1, 2)
    for j in range(3):
        x = mps('ABC')
        x.canonicalize(i)
        x.canonicalize(j)
        centred(x, j, 'canonicalize again')


def d_canonicalize_rejects():
    """a centre outside of the MPS"""
    for idx in [-1, 3, 7]:
        x = mps('ABC')
        try:
            x.canonicalize(idx)
        except AssertionError:
            ok()
        else:
            fail('an index outside of the MPS is rejected', x)


def change(x, kind, idx):
    """operations that change tensors or their order"""
    n = x.n
    if kind == 'set':
        x.setTensor(idx, x.getTensor(idx).copy())
    elif kind == 'swap':
        x.swap(idx, idx + 1 if idx + 1 < n else idx - 1)
    elif kind == 'swap back':
        x.swap(idx, idx - 1 if idx > 0 else idx + 1)
    elif kind == 'move to end':
        x.moveTensor(idx if idx < n - 1 else 0, n - 1, warningFlag = False)
    elif kind == 'move to start':
        x.moveTensor(idx if idx > 0 else n - 1, 0, warningFlag = False)
    elif kind == 'adjacent':
        x.makeAdjacent(0, n - 1)
    else:
        k = idx if idx + 1 < n else idx - 1
        x.mergeTensor(k, x.getTensor(k) @ x.getTensor(k + 1))


def d_changes():
    kind = choice('set', 'swap', 'swap back', 'move to end', 'move to start', 'adjacent')
    for idx in range(3):
        for centre in range(3):
            x = mps('ABC')
            x.canonicalize(centre)
            change(x, kind, idx)
            spoiled(x, 'after an operation that changes tensors')


def d_merge_tensor():
    for idx in range(3):
        for centre in range(3):
            x = mps('ABC')
            x.canonicalize(centre)
            change(x, 'merge', idx)
            spoiled(x, 'after mergeTensor on a canonical MPS')


def d_changes4():
    kind = choice('swap', 'move to end', 'move to start', 'adjacent')
    for idx in range(4):
        x = mps('ABCD')
        x.canonicalize(idx)
        change(x, kind, idx)
        spoiled(x, 'after an operation that changes tensors')


def d_nothing_changed():
    """operations that find nothing to do, and queries, keep the centre"""
    centre = choice(0, 1, 2)
    x = mps('ABC')
    x.canonicalize(centre)
    what = choice('move', 'adjacent', 'copies', 'queries')
    if what == 'move':
        x.moveTensor(1, 1)
    elif what == 'adjacent':
        x.makeAdjacent(1, 2)
    elif what == 'copies':
        x.copyOfTensors()
    else:
        x.isIndex(1)
        x.hasTensor(x.getTensor(1))
        x.tensorIndex(x.getTensor(2))
    expect(x.activeIdx is None or x.activeIdx == centre, 'the recorded centre stays valid', x)


def d_double_merge():
    """merging two pairs of tensors: the merged tensors are replaced, so no centre is left unless it is one"""
    pairs = choice([(0, 0), (1, 1)], [(1, 0), (2, 1)], [(1, 2), (2, 1)])
    x, y = linked(pairs, 3, 3)
    doubleMerge(x, y, min([p[0] for p in pairs]), min([p[1] for p in pairs]))
    for z in [x, y]:
        if z.activeIdx is not None:
            centred(z, z.activeIdx, 'after a double merge')
        else:
            ok()


def d_merge_mps():
    pairs = choice([(0, 0), (2, 2)], [(0, 2), (1, 0)], [(0, 0), (1, 1), (2, 2)])
    x, y = linked(pairs, 3, 3)
    x.canonicalize(1)
    y.canonicalize(0)
    mergeMPS(x, y)
    for z in [x, y]:
        if z.activeIdx is not None:
            centred(z, z.activeIdx, 'after merging two MPSs')
        else:
            ok()


def d_contract_mps():
    x, y = linked(choice([(0, 1)], [(2, 0)], [(1, 1)]), 3, 2)
    x.canonicalize(0)
    y.canonicalize(1)
    z = contractMPS(x, y)
    spoiled(z, 'the contraction of two MPSs')


seen = []


def recorder(tensor, labels, eps = 1e-10, warningFlag = False):
    seen.append((tensor, sorted(labels)))
    return True


def refuser(tensor, labels, eps = 1e-10, warningFlag = False):
    return False


def d_check():
    """the check looks at every tensor but the centre, over its legs away from the centre"""
    M.isIsometry = recorder
    n = choice(1, 2, 3, 4)
    given = choice(True, False)
    for idx in range(n):
        x = mps('ABCD'[:n])
        if not given:
            x.canonicalize(idx)
        del seen[:]
        r = x.checkCanonical(idx) if given else x.checkCanonical()
        expect(r, 'an MPS whose tensors are all isometries is canonical', x)
        if len(seen) > 0:
            for i in range(n):
                t = x.getTensor(i)
                mine = [s[1] for s in seen if s[0] is t]
                if i == idx:
                    expect(mine == [], 'the centre need not be an isometry', t)
                else:
                    away = [l for l in t.labels if l != ('r' if i < idx else 'l')]
                    expect(mine == [sorted(away)], 'every other tensor is checked over its legs away from the centre', t)


def d_check_fails():
    M.isIsometry = refuser
    n = choice(2, 3)
    for idx in range(n):
        x = mps('ABC'[:n])
        expect(not x.checkCanonical(idx), 'an MPS with a tensor that is no isometry is not canonical', x)


def d_check_rejects():
    x = mps('ABC')
    try:
        x.checkCanonical()
    except AssertionError:
        ok()
    else:
        fail('without a centre there is nothing to check', x)
    x.canonicalize(1)
    x.setTensor(0, x.getTensor(0))
    try:
        x.checkCanonical()
    except AssertionError:
        ok()
    else:
        fail('without a centre there is nothing to check', x)
