"""C11: contracting a list of tensors along a sequence, and the sequences the searches give"""
from lib_net import *


def sequence_case(nets, mode, part = None):
    net = choice(*nets)
    n = len(NETS[net][0])
    for k, seq in enumerate(sequences(n)):
        if part is not None and k % 3 != part:
            continue
        ts, m, sums = network(net, mode)
        inplace = (k % 2 == 0)
        r = contractWithSequence(ts, seq = seq, inplace = inplace, outProductWarning = False)
        right(r, m, sums, 'contracting along a sequence')
        if inplace:
            expect(r is ts[0], 'the result is left at position 0', r)


def d_sequence_two():
    sequence_case(NOUT, 'distinct')


def d_sequence_three():
    sequence_case(N3, 'distinct')


def d_sequence_three_equal():
    sequence_case(N3, 'equal')


def d_sequence_four():
    sequence_case(N4, 'distinct', 0)


def d_sequence_four_b():
    sequence_case(N4, 'distinct', 1)


def d_sequence_four_c():
    sequence_case(N4, 'distinct', 2)


def d_steps():
    """every step replaces the tensor at the smaller position and leaves the others alone"""
    for seq in sequences(4):
        s, t = seq[0]
        ts, m, sums = network('ring4', 'distinct')
        old = list(ts)
        contractAndCostWithSequence(ts, seq = [seq[0]], inplace = True)
        for x in range(4):
            if x != s and x != t:
                expect(ts[x] is old[x], 'a step leaves the tensors it does not name where they are', ts[x])
                expect(len(ts[x].legs) == 3 and ts[x].legs[0].bond is not None and ts[x].legs[1].bond is not None, 'a step leaves the bonds of other tensors', ts[x])
        r = ts[min(s, t)]
        expect(len(r.legs) == 6 - 2 * len([x for x in [0, 1, 2, 3] if {x, (x + 1) % 4} == {s, t}]), 'the result of a step is at the smaller position', r)



def search_case(nets, hows, literal):
    net = choice(*nets)
    how = choice(*hows)
    n = len(NETS[net][0])
    ts, m, sums = network(net, 'equal') if not literal else literal_network(net)
    seq = searched(ts, how)
    expect(valid(seq, n), 'a sequence contracts every tensor exactly once, into position 0', seq)



def d_search_small():
    search_case(NOUT + N3, ['capping', 'brute force', 'typical 3'], False)


def d_search_four():
    search_case(N4, ['capping', 'brute force', 'typical 3'], False)


def d_search_real():
    search_case(NOUT + N3, ['real', 'real brute force', 'greedy'], True)


def d_search_real_four():
    search_case(N4, ['real', 'real brute force', 'greedy'], True)
