"""The registered properties: what each check analyses.  tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
from . import rules

PROPS = {}
EXPL = ('Abstract interpretation of the repository source (ctlcheck/interp.py) on driver programs that build tensors with '
        'arbitrary contents and generic symbolic extents; nothing of the repository is executed. ')


def prop(pid, **kw):
    kw.setdefault('technique', 'abstract interpretation of the source over driver programs')
    kw.setdefault('explanation', EXPL + kw.get('what', ''))
    kw['id'] = pid
    PROPS[pid] = kw


prop('C04',
     drivers=['c04', 'c04x'],
     title='A pairwise contraction sums exactly the shared bonds and keeps all other legs',
     statement='Contracting two tensors sums over exactly the index pairs joined by their shared bonds (or by the bonds '
               'the caller passes), each pair matched with its own partner, and nothing else; without a shared bond it is '
               'the outer product. The result has exactly the unbonded legs of the two operands, and each of its axes is '
               'the axis the leg at that position stood for before, with the same extent and label, for dense and '
               'diagonal operands in every combination and in either argument order. A diagonal operand gives the same '
               'result as the dense tensor it stands for.',
     over=['inputs', 'programs'],
     qtext='every pair of operands (dense or diagonal), every set of bonds between them, any order and orientation in '
           'which the bonds were made, arbitrary extents and contents',
     tests='the tests contract a few fixed tensors, mostly with all extents equal to 2, so axes that are exchanged or '
           'bonds that are paired wrongly often give the same shapes and go unnoticed',
     files=['src/CTL/tensor/contract/contract.py', 'src/CTL/tensor/tensor.py', 'src/CTL/tensor/diagonalTensor.py'],
     mechanism=[('shareBonds orients bonds from the first to the second operand', 'tensor/contract/contract.py:shareBonds'),
                ('legs and axes are permuted together before the product', 'tensor/tensor.py:Tensor.toMatrix'),
                ('diagonal branch: einsum over the repeated axes', 'tensor/contract/contract.py:contractTwoTensors')],
     what='Axis provenance: every axis of every abstract array carries the set of driver axes it came from, through '
          'moveaxis/reshape/matmul/einsum/outer; index sums are recorded as origin tuples and compared with the bonds '
          'made by the driver.',
     rule='one obligation = one expectation of a driver program on one set of abstract paths; held means the expected '
          'axis origins, sums, labels, extents and ownership follow on every path',
     level_note='Sound for the enumerated operand structures (up to 4 legs and 3 bonds per pair, all storage kinds, both '
                'orders) with arbitrary extents and contents, relative to the numpy model; other structures are not covered.',
     )

prop('C03',
     drivers=['c03', 'c03x'],
     title='Tensor operations keep data axes and legs in step',
     statement='After any operation on one tensor (construction, moving legs or labels to the front, reArrange, toTensor, '
               'toMatrix, toVector, outProduct, sumOutLeg, trace, adding a tensor, renaming labels), every leg still '
               'stands for the axis it stood for before: the i-th axis of the data is the axis of the i-th leg, extents '
               'agree, legs come in the requested order (merged legs row-major, at the front), an operation selects '
               'exactly the legs it is given (by leg or by label; the first leg of a label, or the last when searching '
               'backward), and the legs belong to the tensor. An incomplete or unknown list of labels is rejected.',
     over=['inputs', 'programs'],
     qtext='tensors with any extents and contents, any order and selection of legs',
     tests='the tests use a few shapes, often with equal extents, and compare shapes or single values, so exchanged axes '
           'go unnoticed',
     files=['src/CTL/tensor/tensor.py', 'src/CTL/tensor/diagonalTensor.py', 'src/CTL/tensorbase/tensorbase.py'],
     mechanism=[('legs list and data permuted together', 'tensor/tensor.py:Tensor.moveLegsToFront'),
                ('merged leg and reshape', 'tensor/tensor.py:Tensor.outProduct'),
                ('matrix form', 'tensor/tensor.py:Tensor.toMatrix')],
     what='Axis provenance: each axis of the abstract data carries the driver axis it came from; labels, extents and leg '
          'ownership are tracked as heap facts through every statement of the operation.',
     rule='one obligation = one expectation of a driver program on one set of abstract paths; held means the expected '
          'axis origins, labels, extents and ownership follow on every path',
     level_note='Sound for the enumerated structures (tensors of up to 4 legs, every permutation of 3) with arbitrary '
                'extents and contents, relative to the numpy model.',
     )

HEAP = ('Heap facts (legs, bonds, owners, extents) are tracked through every statement; extents are generic symbols, so an '
        'equality that is derived holds for all extents. ')

prop('C05',
     drivers=['c05', 'c05x'],
     title='Bonds are two-sided links between legs of equal extent',
     statement='A bond joins exactly two legs of equal extent: both legs carry it, each sees the other as its other side, '
               'and a leg without a bond has none. Linking legs (given as legs, labels, or lists of either) bonds exactly '
               'the given pairs in order and changes nothing else; a link with unequal extents, unequal list lengths or an '
               'unresolvable label is rejected without changing anything. Shared bonds of two tensors are exactly those '
               'between them, and bonds to third tensors and free legs survive contractions, merges of parallel bonds '
               '(both merged legs run over the bonds in the same order) and shared-bond queries.',
     over=['inputs', 'programs'],
     qtext='any two or three linked tensors with arbitrary extents, links made in any order and orientation',
     tests='the tests look at a handful of links between small tensors of equal extents, so a bond that is attached to a '
           'wrong leg, or left dangling after an operation, is seldom seen',
     files=['src/CTL/tensor/bond.py', 'src/CTL/tensor/leg.py', 'src/CTL/tensor/contract/link.py', 'src/CTL/tensor/contract/contract.py'],
     mechanism=[('bond construction checks extents and registers on both legs', 'tensor/bond.py:Bond.__init__'),
                ('other side of a bond', 'tensor/bond.py:Bond.anotherSide'),
                ('parallel bonds become one', 'tensor/contract/link.py:mergeLink')],
     what=HEAP,
     rule='one obligation = one expectation of a driver program on one set of abstract paths; held means the heap facts '
          '(identity of legs and bonds, extents, owners) follow on every path',
     level_note='Sound for the enumerated link structures with arbitrary extents and contents, relative to the model of the '
                'standard library.',
     )

prop('C06',
     drivers=['c06', 'c06x'],
     title='A TensorLike follows the same structure as the tensor it stands for',
     statement='A TensorLike (a tensor without data) goes through construction, copying, moving and merging legs, summing a '
               'leg out, renaming, contraction (dense and diagonal, in every combination), link merging and truncating '
               'merges with exactly the legs, labels, extents, links, diagonal flag and contraction cost of the tensor it '
               'stands for, and never holds data; the bond of a truncating merge of TensorLikes is the smallest of chi, the bonds it '
               'replaces and the other legs of either side. Operations that need data reject a TensorLike, and a tensor cannot be '
               'contracted or merged with a TensorLike.',
     over=['inputs', 'programs'],
     qtext='pairs of a tensor and its TensorLike with any extents, every operation applied to both',
     tests='the tests construct TensorLikes of a few shapes and compare single shapes with fixed numbers',
     files=['src/CTL/tensor/tensor.py', 'src/CTL/tensor/diagonalTensor.py', 'src/CTL/tensor/contract/contract.py',
            'src/CTL/tensor/contract/optimalContract.py', 'src/CTL/tensorbase/tensorbase.py'],
     mechanism=[('data-free deduction of shape, legs and labels', 'tensor/tensor.py:Tensor.deduction'),
                ('data-free branch of a contraction', 'tensor/contract/contract.py:contractTwoTensors')],
     what=HEAP + 'Both sides (with and without data) are interpreted and their abstract structures compared.',
     rule='one obligation = one comparison of the abstract structures of the tensor and its TensorLike on one set of paths',
     level_note='Sound for the enumerated structures with arbitrary extents and contents, relative to the numpy model. '
                'Truncating merges of TensorLikes have the bond of a generic tensor, because the rank of the data is a runtime quantity.',
     )

prop('C07',
     drivers=['c07', 'c07x'],
     title='Results carry the data type of their operands',
     statement='The data type of the result of an operation on tensors follows from the data types of its operands alone '
               '(for contraction, merging and network evaluation: the common type of the operands; for rearranging, '
               'copying, reshaping, merging legs, summing out, decomposition and diagonal helpers: the type of the tensor '
               'itself), and the data type a tensor records is that of its data, for dense and diagonal tensors. The common type of two floating '
               'types has the higher precision, and is complex if one of them is.',
     over=['inputs'],
     qtext='operands of any data type (real, complex, single or double precision, integer)',
     tests='the tests use double precision data almost everywhere, so a buffer of a fixed type that drops imaginary parts '
           'or changes precision goes unnoticed',
     files=['src/CTL/tensor/tensor.py', 'src/CTL/tensor/diagonalTensor.py', 'src/CTL/tensor/contract/contract.py',
            'src/CTL/funcs/funcs.py', 'src/CTL/funcs/decompose.py', 'src/CTL/tensor/tensorFunc.py'],
     mechanism=[('dtype recorded at construction', 'tensor/tensor.py:Tensor.__init__'),
                ('diagonal constructors', 'funcs/funcs.py:diagonalNDTensor')],
     what='Data type provenance: every abstract array carries the set of driver arrays its type is promoted from.',
     rule='one obligation = one expectation about the promotion set of a result; held means exactly the operand types occur',
     level_note='Sound for the enumerated operations relative to the promotion rules of the numpy model.',
     )

prop('C22',
     drivers=['c22', 'c22x'],
     title='A diagonal tensor stands for the dense tensor with its data on the diagonal',
     statement='A diagonal tensor stores exactly its diagonal, all its legs have the length of the diagonal, and it can be '
               'built from a vector, from dense data (taking the diagonal), from a shape, labels or legs, each giving '
               'consistent legs. Its dense, matrix and vector forms, trace and sums over legs (weighted or not) are those '
               'of the dense tensor it stands for, and none of them makes it dense; copies are diagonal with the same '
               'labels. Unequal extents, a diagonal of the wrong length or mismatching labels or legs are rejected, and so '
               'is merging its legs.',
     over=['inputs', 'programs'],
     qtext='diagonals of any length and contents with up to three legs, every way of construction',
     tests='the tests build a few diagonal tensors of fixed sizes and compare norms and shapes',
     files=['src/CTL/tensor/diagonalTensor.py', 'src/CTL/funcs/funcs.py'],
     mechanism=[('constructor deduction', 'tensor/diagonalTensor.py:DiagonalTensor.deduceDimension'),
                ('dense form', 'funcs/funcs.py:diagonalNDTensor'),
                ('sums over a leg', 'tensor/diagonalTensor.py:DiagonalTensor.sumOutLeg')],
     what='Axis provenance: the stored axis carries the tag of the diagonal, which must appear on every axis of the dense forms.',
     rule='one obligation = one expectation of a driver program on one set of abstract paths',
     level_note='Sound for up to three legs (four for dense data) with arbitrary length and contents, relative to the numpy model.',
     )

prop('C01',
     drivers=['c01', 'c01x'],
     title='Operations that are not in place leave their inputs unchanged',
     statement='Queries, copies, matrix and vector forms, traces, costs, sequence searches, list contractions with '
               'inplace=False, copying a list of tensors, evaluating a network (from tensors or a dictionary), '
               'decompositions, MPS queries and copies, and the constructors, steps and measurements of HOTRG, TRG, CTMRG and '
               'impurity networks leave every tensor, array and list they are given unchanged: the data, its buffer, legs, '
               'labels, bonds and extents. '
               'Contracting never writes into the data of an operand. Writing later into the vector or matrix form of '
               'a tensor, into a copy of it, the dense form of a diagonal tensor, the result of a contraction, or the array a tensor '
               'was built from, does not change the other.',
     over=['inputs', 'histories'],
     qtext='tensors with any extents and contents, dense, diagonal or without data, bonded or not; every listed operation, '
           'followed by a write into its result',
     tests='the tests look at results, not at what happened to the inputs, so an operation that permutes, renames, '
           'unbonds or scales its argument goes unnoticed unless the argument is used again',
     files=['src/CTL/tensor/tensor.py', 'src/CTL/tensor/diagonalTensor.py', 'src/CTL/tensor/contract/contract.py',
            'src/CTL/tensor/contract/optimalContract.py', 'src/CTL/tensornetwork/tensornetwork.py',
            'src/CTL/tensor/tensorFunc.py', 'src/CTL/examples/MPS.py', 'src/CTL/examples/HOTRG.py',
            'src/CTL/examples/TRG.py', 'src/CTL/examples/CTMRG.py', 'src/CTL/examples/impurity.py'],
     mechanism=[('constructors copy the data', 'tensor/tensor.py:Tensor.generateData'),
                ('networks work on copies', 'tensornetwork/tensornetwork.py:FiniteTensorNetwork.contract'),
                ('lists are copied before an in-place contraction', 'tensor/contract/optimalContract.py:contractAndCostWithSequence')],
     what='Effect analysis on the abstract heap: the objects reachable from the inputs are recorded before the operation '
          'and every write to one of them, or to a buffer they share, is a violation; buffer sharing is tracked through views. ',
     rule='one obligation = one operation on one abstract heap: no write to an object or buffer reachable from the inputs',
     level_note='Sound for the listed operations on the enumerated heaps with arbitrary extents and contents, relative to '
                'the view/copy rules of the numpy model.',
     )

prop('C18',
     drivers=['c18'],
     title='Labels find the right legs, and renaming changes exactly those labels',
     statement='Looking up a label finds its first leg, or its last when searching backward; an absent label gives index -1, '
               'no leg and extent -1. Lists of labels, legs or positions give their results in the order of the list, a label '
               'that is asked for twice gives the first leg and then the last, and an unknown label in a list of legs is '
               'rejected. Renaming a label changes its first leg only, renaming a set of labels gives each its own new label '
               '(whatever labels are in use), tensor tags are put before every label and taken off again, and none of these '
               'changes the legs themselves. The same holds for dense and diagonal tensors and TensorLikes.',
     over=['inputs', 'programs'],
     qtext='tensors of up to four legs with any labels, equal or distinct, every order and selection',
     tests='the tests look up labels in a handful of tensors with distinct labels in their order',
     files=['src/CTL/tensor/tensor.py', 'src/CTL/tensor/diagonalTensor.py', 'src/CTL/funcs/funcs.py'],
     mechanism=[('label search', 'tensor/tensor.py:Tensor.indexOfLabel'), ('lists of labels', 'tensor/tensor.py:Tensor.getLabelIndices'),
                ('legs by labels', 'funcs/funcs.py:generateIndices'), ('tags', 'tensor/tensor.py:Tensor.addTensorTag')],
     what=HEAP,
     rule='one obligation = one expectation about the legs found or the labels changed, on one set of abstract paths',
     level_note='Sound for tensors of up to four legs with arbitrary extents and contents.',
     )

prop('C11',
     drivers=['c11', 'c11x', 'c11y'],
     title='A list of tensors is contracted completely, along any valid sequence',
     statement='Contracting a list of tensors along a valid sequence of pairs (given, searched by capping, by brute force or '
               'greedily) puts the result of every pair at its smaller position, leaves the other tensors where they are, '
               'and ends with the whole network at position 0: exactly its open legs, each for its own axis, summed over '
               'exactly its bonds, whatever the order. A search gives a sequence that contracts every tensor exactly once, '
               'also for disconnected networks, scalars and diagonal tensors; for dense networks and connected networks with diagonal '
               'tensors the optimal searches give a cheapest sequence and report its cost (a greedy search that of its '
               'sequence). The cost of a pair of dense tensors is the product of the extents of its distinct indices; with '
               'one diagonal operand it is the size of the result, for two diagonal tensors that share a bond their extent; '
               'the total cost is the sum over the steps. A copied list is linked as the original.',
     over=['inputs', 'programs'],
     qtext='networks of up to four tensors (chains, rings, stars, parallel bonds, disconnected, scalars), every valid '
           'sequence, arbitrary extents and contents; every mix of dense and diagonal tensors',
     tests='the tests contract a few connected networks with one sequence each and compare numbers',
     files=['src/CTL/tensor/contract/optimalContract.py', 'src/CTL/tensor/contract/tensorGraph.py',
            'src/CTL/tensor/contract/contract.py'],
     mechanism=[('steps of a sequence', 'tensor/contract/optimalContract.py:contractAndCostWithSequence'),
                ('searches', 'tensor/contract/tensorGraph.py:TensorGraph.optimalContractSequence'),
                ('copies of lists', 'tensor/contract/optimalContract.py:copyTensorList')],
     what='Axis provenance through whole contractions; the searches depend on the network and the typical extent only, so '
          'their constants propagate. ',
     rule='one obligation = one expectation about the result, the sequence or the cost on one set of abstract paths',
     level_note='Sound for the enumerated networks of up to four tensors with arbitrary contents; the greedy search and the '
                'searches with real extents are decided for fixed unequal extents only.',
     )

prop('C12',
     drivers=['c12'],
     title='An MPS claims a canonical centre only while its tensors have one',
     statement='Canonicalizing an MPS at a position (negative ones count from the end) makes every other tensor an isometry '
               'towards that position, records it as the canonical centre, keeps the chain, its physical legs and their '
               'bonds, and adds no larger bonds; a position out of range is rejected. Setting, swapping, moving or merging '
               'tensors, merging or contracting MPSs, and building one leaves no centre claimed unless every tensor beside it '
               'is an isometry; operations that change nothing keep it. Checking the canonical form tests every tensor except '
               'the centre over its legs away from the centre, fails if one is no isometry, and is refused without a centre.',
     over=['histories', 'inputs'],
     qtext='MPSs of one to four tensors with arbitrary extents, contents and chi, every centre, every operation before and after',
     tests='the tests canonicalize random MPSs once and check it at once; a stale centre after another operation goes unnoticed',
     files=['src/CTL/examples/MPS.py'],
     mechanism=[('canonical centre', 'examples/MPS.py:FreeBoundaryMPS.canonicalize'),
                ('isometry test', 'examples/MPS.py:FreeBoundaryMPS.checkCanonical'),
                ('invalidation', 'examples/MPS.py:FreeBoundaryMPS.setTensor')],
     state=[('activeIdx', 'position of the canonical centre, or None', 'examples/MPS.py:FreeBoundaryMPS')],
     what='Typestate of the canonical centre: tensors built from an orthonormal factor of a decomposition are marked, and a '
          'recorded centre is compared with the marks after every operation. ',
     rule='one obligation = one expectation about the recorded centre or the marks after an operation, on one set of abstract paths',
     level_note='Sound for MPSs of up to four tensors with arbitrary extents and contents; a factor counts as an isometry '
                'because of the decomposition it comes from, not because of its numbers.',
     )

prop('C13',
     drivers=['c13', 'c13x'],
     title='An MPS stays a chain with its physical legs and bonds',
     statement='Whatever is done to an MPS (built, copied, canonicalized, tensors swapped, moved, made adjacent or merged, '
               'pairs of MPSs merged, contracted, made from a tensor, whole networks contracted with MPSs), it is a chain: '
               "neighbours share exactly one bond, between the legs 'r' and 'l', every tensor has one physical leg 'o' that "
               'is the axis it stands for and keeps its bond, in the order the operation asks for. Bonds that are '
               'truncated are at most chi; chi is the largest bond if none is given or a smaller one is. Merging two MPSs '
               'leaves one bond between them, and contracting them leaves exactly their other physical legs, in order. '
               'Tensor lists that are no chain, positions out of range and pairs without exactly one common bond are rejected.',
     over=['histories', 'inputs'],
     qtext='MPSs of up to four tensors and pairs of up to three each, every position and every set of common bonds, any '
           'extents and contents; networks of up to four tensors',
     tests='the tests move a few tensors of random MPSs with equal extents and compare norms, so exchanged legs and lost '
           'bonds to other tensors are seldom seen',
     files=['src/CTL/examples/MPS.py', 'src/CTL/examples/Schimdt.py', 'src/CTL/tensor/contract/link.py'],
     mechanism=[('chain of tensors', 'examples/MPS.py:FreeBoundaryMPS.checkMPSProperty'), ('swap of neighbours', 'examples/MPS.py:FreeBoundaryMPS.swap'),
                ('merging two MPSs', 'examples/MPS.py:mergeMPS'), ('contracting two MPSs', 'examples/MPS.py:contractMPS'),
                ('MPS from a tensor', 'examples/MPS.py:createMPSFromTensor')],
     state=[('_tensors', 'the chain, from left to right', 'examples/MPS.py:FreeBoundaryMPS'), ('chi', 'largest bond allowed', 'examples/MPS.py:FreeBoundaryMPS')],
     what=HEAP + 'Physical legs carry the driver axis they stand for. ',
     rule='one obligation = one expectation about the chain after an operation, on one set of abstract paths',
     level_note='Sound for the enumerated chains and pairs with arbitrary extents and contents; sequences of whole networks are '
                'enumerated for up to three tensors, and sampled for four.',
     )

FTNF = ['src/CTL/tensornetwork/tensornetwork.py', 'src/CTL/tensornetwork/tensordict.py', 'src/CTL/tensor/tensor.py',
        'src/CTL/tensor/contract/link.py', 'src/CTL/tensor/contract/optimalContract.py']

prop('C09',
     drivers=['c09'],
     title='A finite tensor network evaluates exactly what it declares',
     statement='Evaluating a finite tensor network sums exactly the declared links and leaves exactly the other legs, each '
               'standing for its own axis, tagged with the name of its tensor (or without tags, as asked), whatever the '
               'order of names, links and tensors given and whichever contraction sequence is used. Renames declared before the links '
               'apply to the tensors first, in order; then the contraction; then merges of open legs in the order given '
               "(row-major, named 'res-...'); then the renames of the result. The tensors given must be exactly those declared, "
               'and links to missing legs or of unequal extents are rejected. A tensor dictionary holds what was set last '
               'under each name and reports missing ones.',
     over=['inputs', 'programs'],
     qtext='networks of one to four tensors with arbitrary extents and contents, any names, links, renames and merges',
     tests='the tests evaluate a few networks once and compare single numbers of constant tensors, for which exchanged legs '
           'give the same value',
     files=FTNF,
     mechanism=[('evaluation', 'tensornetwork/tensornetwork.py:FiniteTensorNetwork.contract'),
                ('tags', 'tensor/tensor.py:Tensor.addTensorTag'), ('merged legs', 'tensor/tensor.py:Tensor.outProduct')],
     what='Axis provenance from the tensors given to the result of the evaluation. ',
     rule='one obligation = one expectation about the result of an evaluation on one set of abstract paths',
     level_note='Sound for the enumerated networks of up to four tensors with arbitrary contents; the search for a sequence '
                'is replaced by any of several valid sequences (C11 covers the search), except in one driver with fixed extents.',
     )

prop('C10',
     drivers=['c10'],
     title='A finite tensor network can be locked, changed and evaluated again',
     statement='Evaluating a finite tensor network locks it. While it is locked, adding or removing tensors, links, renames or '
               'merges is rejected and changes nothing; after unlocking, changes take effect at the next evaluation (an '
               'added tensor or link, a tensor without links taken out, renames added or removed). Evaluating again gives '
               'the network of the tensors given then, also when their extents differ, and with real costs other extents '
               'mean another search for a sequence; a network changed by a tensor or a link is searched again, the same '
               'network with the same extents is not. Networks share nothing they declare, keep their own list of names, '
               'and later evaluations leave earlier results alone.',
     over=['histories'],
     qtext='every history of evaluations, changes, locking and unlocking of the enumerated kinds, with any contents',
     tests='the tests evaluate a network two or three times without changing it',
     files=FTNF,
     mechanism=[('lock check before every change', 'tensornetwork/tensornetwork.py:FiniteTensorNetwork.checkLock'),
                ('sequence kept between evaluations', 'tensornetwork/tensornetwork.py:FiniteTensorNetwork.contract')],
     state=[('locked', 'whether changes are rejected', 'tensornetwork/tensornetwork.py:FiniteTensorNetwork'),
            ('optimalSeq', 'the contraction sequence found so far', 'tensornetwork/tensornetwork.py:FiniteTensorNetwork')],
     what='Typestate of the lock and of the kept sequence, along histories of two to four evaluations and changes. ',
     rule='one obligation = one expectation after one step of a history, on one set of abstract paths',
     level_note='Sound for the enumerated histories and networks of two or three tensors; extents are fixed where the search runs.',
     )

prop('C16',
     drivers=['c16', 'c16x'],
     title='The predefined networks and coarse-graining steps join the right legs',
     statement='Every predefined network (triangle, square, square of corners, environments, CTMRG edges, corners, edge and '
               'corner closings, HOTRG, TNR) joins exactly the legs that face each other in its diagram and leaves exactly the outer '
               'legs, named by their direction; open legs that are merged keep the same order of positions on both sides, so that '
               'coarse tensors fit together again. Tensor factories attach each label to the axis it stands for and reject data of '
               'the wrong dimension; traces close opposite (or equal) legs; opposite directions are each other\'s. '
               'Every call makes a network of its own. Coarse-graining steps (TRG on squares and triangles, HOTRG) combine '
               'decompositions so that opposite legs of a coarse tensor come from the same decomposition, have equal extents, at most chi, '
               'and close exactly the bonds of the plaquette.',
     over=['inputs', 'programs'],
     qtext='tensors of arbitrary extents and contents for every predefined network, and one arbitrary coarse-graining step',
     tests='the tests run the models on symmetric tensors, for which exchanged legs give the same value, and look at a few digits of the free energy',
     files=['src/CTL/tensor/contract/contractExp.py', 'src/CTL/tensor/tensorFactory.py', 'src/CTL/examples/TRG.py', 'src/CTL/examples/HOTRG.py',
            'src/CTL/examples/TNR.py', 'src/CTL/funcs/funcs.py'],
     mechanism=[('links of the network', 'tensor/contract/contractExp.py:squareContractFTN'), ('labels of factories', 'tensor/tensorFactory.py:makeSquareTensor'),
                ('coarse-graining step', 'examples/HOTRG.py:HOTRG.directedIterate')],
     what='Axis provenance from asymmetric tensors (every leg its own extent) to the result of every network. ',
     rule='one obligation = one expectation about one network (open legs, their axes, the set of summed pairs) on one set of abstract paths',
     level_note='Sound for arbitrary contents and extents; numbers (free energies) are not decided. The order of contraction is one of several stubs.',
     )

prop('C08',
     drivers=['c08'],
     title='Truncated decompositions keep the largest values and consistent factors',
     statement='A truncated decomposition (SVD of a matrix or of a tensor over any rows and columns, truncating merge of two tensors, '
               'Schmidt decomposition of tensors or matrices, projector of an environment) keeps the largest values, at most chi, and not more '
               'than the matrix has; merges, Schmidt decompositions and projectors also drop values at or below their threshold. All '
               'factors have the same inner extent, carry the rows (left) and columns (right) they are asked for, with the '
               'labels asked for, and hold the vectors of the values kept: isometries if the values are returned, otherwise multiplied with the '
               'square roots of the values on both sides (matrix Schmidt: the values on the right). The error is the weight of '
               'the dropped values relative to all (values to the power asked for), 0 if none is dropped.',
     over=['inputs'],
     qtext='matrices and tensors of arbitrary extents and contents, any chi and error order',
     tests='the tests decompose a few random matrices, mostly without truncation, and never compare the reported error',
     files=['src/CTL/funcs/decompose.py', 'src/CTL/funcs/linalg.py', 'src/CTL/tensor/tensorFunc.py', 'src/CTL/tensor/contract/contract.py',
            'src/CTL/examples/Schimdt.py', 'src/CTL/funcs/funcs.py'],
     mechanism=[('truncation', 'funcs/decompose.py:SVDDecomposition'), ('projector', 'funcs/linalg.py:solveEnv'),
                ('truncating merge', 'tensor/contract/contract.py:merge')],
     what='Axis provenance and value numbers of the factors; the term of every factor and error is compared with the specified '
          'term by identity testing of both terms (uninterpreted decompositions, arithmetic on the values), under the facts of the path. ',
     rule='one obligation = one expectation about the factors or the error on one set of abstract paths',
     level_note='Sound for arbitrary matrices relative to the model of svd and eigh (values sorted, vectors in the same order); rounding is not decided.',
     )

prop('C21',
     drivers=['c21'],
     title='Ising tensors and networks represent the Ising model',
     statement='The Ising network of an undirected graph (couplings not negative, no edge from a site to itself) has one tensor per site with one '
               'leg of two states per edge of the site, bonded along exactly the edges, and contracts to the partition function: '
               'the sum over all spins of exp of the sum over the edges of coupling times spin product, also for repeated edges, '
               'isolated sites, disconnected graphs and graphs extended after use. The enumerated partition function is that sum, and the weight of a '
               'configuration is its Boltzmann weight with bit i as the spin of site i. Edge matrices square to the edge weight; site '
               'tensors sum the product of the edge matrices of their legs, each leg with its own coupling. Square and plaquette tensors hold the Boltzmann '
               'weight of their four spins (times the observable and the field factor asked for) under the documented labels, with two degrees of freedom. The exact magnetization is Onsager\'s. '
               'Directed graphs, unknown observables and couplings or labels of the wrong number are rejected.',
     over=['inputs', 'programs'],
     qtext='any couplings, temperatures and fields; graphs of up to five sites of many shapes',
     tests='the tests contract lattices with one coupling throughout and compare a few digits with the enumeration',
     files=['src/CTL/models/Ising.py', 'src/CTL/funcs/graph.py', 'src/CTL/funcs/funcs.py'],
     mechanism=[('site tensors', 'models/Ising.py:IsingSiteTensor'), ('network of a graph', 'models/Ising.py:IsingTNFromUndirectedGraph'),
                ('enumeration', 'models/Ising.py:exactZFromGraphIsing'), ('plaquettes', 'models/Ising.py:plaquetteIsingTensor')],
     what='Every entry of every tensor, and the contracted network, is a term in the symbolic couplings; it is compared with the term the '
          'model prescribes by identity testing. ',
     rule='one obligation = one expectation about an entry, a weight, a partition function or the structure of a network',
     level_note='Sound for arbitrary positive couplings on the enumerated graphs; larger graphs follow the same code. Rounding is not decided.',
     )

prop('C20',
     drivers=['c20'],
     title='Graphs keep their edges, and lattices join exactly the neighbours',
     statement='An undirected graph lists every edge added to it exactly once, with its ends and weight, also when edges are added after the list was asked '
               'for; every vertex has exactly the edges that end there, which is its degree; an edge tells its other end and rejects vertices that are not its ends. '
               'In a directed graph an edge belongs to the vertex where it starts. Edges to vertices outside the graph are '
               'rejected and change nothing; graphs share nothing. The lattice builders number sites row by row and join exactly the '
               'neighbours: periodic and free square lattices (every site with the next in its row and column), double square lattices (four edges around every plaquette), complete '
               'graphs (every pair once), with the vertical and horizontal (or the two diagonal) weights on the right edges, n columns and weight 0 by default; sizes must be integers.',
     over=['inputs', 'histories'],
     qtext='histories of additions and queries on up to five vertices; lattices of up to four rows and five columns with any weights',
     tests='the tests build a few square lattices with one weight and never look at the edges',
     files=['src/CTL/funcs/graph.py', 'src/CTL/funcs/graphFuncs.py', 'src/CTL/funcs/funcs.py'],
     mechanism=[('edges of a graph', 'funcs/graph.py:UndirectedGraph.getEdges'), ('lattices', 'funcs/graphFuncs.py:squareLatticePBC'),
                ('double lattice', 'funcs/graphFuncs.py:doubleSquareLatticeFBC')],
     state=[('edges', 'the list of edges as last computed', 'funcs/graph.py:UndirectedGraph'), ('updated', 'whether edges were added since', 'funcs/graph.py:UndirectedGraph')],
     what='Heap analysis of vertices, edges and their lists: constants for the sizes, symbols for the weights. ',
     rule='one obligation = one expectation about the edges, degrees or weights after a history, or of a lattice',
     level_note='Sound for arbitrary weights on the enumerated sizes and histories.',
     )

prop('C19',
     drivers=['c19'],
     title='The graph of a tensor list and lists described by text have the right bonds',
     statement='The graph of a list of tensors has one vertex per tensor, in order, with its name and whether it is diagonal, one edge per bond between '
               'the tensors and one free edge per open leg, each numbered once and with the extent of its bond or leg as weight; it leaves '
               'the tensors alone, and edges added later are numbered with the others. A text describes a list of tensors: a capital letter per tensor, '
               'then its legs, each a small letter or a name in braces, with an optional size (one digit, or any number in braces). The list has these tensors, names, '
               'legs and sizes in order; legs of the same name are linked and share the size given at either end; others stay open. '
               'A name used three times, different sizes under one name, text that does not start with a capital letter and unmatched braces are rejected.',
     over=['inputs', 'histories'],
     qtext='lists of up to four tensors of any extents in any order; texts of up to six legs and three tensors of all forms',
     tests='the tests draw the graph of two texts and never look at vertices, edges or sizes',
     files=['src/CTL/tensor/contract/tensorGraph.py', 'src/CTL/tensor/contract/optimalContract.py', 'src/CTL/funcs/graph.py'],
     mechanism=[('graph of tensors', 'tensor/contract/optimalContract.py:makeTensorGraph'), ('text of legs', 'tensor/contract/tensorGraph.py:decodeSubText'),
                ('text of tensors', 'tensor/contract/tensorGraph.py:createTensorListFromText')],
     what='Heap analysis of tensors, legs, bonds, vertices and edges; the texts are constants of the drivers. ',
     rule='one obligation = one expectation about a graph or a described list',
     level_note='Sound for arbitrary extents on the enumerated networks; texts are enumerated.',
     )

prop('C23',
     drivers=['c23'],
     title='Generated names are new, and a name in use is never given away twice',
     statement='A set of names gives a generated name of the length asked for that is not in use, however often the random source repeats names in use, and '
               'keeps it as used; a given or added name is rejected while it is in use and taken otherwise; a removed name is free again, and removing '
               'a name that is not in use is rejected. Rejected operations change nothing, the set contains exactly the names in use, '
               'and sets share no names: bonds, tensors and machine-learning bonds each have their own.',
     over=['histories', 'schedules'],
     qtext='every history of up to four operations with two to four names, with an adversarial random source of up to 120 repetitions',
     tests='the tests draw long random names, which practically never repeat',
     files=['src/CTL/funcs/stringSet.py', 'src/CTL/funcs/funcs.py'],
     mechanism=[('drawing again', 'funcs/stringSet.py:StringSet.newString'), ('random letters', 'funcs/funcs.py:randomString')],
     state=[('stringSet', 'the names in use', 'funcs/stringSet.py:StringSet')],
     what='Abstract interpretation of histories of operations, with the letters of the random source chosen by the driver. ',
     rule='one obligation = one expectation after one step of a history',
     level_note='Sound for the enumerated histories and repetitions of the source.',
     )

prop('C26',
     drivers=['c26'],
     title='A call warns exactly where it does not do what it was asked to do',
     statement='A call warns when it does something else than it was asked to: contracting tensors without a common bond (once for every such step, also within a list or a network, '
               'unless outProductWarning is off), merging tensors without a common bond, merging a single bond (unless renameWarning is off), renaming absent labels and taking tags off labels '
               'without one (once for each; the other labels are still changed), summing out a leg that is bonded, or absent (which does nothing), the bond dimension of unequal extents, '
               'a typical dimension that a greedy search ignores, checking whether a TensorLike is an isometry (if asked for warnings), moving an MPS tensor to where it is (unless off), '
               'contracting MPSs with different chi, and an MPS of a tensor with one leg. Calls that do what they are asked give no warning, apart from the vector and matrix form of '
               'diagonal tensors, which are deprecated.',
     over=['inputs', 'configurations'],
     qtext='all sets of bonds between operands of up to two legs, of every kind; all networks of up to three tensors along every sequence; all warning options, given or left out',
     tests='the tests look at the warning of a single merge; a warning that is lost or given twice, or an option that is not passed on, shows only for particular bonds, kinds of tensors or sequences',
     files=['src/CTL/tensor/contract/contract.py', 'src/CTL/tensor/contract/link.py', 'src/CTL/tensor/contract/optimalContract.py', 'src/CTL/tensor/tensor.py', 'src/CTL/tensor/diagonalTensor.py', 'src/CTL/tensornetwork/tensornetwork.py', 'src/CTL/examples/MPS.py'],
     mechanism=[('warning of an outer product', 'tensor/contract/contract.py:contractTwoTensors'), ('passing the options on', 'tensor/contract/optimalContract.py:contractAndCostWithSequence'),
                ('absent labels', 'tensor/tensor.py:Tensor.renameLabels'), ('absent and bonded legs', 'tensor/tensor.py:Tensor.sumOutLeg')],
     what='Abstract interpretation that counts the calls of warnings.warn reached on each path. ',
     rule='one obligation = the number of warnings given by one call on one enumerated structure, on every path',
     level_note='Sound for the enumerated structures and options with arbitrary extents and data.',
     )

prop('C27',
     drivers=['c27'],
     title='Helpers on lists, digits, indices and directions compute what they document',
     statement='The difference of two lists takes every used element out once, in order, and rejects elements that are not there; deleting takes every appearance out, removal by '
               'position exactly the given positions. Lists are the same exactly if one is a permutation of the other; common elements and the symmetric difference have '
               'every element once; all are equal exactly if no two differ. Positions of elements asked for repeatedly are the successive ones, none when there are no more. '
               'Digits to any base come lowest first, the index of every label with the last running fastest; remainders lie between 0 and the modulus. Pairs and divisions into k parts '
               'come exactly once each; binomial and multinomial coefficients count them. Every index has its own letter; opposite directions are each other\'s; the product of extents, the closed spin chain, '
               'the cutoff (first value below a threshold), the values below a threshold, and a binary search within its accuracy and range are as documented. Invalid arguments are rejected, and arguments are left alone.',
     over=['inputs'],
     qtext='arbitrary numbers and elements; every pattern of equal elements in lists of up to four; all small divisions, shapes and directions',
     tests='the tests call a few of these helpers with one or two arguments; errors show only for repeated elements, negative numbers, unequal extents or the last positions',
     files=['src/CTL/funcs/funcs.py'],
     mechanism=[('lists', 'funcs/funcs.py:listDifference'), ('positions of repeated elements', 'funcs/funcs.py:generateIndices'), ('digits', 'funcs/funcs.py:intToDBaseTuple')],
     what='Value terms over symbolic numbers are compared with the specified arithmetic; list helpers treat elements as opaque, so every pattern of equal elements is enumerated. ',
     rule='one obligation = one expectation about the result of a helper',
     level_note='Sound for arbitrary numbers and opaque elements on the enumerated lengths and patterns of equality.',
     )

prop('C28',
     drivers=['c28'],
     title='Matrix helpers compute what they document, entry by entry',
     statement='The distance of a matrix from the unit matrix, from being diagonal or symmetric (relative to its norm), from another matrix (relative to the first, or squared) and of its columns from orthonormal ones '
               'are the norms of exactly those differences. The adjoint has the conjugate entries with exchanged extents; products with the adjoint come in the order asked for; a diagonal matrix scales '
               'the columns from the right, the rows from the left. Unit tensors (of two or more axes) and diagonal tensors have their entries on the diagonal only; sums, weighted or not, run over exactly the given axis '
               '(negative ones count from the end). Normalizing makes the largest absolute value 1; a partial inverse inverts exactly the values before the cutoff, the others become 0; the values above a threshold are counted by their size. '
               'Floats are equal within eps, relatively within eps of their size (zeros and negative numbers too), arrays if they have the same shape and equal entries. A tensor is an isometry for labels it has exactly if the sum over them of the tensor times its conjugate is the unit matrix within eps. Arguments are left alone.',
     over=['inputs'],
     qtext='matrices with arbitrary entries of all shapes up to 3 x 3, tensors of up to four axes',
     tests='the tests use a few real square matrices, for which left and right, rows and columns, or relative and absolute errors coincide',
     files=['src/CTL/funcs/funcs.py'],
     mechanism=[('norms of differences', 'funcs/funcs.py:identityError'), ('sum over an axis', 'funcs/funcs.py:sumOnAxis'), ('diagonal products', 'funcs/funcs.py:leftDiagonalProduct')],
     what='Literal arrays with symbolic entries are followed entry by entry through the helpers; each resulting entry is compared with the specified term. ',
     rule='one obligation = one entry (or norm) of the result of a helper',
     level_note='Sound for arbitrary entries on the enumerated shapes, relative to the numpy model.',
     )

prop('C29',
     drivers=['c29'],
     title='A tensor is built from what it is given, or refused',
     statement='From any sufficient and consistent choice of legs, shape, labels and data, given as lists or tuples, a Tensor, TensorLike, DiagonalTensor or diagonal TensorLike is built as documented: '
               'with the given legs in their order (which then belong to it), else new legs without bonds; with the given extents, else those of the legs, else those of the data; with the given labels, '
               'else the names of the legs, else a, b, c, ... (up to 26); with the given data in row-major order (its diagonal for a diagonal tensor), else data of that shape, and ones on the diagonal; no data for a '
               'TensorLike; name and degree of freedom as given, also in its copy and its TensorLike, and text that shows them with shape and labels. Contradictory arguments (labels, extents or numbers of them that are not those of the legs '
               'or the shape, data with another number of elements, unequal extents of a diagonal tensor) and insufficient ones are refused with a ValueError or AssertionError, leaving the legs offered alone. '
               'Triangle, square and corner tensors have the documented labels. '
               'Refused are also other numbers of legs or corners for these, the norm, trace, value, matrix, vector or dense form of a TensorLike, the value of a tensor with legs, the trace of a matrix form that is not square, and a matrix form without every leg exactly once.',
     over=['inputs', 'configurations'],
     qtext='all combinations of the four arguments for tensors of up to three legs (and 26 default labels) with arbitrary extents',
     tests='the tests build tensors from a few usual combinations; a combination that is read in the wrong priority or a contradiction that is no longer refused shows only for that combination',
     files=['src/CTL/tensor/tensor.py', 'src/CTL/tensor/diagonalTensor.py', 'src/CTL/tensorbase/tensorbase.py', 'src/CTL/tensor/leg.py', 'src/CTL/tensor/tensorFactory.py'],
     mechanism=[('what the arguments stand for', 'tensor/tensor.py:Tensor.deduction'), ('what the arguments of a diagonal tensor stand for', 'tensor/diagonalTensor.py:DiagonalTensor.deduction'),
                ('the data', 'tensor/tensor.py:Tensor.generateData'), ('refusing a TensorLike', 'tensor/tensor.py:Tensor.single')],
     what='Abstract interpretation of the constructors for every combination of arguments. ',
     rule='one obligation = one attribute of one constructed tensor, or one refused combination, on every path',
     level_note='Sound for the enumerated combinations with arbitrary extents and data.',
     )

prop('C17',
     drivers=['c17'], rules=[rules.backend],
     technique='name resolution over the syntax tree (what every expression denotes, when it is evaluated, where it is kept) and abstract interpretation of the setting',
     title='Array functions come from the array library set last',
     statement='setXP sets the array library for the whole package: from then on every array function any library module calls (creation, decomposition, contraction, reduction, ...) is looked up '
               'in CTL.funcs.xplib.xp at the time of the call, however often the library is changed in between. Apart from CTL.funcs.xplib no module calls functions of numpy or another array library directly, '
               'and none keeps the library, or a function of it, from its import, from a class body, a default value, a module or object attribute or a cache. Before the first setXP the array library is numpy. '
               'Data types taken as default values, and the self-contained numpy script examples/TNR.py, are not meant.',
     over=['histories', 'inputs'],
     qtext='every read of the array library in every module; sequences of settings with two recording libraries, numpy and none',
     tests='the tests set None once and construct one tensor; with numpy as the only library installed a direct use of numpy is invisible to them',
     files=['src/CTL/__init__.py', 'src/CTL/funcs/xplib.py', 'src/CTL/tensor/tensor.py'],
     mechanism=[('setting', '__init__.py:setXP'), ('the library in use', 'funcs/xplib.py:xp')],
     state=[('xp', 'the array library in use', 'funcs/xplib.py')],
     what='Name resolution over all modules finds what every expression of module or function type denotes; the setting itself is interpreted with two recording libraries. ',
     rule='one obligation = one expression that denotes an array library or a function of it, or one expectation after a setting',
     level_note='Complete for references by name or attribute; libraries reached through computed names are recognised for literal names only.',
     )

prop('C24',
     drivers=[], rules=[rules.persistent], lasting=['c01', 'c07', 'c09', 'c10', 'c13', 'c16', 'c18', 'c19', 'c20', 'c21', 'c22', 'c27', 'c28'],
     technique='effect rule over the syntax tree (bases of stores and mutating calls resolved to what they denote) and abstract interpretation of operation sequences',
     lasting_thorough=['c03', 'c04', 'c05', 'c06', 'c08', 'c11', 'c12'],
     title='No call leaves traces in modules, classes or default values',
     statement='Calls of the library change only the objects they are given or create: no module-level name or object, no class or class-level object, no default value of a parameter and no process-wide setting '
               '(random seeds, warning filters, numpy error and print settings, the recursion limit, the working directory, the environment) is changed by a call, and no default value, module-level or '
               'class-level list, dictionary, set, array or object is stored in an object or handed out as a result. So the same call on equal arguments gives equal results however often and after whatever it is made. '
               'The array library set by setXP, and the sets of names in use from which names are generated, are the only lasting state.',
     over=['histories'],
     qtext='every store, mutating call and definition of every function of the library; all operation sequences of the other checks',
     tests='each test makes its calls once, in a fresh object or process; state that leaks from one call into the next needs a second call',
     files=['src/CTL/tensor/tensor.py', 'src/CTL/tensornetwork/tensornetwork.py', 'src/CTL/funcs/funcs.py'],
     mechanism=[('mutable default value', 'tensornetwork/tensornetwork.py:FiniteTensorNetwork.__init__'), ('the array library', '__init__.py:setXP'), ('names in use', 'funcs/stringSet.py')],
     what='Effect rule: the base of every store and mutating call is resolved to what it denotes (module, class, default value, local object). In addition the operation sequences of the other drivers are interpreted, '
          'and the modules, classes and default values after them compared with those after loading. ',
     rule='one obligation = one store or mutating call whose base is resolved, or one interpreted operation sequence whose lasting objects are compared',
     level_note='The effect rule covers every function for direct effects; effects through aliases passed between functions are covered on the interpreted sequences.',
     )

prop('C25',
     technique='scope, attribute and signature resolution over the syntax trees of all modules',
     drivers=[], rules=[rules.names, rules.attributes, rules.calls, rules.formats],
     title='Every name, attribute, call and format string resolves',
     statement='In every library module, on every branch including errors and warnings: each name a function reads is bound and assigned somewhere before it; each imported name exists; each attribute read from a library module, '
               'numpy, the standard library, self or an object whose class is evident exists, and any other attribute name exists on some class of the library, numpy or Python; each call of a library function, '
               'constructor or method (and of numpy functions) fits its parameters: no missing, superfluous, repeated or unknown arguments, for every subclass that inherits the calling method; '
               'each literal format string gets the arguments it names; what is raised is an exception.',
     over=['inputs'],
     qtext='every name, attribute, call, format string and raise statement of every function of the library',
     tests='Python resolves names when a line runs: branches that no test enters (errors, warnings, options, examples) can hold anything',
     files=['src/CTL/tensor/tensor.py', 'src/CTL/tensor/diagonalTensor.py', 'src/CTL/funcs/funcs.py', 'src/CTL/tensor/contract/tensorGraph.py'],
     mechanism=[('names', 'funcs/funcs.py'), ('methods inherited by diagonal tensors', 'tensor/diagonalTensor.py:DiagonalTensor'), ('signatures', 'tensor/contract/contract.py')],
     what='Scopes, class tables and signatures are read from the syntax trees; every read name, attribute and call is resolved against them, method calls on self once per inheriting class. ',
     rule='one obligation = one name, attribute, call, format string or raise statement',
     level_note='Complete for names, imports and calls with evident targets; a receiver of unknown class is only checked against the attribute names and signatures of all classes.',
     )
