"""Summaries used in place of functions whose behaviour a driver does not need.

The search for a contraction sequence compares symbolic costs; a driver that needs a sequence but not the search calls
stub_sequence(...), after which TensorGraph.optimalContractSequence returns some valid sequence (each of the listed kinds
on its own path): 'left' pairs 0 with 1, 2, ... in turn, 'right' starts from the last pair.  What the search itself must
deliver is a separate property.
"""
from .values import *

QUAL = 'CTL.tensor.contract.tensorGraph.TensorGraph.optimalContractSequence'


def register(I, rec):
    def seq(I_, st, f, args, kwargs, node):
        kinds = st.ghost.get('seqstub')
        if not kinds:
            return None
        ref = args[0] if args else None
        o = st.heap.get(ref.oid) if isinstance(ref, Ref) else None
        if o is None or o.kind != 'inst':
            return None
        n = o.attrs.get('n')
        if not (isinstance(n, K) and isinstance(n.v, int)):
            return None
        n = n.v
        out = []
        for x, kind in enumerate(kinds):
            s = st if x == len(kinds) - 1 else st.clone()
            if kind == 'left':
                pairs = [(0, i) for i in range(1, n)]
            elif kind == 'right':
                pairs = [(i - 1, i) for i in range(n - 1, 0, -1)]
            else:
                pairs = [(i, i - 1) for i in range(n - 1, 0, -1)]
            c = s.ghost.get('seqcalls')
            s.ghost['seqcalls'] = K((c.v if c is not None else 0) + 1)
            out.append((s, I_.new_list(s, [Tup((K(a), K(b))) for a, b in pairs], node)))
            if n < 3:
                return [(s, out[-1][1])]
        return out
    I.stubs[QUAL] = seq


def reset(I):
    pass
