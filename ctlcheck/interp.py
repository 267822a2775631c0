"""Abstract interpreter for the Python subset used by CTL.

Nothing of the analysed repository is imported or executed: the source is parsed with
`ast` and evaluated over abstract values (values.py).  Unknown conditions split the
analysis into trace partitions that are merged again (duplicates removed, and joined
when there are too many); loops over collections of unknown length and loops with an
unknown condition are iterated to a fixpoint of the joined state.
"""
import ast
import re
import time
import builtins
import os

from .values import *
from . import values as _v


NUMPY_TYPES = ('float16', 'float32', 'float64', 'float128', 'complex64', 'complex128', 'complex256', 'int8', 'int16', 'int32', 'int64')


class Exc(V):
    __slots__ = ('cname', 'msg', 'site', 'explicit', 'val')

    def __init__(self, cname, msg='', site=None, explicit=False, val=None):
        self.cname, self.msg, self.site, self.explicit, self.val = cname, msg, site, explicit, val

    def __eq__(self, o):
        return isinstance(o, Exc) and (self.cname, self.msg, self.site) == (o.cname, o.msg, o.site)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash((self.cname, str(self.msg), self.site))

    def __repr__(self):
        return 'Exc(%s: %s @%s)' % (self.cname, self.msg, self.site)


class SuperV(V):
    __slots__ = ('cls', 'self_')

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_

    def __hash__(self):
        return hash(('super', self.cls, self.self_))

    def __eq__(self, o):
        return isinstance(o, SuperV) and (self.cls, self.self_) == (o.cls, o.self_)


class AnalysisBroken(Exception):
    pass


class FuncInfo(object):
    __slots__ = ('node', 'module', 'qual', 'name', 'params', 'vararg', 'kwonly', 'kwarg', 'locals',
                 'is_gen', 'globals_', 'nonlocals', 'body', 'file', 'ndefaults')

    def __init__(self, node, module, qual, file):
        self.node, self.module, self.qual, self.file = node, module, qual, file
        a = node.args
        self.params = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.name = getattr(node, 'name', '<lambda>')
        if isinstance(node, ast.Lambda):
            self.body = [ast.copy_location(ast.Return(value=node.body), node.body)]
        else:
            self.body = node.body
        loc, glob, nonl, gen = set(), set(), set(), [False]
        for s in self.body:
            _scan(s, loc, glob, nonl, gen)
        loc |= set(self.params) | set(self.kwonly)
        if self.vararg:
            loc.add(self.vararg)
        if self.kwarg:
            loc.add(self.kwarg)
        self.globals_ = frozenset(glob)
        self.nonlocals = frozenset(nonl)
        self.locals = frozenset(loc - glob - nonl)
        self.is_gen = gen[0]


def _scan(n, loc, glob, nonl, gen):
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        loc.add(n.name)
        return
    if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        for c in ast.walk(n):
            if isinstance(c, ast.NamedExpr) and isinstance(c.target, ast.Name):
                loc.add(c.target.id)
        return
    if isinstance(n, ast.Global):
        glob.update(n.names)
        return
    if isinstance(n, ast.Nonlocal):
        nonl.update(n.names)
        return
    if isinstance(n, (ast.Yield, ast.YieldFrom)):
        gen[0] = True
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
        loc.add(n.id)
    if isinstance(n, (ast.Import, ast.ImportFrom)):
        for a in n.names:
            loc.add((a.asname or a.name).split('.')[0])
    if isinstance(n, ast.ExceptHandler) and n.name:
        loc.add(n.name)
    for c in ast.iter_child_nodes(n):
        _scan(c, loc, glob, nonl, gen)


class Program(object):
    """the parsed source of the repository"""

    def __init__(self, root, extra=None):
        self.root = root
        self.trees = {}
        self.files = {}
        self.extra = dict(extra or {})      # module name -> path
        self.loaded = []

    def path_of(self, mod):
        if mod in self.extra:
            return self.extra[mod]
        p = os.path.join(self.root, *mod.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'):
            return p + '.py'
        if os.path.isdir(p):
            return ''                        # namespace package
        return None

    def tree(self, mod):
        if mod not in self.trees:
            p = self.path_of(mod)
            if p == '':
                t = ast.parse('')
            else:
                with open(p, encoding='utf-8') as f:
                    src = f.read()
                t = ast.parse(src, p)
            self.trees[mod] = t
            self.files[mod] = p
            self.loaded.append(mod)
        return self.trees[mod]


class State(object):
    __slots__ = ('heap', 'facts', 'ghost')

    def __init__(self, heap=None, facts=None, ghost=None):
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}
        self.ghost = ghost if ghost is not None else {}

    def clone(self):
        return State(dict(self.heap), dict(self.facts), dict(self.ghost))


class Fr(object):
    __slots__ = ('oid', 'module', 'info', 'cls', 'yields', 'qual')

    def __init__(self, oid, module, info, cls, qual):
        self.oid, self.module, self.info, self.cls, self.qual = oid, module, info, cls, qual
        self.yields = None


PYEXC = {n: getattr(builtins, n) for n in dir(builtins)
         if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}

BUILTINS = {'len', 'range', 'enumerate', 'zip', 'list', 'tuple', 'dict', 'set', 'frozenset', 'sorted', 'reversed',
            'min', 'max', 'sum', 'abs', 'int', 'float', 'str', 'bool', 'complex', 'isinstance', 'issubclass', 'type',
            'print', 'any', 'all', 'map', 'filter', 'iter', 'next', 'hasattr', 'getattr', 'setattr', 'delattr', 'id',
            'round', 'repr', 'object', 'divmod', 'pow', 'callable', 'hash', 'open', 'super', 'property',
            'staticmethod', 'classmethod', 'vars', 'input', 'ord', 'chr', 'slice', 'bytes', 'NotImplemented',
            'bin', 'format', 'dir', 'exit', 'quit', 'globals', 'locals', 'bytearray', 'memoryview', 'ascii', 'hex',
            'oct', 'exec', 'eval', 'compile', 'help', '__import__', 'aiter', 'anext', 'breakpoint'}


class Interp(object):
    CAP = 48            # trace partitions kept per program point before joining
    MAXGEN = 600       # iterations of a loop of a generator before it is cut off
    MAXREC = 60         # depth of a recursion without any undecided condition
    MAXFIX = 12         # fixpoint iterations (the lattice is capped, so this is not reached in practice)
    MAXCONC = 3000      # iterations of a loop whose condition stays decided

    def __init__(self, prog, max_steps=4000000):
        self.prog = prog
        self.oids = {}
        self.ctx = []
        self.stack = []          # [(qual, file, call line)]
        self.finfos = {}
        self.events = []
        self.deadline = float('inf')
        self.event_keys = set()
        self.steps = 0
        self.max_steps = max_steps
        self.intr = {}           # driver intrinsics: name -> handler
        self.stubs = {}          # qualified function name -> handler
        self.libmodels = {}
        self.visited_funcs = {}  # qual -> number of abstract invocations
        self.visited_stmts = set()
        self.callsites = set()
        self.nforks = 0
        self.recforks = {}
        self.njoins = 0
        self.nfix = 0
        self.unmodelled = {}
        self.on_write = []       # callbacks (st, what, oid, name, old, new, site)
        self.on_arrwrite = []
        self.on_libcall = []
        self.on_call = []
        self.lossy = []
        self.generic_dims = True
        self.quiet_fork = False
        self.in_fix = 0

    # ------------------------------------------------------------ bookkeeping
    def site(self, node=None):
        if self.stack:
            q, f, _ = self.stack[-1]
        else:
            q, f = '<driver>', ''
        return (f, getattr(node, 'lineno', 0) if node is not None else 0, q)

    def event(self, kind, node, **kw):
        key = (kind, self.site(node), tuple(sorted((k, repr(v)) for k, v in kw.items())))
        if key in self.event_keys:
            return
        self.event_keys.add(key)
        self.events.append(dict(kind=kind, site=self.site(node), stack=list(self.stack), **kw))

    def alloc(self, st, obj, node, sub=None):
        k = (tuple(self.ctx), getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0),
             self.stack[-1][0] if self.stack else '', sub, obj.kind)
        oid = self.oids.get(k)
        if oid is None:
            oid = len(self.oids) + 1
            self.oids[k] = oid
        old = st.heap.get(oid)
        if old is not None and obj.kind != 'frame' and self.in_fix:
            obj = self.join_obj(old, obj, True)
            if obj.kind == 'inst':
                obj = HInst(obj.cls, obj.attrs, obj.site, True, obj.wsite)
        elif old is not None and obj.kind != 'frame':
            # same site reached again in one context (e.g. repeated library allocation): number it
            n = 1
            while True:
                k2 = k + (n,)
                oid = self.oids.get(k2)
                if oid is None:
                    oid = len(self.oids) + 1
                    self.oids[k2] = oid
                if oid not in st.heap:
                    break
                n += 1
        st.heap[oid] = obj
        return Ref(oid)

    def new_list(self, st, items, node, sub=None, lkind='list', elem=None):
        return self.alloc(st, HList(None if items is None else tuple(items), elem, self.site(node), lkind), node, sub)

    def new_dict(self, st, entries, node, sub=None, dkind='dict', rest=None):
        return self.alloc(st, HDict(tuple(entries), rest, self.site(node), dkind), node, sub)

    def fresh_buf(self, node, sub=''):
        return frozenset([('buf', tuple(self.ctx), getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0),
                           self.stack[-1][0] if self.stack else '', sub)])

    def new_arr(self, st, node, axes=None, dtype=None, term=None, sums=(), buf=None, sub='arr', view=None):
        if term is None:
            term = T('arr@', str(self.site(node)), tuple(self.ctx), sub)
        if buf is None:
            buf = self.fresh_buf(node, sub)
        return self.alloc(st, HArr(buf, axes, dtype, term, sums, self.site(node), None, view), node, sub)

    def fork(self, st):
        self.nforks += 1
        return st.clone()

    def step(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget('step budget exhausted')
        if self.steps % 4096 == 0 and time.time() > self.deadline:
            raise Budget('time limit')

    # ------------------------------------------------------------ joins
    def join_obj(self, a, b, fix=False):
        if a is b or a == b:
            return a
        if a.kind != b.kind:
            return a
        if a.kind == 'inst':
            attrs = {}
            for n in set(a.attrs) | set(b.attrs):
                x, y = a.attrs.get(n, UNBOUND), b.attrs.get(n, UNBOUND)
                attrs[n] = x if x == y else join_vals(x, y)
            w = dict(a.wsite)
            w.update(b.wsite)
            return HInst(a.cls, attrs, a.site, a.summary or b.summary, w)
        if a.kind == 'frame':
            vs = {}
            for n in set(a.vars) | set(b.vars):
                x, y = a.vars.get(n, UNBOUND), b.vars.get(n, UNBOUND)
                vs[n] = x if x == y else join_vals(x, y)
            r = a.with_vars(vs)
            return r.capture() if (a.captured or b.captured) else r
        if a.kind == 'list':
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                return HList(tuple(x if x == y else join_vals(x, y) for x, y in zip(a.items, b.items)), None, a.site,
                             a.lkind, b.wsite or a.wsite)
            es = []
            for o in (a, b):
                if o.items is not None:
                    es.extend(o.items)
                if o.elem is not None:
                    es.append(o.elem)
            return HList(None, join_vals(*es) if es else None, a.site, a.lkind, b.wsite or a.wsite)
        if a.kind == 'dict':
            ka = [k for k, _ in a.entries]
            kb = [k for k, _ in b.entries]
            da, db = dict(a.entries), dict(b.entries)
            if set(ka) == set(kb):
                rest = a.rest
                if b.rest is not None:
                    rest = b.rest if rest is None else (join_vals(rest[0], b.rest[0]), join_vals(rest[1], b.rest[1]))
                return HDict(tuple((k, da[k] if da[k] == db[k] else join_vals(da[k], db[k])) for k in ka), rest,
                             a.site, a.dkind, b.wsite or a.wsite)
            common = [k for k in ka if k in db]
            ks, vs = [], []
            for d in (a, b):
                for k, v in d.entries:
                    if k not in common:
                        ks.append(k)
                        vs.append(v)
                if d.rest is not None:
                    ks.append(d.rest[0])
                    vs.append(d.rest[1])
            return HDict(tuple((k, join_vals(da[k], db[k])) for k in common), (join_vals(*ks), join_vals(*vs)), a.site,
                         a.dkind, b.wsite or a.wsite)
        if a.kind == 'arr':
            return HArr(a.buf | b.buf, a.axes if a.axes == b.axes else None,
                        None if a.dtype is None or b.dtype is None else a.dtype | b.dtype,
                        a.term if a.term is b.term else T('phi', *sorted([a.term, b.term], key=lambda t: t._h)) if a.term.size + b.term.size < 40 else TOP,
                        a.sums if a.sums == b.sums else None, a.site, b.wsite or a.wsite, a.view if a.view == b.view else None)
        return a

    def join_states(self, a, b):
        self.njoins += 1
        heap = dict(a.heap)
        for o, y in b.heap.items():
            x = heap.get(o)
            if x is None:
                heap[o] = y
            elif x is not y:
                heap[o] = self.join_obj(x, y)
        facts = {k: v for k, v in a.facts.items() if b.facts.get(k) is v or b.facts.get(k) == v}
        ghost = {}
        for k in set(a.ghost) | set(b.ghost):
            x, y = a.ghost.get(k), b.ghost.get(k)
            if k == 'warned':
                x, y = x or K(0), y or K(0)
            ghost[k] = x if x == y else join_vals(*(z for z in (x, y) if isinstance(z, V))) if isinstance(x, V) and isinstance(y, V) else (x if y is None else y)
        return State(heap, facts, ghost)

    def same_state(self, a, b):
        if a.ghost != b.ghost or len(a.heap) != len(b.heap):
            return False
        for o, x in a.heap.items():
            y = b.heap.get(o)
            if y is None:
                return False
            if x is not y and x != y:
                return False
        return True

    def merge(self, states):
        if len(states) < 2:
            return states
        out = []
        for s in states:
            for o in out:
                if self.same_state(o, s):
                    o.facts = {k: v for k, v in o.facts.items() if s.facts.get(k) == v}
                    break
            else:
                out.append(s)
        if len(out) > self.CAP:
            r = out[0]
            for s in out[1:]:
                r = self.join_states(r, s)
            return [r]
        return out

    def merge_vals(self, res):
        """merge (state, value) pairs with equal states and values; join beyond the cap"""
        if len(res) < 2:
            return res
        out = []
        for s, v in res:
            for i, (o, w) in enumerate(out):
                if v == w and self.same_state(o, s):
                    o.facts = {k: x for k, x in o.facts.items() if s.facts.get(k) == x}
                    break
            else:
                out.append((s, v))
        if len(out) > self.CAP:
            exc = [(s, v) for s, v in out if isinstance(v, Exc)]
            nor = [(s, v) for s, v in out if not isinstance(v, Exc)]
            res = []
            if nor:
                r, val = nor[0]
                for s, v in nor[1:]:
                    r = self.join_states(r, s)
                    val = join_vals(val, v)
                res.append((r, val))
            seen = {}
            for s, v in exc:
                seen.setdefault(v, s)
            res.extend((s, v) for v, s in seen.items())
            return res
        return out

    # ------------------------------------------------------------ modules
    def module_frame(self, mod):
        k = ('module', mod)
        oid = self.oids.get(k)
        if oid is None:
            oid = len(self.oids) + 1
            self.oids[k] = oid
        return oid

    def is_repo(self, mod):
        return self.prog.path_of(mod) is not None

    def import_module(self, st, mod, node=None):
        """-> [(st, None|Exc)]"""
        parts = mod.split('.')
        sts = [st]
        for i in range(1, len(parts) + 1):
            sub = '.'.join(parts[:i])
            nxt = []
            for s in sts:
                oid = self.module_frame(sub)
                if oid in s.heap:
                    nxt.append(s)
                    continue
                if not self.is_repo(sub):
                    return [(s, Exc('ModuleNotFoundError', 'no module named %r' % sub, self.site(node)))]
                tree = self.prog.tree(sub)
                s.heap[oid] = HFrame({'__name__': K(sub)}, None, sub)
                fr = Fr(oid, sub, None, None, sub)
                ctx, stack = self.ctx, self.stack
                self.ctx = [('import', sub)]
                self.stack = [(sub, self.prog.files[sub], 0)]
                try:
                    outs = self.block(tree.body, s, fr)
                finally:
                    self.ctx, self.stack = ctx, stack
                good = []
                for x, sig in outs:
                    if sig is not None and sig[0] == 'exc':
                        return [(x, sig[1])]
                    good.append(x)
                if len(good) > 1:
                    r = good[0]
                    for g in good[1:]:
                        r = self.join_states(r, g)
                    good = [r]
                for x in good:
                    if i > 1:
                        po = self.module_frame('.'.join(parts[:i - 1]))
                        if po in x.heap and parts[i - 1] not in x.heap[po].vars:
                            x.heap[po] = x.heap[po].set(parts[i - 1], ModV(sub))
                nxt.extend(good)
            sts = nxt
        return [(s, None) for s in sts]

    # ------------------------------------------------------------ names
    def lookup(self, st, name, fr, node):
        oid = fr.oid
        f = st.heap[oid]
        first = True
        while True:
            if name in f.globals_ and not (f.module and oid == self.module_frame(f.module)):
                oid = self.module_frame(f.module)
                f = st.heap[oid]
                first = False
                continue
            if name in f.vars and not (name in f.nonlocals):
                v = f.vars[name]
                if v is UNBOUND:
                    return [(st, Exc('UnboundLocalError', name, self.site(node)))]
                if isinstance(v, Phi):
                    res = []
                    alts = sorted(v.alts, key=repr)
                    st.ghost['fuzzy'] = TRUE
                    for i, a in enumerate(alts):
                        s2 = st if i == len(alts) - 1 else self.fork(st)
                        if a is UNBOUND:
                            # joined from a path where the name was unbound: not reported as definite
                            continue
                        s2.heap[oid] = s2.heap[oid].set(name, a)
                        res.append((s2, a))
                    return res
                return [(st, v)]
            if first and f.locals is not None and name in f.locals:
                return [(st, Exc('UnboundLocalError', name, self.site(node)))]
            if f.parent is None:
                break
            oid = f.parent
            f = st.heap[oid]
            first = False
            # class scopes are skipped by construction (parent points to the enclosing function scope)
        if name in self.intr:
            return [(st, Lib('@' + name))]
        if name in ('True', 'False', 'None'):
            return [(st, K({'True': True, 'False': False, 'None': None}[name]))]
        if name in BUILTINS:
            return [(st, Lib('builtins.' + name))]
        if name in PYEXC:
            return [(st, Lib('builtins.' + name))]
        if name in ('__name__', '__file__', '__doc__'):
            return [(st, K(fr.module))]
        return [(st, Exc('NameError', name, self.site(node)))]

    def assign_name(self, st, name, v, fr):
        f = st.heap[fr.oid]
        if name in f.globals_:
            m = self.module_frame(f.module)
            self.note_global_write(st, m, name, v)
            st.heap[m] = st.heap[m].set(name, v)
            return
        if name in f.nonlocals:
            oid = f.parent
            while oid is not None:
                g = st.heap[oid]
                if name in g.vars or (g.locals is not None and name in g.locals):
                    st.heap[oid] = g.set(name, v)
                    return
                oid = g.parent
            return
        st.heap[fr.oid] = f.set(name, v)

    def note_global_write(self, st, m, name, v):
        for cb in self.on_write:
            cb(st, 'global', m, name, st.heap[m].vars.get(name), v, self.site(None))

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        live = [st]
        out = []
        for s in stmts:
            nxt = []
            for x in live:
                self.step()
                for y, sig in self.stmt(s, x, fr):
                    if sig is None:
                        nxt.append(y)
                    else:
                        out.append((y, sig))
            live = self.merge(nxt) if len(nxt) > 1 else nxt
            if not live:
                break
        return self.merge_sigs(out) + [(x, None) for x in live]

    def merge_sigs(self, out):
        if len(out) < 2:
            return out
        res = []
        for s, sig in out:
            for o, w in res:
                if w == sig and self.same_state(o, s):
                    o.facts = {k: x for k, x in o.facts.items() if s.facts.get(k) == x}
                    break
            else:
                res.append((s, sig))
        return res

    def stmt(self, n, st, fr):
        m = getattr(self, 's_' + type(n).__name__, None)
        self.visited_stmts.add((fr.qual, n.lineno))
        if m is None:
            self.unmodelled['stmt ' + type(n).__name__] = self.unmodelled.get('stmt ' + type(n).__name__, 0) + 1
            return [(st, None)]
        return m(n, st, fr)

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return [(st, None)]
        return [(s, ('exc', v) if isinstance(v, Exc) else None) for s, v in self.ev(n.value, st, fr)]

    def s_Pass(self, n, st, fr):
        return [(st, None)]

    def s_Global(self, n, st, fr):
        return [(st, None)]

    s_Nonlocal = s_Global

    def s_Assign(self, n, st, fr):
        out = []
        for s, v in self.ev(n.value, st, fr):
            if isinstance(v, Exc):
                out.append((s, ('exc', v)))
                continue
            cur = [(s, None)]
            for t in n.targets:
                nxt = []
                for x, sig in cur:
                    if sig is not None:
                        nxt.append((x, sig))
                    else:
                        nxt.extend(self.assign(t, v, x, fr))
                cur = nxt
            out.extend(cur)
        return out

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [(st, None)]
        out = []
        for s, v in self.ev(n.value, st, fr):
            if isinstance(v, Exc):
                out.append((s, ('exc', v)))
            else:
                out.extend(self.assign(n.target, v, s, fr))
        return out

    def assign(self, t, v, st, fr):
        """-> [(st, sig)]"""
        if isinstance(t, ast.Name):
            self.assign_name(st, t.id, v, fr)
            return [(st, None)]
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.ev(t.value, st, fr):
                if isinstance(b, Exc):
                    out.append((s, ('exc', b)))
                    continue
                out.extend(self.setattr_(s, b, t.attr, v, t))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, (b, i) in self.evs([t.value, t.slice], st, fr):
                if isinstance(b, Exc):
                    out.append((s, ('exc', b)))
                    continue
                out.extend(self.setitem(s, b, i, v, t))
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for s, seq in self.unpack(st, v, None if star else len(t.elts), t):
                if isinstance(seq, Exc):
                    out.append((s, ('exc', seq)))
                    continue
                if star:
                    k = star[0]
                    after = len(t.elts) - k - 1
                    mid = seq[k:len(seq) - after]
                    lst = self.new_list(s, mid, t, 'star')
                    seq = list(seq[:k]) + [lst] + list(seq[len(seq) - after:] if after else [])
                cur = [(s, None)]
                for e, x in zip(t.elts, seq):
                    e = e.value if isinstance(e, ast.Starred) else e
                    nxt = []
                    for y, sig in cur:
                        if sig is not None:
                            nxt.append((y, sig))
                        else:
                            nxt.extend(self.assign(e, x, y, fr))
                    cur = nxt
                out.extend(cur)
            return out
        return [(st, None)]

    def unpack(self, st, v, n, node):
        """-> [(st, [values] | Exc)]"""
        out = []
        for s, (kind, seq) in self.iterate(st, v, node):
            if kind == 'exc':
                out.append((s, seq))
            elif kind == 'seq':
                if n is not None and len(seq) != n:
                    out.append((s, Exc('ValueError', 'cannot unpack %d values into %d targets' % (len(seq), n), self.site(node))))
                else:
                    out.append((s, list(seq)))
            else:
                out.append((s, [T('item', v, K(i)) if isinstance(v, T) and v is not TOP else seq for i in range(n or 1)]))
        return out

    def s_AugAssign(self, n, st, fr):
        t = n.target
        op = type(n.op).__name__
        out = []
        if isinstance(t, ast.Name):
            for s, (a, b) in self.evs([ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t), n.value], st, fr):
                if isinstance(a, Exc):
                    out.append((s, ('exc', a)))
                    continue
                for s2, r in self.inplace(s, op, a, b, n):
                    if isinstance(r, Exc):
                        out.append((s2, ('exc', r)))
                    else:
                        self.assign_name(s2, t.id, r, fr)
                        out.append((s2, None))
            return out
        if isinstance(t, ast.Attribute):
            for s, b in self.ev(t.value, st, fr):
                if isinstance(b, Exc):
                    out.append((s, ('exc', b)))
                    continue
                for s1, a in self.getattr_(s, b, t.attr, t):
                    if isinstance(a, Exc):
                        out.append((s1, ('exc', a)))
                        continue
                    for s2, r in self.ev(n.value, s1, fr):
                        if isinstance(r, Exc):
                            out.append((s2, ('exc', r)))
                            continue
                        for s3, w in self.inplace(s2, op, a, r, n):
                            if isinstance(w, Exc):
                                out.append((s3, ('exc', w)))
                            else:
                                out.extend(self.setattr_(s3, b, t.attr, w, t))
            return out
        if isinstance(t, ast.Subscript):
            for s, (b, i) in self.evs([t.value, t.slice], st, fr):
                if isinstance(b, Exc):
                    out.append((s, ('exc', b)))
                    continue
                for s1, a in self.getitem(s, b, i, t):
                    if isinstance(a, Exc):
                        out.append((s1, ('exc', a)))
                        continue
                    for s2, r in self.ev(n.value, s1, fr):
                        if isinstance(r, Exc):
                            out.append((s2, ('exc', r)))
                            continue
                        for s3, w in self.inplace(s2, op, a, r, n):
                            if isinstance(w, Exc):
                                out.append((s3, ('exc', w)))
                            else:
                                out.extend(self.setitem(s3, b, i, w, t))
            return out
        return [(st, None)]

    def inplace(self, st, op, a, b, node):
        if isinstance(a, Ref):
            o = st.heap.get(a.oid)
            if o is not None and o.kind == 'list' and op == 'Add':
                out = []
                for s, (kind, seq) in self.iterate(st, b, node):
                    if kind == 'exc':
                        out.append((s, seq))
                        continue
                    self.list_extend(s, a, kind, seq, node)
                    out.append((s, a))
                return out
            if o is not None and o.kind == 'arr':
                out = []
                for s, r in self.binop(st, op, a, b, node, inplace=True):
                    if isinstance(r, Exc):
                        out.append((s, r))
                        continue
                    self.arr_store(s, a, r, node, whole=True)
                    out.append((s, a))
                return out
            if o is not None and o.kind in ('set', 'dict') and op in ('BitOr',):
                pass
        return self.binop(st, op, a, b, node)

    def s_If(self, n, st, fr):
        out = []
        conds = self.cond(n.test, st, fr)
        both = {c for _, c in conds if c is True or c is False} == {True, False}
        for s, c in conds:
            if isinstance(c, Exc):
                out.append((s, ('exc', c)))
            else:
                body = n.body if c else n.orelse
                if both and body and isinstance(body[-1], ast.Raise):
                    # a guard that is not decided, as an assertion: nothing is claimed about the path that is rejected
                    s.ghost['fuzzy'] = TRUE
                out.extend(self.block(body, s, fr))
        return out

    def cond(self, node, st, fr):
        """evaluate a condition: -> [(st, True|False|Exc)]"""
        out = []
        for s, v in self.ev(node, st, fr):
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                out.extend(self.truth(s, v, node))
        return out

    def s_Assert(self, n, st, fr):
        out = []
        for s, v in self.ev(n.test, st, fr):
            if isinstance(v, Exc):
                out.append((s, ('exc', v)))
                continue
            for s2, c in self.truth(s, v, n, assume=True):
                if isinstance(c, Exc):
                    out.append((s2, ('exc', c)))
                elif c is False:
                    if n.msg is not None:
                        for s3, mv in self.ev(n.msg, s2, fr):
                            out.append((s3, ('exc', mv if isinstance(mv, Exc) else
                                             Exc('AssertionError', repr(mv), self.site(n), True))))
                    else:
                        out.append((s2, ('exc', Exc('AssertionError', '', self.site(n), True))))
                else:
                    out.append((s2, None))
        return out

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            return [(st, ('exc', Exc('Exception', 're-raise', self.site(n), True)))]
        out = []
        for s, v in self.ev(n.exc, st, fr):
            if isinstance(v, Exc):
                out.append((s, ('exc', v)))
                continue
            name, val = 'Exception', v
            if isinstance(v, Lib) and v.path.startswith('builtins.'):
                name = v.path[9:]
            elif isinstance(v, T) and v.op == 'excinst':
                name = v.args[0].v
            elif isinstance(v, ClsV):
                name = v.name
            elif isinstance(v, Ref) and st.heap[v.oid].kind == 'inst':
                name = s.heap[s.heap[v.oid].cls].name
            out.append((s, ('exc', Exc(name, '', self.site(n), True, val))))
        return out

    def s_Return(self, n, st, fr):
        if n.value is None:
            return [(st, ('ret', NONE))]
        return [(s, ('exc', v) if isinstance(v, Exc) else ('ret', v)) for s, v in self.ev(n.value, st, fr)]

    def s_Break(self, n, st, fr):
        return [(st, ('brk',))]

    def s_Continue(self, n, st, fr):
        return [(st, ('cont',))]

    def s_FunctionDef(self, n, st, fr):
        out = []
        for s, f in self.make_fn(n, st, fr):
            if isinstance(f, Exc):
                out.append((s, ('exc', f)))
                continue
            cur = [(s, f)]
            for d in reversed(n.decorator_list):
                nxt = []
                for x, g in cur:
                    for y, dv in self.ev(d, x, fr):
                        if isinstance(dv, Exc):
                            out.append((y, ('exc', dv)))
                            continue
                        nxt.extend(self.call(y, dv, [g], {}, d))
                cur = nxt
            for x, g in cur:
                if isinstance(g, Exc):
                    out.append((x, ('exc', g)))
                else:
                    self.assign_name(x, n.name, g, fr)
                    out.append((x, None))
        return out

    s_AsyncFunctionDef = s_FunctionDef

    def make_fn(self, n, st, fr):
        info = self.finfos.get(id(n))
        if info is None:
            base = fr.qual
            name = getattr(n, 'name', '<lambda>')
            info = FuncInfo(n, fr.module, base + '.' + name, self.prog.files.get(fr.module, ''))
            self.finfos[id(n)] = info
        dflt = list(n.args.defaults)
        kwd = [(a.arg, d) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None]
        out = []
        for s, vals in self.evs(dflt + [d for _, d in kwd], st, fr):
            if vals and isinstance(vals[0], Exc):
                out.append((s, vals[0]))
                continue
            f = s.heap[fr.oid]
            closure = fr.oid
            cls = None
            if fr.cls is not None and fr.info is None and f.parent is not None and getattr(fr, 'qual', None) and f.locals == 'class':
                pass
            if f.locals == 'class':
                closure = f.parent
                cls = fr.cls
                if closure is not None and s.heap[closure].kind == 'frame':
                    s.heap[closure] = s.heap[closure].capture()
            else:
                s.heap[fr.oid] = f.capture()
            out.append((s, Fn(info, closure, tuple(vals[:len(dflt)]),
                              tuple((k, v) for (k, _), v in zip(kwd, vals[len(dflt):])), cls)))
        return out

    def s_ClassDef(self, n, st, fr):
        out = []
        for s, bases in self.evs(list(n.bases), st, fr):
            if bases and isinstance(bases[0], Exc):
                out.append((s, ('exc', bases[0])))
                continue
            qual = fr.qual + '.' + n.name
            cref = self.alloc(s, HClass(n.name, qual, tuple(bases), {}, self.site(n)), n, 'class')
            fo = self.alloc(s, HFrame({}, fr.oid, fr.module, False, 'class'), n, 'classbody').oid
            cf = Fr(fo, fr.module, None, cref.oid, qual)
            for x, sig in self.block(n.body, s, cf):
                if sig is not None and sig[0] == 'exc':
                    out.append((x, sig))
                    continue
                h = x.heap[cref.oid]
                x.heap[cref.oid] = HClass(h.name, h.qual, h.bases, dict(x.heap[fo].vars), h.site)
                x.heap.pop(fo, None)
                self.assign_name(x, n.name, ClsV(cref.oid, n.name), fr)
                out.append((x, None))
        return out

    def s_Import(self, n, st, fr):
        cur = [(st, None)]
        for a in n.names:
            nxt = []
            for s, sig in cur:
                if sig is not None:
                    nxt.append((s, sig))
                    continue
                top = a.name.split('.')[0]
                if self.is_repo(top):
                    for s2, e in self.import_module(s, a.name, n):
                        if e is not None:
                            nxt.append((s2, ('exc', e)))
                            continue
                        self.assign_name(s2, a.asname or top, ModV(a.name if a.asname else top), fr)
                        nxt.append((s2, None))
                else:
                    self.assign_name(s, a.asname or top, Lib(a.name if a.asname else top), fr)
                    nxt.append((s, None))
            cur = nxt
        return cur

    def s_ImportFrom(self, n, st, fr):
        mod = n.module or ''
        if n.level:
            pk = fr.module.split('.')
            isp = self.prog.files.get(fr.module, '').endswith('__init__.py')
            cut = n.level - (1 if isp else 0)
            pk = pk[:len(pk) - cut] if cut else pk
            mod = '.'.join(pk + ([mod] if mod else []))
        if not self.is_repo(mod.split('.')[0]):
            for a in n.names:
                if a.name != '*':
                    self.assign_name(st, a.asname or a.name, Lib(mod + '.' + a.name), fr)
            return [(st, None)]
        out = []
        for s, e in self.import_module(st, mod, n):
            if e is not None:
                out.append((s, ('exc', e)))
                continue
            cur = [(s, None)]
            for a in n.names:
                nxt = []
                for x, sig in cur:
                    if sig is not None:
                        nxt.append((x, sig))
                        continue
                    mf = x.heap[self.module_frame(mod)]
                    if a.name == '*':
                        for k, v in mf.vars.items():
                            if not k.startswith('_'):
                                self.assign_name(x, k, v, fr)
                        nxt.append((x, None))
                    elif a.name in mf.vars:
                        self.assign_name(x, a.asname or a.name, mf.vars[a.name], fr)
                        nxt.append((x, None))
                    elif self.is_repo(mod + '.' + a.name):
                        for y, e2 in self.import_module(x, mod + '.' + a.name, n):
                            if e2 is not None:
                                nxt.append((y, ('exc', e2)))
                            else:
                                self.assign_name(y, a.asname or a.name, ModV(mod + '.' + a.name), fr)
                                nxt.append((y, None))
                    else:
                        nxt.append((x, ('exc', Exc('ImportError', 'cannot import name %s from %s' % (a.name, mod), self.site(n)))))
                cur = nxt
            out.extend(cur)
        return out

    def s_Delete(self, n, st, fr):
        cur = [(st, None)]
        for t in n.targets:
            nxt = []
            for s, sig in cur:
                if sig is not None:
                    nxt.append((s, sig))
                elif isinstance(t, ast.Name):
                    f = s.heap[fr.oid]
                    a = dict(f.vars)
                    a.pop(t.id, None)
                    s.heap[fr.oid] = f.with_vars(a)
                    nxt.append((s, None))
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.ev(t.value, s, fr):
                        if isinstance(b, Exc):
                            nxt.append((s2, ('exc', b)))
                            continue
                        if isinstance(b, Ref) and s2.heap[b.oid].kind == 'inst':
                            o = s2.heap[b.oid]
                            if t.attr not in o.attrs:
                                nxt.append((s2, ('exc', Exc('AttributeError', t.attr, self.site(t)))))
                                continue
                            for cb in self.on_write:
                                cb(s2, 'attr', b.oid, t.attr, o.attrs.get(t.attr), UNBOUND, self.site(t))
                            s2.heap[b.oid] = o.delete(t.attr)
                        nxt.append((s2, None))
                elif isinstance(t, ast.Subscript):
                    for s2, (b, i) in self.evs([t.value, t.slice], s, fr):
                        if isinstance(b, Exc):
                            nxt.append((s2, ('exc', b)))
                            continue
                        nxt.extend(self.delitem(s2, b, i, t))
                else:
                    nxt.append((s, None))
            cur = nxt
        return cur

    # ---- loops
    def s_For(self, n, st, fr):
        out = []
        for s, it in self.ev(n.iter, st, fr):
            if isinstance(it, Exc):
                out.append((s, ('exc', it)))
                continue
            # live iteration over a list object: re-read the list at every step
            if isinstance(it, Ref) and s.heap[it.oid].kind == 'list' and s.heap[it.oid].items is not None \
                    and s.heap[it.oid].lkind in ('list', 'gen!'):
                out.extend(self.for_live(n, s, it, fr))
                continue
            for s2, (kind, seq) in self.iterate(s, it, n.iter):
                if kind == 'exc':
                    out.append((s2, ('exc', seq)))
                elif kind == 'seq':
                    out.extend(self.for_seq(n, s2, list(seq), fr))
                else:
                    out.extend(self.for_summary(n, s2, seq, fr))
        return out

    def loop_body(self, n, st, fr, item):
        """assign the target and run the body once: -> [(st, sig)]"""
        out = []
        for s, sig in self.assign(n.target, item, st, fr):
            if sig is not None:
                out.append((s, sig))
            else:
                out.extend(self.block(n.body, s, fr))
        return out

    def for_live(self, n, st, lref, fr):
        live, done, out = [st], [], []
        i = 0
        while live:
            if i > self.MAXCONC:
                raise Budget('loop bound')
            nxt = []
            for s in live:
                o = s.heap[lref.oid]
                if o.items is None:
                    out.extend(self.for_summary(n, s, o.elem, fr))
                    continue
                if i >= len(o.items):
                    if o.lkind == 'gen!':
                        raise Budget('endless generator')
                    done.append(s)
                    continue
                self.ctx.append((n.lineno, n.col_offset, i))
                try:
                    res = self.loop_body(n, s, fr, o.items[i])
                finally:
                    self.ctx.pop()
                for x, sig in res:
                    if sig is None or sig[0] == 'cont':
                        nxt.append(x)
                    elif sig[0] == 'brk':
                        out.append((x, None))
                    else:
                        out.append((x, sig))
            live = self.merge(nxt)
            i += 1
        for s in self.merge(done):
            out.extend(self.block(n.orelse, s, fr) if n.orelse else [(s, None)])
        return out

    def for_seq(self, n, st, seq, fr):
        live, out = [st], []
        for i, item in enumerate(seq):
            nxt = []
            self.ctx.append((n.lineno, n.col_offset, i))
            try:
                for s in live:
                    for x, sig in self.loop_body(n, s, fr, item):
                        if sig is None or sig[0] == 'cont':
                            nxt.append(x)
                        elif sig[0] == 'brk':
                            out.append((x, None))
                        else:
                            out.append((x, sig))
            finally:
                self.ctx.pop()
            live = self.merge(nxt)
            if not live:
                break
        for s in live:
            out.extend(self.block(n.orelse, s, fr) if n.orelse else [(s, None)])
        return out

    def for_summary(self, n, st, elem, fr):
        if elem is None:
            elem = TOP
        out = []
        head = st
        self.in_fix += 1
        try:
            for k in range(self.MAXFIX):
                self.nfix += 1
                again = []
                for x, sig in self.loop_body(n, head.clone(), fr, elem):
                    if sig is None or sig[0] == 'cont':
                        again.append(x)
                    elif sig[0] == 'brk':
                        out.append((x, None))
                    else:
                        out.append((x, sig))
                new = head
                for x in again:
                    new = self.join_states(new, x)
                if self.same_state(new, head):
                    break
                head = new
        finally:
            self.in_fix -= 1
        out = self.merge_sigs(out)
        out.extend(self.block(n.orelse, head, fr) if n.orelse else [(head, None)])
        return out

    def s_While(self, n, st, fr):
        live, out = [st], []
        i = 0
        while live:
            nxt = []
            i += 1
            if i > self.MAXGEN and len(live) == 1:
                # a generator that goes on and on: its consumer gets the first elements, and may stop there
                y = live[0].heap[fr.oid].vars.get('@yield') if live[0].heap.get(fr.oid) is not None else None
                o = live[0].heap[y.oid] if isinstance(y, Ref) else None
                if o is not None and o.items is not None and len(o.items) > self.MAXGEN // 2:
                    live[0].heap[y.oid] = HList(o.items, o.elem, o.site, 'gen!', o.wsite)
                    out.append((live[0], ('ret', NONE)))
                    break
            if i > self.MAXCONC:
                raise Budget('loop bound')
            prev, f0 = (live[0].clone(), self.nforks) if len(live) == 1 and not self.in_fix else (None, 0)
            for s in live:
                conds = self.cond(n.test, s, fr)
                unknown = len([c for _, c in conds if c is True or c is False]) > 1
                if unknown:
                    # undecided condition: fixpoint
                    for x, c in conds:
                        if isinstance(c, Exc):
                            out.append((x, ('exc', c)))
                    out.extend(self.while_fix(n, conds, fr))
                    continue
                for x, c in conds:
                    if isinstance(c, Exc):
                        out.append((x, ('exc', c)))
                    elif c is False:
                        out.extend(self.block(n.orelse, x, fr) if n.orelse else [(x, None)])
                    else:
                        self.ctx.append((n.lineno, n.col_offset, i))
                        try:
                            res = self.block(n.body, x, fr)
                        finally:
                            self.ctx.pop()
                        for y, sig in res:
                            if sig is None or sig[0] == 'cont':
                                nxt.append(y)
                            elif sig[0] == 'brk':
                                out.append((y, None))
                            else:
                                out.append((y, sig))
            live = self.merge(nxt)
            if prev is not None and len(live) == 1 and self.nforks == f0 and self.same_state(prev, live[0]):
                # the same state again, without any undecided condition: the loop never ends
                out.append((live[0], ('exc', Exc('NonTermination', 'the loop comes back to the same state', self.site(n)))))
                break
        return out

    def while_fix(self, n, conds, fr):
        out = []
        exits = [x for x, c in conds if c is False]
        head = None
        for x, c in conds:
            if c is True:
                head = x if head is None else self.join_states(head, x)
        self.in_fix += 1
        try:
            for k in range(self.MAXFIX):
                self.nfix += 1
                again = []
                for x, sig in self.block(n.body, head.clone(), fr):
                    if sig is None or sig[0] == 'cont':
                        again.append(x)
                    elif sig[0] == 'brk':
                        out.append((x, None))
                    else:
                        out.append((x, sig))
                new = head
                for x in again:
                    for y, c in self.cond(n.test, x, fr):
                        if isinstance(c, Exc):
                            out.append((y, ('exc', c)))
                        elif c is False:
                            exits.append(y)
                        else:
                            new = self.join_states(new, y)
                if self.same_state(new, head):
                    break
                head = new
        finally:
            self.in_fix -= 1
        ex = self.merge(exits)
        if len(ex) > 4:
            r = ex[0]
            for s in ex[1:]:
                r = self.join_states(r, s)
            ex = [r]
        for s in ex:
            out.extend(self.block(n.orelse, s, fr) if n.orelse else [(s, None)])
        return self.merge_sigs(out)

    # ---- try / with
    def exc_matches(self, exc, hv):
        """True/False/None"""
        if isinstance(hv, Tup):
            rs = [self.exc_matches(exc, x) for x in hv.items]
            if True in rs:
                return True
            return None if None in rs else False
        if isinstance(hv, Lib) and hv.path.startswith('builtins.') and hv.path[9:] in PYEXC:
            h = PYEXC[hv.path[9:]]
            e = PYEXC.get(exc.cname)
            if e is None:
                return True if h in (Exception, BaseException) else None
            return issubclass(e, h)
        if isinstance(hv, ClsV):
            return exc.cname == hv.name
        return None

    def s_Try(self, n, st, fr):
        res = []
        for s, sig in self.block(n.body, st, fr):
            if sig is not None and sig[0] == 'exc':
                res.extend(self.handle(n.handlers, s, sig[1], fr))
            elif sig is None and n.orelse:
                res.extend(self.block(n.orelse, s, fr))
            else:
                res.append((s, sig))
        if not n.finalbody:
            return res
        out = []
        for s, sig in res:
            for s2, sig2 in self.block(n.finalbody, s, fr):
                out.append((s2, sig if sig2 is None else sig2))
        return out

    s_TryStar = s_Try

    def handle(self, handlers, st, exc, fr):
        live = [st]
        out = []
        for h in handlers:
            nxt = []
            for s in live:
                if h.type is None:
                    m = [(s, True)]
                else:
                    m = []
                    for s2, hv in self.ev(h.type, s, fr):
                        m.append((s2, True if isinstance(hv, Exc) else self.exc_matches(exc, hv)))
                for s2, r in m:
                    if r is None:
                        nxt.append(self.fork(s2))
                        r = True
                    if r:
                        if h.name:
                            self.assign_name(s2, h.name, T('excinst', K(exc.cname)), fr)
                        out.extend(self.block(h.body, s2, fr))
                    else:
                        nxt.append(s2)
            live = nxt
        out.extend((s, ('exc', exc)) for s in live)
        return out

    def s_With(self, n, st, fr):
        cur = [(st, None)]
        for item in n.items:
            nxt = []
            for s, sig in cur:
                if sig is not None:
                    nxt.append((s, sig))
                    continue
                for s2, v in self.ev(item.context_expr, s, fr):
                    if isinstance(v, Exc):
                        nxt.append((s2, ('exc', v)))
                    elif item.optional_vars is not None:
                        nxt.extend(self.assign(item.optional_vars, v, s2, fr))
                    else:
                        nxt.append((s2, None))
            cur = nxt
        out = []
        for s, sig in cur:
            if sig is not None:
                out.append((s, sig))
            else:
                out.extend(self.block(n.body, s, fr))
        return out

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.unmodelled['expr ' + type(n).__name__] = self.unmodelled.get('expr ' + type(n).__name__, 0) + 1
            return [(st, TOP)]
        return m(n, st, fr)

    def evs(self, nodes, st, fr):
        """evaluate a list of expressions: -> [(st, [values])], with [Exc]*len on exception"""
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vals in cur:
                if vals and isinstance(vals[0], Exc):
                    nxt.append((s, vals))
                    continue
                for s2, v in self.ev(n, s, fr):
                    if isinstance(v, Exc):
                        nxt.append((s2, [v] * max(1, len(nodes))))
                    else:
                        nxt.append((s2, vals + [v]))
            cur = nxt
        return [(s, v if not (v and isinstance(v[0], Exc)) else [v[0]] * max(1, len(nodes))) for s, v in cur]

    def e_Constant(self, n, st, fr):
        return [(st, K(n.value))]

    def e_Name(self, n, st, fr):
        return self.lookup(st, n.id, fr, n)

    def e_NamedExpr(self, n, st, fr):
        out = []
        for s, v in self.ev(n.value, st, fr):
            if not isinstance(v, Exc):
                self.assign_name(s, n.target.id, v, fr)
            out.append((s, v))
        return out

    def e_Tuple(self, n, st, fr):
        out = []
        for s, vals in self.ev_items(n.elts, st, fr):
            out.append((s, vals if isinstance(vals, Exc) else (Tup(vals) if vals is not None else TOP)))
        return out

    def ev_items(self, elts, st, fr):
        """elements with starred expansion: -> [(st, [vals] | None | Exc)]"""
        cur = [(st, [])]
        for e in elts:
            nxt = []
            for s, vals in cur:
                if vals is None or isinstance(vals, Exc):
                    nxt.append((s, vals))
                    continue
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s, fr):
                        if isinstance(v, Exc):
                            nxt.append((s2, v))
                            continue
                        for s3, (kind, seq) in self.iterate(s2, v, e):
                            nxt.append((s3, vals + list(seq) if kind == 'seq' else (seq if kind == 'exc' else None)))
                else:
                    for s2, v in self.ev(e, s, fr):
                        nxt.append((s2, v if isinstance(v, Exc) else vals + [v]))
            cur = nxt
        return cur

    def e_List(self, n, st, fr):
        out = []
        for s, vals in self.ev_items(n.elts, st, fr):
            if isinstance(vals, Exc):
                out.append((s, vals))
            else:
                out.append((s, self.new_list(s, vals, n, elem=TOP if vals is None else None)))
        return out

    def e_Set(self, n, st, fr):
        out = []
        for s, vals in self.ev_items(n.elts, st, fr):
            if isinstance(vals, Exc):
                out.append((s, vals))
            else:
                out.append((s, self.new_list(s, None if vals is None else dedupe(vals), n, lkind='set',
                                             elem=TOP if vals is None else None)))
        return out

    def e_Dict(self, n, st, fr):
        cur = [(st, [])]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for s, ents in cur:
                if isinstance(ents, Exc):
                    nxt.append((s, ents))
                    continue
                if k is None:
                    for s2, d in self.ev(v, s, fr):
                        if isinstance(d, Exc):
                            nxt.append((s2, d))
                        elif isinstance(d, Ref) and s2.heap[d.oid].kind == 'dict':
                            nxt.append((s2, ents + list(s2.heap[d.oid].entries)))
                        else:
                            nxt.append((s2, ents))
                    continue
                for s2, (kv, vv) in self.evs([k, v], s, fr):
                    nxt.append((s2, kv if isinstance(kv, Exc) else ents + [(kv, vv)]))
            cur = nxt
        out = []
        for s, ents in cur:
            if isinstance(ents, Exc):
                out.append((s, ents))
                continue
            d = {}
            for k, v in ents:
                d[k] = v
            out.append((s, self.new_dict(s, d.items(), n)))
        return out

    def e_JoinedStr(self, n, st, fr):
        cur = [(st, [])]
        for p in n.values:
            nxt = []
            for s, parts in cur:
                if isinstance(parts, Exc):
                    nxt.append((s, parts))
                    continue
                if isinstance(p, ast.FormattedValue):
                    for s2, v in self.ev(p.value, s, fr):
                        nxt.append((s2, v if isinstance(v, Exc) else parts + [v]))
                else:
                    nxt.append((s, parts + [K(p.value)]))
            cur = nxt
        out = []
        for s, parts in cur:
            if isinstance(parts, Exc):
                out.append((s, parts))
            elif all(isinstance(p, K) for p in parts) and all(not isinstance(p, ast.FormattedValue) or (p.format_spec is None and p.conversion == -1) for p in n.values):
                out.append((s, K(''.join(str(p.v) for p in parts))))
            else:
                out.append((s, T('strfmt', *[p for p in parts if isinstance(p, (K, T))])))
        return out

    def e_IfExp(self, n, st, fr):
        out = []
        for s, c in self.cond(n.test, st, fr):
            if isinstance(c, Exc):
                out.append((s, c))
            else:
                out.extend(self.ev(n.body if c else n.orelse, s, fr))
        return out

    def e_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)
        cur = [(st, None)]
        out = []
        for i, e in enumerate(n.values):
            nxt = []
            for s, _ in cur:
                for s2, v in self.ev(e, s, fr):
                    if isinstance(v, Exc):
                        out.append((s2, v))
                        continue
                    if i == len(n.values) - 1:
                        out.append((s2, v))
                        continue
                    for s3, c in self.truth(s2, v, e):
                        if isinstance(c, Exc):
                            out.append((s3, c))
                        elif c == isand:
                            nxt.append((s3, v))
                        else:
                            # value of the expression is v with known truth
                            out.append((s3, v if isinstance(v, (K, Ref, Tup)) else K(c)))
            cur = nxt
        return out

    def e_UnaryOp(self, n, st, fr):
        out = []
        for s, v in self.ev(n.operand, st, fr):
            if isinstance(v, Exc):
                out.append((s, v))
            elif isinstance(n.op, ast.Not):
                t = self.truth3(s, v)
                if t is not None:
                    out.append((s, K(not t)))
                elif isinstance(v, T) and v is not TOP:
                    out.append((s, v.args[0] if v.op == 'not' else T('not', v)))
                else:
                    for s2, c in self.truth(s, v, n):
                        out.append((s2, c if isinstance(c, Exc) else K(not c)))
            elif isinstance(n.op, ast.USub):
                if is_num(v):
                    out.append((s, K(-v.v)))
                elif isinstance(v, T):
                    out.append((s, mk_neg(v)))
                elif isinstance(v, Ref) and s.heap[v.oid].kind == 'arr':
                    o = s.heap[v.oid]
                    out.append((s, self.new_arr(s, n, o.axes, o.dtype, T('neg', o.term), o.sums)))
                else:
                    out.append((s, TOP))
            elif isinstance(n.op, ast.UAdd):
                out.append((s, v))
            else:
                out.append((s, K(~v.v) if isinstance(v, K) and isinstance(v.v, int) else T('invert', v) if isinstance(v, T) else TOP))
        return out

    def e_BinOp(self, n, st, fr):
        out = []
        for s, (a, b) in self.evs([n.left, n.right], st, fr):
            if isinstance(a, Exc):
                out.append((s, a))
            else:
                out.extend(self.binop(s, type(n.op).__name__, a, b, n))
        return out

    def split(self, st, v):
        """resolve a Phi into partitions"""
        if not isinstance(v, Phi):
            return [(st, v)]
        alts = [a for a in sorted(v.alts, key=repr) if a is not UNBOUND]
        if not alts:
            return [(st, TOP)]
        res = []
        st.ghost['fuzzy'] = TRUE
        for i, a in enumerate(alts):
            res.append((st if i == len(alts) - 1 else self.fork(st), a))
        return res

    def is_arr(self, st, v):
        return isinstance(v, Ref) and st.heap[v.oid].kind == 'arr'

    def binop(self, st, op, a, b, node, inplace=False):
        if isinstance(a, Phi) or isinstance(b, Phi):
            out = []
            for s, x in self.split(st, a):
                for s2, y in self.split(s, b):
                    out.extend(self.binop(s2, op, x, y, node, inplace))
            return out
        if self.is_arr(st, a) or self.is_arr(st, b):
            if op == 'MatMult' and not (self.is_arr(st, a) and self.is_arr(st, b)):
                pass
            else:
                return self.lib.arr_binop(self, st, op, a, b, node)
        # instances: operator methods
        for x, y, pre in ((a, b, '__'), (b, a, '__r')):
            if isinstance(x, Ref) and st.heap[x.oid].kind == 'inst':
                mname = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'MatMult': 'matmul', 'Div': 'truediv', 'Mod': 'mod',
                         'Pow': 'pow', 'FloorDiv': 'floordiv', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}.get(op)
                m = self.class_attr(st, st.heap[x.oid].cls, pre + (mname or '?') + '__') if mname else None
                if m is not None:
                    return self.call(st, Bound(m, x), [y], {}, node)
                if isinstance(y, (K, Tup, T)) or (isinstance(y, Ref) and pre == '__r'):
                    return [(st, Exc('TypeError', 'unsupported operand for %s' % op, self.site(node)))]
        if isinstance(a, K) and isinstance(b, K):
            try:
                f = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mult': lambda x, y: x * y,
                     'Div': lambda x, y: x / y, 'FloorDiv': lambda x, y: x // y, 'Mod': lambda x, y: x % y,
                     'Pow': lambda x, y: x ** y, 'LShift': lambda x, y: x << y, 'RShift': lambda x, y: x >> y,
                     'BitAnd': lambda x, y: x & y, 'BitOr': lambda x, y: x | y, 'BitXor': lambda x, y: x ^ y}.get(op)
                if f is None:
                    raise TypeError('matmul')
                if op == 'Pow' and isinstance(b.v, int) and abs(b.v) > 4000:
                    return [(st, T('pow', a, b))]
                if op == 'Mult' and isinstance(a.v, str) and isinstance(b.v, int) and b.v > 100000:
                    return [(st, TOP)]
                return [(st, K(f(a.v, b.v)))]
            except ZeroDivisionError:
                return [(st, Exc('ZeroDivisionError', '', self.site(node)))]
            except Exception:
                return [(st, Exc('TypeError', 'unsupported operand types for %s: %r, %r' % (op, a, b), self.site(node)))]
        if op in ('LShift', 'RShift', 'BitAnd') and isinstance(a, (K, T)) and isinstance(b, (K, T)):
            # shifts and masks of a number that is not known
            if op == 'BitAnd' and isinstance(a, K):
                a, b = b, a
            if isinstance(b, K) and isinstance(b.v, int) and not isinstance(b.v, bool) and isinstance(a, T) and a is not TOP and term_kind(a) == 'int':
                if op == 'BitAnd' and b.v >= 0 and (b.v & (b.v + 1)) == 0:
                    return self.binop(st, 'Mod', a, K(b.v + 1), node)
                if op != 'BitAnd' and 0 <= b.v < 64:
                    return self.binop(st, 'FloorDiv' if op == 'RShift' else 'Mult', a, K(1 << b.v), node)
        # sequences
        la = st.heap[a.oid] if isinstance(a, Ref) else None
        lb = st.heap[b.oid] if isinstance(b, Ref) else None
        if op == 'Add' and la is not None and la.kind == 'list' and lb is not None and lb.kind == 'list':
            if la.items is not None and lb.items is not None:
                return [(st, self.new_list(st, la.items + lb.items, node))]
            es = [e for o in (la, lb) for e in ((o.items or ()) + ((o.elem,) if o.elem is not None else ()))]
            return [(st, self.new_list(st, None, node, elem=join_vals(*es) if es else None))]
        if op == 'Add' and isinstance(a, Tup) and isinstance(b, Tup):
            return [(st, Tup(a.items + b.items))]
        if op == 'Mult':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Tup) and isinstance(y, K) and isinstance(y.v, int):
                    return [(st, Tup(x.items * y.v))]
                if isinstance(x, Ref) and st.heap[x.oid].kind == 'list':
                    o = st.heap[x.oid]
                    if o.items is not None and isinstance(y, K) and isinstance(y.v, int):
                        return [(st, self.new_list(st, o.items * y.v, node))]
                    return [(st, self.new_list(st, None, node, elem=join_vals(*(o.items or ())) if o.items else o.elem))]
                if isinstance(x, Tup) and isinstance(y, T):
                    return [(st, T('tuprep', *[i for i in x.items if isinstance(i, (K, T))], y))]
        if op in ('BitAnd', 'BitOr', 'BitXor', 'Sub') and la is not None and lb is not None:
            return self.lib.set_op(self, st, op, a, b, node)
        if op == 'Mod' and isinstance(a, K) and isinstance(a.v, str):
            return [(st, T('strfmt', a))]
        if op == 'Add' and (term_kind(a) == 'str' or term_kind(b) == 'str') and isinstance(a, (K, T)) and isinstance(b, (K, T)):
            if isinstance(a, K) and not isinstance(a.v, str) or isinstance(b, K) and not isinstance(b.v, str):
                return [(st, Exc('TypeError', 'can only concatenate str', self.site(node)))]
            return [(st, T('strcat', *_flat('strcat', a, b)))]
        for x in (a, b):
            if isinstance(x, K) and x.v is None:
                return [(st, Exc('TypeError', 'unsupported operand None for %s' % op, self.site(node)))]
            if isinstance(x, (Tup,)) and op in ('Add',) and not isinstance(a if x is b else b, T):
                return [(st, Exc('TypeError', 'unsupported operand for %s' % op, self.site(node)))]
        if isinstance(a, (K, T)) and isinstance(b, (K, T)):
            return [(st, num_op(op, a, b))]
        if op in ('Div', 'FloorDiv', 'Pow', 'Sub', 'MatMult'):
            def seq(v):
                return isinstance(v, Tup) or isinstance(v, Ref) and st.heap[v.oid].kind == 'list' and st.heap[v.oid].lkind == 'list'

            def plain(v):
                return isinstance(v, K) or isinstance(v, T) and v is not TOP and term_kind(v) in ('int', 'float', 'str')
            if seq(a) and (seq(b) or plain(b)) or seq(b) and plain(a):
                return [(st, Exc('TypeError', 'unsupported operand types for %s' % op, self.site(node)))]
        return [(st, TOP)]

    # ---- comparison
    def eq3(self, st, a, b, depth=0):
        if a is TOP or b is TOP:
            return None
        if isinstance(a, K) and isinstance(b, K):
            try:
                return bool(a.v == b.v)
            except Exception:
                return None
        if isinstance(a, Phi) or isinstance(b, Phi):
            return None
        if a == b:
            if isinstance(a, Ref):
                return not getattr(st.heap[a.oid], 'summary', False) or None
            return True
        if isinstance(a, Ref) and isinstance(b, Ref):
            x, y = st.heap[a.oid], st.heap[b.oid]
            if x.kind != y.kind:
                return False if 'arr' not in (x.kind, y.kind) else None
            if x.kind == 'inst':
                return False if not (x.summary or y.summary) or a.oid != b.oid else None
            if x.kind == 'list':
                if x.items is None or y.items is None:
                    return None
                if x.lkind == 'set' or y.lkind == 'set':
                    return self.setcmp(st, list(x.items), list(y.items))
                if len(x.items) != len(y.items):
                    return False
                return and3(self.eq3(st, p, q, depth + 1) for p, q in zip(x.items, y.items))
            if x.kind == 'dict':
                if x.rest is not None or y.rest is not None:
                    return None
                if x.dkind == 'counter' or y.dkind == 'counter':
                    ks = [k for k, _ in x.entries] + [k for k, _ in y.entries]
                    if len(x.entries) != len(y.entries):
                        pass
                dx, dy = list(x.entries), list(y.entries)
                if len(dx) != len(dy):
                    if all(isinstance(k, (K, Ref)) or is_dim(k) for k, _ in dx + dy):
                        return False
                    return None
                res = []
                rem = list(dy)
                for k, v in dx:
                    hit = None
                    unk = False
                    for kk, vv in rem:
                        e = self.eq3(st, k, kk, depth + 1)
                        if e is True:
                            hit = (kk, vv)
                            break
                        if e is None:
                            unk = True
                    if hit is None:
                        return None if unk else False
                    rem.remove(hit)
                    res.append(self.eq3(st, v, hit[1], depth + 1))
                return and3(res)
            return None
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            return and3(self.eq3(st, p, q, depth + 1) for p, q in zip(a.items, b.items))
        if isinstance(a, (Fn, Bound, ClsV, ModV, Lib)) or isinstance(b, (Fn, Bound, ClsV, ModV, Lib)):
            if isinstance(a, Lib) and isinstance(b, Lib):
                return False
            if isinstance(a, T) or isinstance(b, T):
                return None
            return False
        if isinstance(a, T) or isinstance(b, T):
            x, y = (a, b) if isinstance(a, T) else (b, a)
            if isinstance(y, (Ref, Tup)):
                if isinstance(y, Ref) and st.heap[y.oid].kind == 'arr':
                    return None
                return False if is_dim(x) else None
            if isinstance(y, K) and y.v is None:
                return None if term_kind(x) == 'any' and x.op == 'maybe' else False
            if isinstance(y, K) and isinstance(y.v, str):
                if term_kind(x) in ('int', 'float'):
                    return False
                return None
            d = mk_sub(x, y) if isinstance(y, (K, T)) and (is_num(y) or isinstance(y, T)) else None
            if d is not None and is_num(d):
                return bool(d.v == 0)
            if self.generic_dims and pure_extent(x) and pure_extent(y):
                return False          # generic extents: distinct products of extents differ, and all exceed 1
            return None
        return False

    def setcmp(self, st, xs, ys):
        xs, ys = list(xs), list(ys)
        for p, q in ((xs, ys), (ys, xs)):
            for v in p:
                es = [self.eq3(st, v, w) for w in q]
                if True in es:
                    continue
                return None if None in es else False
        return True

    def lt3(self, st, a, b):
        if isinstance(a, K) and isinstance(b, K):
            try:
                return bool(a.v < b.v)
            except Exception:
                return None
        if a is TOP or b is TOP or not isinstance(a, (K, T)) or not isinstance(b, (K, T)):
            return None
        if a == b:
            return False
        d = mk_sub(b, a)
        if is_num(d):
            return d.v > 0
        # a <= min(..)?  b < a impossible when a is an upper bound of b
        if a in upper_bounds(b):
            return False                 # b <= a  =>  not a < b
        if is_num(a) and pos_extent(b):
            if a.v < 2 and pure_extent(b) and not is_num(b):
                return True
            if a.v < 1:
                return True
        if is_num(b) and pos_extent(a):
            if b.v <= 2 and pure_extent(a) and not is_num(a):
                return False
            if b.v <= 1:
                return False
        if is_num(b) and b.v <= 0 and nonneg(a):
            return False
        return None

    def compare1(self, st, op, a, b, node):
        """-> [(st, K(bool) | T)]"""
        if isinstance(a, Phi) or isinstance(b, Phi):
            out = []
            for s, x in self.split(st, a):
                for s2, y in self.split(s, b):
                    out.extend(self.compare1(s2, op, x, y, node))
            return out
        if op in ('Is', 'IsNot'):
            r = self.is3(st, a, b)
            if r is None:
                t = T('is', *sorted([x for x in (a, b)], key=_v._sortkey)) if isinstance(a, (K, T)) and isinstance(b, (K, T)) and a is not TOP and b is not TOP else TOP
                if t is TOP:
                    return [(st, TOP)]
                return [(st, t if op == 'Is' else T('not', t))]
            return [(st, K(r if op == 'Is' else not r))]
        if op in ('In', 'NotIn'):
            out = []
            for s, r in self.contains(st, b, a, node):
                if isinstance(r, Exc):
                    out.append((s, r))
                elif r is None:
                    t = T('in', a, b) if isinstance(a, (K, T)) and isinstance(b, (K, T)) else TOP
                    out.append((s, t if op == 'In' or t is TOP else T('not', t)))
                else:
                    out.append((s, K(r if op == 'In' else not r)))
            return out
        if self.is_arr(st, a) or self.is_arr(st, b):
            return self.lib.arr_compare(self, st, op, a, b, node)
        if op in ('Eq', 'NotEq'):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ref) and st.heap[x.oid].kind == 'inst':
                    m = self.class_attr(st, st.heap[x.oid].cls, '__eq__')
                    if isinstance(m, Fn):
                        out = []
                        for s, r in self.call(st, Bound(m, x), [y], {}, node):
                            if op == 'NotEq' and not isinstance(r, Exc):
                                t = self.truth3(s, r)
                                r = K(not t) if t is not None else (T('not', r) if isinstance(r, T) and r is not TOP else TOP)
                            out.append((s, r))
                        return out
            r = self.eq3(st, a, b)
            if r is None:
                if isinstance(a, (K, T)) and isinstance(b, (K, T)) and a is not TOP and b is not TOP:
                    t = T('eq', *sorted([a, b], key=_v._sortkey))
                    return [(st, t if op == 'Eq' else T('not', t))]
                return [(st, TOP)]
            return [(st, K(r if op == 'Eq' else not r))]
        # ordering
        for x in (a, b):
            if isinstance(x, K) and x.v is None and not (a is TOP or b is TOP):
                return [(st, Exc('TypeError', 'ordering comparison with None', self.site(node)))]
        la = st.heap[a.oid] if isinstance(a, Ref) else None
        lb = st.heap[b.oid] if isinstance(b, Ref) else None
        if la is not None and lb is not None and la.kind == 'list' and lb.kind == 'list' and la.items is not None and lb.items is not None:
            x, y = (la.items, lb.items)
            sub = and3(any3(self.eq3(st, p, q) for q in y) for p in x)
            sup = and3(any3(self.eq3(st, p, q) for q in x) for p in y)
            if op == 'LtE' and sub is not None:
                return [(st, K(sub))]
            if op == 'GtE' and sup is not None:
                return [(st, K(sup))]
            return [(st, TOP)]
        if op == 'Gt':
            a, b, neg = b, a, False
        elif op == 'GtE':
            neg = True
        elif op == 'LtE':
            a, b, neg = b, a, True
        else:
            neg = False
        r = self.lt3(st, a, b)
        if r is None:
            if isinstance(a, (K, T)) and isinstance(b, (K, T)) and a is not TOP and b is not TOP:
                t = T('lt', a, b)
                return [(st, T('not', t) if neg else t)]
            return [(st, TOP)]
        return [(st, K(not r if neg else r))]

    def is3(self, st, a, b):
        if a is TOP or b is TOP:
            return None
        for x, y in ((a, b), (b, a)):
            if isinstance(y, K) and y.v is None:
                if isinstance(x, K):
                    return x.v is None
                if isinstance(x, T):
                    return None if x.op in ('maybe', 'item', 'elem', 'attr', 'call', 'phi') else False
                return False
        if isinstance(a, K) and isinstance(b, K):
            return a == b
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return True if not getattr(st.heap[a.oid], 'summary', False) else None
            return False
        if isinstance(a, (Lib, ClsV, Fn, ModV)) and isinstance(b, (Lib, ClsV, Fn, ModV)):
            return a == b
        if a == b and not isinstance(a, Tup):
            return True
        if isinstance(a, T) or isinstance(b, T):
            return None
        return False

    def contains(self, st, c, x, node):
        """x in c: -> [(st, True|False|None|Exc)]"""
        if isinstance(c, K) and isinstance(c.v, (str, bytes)):
            if isinstance(x, K) and isinstance(x.v, str):
                return [(st, x.v in c.v)]
            return [(st, None)]
        if isinstance(c, K):
            return [(st, Exc('TypeError', 'argument of type %s is not iterable' % type(c.v).__name__, self.site(node)))]
        if isinstance(c, Tup):
            return [(st, any3(self.eq3(st, x, i) for i in c.items))]
        if isinstance(c, Ref):
            o = st.heap[c.oid]
            if o.kind == 'list':
                if o.items is None:
                    return [(st, None)]
                return [(st, any3(self.eq3(st, x, i) for i in o.items))]
            if o.kind == 'dict':
                r = any3(self.eq3(st, x, k) for k, _ in o.entries)
                if r is not True and o.rest is not None:
                    return [(st, None)]
                return [(st, r)]
            if o.kind == 'inst':
                m = self.class_attr(st, o.cls, '__contains__')
                if isinstance(m, Fn):
                    out = []
                    for s, v in self.call(st, Bound(m, c), [x], {}, node):
                        out.append((s, v if isinstance(v, Exc) else self.truth3(s, v)))
                    return out
        return [(st, None)]

    def e_Compare(self, n, st, fr):
        out = []
        for s, vals in self.evs([n.left] + list(n.comparators), st, fr):
            if isinstance(vals[0], Exc):
                out.append((s, vals[0]))
                continue
            if len(n.ops) == 1:
                out.extend(self.compare1(s, type(n.ops[0]).__name__, vals[0], vals[1], n))
                continue
            cur = [(s, None)]
            for i, op in enumerate(n.ops):
                nxt = []
                for s2, _ in cur:
                    for s3, r in self.compare1(s2, type(op).__name__, vals[i], vals[i + 1], n):
                        if isinstance(r, Exc):
                            out.append((s3, r))
                            continue
                        if i == len(n.ops) - 1:
                            out.append((s3, r))
                            continue
                        for s4, c in self.truth(s3, r, n):
                            if isinstance(c, Exc):
                                out.append((s4, c))
                            elif c:
                                nxt.append((s4, None))
                            else:
                                out.append((s4, FALSE))
                cur = nxt
        return out

    # ---- truth
    def truth3(self, st, v):
        if isinstance(v, K):
            return bool(v.v)
        if isinstance(v, Tup):
            return bool(v.items)
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if o.kind == 'list':
                return None if o.items is None else bool(o.items)
            if o.kind == 'dict':
                return True if o.entries else (None if o.rest is not None else False)
            if o.kind == 'inst':
                if self.class_attr(st, o.cls, '__bool__') is not None or self.class_attr(st, o.cls, '__len__') is not None:
                    return None
                return True
            return None
        if isinstance(v, T):
            if v in st.facts:
                return st.facts[v]
            if v.op == 'not':
                t = self.truth3(st, v.args[0])
                return None if t is None else not t
            if v.op == 'and':
                return and3(self.truth3(st, x) for x in v.args)
            if pure_extent(v):
                return True
            if v.op == 'lt':
                # facts about the reverse order
                r = T('lt', v.args[1], v.args[0])
                if st.facts.get(r) is True:
                    return False
                if any(isinstance(x, T) and x.op in ('min', 'max') for x in v.args):
                    from .arrays import le_fact
                    if le_fact(st, v.args[1], v.args[0]):
                        return False
            return None
        if isinstance(v, (Fn, Bound, ClsV, ModV, Lib, LibM)):
            return True
        return None

    def truth(self, st, v, node, assume=False):
        """-> [(st, True|False|Exc)]; with assume=True an unknown condition is assumed to hold"""
        if isinstance(v, Phi):
            out = []
            for s, a in self.split(st, v):
                out.extend(self.truth(s, a, node, assume))
            return out
        t = self.truth3(st, v)
        if t is not None:
            return [(st, t)]
        if isinstance(v, Ref) and st.heap[v.oid].kind == 'inst':
            o = st.heap[v.oid]
            for nm in ('__bool__', '__len__'):
                m = self.class_attr(st, o.cls, nm)
                if isinstance(m, Fn):
                    out = []
                    for s, r in self.call(st, Bound(m, v), [], {}, node):
                        if isinstance(r, Exc):
                            out.append((s, r))
                        else:
                            out.extend(self.truth(s, r, node, assume))
                    return out
        if assume:
            self.add_fact(st, v, True)
            return [(st, True)]
        if opaque(v):
            st.ghost['fuzzy'] = TRUE
        s2 = self.fork(st)
        self.add_fact(st, v, True)
        self.add_fact(s2, v, False)
        return [(st, True), (s2, False)]

    def add_fact(self, st, v, val):
        if isinstance(v, T) and v is not TOP:
            if v.op == 'not':
                self.add_fact(st, v.args[0], not val)
            else:
                st.facts[v] = val

    # ---- attributes
    def mro(self, st, oid):
        out = []
        seen = set()

        def go(o):
            if o in seen:
                return
            seen.add(o)
            out.append(o)
            for b in st.heap[o].bases:
                if isinstance(b, ClsV):
                    go(b.oid)
                elif isinstance(b, Lib) and b.path != 'builtins.object':
                    out.append(b.path)
        go(oid)
        return out

    def class_attr(self, st, oid, name):
        for c in self.mro(st, oid):
            if isinstance(c, str):
                continue
            a = st.heap[c].attrs
            if name in a:
                return a[name]
        return None

    def has_lib_base(self, st, oid):
        return any(isinstance(c, str) for c in self.mro(st, oid))

    def getattr_(self, st, b, name, node):
        if isinstance(b, Phi):
            out = []
            for s, x in self.split(st, b):
                out.extend(self.getattr_(s, x, name, node))
            return out
        if isinstance(b, Ref):
            o = st.heap.get(b.oid)
            if o is None:
                return [(st, TOP)]
            if o.kind == 'inst':
                if name in o.attrs:
                    ca = self.class_attr(st, o.cls, name)
                    if not isinstance(ca, Prop):
                        v = o.attrs[name]
                        if isinstance(v, Phi):
                            out = []
                            alts = [a for a in sorted(v.alts, key=repr) if a is not UNBOUND]
                            for i, a in enumerate(alts):
                                s = st if i == len(alts) - 1 else self.fork(st)
                                if not o.summary:
                                    s.heap[b.oid] = HInst(o.cls, dict(o.attrs, **{name: a}), o.site, o.summary, o.wsite)
                                out.append((s, a))
                            return out
                        if v is UNBOUND:
                            return [(st, Exc('AttributeError', name, self.site(node)))]
                        return [(st, v)]
                v = self.class_attr(st, o.cls, name)
                if v is not None:
                    return self.bind(st, v, b, node)
                if name == '__class__':
                    return [(st, ClsV(o.cls, st.heap[o.cls].name))]
                if name == '__dict__':
                    return [(st, self.new_dict(st, [(K(k), x) for k, x in o.attrs.items()], node))]
                ga = self.class_attr(st, o.cls, '__getattr__')
                if isinstance(ga, Fn):
                    return self.call(st, Bound(ga, b), [K(name)], {}, node)
                if self.has_lib_base(st, o.cls) or o.summary:
                    return [(st, T('attr', K(str(b)), K(name)))]
                return [(st, Exc('AttributeError', '%s object has no attribute %s' % (st.heap[o.cls].name, name), self.site(node)))]
            if o.kind == 'arr':
                return self.lib.arr_attr(self, st, b, o, name, node)
            if o.kind in ('list', 'dict'):
                if not has_method(o, name):
                    return [(st, Exc('AttributeError', '%s object has no attribute %s' % (o.kind, name), self.site(node)))]
                return [(st, LibM(name, b))]
            return [(st, TOP)]
        if isinstance(b, ModV):
            f = st.heap.get(self.module_frame(b.name))
            if f is not None and name in f.vars:
                return self.split(st, f.vars[name])
            sub = b.name + '.' + name
            if self.is_repo(sub) and self.module_frame(sub) in st.heap:
                return [(st, ModV(sub))]
            return [(st, Exc('AttributeError', 'module %s has no attribute %s' % (b.name, name), self.site(node)))]
        if isinstance(b, ClsV):
            v = self.class_attr(st, b.oid, name)
            if v is not None:
                if isinstance(v, Deco):
                    return [(st, v.fn if v.kind == 'static' else Bound(v.fn, b))]
                return [(st, v)]
            if name == '__name__':
                return [(st, K(b.name))]
            if self.has_lib_base(st, b.oid):
                return [(st, TOP)]
            return [(st, Exc('AttributeError', 'class %s has no attribute %s' % (b.name, name), self.site(node)))]
        if isinstance(b, SuperV):
            mro = self.mro(st, st.heap[b.self_.oid].cls)
            try:
                i = mro.index(b.cls)
            except ValueError:
                return [(st, TOP)]
            for c in mro[i + 1:]:
                if isinstance(c, str):
                    continue
                if name in st.heap[c].attrs:
                    return self.bind(st, st.heap[c].attrs[name], b.self_, node)
            if name == '__init__':
                return [(st, Lib('builtins.object.__init__'))]
            return [(st, Exc('AttributeError', 'super object has no attribute %s' % name, self.site(node)))]
        if isinstance(b, Lib):
            return [(st, self.lib.lib_attr(self, st, b, name))]
        if isinstance(b, K):
            if b.v is None:
                return [(st, Exc('AttributeError', "NoneType object has no attribute %s" % name, self.site(node)))]
            if hasattr(b.v, name):
                if isinstance(b.v, (int, float, complex)) and name in ('real', 'imag', 'numerator', 'denominator'):
                    return [(st, K(getattr(b.v, name)))]
                return [(st, LibM(name, b))]
            if isinstance(b.v, (int, float, complex, bool)) and name in ('shape', 'dtype', 'T', 'conj', 'item', 'astype', 'sum', 'all', 'any', 'itemsize'):
                return [(st, TOP)]
            return [(st, Exc('AttributeError', '%s object has no attribute %s' % (type(b.v).__name__, name), self.site(node)))]
        if isinstance(b, Tup):
            if name in ('index', 'count'):
                return [(st, LibM(name, b))]
            return [(st, Exc('AttributeError', 'tuple object has no attribute %s' % name, self.site(node)))]
        if isinstance(b, Fn):
            if name == '__name__':
                return [(st, K(b.info.name))]
            return [(st, TOP)]
        if isinstance(b, Bound):
            if name == '__name__':
                return [(st, K(b.fn.info.name if isinstance(b.fn, Fn) else '?'))]
            return [(st, TOP)]
        if isinstance(b, Prop):
            return [(st, LibM(name, b))]
        if isinstance(b, T) and b.op == 'dtype' and name == 'itemsize' and len(b.args) == 1:
            m = re.search(r'(8|16|32|64|128|256)$', str(b.args[0].v)) if str(b.args[0].v) in NUMPY_TYPES else None
            return [(st, K(int(m.group(1)) // 8) if m else T('symint', 'itemsize', b))]
        if isinstance(b, T):
            return [(st, LibM(name, b) if b is not TOP and self.lib.term_method(b, name) else (TOP if b is TOP else self.lib.term_attr(self, b, name)))]
        return [(st, TOP)]

    def bind(self, st, v, selfref, node):
        if isinstance(v, Fn):
            return [(st, Bound(v, selfref))]
        if isinstance(v, Prop):
            return self.call(st, v.fget, [selfref], {}, node)
        if isinstance(v, Deco):
            if v.kind == 'static':
                return [(st, v.fn)]
            return [(st, Bound(v.fn, ClsV(st.heap[selfref.oid].cls, '')))]
        return self.split(st, v)

    def setattr_(self, st, b, name, v, node):
        """-> [(st, sig)]"""
        if isinstance(b, Phi):
            out = []
            for s, x in self.split(st, b):
                out.extend(self.setattr_(s, x, name, v, node))
            return out
        if isinstance(b, Ref):
            o = st.heap[b.oid]
            if o.kind == 'inst':
                p = self.class_attr(st, o.cls, name)
                if isinstance(p, Prop):
                    if p.fset is None:
                        return [(st, ('exc', Exc('AttributeError', "property %s has no setter" % name, self.site(node))))]
                    return [(s, ('exc', r) if isinstance(r, Exc) else None) for s, r in self.call(st, p.fset, [b, v], {}, node)]
                old = o.attrs.get(name)
                for cb in self.on_write:
                    cb(st, 'attr', b.oid, name, old, v, self.site(node))
                if o.summary and old is not None:
                    v = join_vals(old, v)
                st.heap[b.oid] = o.set(name, v, self.site(node))
                return [(st, None)]
            if o.kind == 'arr':
                if name == 'shape':
                    dims = self.lib.as_dims(self, st, v)
                    st.heap[b.oid] = o.repl(axes=self.lib.reshape_axes(o.axes, dims))
                for cb in self.on_arrwrite:
                    cb(st, b, o.buf, node, self)
                return [(st, None)]
            return [(st, ('exc', Exc('AttributeError', 'cannot set %s' % name, self.site(node))))]
        if isinstance(b, ModV):
            m = self.module_frame(b.name)
            if m in st.heap:
                for cb in self.on_write:
                    cb(st, 'global', m, name, st.heap[m].vars.get(name), v, self.site(node))
                st.heap[m] = st.heap[m].set(name, v)
            return [(st, None)]
        if isinstance(b, ClsV):
            o = st.heap[b.oid]
            for cb in self.on_write:
                cb(st, 'class', b.oid, name, o.attrs.get(name), v, self.site(node))
            st.heap[b.oid] = o.set(name, v)
            return [(st, None)]
        if isinstance(b, K):
            return [(st, ('exc', Exc('AttributeError', '%s object has no attribute %s' % (type(b.v).__name__, name), self.site(node))))]
        return [(st, None)]

    def e_Attribute(self, n, st, fr):
        out = []
        for s, b in self.ev(n.value, st, fr):
            if isinstance(b, Exc):
                out.append((s, b))
            else:
                out.extend(self.getattr_(s, b, n.attr, n))
        return out

    # ---- subscripts
    def e_Slice(self, n, st, fr):
        parts = [n.lower, n.upper, n.step]
        nodes = [p for p in parts if p is not None]
        out = []
        for s, vals in self.evs(nodes, st, fr):
            if vals and isinstance(vals[0], Exc) and nodes:
                out.append((s, vals[0]))
                continue
            it = iter(vals)
            lo, hi, step = [NONE if p is None else next(it) for p in parts]
            out.append((s, Slice(lo, hi, step)))
        return out

    def e_Subscript(self, n, st, fr):
        out = []
        for s, (b, i) in self.evs([n.value, n.slice], st, fr):
            if isinstance(b, Exc):
                out.append((s, b))
            else:
                out.extend(self.getitem(s, b, i, n))
        return out

    def getitem(self, st, b, i, node):
        if isinstance(b, Phi) or isinstance(i, Phi):
            out = []
            for s, x in self.split(st, b):
                for s2, y in self.split(s, i):
                    out.extend(self.getitem(s2, x, y, node))
            return out
        if isinstance(b, Ref):
            o = st.heap[b.oid]
            if o.kind == 'arr':
                return self.lib.arr_getitem(self, st, b, o, i, node)
            if o.kind == 'list':
                if o.items is None:
                    if isinstance(i, Slice):
                        return [(st, self.new_list(st, None, node, elem=o.elem))]
                    return self.split(st, o.elem if o.elem is not None else TOP)
                r = seq_item(o.items, i)
                if r is _OOR:
                    return [(st, Exc('IndexError', 'list index %r out of range' % (i,), self.site(node)))]
                if r is _BADT:
                    return [(st, Exc('TypeError', 'list indices must be integers', self.site(node)))]
                if isinstance(r, list):
                    return [(st, self.new_list(st, r, node))]
                if r is None:
                    if not o.items:
                        return [(st, TOP)]
                    if isinstance(i, Slice):
                        return [(st, self.new_list(st, None, node, elem=join_vals(*o.items)))]
                    return self.split(st, join_vals(*o.items))
                return self.split(st, r)
            if o.kind == 'dict':
                unk = []
                for k, v in o.entries:
                    e = self.eq3(st, k, i)
                    if e is True:
                        return self.split(st, v)
                    if e is None:
                        unk.append(v)
                if o.rest is not None:
                    unk.append(o.rest[1])
                if unk:
                    return self.split(st, join_vals(*unk))
                if o.dkind == 'counter':
                    return [(st, K(0))]
                if o.dkind.startswith('defaultdict'):
                    fac = o.rest
                    return [(st, TOP)]
                return [(st, Exc('KeyError', repr(i), self.site(node)))]
            if o.kind == 'inst':
                m = self.class_attr(st, o.cls, '__getitem__')
                if m is not None:
                    return self.call(st, Bound(m, b), [i], {}, node)
                return [(st, Exc('TypeError', 'object is not subscriptable', self.site(node)))]
        if isinstance(b, Tup):
            r = seq_item(b.items, i)
            if r is _OOR:
                return [(st, Exc('IndexError', 'tuple index %r out of range' % (i,), self.site(node)))]
            if r is _BADT:
                return [(st, Exc('TypeError', 'tuple indices must be integers', self.site(node)))]
            if isinstance(r, list):
                return [(st, Tup(r))]
            if r is None:
                return [(st, TOP)] if not b.items or isinstance(i, Slice) else self.split(st, join_vals(*b.items))
            return self.split(st, r)
        if isinstance(b, K):
            if b.v is None or isinstance(b.v, (int, float, bool)):
                return [(st, Exc('TypeError', '%s object is not subscriptable' % type(b.v).__name__, self.site(node)))]
            if isinstance(b.v, str):
                if isinstance(i, K) and isinstance(i.v, int):
                    try:
                        return [(st, K(b.v[i.v]))]
                    except IndexError:
                        return [(st, Exc('IndexError', 'string index out of range', self.site(node)))]
                if isinstance(i, Slice) and all(isinstance(x, K) for x in (i.lo, i.hi, i.step)):
                    return [(st, K(b.v[slice(i.lo.v, i.hi.v, i.step.v)]))]
                return [(st, T('substr', b, i) if isinstance(i, (K, T)) else TOP)]
        if isinstance(b, T) and b is not TOP:
            if isinstance(i, (K, T)):
                return [(st, T('item', b, i))]
            return [(st, T('slice_of', b, i))]
        if isinstance(b, (Bound, Fn, LibM)):
            return [(st, Exc('TypeError', 'method object is not subscriptable', self.site(node)))]
        return [(st, TOP)]

    def setitem(self, st, b, i, v, node):
        """-> [(st, sig)]"""
        if isinstance(b, Phi) or isinstance(i, Phi):
            out = []
            for s, x in self.split(st, b):
                for s2, y in self.split(s, i):
                    out.extend(self.setitem(s2, x, y, v, node))
            return out
        if isinstance(b, Ref):
            o = st.heap[b.oid]
            if o.kind == 'arr':
                return self.lib.arr_setitem(self, st, b, o, i, v, node)
            if o.kind == 'list':
                if o.items is not None and isinstance(i, K) and isinstance(i.v, int):
                    n = len(o.items)
                    k = i.v
                    if not (-n <= k < n):
                        return [(st, ('exc', Exc('IndexError', 'list assignment index out of range', self.site(node))))]
                    items = list(o.items)
                    items[k] = v
                    self.list_write(st, b, tuple(items), None, node)
                    return [(st, None)]
                if o.items is not None and isinstance(i, Slice) and all(isinstance(x, K) for x in (i.lo, i.hi, i.step)):
                    out = []
                    for s, (kind, seq) in self.iterate(st, v, node):
                        if kind == 'seq':
                            items = list(s.heap[b.oid].items)
                            try:
                                items[slice(i.lo.v, i.hi.v, i.step.v)] = list(seq)
                            except Exception:
                                pass
                            self.list_write(s, b, tuple(items), None, node)
                        out.append((s, None))
                    return out
                es = [v] + list(o.items or ()) + ([o.elem] if o.elem is not None else [])
                if o.items is not None:
                    # unknown position: every slot may hold the new value
                    self.list_write(st, b, tuple(join_vals(x, v) for x in o.items), None, node)
                else:
                    self.list_write(st, b, None, join_vals(*es), node)
                return [(st, None)]
            if o.kind == 'dict':
                self.dict_set(st, b, i, v, node)
                return [(st, None)]
            if o.kind == 'inst':
                m = self.class_attr(st, o.cls, '__setitem__')
                if m is not None:
                    return [(s, ('exc', r) if isinstance(r, Exc) else None) for s, r in self.call(st, Bound(m, b), [i, v], {}, node)]
        if isinstance(b, (K, Tup)):
            return [(st, ('exc', Exc('TypeError', 'object does not support item assignment', self.site(node))))]
        return [(st, None)]

    def dict_set(self, st, b, k, v, node):
        o = st.heap[b.oid]
        ents = list(o.entries)
        unk = False
        for j, (kk, _) in enumerate(ents):
            e = self.eq3(st, kk, k)
            if e is True:
                ents[j] = (kk, v)
                self.dict_write(st, b, tuple(ents), o.rest, node)
                return
            if e is None:
                unk = True
        if unk or k is TOP or self.in_fix and not isinstance(k, K):
            rest = (k, v) if o.rest is None else (join_vals(o.rest[0], k), join_vals(o.rest[1], v))
            self.dict_write(st, b, tuple(ents), rest, node)
        else:
            self.dict_write(st, b, tuple(ents + [(k, v)]), o.rest, node)

    def dict_write(self, st, b, entries, rest, node):
        o = st.heap[b.oid]
        new = HDict(entries, rest, o.site, o.dkind, self.site(node))
        for cb in self.on_write:
            cb(st, 'dict', b.oid, None, o, new, self.site(node))
        st.heap[b.oid] = new

    def list_write(self, st, b, items, elem, node):
        o = st.heap[b.oid]
        new = HList(items, elem, o.site, o.lkind, self.site(node))
        for cb in self.on_write:
            cb(st, 'list', b.oid, None, o, new, self.site(node))
        st.heap[b.oid] = new

    def list_extend(self, st, b, kind, seq, node):
        o = st.heap[b.oid]
        if o.items is not None and kind == 'seq' and not (self.in_fix and len(o.items) > 24):
            self.list_write(st, b, o.items + tuple(seq), None, node)
        else:
            es = list(o.items or ()) + ([o.elem] if o.elem is not None else []) + (list(seq) if kind == 'seq' else [seq])
            self.list_write(st, b, None, join_vals(*es) if es else None, node)

    def delitem(self, st, b, i, node):
        if isinstance(b, Ref):
            o = st.heap[b.oid]
            if o.kind == 'dict':
                ents = []
                hit = False
                for k, v in o.entries:
                    if self.eq3(st, k, i) is True:
                        hit = True
                        continue
                    ents.append((k, v))
                if not hit and o.rest is None and isinstance(i, K):
                    return [(st, ('exc', Exc('KeyError', repr(i), self.site(node))))]
                self.dict_write(st, b, tuple(ents), o.rest, node)
                return [(st, None)]
            if o.kind == 'list' and o.items is not None:
                items = list(o.items)
                if isinstance(i, K) and isinstance(i.v, int):
                    if not (-len(items) <= i.v < len(items)):
                        return [(st, ('exc', Exc('IndexError', 'list index out of range', self.site(node))))]
                    del items[i.v]
                    self.list_write(st, b, tuple(items), None, node)
                elif isinstance(i, Slice) and all(isinstance(x, K) for x in (i.lo, i.hi, i.step)):
                    del items[slice(i.lo.v, i.hi.v, i.step.v)]
                    self.list_write(st, b, tuple(items), None, node)
                else:
                    self.list_write(st, b, None, join_vals(*items) if items else None, node)
        return [(st, None)]

    # ---- iteration
    def iterate(self, st, v, node):
        """-> [(st, ('seq', [vals]) | ('summary', elem) | ('exc', Exc))]"""
        if isinstance(v, Phi):
            out = []
            for s, x in self.split(st, v):
                out.extend(self.iterate(s, x, node))
            return out
        if isinstance(v, Tup):
            return [(st, ('seq', list(v.items)))]
        if isinstance(v, K):
            if isinstance(v.v, (str, tuple, range, bytes)):
                return [(st, ('seq', [K(c) for c in v.v]))]
            return [(st, ('exc', Exc('TypeError', '%s object is not iterable' % type(v.v).__name__, self.site(node))))]
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if o.kind == 'list':
                if o.lkind == 'gen!':
                    raise Budget('endless generator')
                if o.items is not None:
                    return [(st, ('seq', list(o.items)))]
                return [(st, ('summary', o.elem))]
            if o.kind == 'dict':
                if o.rest is None:
                    return [(st, ('seq', [k for k, _ in o.entries]))]
                return [(st, ('summary', join_vals(o.rest[0], *[k for k, _ in o.entries])))]
            if o.kind == 'arr':
                return self.lib.arr_iter(self, st, v, o, node)
            if o.kind == 'inst':
                m = self.class_attr(st, o.cls, '__iter__')
                if m is not None:
                    out = []
                    for s, r in self.call(st, Bound(m, v), [], {}, node):
                        if isinstance(r, Exc):
                            out.append((s, ('exc', r)))
                        else:
                            out.extend(self.iterate(s, r, node))
                    return out
                return [(st, ('exc', Exc('TypeError', 'object is not iterable', self.site(node))))]
        if isinstance(v, T) and v is not TOP:
            return [(st, ('summary', T('elem', v)))]
        if isinstance(v, (Fn, Bound, ClsV)):
            return [(st, ('exc', Exc('TypeError', 'object is not iterable', self.site(node))))]
        return [(st, ('summary', TOP))]

    # ---- comprehensions
    def comp(self, gens, st, fr, emit, node):
        """run nested generators; emit(st, fr) -> [(st, Exc|None)] per element.  -> [(st, Exc|None)]"""
        f = st.heap[fr.oid]
        info = fr.info
        oid = self.alloc(st, HFrame({}, fr.oid if f.locals != 'class' else fr.oid, fr.module, False, frozenset()), node, 'comp').oid
        cf = Fr(oid, fr.module, info, fr.cls, fr.qual)
        st.heap[fr.oid] = f.capture()

        def go(i, s):
            if i == len(gens):
                return emit(s, cf)
            g = gens[i]
            res = []
            for s2, it in self.ev(g.iter, s, cf if i else cf):
                if isinstance(it, Exc):
                    res.append((s2, it))
                    continue
                for s3, (kind, seq) in self.iterate(s2, it, g.iter):
                    if kind == 'exc':
                        res.append((s3, seq))
                    elif kind == 'seq':
                        live = [s3]
                        for k, item in enumerate(seq):
                            nxt = []
                            self.ctx.append((node.lineno, node.col_offset, i, k))
                            try:
                                for x in live:
                                    self.step()
                                    for y, e in one(i, g, x, item):
                                        if e is not None:
                                            res.append((y, e))
                                        else:
                                            nxt.append(y)
                            finally:
                                self.ctx.pop()
                            live = self.merge(nxt)
                        res.extend((x, None) for x in live)
                    else:
                        head = s3
                        self.in_fix += 1
                        try:
                            for k in range(self.MAXFIX):
                                self.nfix += 1
                                new = head
                                for y, e in one(i, g, head.clone(), seq if seq is not None else TOP):
                                    if e is not None:
                                        res.append((y, e))
                                    else:
                                        new = self.join_states(new, y)
                                if self.same_state(new, head):
                                    break
                                head = new
                        finally:
                            self.in_fix -= 1
                        head.ghost['comp_unknown'] = TRUE
                        res.append((head, None))
            return res

        def one(i, g, s, item):
            res = []
            for s2, sig in self.assign(g.target, item, s, cf):
                if sig is not None:
                    res.append((s2, sig[1]))
                    continue
                cur = [(s2, True)]
                for c in g.ifs:
                    nxt = []
                    for x, ok in cur:
                        if ok is not True:
                            nxt.append((x, ok))
                            continue
                        nxt.extend(self.cond(c, x, cf))
                    cur = nxt
                for x, ok in cur:
                    if isinstance(ok, Exc):
                        res.append((x, ok))
                    elif ok:
                        res.extend(go(i + 1, x))
                    else:
                        res.append((x, None))
            return res
        out = go(0, st)
        for s, e in out:
            if oid in s.heap and not s.heap[oid].captured:
                s.heap.pop(oid, None)
        return out

    def e_ListComp(self, n, st, fr, lkind='list'):
        acc = self.alloc(st, HList((), None, self.site(n), lkind), n, 'lc')

        def emit(s, cf):
            res = []
            for s2, v in self.ev(n.elt, s, cf):
                if isinstance(v, Exc):
                    res.append((s2, v))
                    continue
                o = s2.heap[acc.oid]
                if o.items is not None and not self.in_fix:
                    if lkind == 'set' and any(self.eq3(s2, v, x) is True for x in o.items):
                        pass
                    else:
                        s2.heap[acc.oid] = HList(o.items + (v,), None, o.site, lkind)
                else:
                    es = list(o.items or ()) + ([o.elem] if o.elem is not None else []) + [v]
                    s2.heap[acc.oid] = HList(None, join_vals(*es), o.site, lkind)
                res.append((s2, None))
            return res
        if self.in_fix:
            # allocation inside a fixpoint: start from an empty list again
            st.heap[acc.oid] = HList((), None, self.site(n), lkind)
        out = []
        for s, e in self.comp(n.generators, st, fr, emit, n):
            if s.ghost.pop('comp_unknown', None) is not None:
                o = s.heap[acc.oid]
                if o.items is not None:
                    s.heap[acc.oid] = HList(None, join_vals(*o.items) if o.items else None, o.site, lkind)
            out.append((s, e if e is not None else acc))
        return out

    def e_GeneratorExp(self, n, st, fr):
        return self.e_ListComp(n, st, fr, lkind='gen')

    def e_SetComp(self, n, st, fr):
        return self.e_ListComp(n, st, fr, lkind='set')

    def e_DictComp(self, n, st, fr):
        acc = self.new_dict(st, [], n, 'dc')
        st.heap[acc.oid] = HDict((), None, self.site(n), 'dict')

        def emit(s, cf):
            res = []
            for s2, (k, v) in self.evs([n.key, n.value], s, cf):
                if isinstance(k, Exc):
                    res.append((s2, k))
                    continue
                self.dict_set(s2, acc, k, v, n)
                res.append((s2, None))
            return res
        out = []
        for s, e in self.comp(n.generators, st, fr, emit, n):
            s.ghost.pop('comp_unknown', None)
            out.append((s, e if e is not None else acc))
        return out

    def e_Lambda(self, n, st, fr):
        return self.make_fn(n, st, fr)

    def e_Starred(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Yield(self, n, st, fr):
        out = []
        for s, v in (self.ev(n.value, st, fr) if n.value is not None else [(st, NONE)]):
            if not isinstance(v, Exc):
                y = s.heap[fr.oid].vars.get('@yield')
                if y is None:
                    # inside a comprehension frame: walk up
                    oid = fr.oid
                    while oid is not None and '@yield' not in s.heap[oid].vars:
                        oid = s.heap[oid].parent
                    y = s.heap[oid].vars['@yield'] if oid is not None else None
                if y is not None:
                    self.list_extend(s, y, 'seq', [v], n)
                v = NONE
            out.append((s, v))
        return out

    def e_YieldFrom(self, n, st, fr):
        out = []
        for s, v in self.ev(n.value, st, fr):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            for s2, (kind, seq) in self.iterate(s, v, n):
                if kind == 'exc':
                    out.append((s2, seq))
                    continue
                y = s2.heap[fr.oid].vars.get('@yield')
                if y is not None:
                    self.list_extend(s2, y, kind, seq, n)
                out.append((s2, NONE))
        return out

    # ---- calls
    def e_Call(self, n, st, fr):
        out = []
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args and fr.cls is not None:
            first = fr.info.params[0] if fr.info is not None and fr.info.params else None
            if first:
                return [(s, v if isinstance(v, Exc) else SuperV(fr.cls, v)) for s, v in self.lookup(st, first, fr, n)]
        for s, f in self.ev(n.func, st, fr):
            if isinstance(f, Exc):
                out.append((s, f))
                continue
            for s2, args in self.ev_items(n.args, s, fr):
                if isinstance(args, Exc):
                    out.append((s2, args))
                    continue
                unknown_args = args is None
                cur = [(s2, {})]
                for kw in n.keywords:
                    nxt = []
                    for x, d in cur:
                        if isinstance(d, Exc):
                            nxt.append((x, d))
                            continue
                        for y, v in self.ev(kw.value, x, fr):
                            if isinstance(v, Exc):
                                nxt.append((y, v))
                            elif kw.arg is None:
                                d2 = dict(d)
                                if isinstance(v, Ref) and y.heap[v.oid].kind == 'dict':
                                    for kk, vv in y.heap[v.oid].entries:
                                        if isinstance(kk, K):
                                            d2[kk.v] = vv
                                    if y.heap[v.oid].rest is not None:
                                        unknown_args = True
                                else:
                                    unknown_args = True
                                nxt.append((y, d2))
                            else:
                                d2 = dict(d)
                                d2[kw.arg] = v
                                nxt.append((y, d2))
                    cur = nxt
                for x, kws in cur:
                    if isinstance(kws, Exc):
                        out.append((x, kws))
                    elif unknown_args:
                        out.append((x, TOP))
                    else:
                        out.extend(self.call(x, f, args, kws, n))
        return self.merge_vals(out)

    MAXDEPTH = 80

    def call(self, st, f, args, kwargs, node):
        """-> [(st, value|Exc)]"""
        if isinstance(f, Phi):
            out = []
            for s, x in self.split(st, f):
                out.extend(self.call(s, x, args, kwargs, node))
            return out
        if isinstance(f, Fn):
            return self.call_fn(st, f, list(args), dict(kwargs), node)
        if isinstance(f, Bound):
            return self.call(st, f.fn, [f.self_] + list(args), kwargs, node)
        if isinstance(f, ClsV):
            return self.instantiate(st, f, list(args), dict(kwargs), node)
        if isinstance(f, LibM):
            return self.lib.method(self, st, f, list(args), dict(kwargs), node)
        if isinstance(f, Lib):
            return self.lib.call(self, st, f, list(args), dict(kwargs), node)
        if isinstance(f, Ref) and st.heap[f.oid].kind == 'inst':
            m = self.class_attr(st, st.heap[f.oid].cls, '__call__')
            if m is not None:
                return self.call(st, Bound(m, f), args, kwargs, node)
            return [(st, Exc('TypeError', 'object is not callable', self.site(node)))]
        if isinstance(f, Deco):
            return self.call(st, f.fn, args, kwargs, node)
        if isinstance(f, T) and f is not TOP:
            if f.op == 'dtypecls':
                return [(st, TOP)]
            if all(isinstance(a, (K, T)) for a in args) and not kwargs:
                return [(st, T('call', f, *args))]
            return [(st, T('call@', f, str(self.site(node)), tuple(self.ctx)))]
        if isinstance(f, (K, Tup)) or isinstance(f, Ref):
            return [(st, Exc('TypeError', '%r object is not callable' % (f,), self.site(node)))]
        return [(st, TOP)]

    def instantiate(self, st, cls, args, kwargs, node):
        h = st.heap[cls.oid]
        stub = self.stubs.get(h.qual)
        if stub is not None:
            return stub(self, st, args, kwargs, node)
        ref = self.alloc(st, HInst(cls.oid, {}, self.site(node)), node, 'new ' + h.name)
        init = self.class_attr(st, cls.oid, '__init__')
        if init is None:
            if self.has_lib_base(st, cls.oid):
                return [(st, ref)]
            if args or kwargs:
                return [(st, Exc('TypeError', '%s() takes no arguments' % h.name, self.site(node)))]
            return [(st, ref)]
        return [(s, v if isinstance(v, Exc) else ref) for s, v in self.call(st, Bound(init, ref), args, kwargs, node)]

    def bind_args(self, st, f, args, kwargs, node):
        """-> (vars dict | Exc)"""
        info = f.info
        vs = {}
        params = info.params
        if len(args) > len(params) and not info.vararg:
            return Exc('TypeError', '%s() takes %d positional arguments but %d were given' % (info.name, len(params), len(args)), self.site(node))
        for p, a in zip(params, args):
            vs[p] = a
        extra = args[len(params):]
        if info.vararg:
            vs[info.vararg] = Tup(extra)
        rest = []
        for k, v in kwargs.items():
            if k in params or k in info.kwonly:
                if k in vs:
                    return Exc('TypeError', '%s() got multiple values for argument %s' % (info.name, k), self.site(node))
                vs[k] = v
            elif info.kwarg:
                rest.append((K(k), v))
            else:
                return Exc('TypeError', '%s() got an unexpected keyword argument %s' % (info.name, k), self.site(node))
        nd = len(f.defaults)
        for i, p in enumerate(params):
            if p not in vs:
                j = i - (len(params) - nd)
                if j >= 0:
                    vs[p] = f.defaults[j]
                else:
                    return Exc('TypeError', '%s() missing required argument %s' % (info.name, p), self.site(node))
        kd = dict(f.kwdefaults)
        for p in info.kwonly:
            if p not in vs:
                if p in kd:
                    vs[p] = kd[p]
                else:
                    return Exc('TypeError', '%s() missing keyword argument %s' % (info.name, p), self.site(node))
        if info.kwarg:
            vs[info.kwarg] = self.new_dict(st, rest, node, 'kwargs')
        return vs

    def call_fn(self, st, f, args, kwargs, node):
        info = f.info
        for cb in self.on_call:
            cb(st, f, args, kwargs, node, self)
        stub = self.stubs.get(info.qual)
        if stub is not None:
            r = stub(self, st, f, args, kwargs, node)
            if r is not None:
                return r
        vs = self.bind_args(st, f, args, kwargs, node)
        if isinstance(vs, Exc):
            return [(st, vs)]
        if len(self.stack) > self.MAXDEPTH:
            return [(st, TOP)]
        deep = [x for x in self.stack if x[0] == info.qual]
        if deep:
            if self.nforks == self.recforks.get(info.qual) and not self.in_fix and len(deep) >= self.MAXREC:
                return [(st, Exc('RecursionError', 'the recursion does not end', self.site(node)))]
        else:
            self.recforks[info.qual] = self.nforks
        self.visited_funcs[info.qual] = self.visited_funcs.get(info.qual, 0) + 1
        caller = self.stack[-1] if self.stack else ('<driver>', '', 0)
        self.callsites.add((caller[0], getattr(node, 'lineno', 0), info.qual))
        self.ctx.append((getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), caller[0]))
        self.stack.append((info.qual, info.file, getattr(node, 'lineno', 0)))
        try:
            yl = None
            fo = self.alloc(st, HFrame(vs, f.closure, info.module, False, info.locals, info.globals_, info.nonlocals),
                            info.node, 'frame').oid
            if info.is_gen:
                yl = self.alloc(st, HList((), None, self.site(node), 'gen'), info.node, 'yields')
                st.heap[yl.oid] = HList((), None, self.site(node), 'gen')
                st.heap[fo] = st.heap[fo].set('@yield', yl)
            fr = Fr(fo, info.module, info, f.cls, info.qual)
            if f.cls is None and f.closure is not None:
                # nested function: inherit the class for super() lookups is not needed
                pass
            out = []
            for s, sig in self.block(info.body, st, fr):
                fobj = s.heap.get(fo)
                if fobj is not None and not fobj.captured:
                    s.heap.pop(fo, None)
                if sig is None:
                    v = NONE
                elif sig[0] == 'ret':
                    v = sig[1]
                elif sig[0] == 'exc':
                    out.append((s, sig[1]))
                    continue
                else:
                    v = NONE
                out.append((s, yl if info.is_gen else v))
        finally:
            self.stack.pop()
            self.ctx.pop()
        return self.merge_vals(out)


# ------------------------------------------------------------------ helpers
OPAQUE = {'top', 'call@', 'call', 'attr', 'unknown', 'lib', 'phi'}
_opq = {}


def opaque(v):
    """does the value depend on something outside the model?"""
    if not isinstance(v, T):
        return not isinstance(v, (K, Tup)) and not isinstance(v, Ref)
    r = _opq.get(v)
    if r is None:
        r = v.op in OPAQUE or any(opaque(a) for a in v.args if isinstance(a, T))
        _opq[v] = r
    return r


_OOR = object()
_BADT = object()


def seq_item(items, i):
    """item / list slice / None if unknown / _OOR"""
    if isinstance(i, K):
        if isinstance(i.v, bool) or not isinstance(i.v, int):
            return items[i.v] if isinstance(i.v, bool) and len(items) > i.v else _BADT
        if -len(items) <= i.v < len(items):
            return items[i.v]
        return _OOR
    if isinstance(i, Slice):
        if all(isinstance(x, K) and (x.v is None or isinstance(x.v, int)) for x in (i.lo, i.hi, i.step)):
            return list(items[slice(i.lo.v, i.hi.v, i.step.v)])
        return None
    if isinstance(i, (Tup, Fn)):
        return _BADT
    return None


def and3(it):
    r = True
    for x in it:
        if x is False:
            return False
        if x is None:
            r = None
    return r


def any3(it):
    r = False
    for x in it:
        if x is True:
            return True
        if x is None:
            r = None
    return r


def dedupe(vals):
    out = []
    for v in vals:
        if v not in out:
            out.append(v)
    return out


def _flat(op, *args):
    out = []
    for a in args:
        if isinstance(a, T) and a.op == op:
            out.extend(a.args)
        else:
            out.append(a)
    return out


def pure_extent(v):
    """a product of generic extents and positive constants (K included)"""
    if isinstance(v, K):
        return isinstance(v.v, int) and not isinstance(v.v, bool) and v.v >= 0
    if isinstance(v, T):
        if v.op == 'dim':
            return True
        if v.op == 'mul':
            return all(pure_extent(a) for a in v.args)
    return False


def pos_extent(v):
    if isinstance(v, K):
        return isinstance(v.v, int) and v.v >= 1
    if isinstance(v, T):
        if v.op in ('dim',):
            return True
        if v.op in ('mul', 'min', 'max', 'add'):
            return all(pos_extent(a) for a in v.args)
    return False


def nonneg(v):
    if isinstance(v, K):
        return isinstance(v.v, (int, float)) and v.v >= 0
    if isinstance(v, T):
        if v.op in ('dim', 'count_nonzero', 'len', 'norm', 'abs', 'exp', 'sqrt'):
            return True
        if v.op in ('mul', 'min', 'max', 'add', 'floordiv'):
            return all(nonneg(a) for a in v.args)
    return False


def num_op(op, a, b):
    if op == 'Mod' and is_num(a) and is_num(b) and b.v and not isinstance(a.v, complex) and not isinstance(b.v, complex):
        return K(a.v % b.v)
    if op == 'Add':
        return mk_add(a, b)
    if op == 'Sub':
        return mk_sub(a, b)
    if op == 'Mult':
        return mk_mul(a, b)
    if op == 'Div':
        return mk_div(a, b)
    if op == 'FloorDiv':
        return mk_floordiv(a, b)
    if a is TOP or b is TOP:
        return TOP
    if op == 'Pow' and isinstance(b, K) and isinstance(b.v, int) and 0 <= b.v <= 4:
        return mk_mul(*([a] * b.v)) if b.v else K(1)
    return T(op.lower(), a, b)


LIST_M = set(dir(list))
DICT_M = set(dir(dict)) | {'elements', 'most_common', 'subtract', 'total'}
SET_M = set(dir(set))


def has_method(o, name):
    if o.kind == 'list':
        return name in (SET_M if o.lkind == 'set' else LIST_M if o.lkind == 'list' else LIST_M | {'__next__', 'send', 'close', 'popleft', 'appendleft'})
    return name in DICT_M
