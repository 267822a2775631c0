"""Rules decided on the syntax tree of every library module: name, attribute and signature resolution (C25), use of the
configured array backend (C17), state that outlives a call (C24)."""
import ast
import inspect
import os
import string

from . import scan
from .runner import REPO
from .scan import FUNC, COMP, own_nodes

_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = scan.Program()
    return _prog


def scopes():
    for m in program().mods.values():
        for s in m.scopes.values():
            yield m, s


class Found(object):
    def __init__(self, rule):
        self.rule, self.items, self.counts = rule, [], {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def add(self, mod, node, scope, what):
        w = scan.where(mod, node, scope)
        key = '%s: %s' % (scope.qual(), what)
        if any(i['key'] == key for i in self.items):
            return
        self.items.append(dict(key=key, what='%s: %s' % (scope.qual(), what), construct=[w], path=[]))

    def result(self):
        p = program()
        cov = dict(self.counts, modules=len(p.mods), classes=len(p.classes),
                   functions=sum(1 for _, s in scopes() if s.kind == 'function'))
        return dict(rule=self.rule, coverage=cov, findings=self.items, files=[m.file for m in p.mods.values()])


# ------------------------------------------------------------------ C25
def names(tier):
    F = Found('every name that a function reads is bound')
    for m, sc in scopes():
        if m.star:
            continue
        for n in own_nodes(sc):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                F.count('names')
                if sc.lookup(n.id) is None and n.id not in scan.BUILTINS and not in_annotation(m, n) and not guarded(m, n, ('NameError',)):
                    F.add(m, n, sc, 'name %r is not bound anywhere' % n.id)
        if sc.kind == 'function':
            unassigned(m, sc, F)
    return F.result()


def in_annotation(m, n):
    p, c = m.parents.get(n), n
    while p is not None and not isinstance(p, ast.stmt):
        if isinstance(p, ast.arg) and p.annotation is c:
            return True
        p, c = m.parents.get(p), p
    if isinstance(p, FUNC) and p.returns is c or isinstance(p, ast.AnnAssign) and p.annotation is c:
        return True
    return False


def guarded(m, n, names_):
    """inside a try whose handlers catch one of the given exceptions, or below a test of the attribute's existence"""
    p, c = m.parents.get(n), n
    while p is not None:
        if isinstance(p, ast.Try) and c in p.body:
            for h in p.handlers:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                if any(t is None or getattr(t, 'id', getattr(t, 'attr', '')) in tuple(names_) + ('Exception', 'BaseException') for t in ts):
                    return True
        if isinstance(p, (ast.If, ast.IfExp, ast.While)) and c is not p.test or isinstance(p, ast.BoolOp):
            t = p.test if not isinstance(p, ast.BoolOp) else p
            if any(isinstance(x, ast.Call) and getattr(x.func, 'id', '') in ('hasattr', 'isinstance', 'callable', 'getattr') or
                   isinstance(x, ast.Attribute) and x.attr in ('__name__', '__class__', '__module__') or
                   isinstance(x, ast.Name) and x.id == 'type' for x in ast.walk(t)):
                return True
        p, c = m.parents.get(p), p
    return False


def unassigned(m, sc, F):
    """a local name read where no statement before it can have assigned it"""
    loc = {n for n, bs in sc.binds.items() if all(k not in ('param', 'self', 'clsarg') for k, _ in bs)}
    loc -= sc.globals_ | sc.nonlocals
    if not loc:
        return

    def assigned(n, out):
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            elif isinstance(x, FUNC + (ast.ClassDef,)):
                out.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for a in x.names:
                    out.add((a.asname or a.name.split('.')[0]))
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
            elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                out.add(x.name)
            elif isinstance(x, ast.MatchMapping) and x.rest:
                out.add(x.rest)
        return out

    def reads(e, have):
        todo = [e]
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.Lambda,) + FUNC):
                continue
            if isinstance(x, COMP):
                todo.append(x.generators[0].iter)
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in loc and x.id not in have:
                F.add(m, x, sc, 'local variable %r is read before any assignment' % x.id)
            todo.extend(ast.iter_child_nodes(x))

    def block(ss, have):
        """the names possibly assigned after ss; None: the end is not reached"""
        for s in ss:
            if have is None:
                return None
            have = stmt(s, have)
        return have

    def join(*hs):
        hs = [h for h in hs if h is not None]
        return set().union(*hs) if hs else None

    def expr(e, have):
        if e is not None:
            walrus = {x.target.id for x in ast.walk(e) if isinstance(x, ast.NamedExpr)}
            reads(e, have | walrus)
            return have | walrus
        return have

    def stmt(s, have):
        if isinstance(s, ast.If):
            have = expr(s.test, have)
            return join(block(s.body, set(have)), block(s.orelse, set(have)))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            have = expr(s.iter if not isinstance(s, ast.While) else s.test, have if not isinstance(s, ast.While) else have | assigned(s, set()))
            inner = have | assigned(s, set())
            block(s.body, set(inner))
            if s.orelse:
                r = block(s.orelse, set(inner))
                return inner if r is None else r | inner
            return inner
        if isinstance(s, (ast.Try,)):
            h = block(s.body, set(have))
            every = have | assigned(ast.Module(body=s.body, type_ignores=[]), set())
            hs = []
            for hd in s.handlers:
                hs.append(block(hd.body, every | ({hd.name} if hd.name else set())))
            o = block(s.orelse, set(h)) if h is not None and s.orelse else h
            r = join(o, *hs)
            if s.finalbody:
                f = block(s.finalbody, every | assigned(s, set()))
                return None if f is None or r is None else r | f
            return r
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                have = expr(i.context_expr, have)
                if i.optional_vars is not None:
                    have = have | assigned(i.optional_vars, set())
            return block(s.body, set(have))
        if isinstance(s, FUNC):
            for d in s.decorator_list + s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
                expr(d, have)
            return have | {s.name}
        if isinstance(s, ast.ClassDef):
            return have | {s.name}
        if isinstance(s, (ast.Return, ast.Raise)):
            for e in ast.iter_child_nodes(s):
                expr(e, have)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, ast.AugAssign):
            reads(s.value, have)
            if isinstance(s.target, ast.Name):
                if s.target.id in loc and s.target.id not in have:
                    F.add(m, s, sc, 'local variable %r is read before any assignment' % s.target.id)
                return have | {s.target.id}
            reads(s.target, have)
            return have
        if isinstance(s, ast.Match):
            have = expr(s.subject, have)
            return have | assigned(s, set())
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return assigned(s, set(have))
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return have
            have = expr(s.value, have)
            return assigned(s.target, set(have))
        have = expr(s, have) if not isinstance(s, ast.Assign) else expr(s.value, have)
        if isinstance(s, ast.Assign):
            for t in s.targets:
                reads(t, have | assigned(t, set()))
        return assigned(s, set(have)) if not isinstance(s, ast.Delete) else have
    block(sc.node.body, set())


def attributes(tier):
    F = Found('every attribute read from a module, from self or from an object of known class exists; every other attribute name exists on some class')
    p = program()
    np_ = scan.numpy_names()
    uni = p.universe()
    for m, sc in scopes():
        third = third_party_names(p, m, sc)
        for n in own_nodes(sc):
            if isinstance(n, ast.ImportFrom) and not n.level:
                for al in n.names:
                    F.count('imported names')
                    if n.module in p.packages and al.name != '*':
                        t = p.module_attr(n.module, al.name)
                        if t is not None and t[0] == 'none' and not guarded(m, n, ('ImportError', 'ModuleNotFoundError')):
                            F.add(m, n, sc, 'module %s has no name %r' % (n.module, al.name))
                    elif (n.module or '').split('.')[0] == 'CTL' and n.module not in p.packages:
                        F.add(m, n, sc, 'there is no module %s' % n.module)
                    elif scan.stdlib(n.module or '') is not None and al.name != '*' and not hasattr(scan.stdlib(n.module), al.name):
                        F.add(m, n, sc, 'module %s has no name %r' % (n.module, al.name))
            elif isinstance(n, ast.Import):
                for al in n.names:
                    F.count('imported names')
                    if al.name.split('.')[0] == 'CTL' and al.name not in p.packages:
                        F.add(m, n, sc, 'there is no module %s' % al.name)
            if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Load, ast.Del))):
                continue
            F.count('attributes')
            if n.attr.startswith('__') and n.attr.endswith('__') or in_annotation(m, n):
                continue
            t = p.resolve(n.value, sc)
            if t is not None and t[0] == 'attr':
                t = None
            if t is not None and t[0] == 'none':
                continue               # reported at the inner attribute
            if t is not None and t[0] == 'mod':
                F.count('module attributes')
                r = p.module_attr(t[1], n.attr)
                if r is not None and r[0] == 'none' and not guarded(m, n, ('AttributeError',)):
                    F.add(m, n, sc, 'module %s has no attribute %r' % (t[1], n.attr))
                continue
            if t is not None and t[0] in ('lib', 'backend'):
                F.count('library attributes')
                if t[1] in np_['modules']:
                    if n.attr not in np_['modules'][t[1]] and not guarded(m, n, ('AttributeError',)) and not foreign_backend(m, n):
                        F.add(m, n, sc, '%s has no attribute %r' % (t[1], n.attr))
                else:
                    mod = scan.stdlib(t[1])
                    if mod is not None and not hasattr(mod, n.attr) and scan.stdlib(t[1] + '.' + n.attr) is None and not guarded(m, n, ('AttributeError',)):
                        F.add(m, n, sc, '%s has no attribute %r' % (t[1], n.attr))
                continue
            if t is not None and t[0] in ('self', 'inst', 'cls', 'super'):
                F.count('attributes of objects of known class')
                c = t[1]
                if c.is_open():
                    continue
                cands = [c] if t[0] == 'inst' else c.descendants()
                if t[0] == 'super':
                    ok = any(b.has(n.attr) or b.is_open() for b in c.mro()[1:])
                else:
                    ok = any(d.has(n.attr) or d.is_open() for d in cands)
                    if not ok and t[0] in ('cls',):
                        ok = n.attr in dir(type)
                if not ok and not (t[0] in ('inst', 'self') and n.attr in dir(object)) and not guarded(m, n, ('AttributeError',)):
                    F.add(m, n, sc, 'objects of class %s have no attribute %r' % (c.name, n.attr))
                continue
            if root_name(n) in third:
                continue
            F.count('attributes of other objects')
            if n.attr not in uni and not guarded(m, n, ('AttributeError',)):
                F.add(m, n, sc, 'no class has an attribute %r' % n.attr)
    return F.result()


def foreign_backend(m, n):
    """an attribute that only another backend has, read in a branch chosen by a test"""
    p, c = m.parents.get(n), n
    while p is not None and not isinstance(p, FUNC):
        if isinstance(p, (ast.If, ast.IfExp)) and c is not p.test and n.attr in ('asnumpy', 'get', 'cuda'):
            return True
        p, c = m.parents.get(p), p
    return False


def root_name(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else None


def third_party_names(p, m, sc):
    """local names that come from a library that is neither numpy nor the standard library"""
    out = set()
    s = sc
    while s is not None:
        for name, bs in s.binds.items():
            for kind, x in bs:
                if kind in ('import', 'from'):
                    top = (x[0] or '').split('.')[0]
                    if top not in ('CTL', 'numpy') and scan.stdlib(top) is None:
                        out.add(name)
        s = s.parent
    for _ in range(3):
        s = sc
        while s is not None:
            for name, bs in s.binds.items():
                for kind, x in bs:
                    if kind == 'assign' and isinstance(x, ast.AST) and any(isinstance(y, ast.Name) and y.id in out for y in ast.walk(x)):
                        out.add(name)
            s = s.parent
    # names bound by tuple assignment, loops and with-statements over such values
    for n in own_nodes(sc):
        if isinstance(n, (ast.Assign, ast.For)):
            v = n.value if isinstance(n, ast.Assign) else n.iter
            if any(isinstance(y, ast.Name) and y.id in out for y in ast.walk(v)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    out |= {y.id for y in ast.walk(t) if isinstance(y, ast.Name)}
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None and any(isinstance(y, ast.Name) and y.id in out for y in ast.walk(i.context_expr)):
                    out |= {y.id for y in ast.walk(i.optional_vars) if isinstance(y, ast.Name)}
    return out


class Sig(object):
    def __init__(self, pos, required, kwonly, kwreq, vararg, kwarg, posonly=0):
        self.pos, self.required, self.kwonly, self.kwreq = pos, required, kwonly, kwreq
        self.vararg, self.kwarg, self.posonly = vararg, kwarg, posonly

    def rejects(self, call, skip=0):
        """a message when the call cannot be bound, else None"""
        pos = self.pos[skip:]
        req = [x for x in self.required if x in pos]
        star = any(isinstance(a, ast.Starred) for a in call.args)
        dstar = any(k.arg is None for k in call.keywords)
        np_ = sum(1 for a in call.args if not isinstance(a, ast.Starred))
        if skip and not self.pos and not self.vararg:
            return 'takes no positional argument'
        if np_ > len(pos) and not self.vararg:
            return 'takes at most %d positional arguments, %d given' % (len(pos), np_)
        given = set() if star else set(pos[:np_])
        for k in call.keywords:
            if k.arg is None:
                continue
            if k.arg in pos[max(self.posonly - skip, 0):] or k.arg in self.kwonly:
                if k.arg in given:
                    return 'argument %r is given twice' % k.arg
                given.add(k.arg)
            elif not self.kwarg:
                return 'has no parameter %r' % k.arg
        if not star and not dstar:
            miss = [x for x in req if x not in given] + [x for x in self.kwreq if x not in given]
            if miss:
                return 'misses the argument %r' % miss[0]
        return None


def sig_of(fn):
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    req = pos[:len(pos) - len(a.defaults)]
    kwo = [x.arg for x in a.kwonlyargs]
    return Sig(pos, req, kwo, [x for x, d in zip(kwo, a.kw_defaults) if d is None], a.vararg is not None, a.kwarg is not None, len(a.posonlyargs))


def sig_inspect(params):
    """params: [(name, kind, has default)]"""
    pos = [p[0] for p in params if p[1] in ('POSITIONAL_ONLY', 'POSITIONAL_OR_KEYWORD')]
    return Sig(pos, [p[0] for p in params if p[0] in pos and not p[2]], [p[0] for p in params if p[1] == 'KEYWORD_ONLY'],
               [p[0] for p in params if p[1] == 'KEYWORD_ONLY' and not p[2]], any(p[1] == 'VAR_POSITIONAL' for p in params),
               any(p[1] == 'VAR_KEYWORD' for p in params), sum(1 for p in params if p[1] == 'POSITIONAL_ONLY'))


def decs(fn):
    return [getattr(d, 'id', getattr(d, 'attr', None)) for d in fn.decorator_list]


def calls(tier):
    F = Found('every call of a function, constructor or method of the library (and of numpy and standard-library functions with a known signature) fits its parameter list')
    p = program()
    np_ = scan.numpy_names()
    common = set(np_['array_attributes'])
    for t in (str, list, dict, set, frozenset, tuple, int, float, complex, bytes, object, BaseException, type):
        common |= set(dir(t))
    common |= set(dir(open(os.devnull)))
    by_name = {}
    for c in p.classes:
        for k, fn in c.methods.items():
            by_name.setdefault(k, []).append((c, fn))
    for m, sc in scopes():
        third = third_party_names(p, m, sc)
        for n in own_nodes(sc):
            if not isinstance(n, ast.Call):
                continue
            F.count('calls')
            if guarded(m, n, ('TypeError',)) and any(isinstance(x, ast.Try) for x in parents(m, n)):
                continue
            t = p.resolve(n.func, sc)
            if t is None:
                if isinstance(n.func, ast.Attribute) and n.func.attr in by_name and n.func.attr not in common and root_name(n.func) not in third:
                    F.count('calls of methods of unknown objects')
                    rs = [method_rejects(c, fn, n) for c, fn in by_name[n.func.attr]]
                    if all(rs):
                        c, fn = by_name[n.func.attr][0]
                        F.add(m, n, sc, 'call of %s.%s: it %s' % (c.name, n.func.attr, rs[0]))
                continue
            if t[0] == 'func':
                fn = t[2]
                if fn.decorator_list:
                    continue
                F.count('calls of library functions')
                r = sig_of(fn).rejects(n)
                if r:
                    F.add(m, n, sc, 'call of %s: it %s' % (fn.name, r))
            elif t[0] == 'cls':
                c = t[1]
                if c.is_open():
                    continue
                F.count('constructor calls')
                k, fn = c.find('__init__')
                if fn is None:
                    if c.find('__new__')[1] is None and (n.args or n.keywords) and '__init__' not in c.attrs:
                        F.add(m, n, sc, 'constructor %s takes no arguments' % c.name)
                    continue
                r = sig_of(fn).rejects(n, 1)
                if r and not fn.decorator_list:
                    F.add(m, n, sc, 'constructor %s %s' % (c.name, r))
            elif t[0] == 'attr':
                o, attr = t[1], t[2]
                c = o[1]
                F.count('method calls on objects of known class')
                if o[0] == 'super':
                    for b in c.mro()[1:]:
                        if attr in b.methods:
                            r = method_rejects(b, b.methods[attr], n)
                            if r:
                                F.add(m, n, sc, 'call of %s.%s: it %s' % (b.name, attr, r))
                            break
                        if b.open or attr in b.attrs:
                            break
                    else:
                        if attr == '__init__' and not c.is_open() and (n.args or n.keywords):
                            F.add(m, n, sc, 'object.__init__ takes no arguments')
                    continue
                if o[0] == 'cls':
                    k, fn = c.find(attr)
                    if fn is not None:
                        d = decs(fn)
                        if 'property' in d or any(x not in ('staticmethod', 'classmethod') for x in d):
                            continue
                        r = sig_of(fn).rejects(n, 1 if 'classmethod' in d else 0)
                        # inside a class method the receiver may be an instance-bound call
                        if r:
                            F.add(m, n, sc, 'call of %s.%s: it %s' % (c.name, attr, r))
                    continue
                if attr in c.stored and c.find(attr)[1] is None:
                    continue
                f = sc
                while f is not None and f.cls is None:
                    f = f.parent
                for d in ([c] if o[0] == 'inst' else c.descendants()):
                    if o[0] == 'self' and f is not None and f.kind == 'function' and d.find(f.node.name)[1] is not f.node:
                        continue            # this class does not inherit the calling method
                    k, fn = d.find(attr)
                    if fn is None or any(attr in x.stored for x in d.mro()):
                        continue
                    r = method_rejects(k, fn, n)
                    if r:
                        F.add(m, n, sc, 'call of %s.%s: it %s' % (k.name, attr, r))
            elif t[0] in ('lib', 'backend'):
                ps = np_['signatures'].get(t[1])
                if ps is not None:
                    F.count('numpy calls')
                    r = sig_inspect(ps).rejects(n)
                    if r:
                        F.add(m, n, sc, 'call of %s: it %s' % (t[1], r))
                elif '.' in t[1] and scan.stdlib(t[1].rsplit('.', 1)[0]) is not None:
                    f = getattr(scan.stdlib(t[1].rsplit('.', 1)[0]), t[1].rsplit('.', 1)[1], None)
                    try:
                        sg = inspect.signature(f)
                    except (TypeError, ValueError):
                        continue
                    F.count('standard library calls')
                    r = sig_inspect([(q.name, q.kind.name, q.default is not q.empty) for q in sg.parameters.values()]).rejects(n)
                    if r:
                        F.add(m, n, sc, 'call of %s: it %s' % (t[1], r))
    return F.result()


def parents(m, n):
    p = m.parents.get(n)
    while p is not None:
        yield p
        p = m.parents.get(p)


def method_rejects(c, fn, call):
    d = decs(fn)
    if any(x not in ('staticmethod', 'classmethod') for x in d):
        return None
    return sig_of(fn).rejects(call, 0 if 'staticmethod' in d else 1)


def formats(tier):
    F = Found('every literal format string gets the arguments it names; every raise statement raises an exception')
    p = program()
    for m, sc in scopes():
        for n in own_nodes(sc):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and \
                    isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
                F.count('format calls')
                if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                    continue
                r = format_error(n.func.value.value, len(n.args), {k.arg for k in n.keywords})
                if r:
                    F.add(m, n, sc, 'format string %r: %s' % (n.func.value.value[:40], r))
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and \
                    isinstance(n.left.value, str) and isinstance(n.right, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in n.right.elts):
                F.count('% formats')
                import re
                specs = re.findall(r'%(?:\(\w+\))?[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])', n.left.value)
                want = sum((1 if c != '%' else 0) + (a == '*') + (b == '*') for a, b, c in specs)
                if '%(' not in n.left.value and want != len(n.right.elts):
                    F.add(m, n, sc, 'format string %r takes %d values, %d given' % (n.left.value[:40], want, len(n.right.elts)))
            elif isinstance(n, ast.Raise) and n.exc is not None:
                F.count('raise statements')
                e = n.exc
                if isinstance(e, (ast.Constant, ast.JoinedStr, ast.Tuple, ast.List, ast.Dict)):
                    F.add(m, n, sc, 'raises something that is not an exception')
                elif isinstance(e, ast.Call):
                    t = p.resolve(e.func, sc)
                    if t is not None and t[0] == 'func' and strings_only(t[2]):
                        F.add(m, n, sc, 'raises the string returned by %s' % t[2].name)
                    if t is not None and t[0] == 'cls' and not t[1].is_open():
                        F.add(m, n, sc, 'raises %s, which is not an exception' % t[1].name)
    return F.result()


def strings_only(fn):
    rs = [x.value for x in ast.walk(fn) if isinstance(x, ast.Return)]
    return bool(rs) and all(isinstance(r, (ast.Constant, ast.JoinedStr)) or
                            isinstance(r, ast.Call) and isinstance(r.func, ast.Attribute) and r.func.attr in ('format', 'join') for r in rs if r is not None)


def format_error(s, npos, kws):
    auto = 0
    try:
        parts = list(string.Formatter().parse(s))
    except ValueError as e:
        return str(e)
    fields = []
    for _, f, spec, _ in parts:
        if f is not None:
            fields.append(f)
            if spec and '{' in spec:
                try:
                    fields.extend(g for _, g, _, _ in string.Formatter().parse(spec) if g is not None)
                except ValueError:
                    pass
    for f in fields:
        name = f.split('.')[0].split('[')[0]
        if name == '':
            if auto >= npos:
                return 'needs at least %d arguments, %d given' % (auto + 1, npos)
            auto += 1
        elif name.isdigit():
            if int(name) >= npos:
                return 'needs argument %s, %d given' % (name, npos)
        elif name not in kws:
            return 'needs argument %r' % name
    return None


# ------------------------------------------------------------------ C17
ARRAYLIBS = ('numpy', 'cupy', 'scipy', 'torch', 'jax', 'tensorflow', 'numba')


SCRIPTS = ('CTL.examples.TNR',)          # plain numpy, outside the property
DTYPES = {'float16', 'float32', 'float64', 'float128', 'complex64', 'complex128', 'complex256', 'int8', 'int16', 'int32', 'int64',
          'uint8', 'uint16', 'uint32', 'uint64', 'bool_', 'longdouble', 'clongdouble', 'single', 'double', 'half', 'float_', 'int_', 'complex_',
          'pi', 'e', 'inf', 'nan', 'newaxis', 'floating', 'integer', 'complexfloating', 'number', 'ndarray'}


def top(t):
    return t[1].split('.')[0] if t and t[0] in ('lib', 'backend') else None


def backend(tier):
    F = Found('array functions are looked up in CTL.funcs.xplib.xp when they are called')
    p = program()
    for m, sc in scopes():
        if m.name in SCRIPTS:
            continue
        if m.name.endswith('.xplib') and sc.kind == 'module':
            bs = sc.binds.get('xp', [])
            F.count('backend definitions', len(bs))
            ts = [p.one(sc, b) for b in bs if b[0] != 'global']
            if not bs:
                F.add(m, sc.node, sc, 'the backend xp is not defined')
            elif not any(t is not None and top(t) == 'numpy' and t[1] == 'numpy' for t in ts):
                F.add(m, sc.node, sc, 'the default backend is not numpy')
            continue
        for n in own_nodes(sc):
            imp = import_time(m, n)
            if isinstance(n, ast.ImportFrom) and any(al.name == 'xp' for al in n.names) and (n.module or '').endswith('xplib'):
                if imp:
                    F.add(m, n, sc, 'binds the backend when the module is imported; a later setXP does not reach it')
                continue
            if isinstance(n, ast.Call):
                t = p.resolve(n.func, sc)
                nm = n.func.id if isinstance(n.func, ast.Name) else getattr(n.func, 'attr', '')
                if nm in ('import_module', '__import__') and n.args and isinstance(n.args[0], ast.Constant) and str(n.args[0].value).split('.')[0] in ARRAYLIBS:
                    F.add(m, n, sc, 'uses %s without the configured backend' % n.args[0].value)
            if not (isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load)):
                continue
            par = m.parents.get(n)
            if isinstance(par, ast.Attribute) and par.value is n and p.resolve(par, sc) is not None:
                continue                       # judged at the longer expression
            t = p.resolve(n, sc)
            if t is None or t[0] not in ('lib', 'backend') or in_annotation(m, n):
                continue
            if t[0] == 'lib':
                if top(t) in ARRAYLIBS and not is_assign_alias(m, n) and not typetest(m, n):
                    F.count('other array library uses')
                    F.add(m, n, sc, 'uses %s without the configured backend' % t[1])
                continue
            F.count('backend uses')
            if t[1].rsplit('.', 1)[-1] in DTYPES:
                continue
            if imp:
                F.add(m, n, sc, 'reads the backend when the module is imported; a later setXP does not reach it')
            elif kept(m, n, sc):
                F.add(m, n, sc, 'keeps the backend (or a function of it) beyond the call; a later setXP does not reach it')
            elif cached(m, n):
                F.add(m, n, sc, 'caches results computed with the backend; a later setXP does not reach them')
    # one place sets the backend
    return F.result()


def typetest(m, n):
    """only the type of a value is asked"""
    for q in parents(m, n):
        if isinstance(q, ast.Call) and getattr(q.func, 'id', '') in ('isinstance', 'issubclass'):
            return True
        if isinstance(q, ast.stmt):
            break
    return False


def is_assign_alias(m, n):
    """`np = numpy`-like aliasing: judged where the alias is used"""
    p = m.parents.get(n)
    return isinstance(p, ast.Assign) and p.value is n and all(isinstance(t, ast.Name) for t in p.targets)


def import_time(m, n):
    """evaluated when the module is imported (module level, class body, default value, decorator)"""
    c, p = n, m.parents.get(n)
    while p is not None:
        if isinstance(p, FUNC + (ast.Lambda,)):
            body = p.body if isinstance(p.body, list) else [p.body]
            if c in body:
                return False
            if isinstance(p, FUNC) and (c is p.returns):
                return False
        if isinstance(p, ast.If) and c in p.body and any(isinstance(x, ast.Name) and x.id == '__name__' for x in ast.walk(p.test)):
            return False
        c, p = p, m.parents.get(p)
    return True


def kept(m, n, sc):
    p = m.parents.get(n)
    c = n
    while isinstance(p, (ast.IfExp, ast.BoolOp, ast.Tuple, ast.List, ast.Dict, ast.Set)) and not (isinstance(p, ast.IfExp) and c is p.test):
        c, p = p, m.parents.get(p)
    tg = None
    if isinstance(p, (ast.Assign,)) and p.value is c:
        tg = p.targets
    elif isinstance(p, (ast.AnnAssign, ast.NamedExpr)) and p.value is c:
        tg = [p.target]
    if isinstance(p, ast.keyword):
        c, p = p, m.parents.get(p)
    if isinstance(p, ast.Call) and (c in p.args or c in p.keywords):
        f = p.func
        if isinstance(f, ast.Name) and f.id == 'setattr':
            return True
        if isinstance(f, ast.Attribute) and f.attr in ('append', 'add', 'insert', 'setdefault', 'update', 'extend', '__setitem__', '__setattr__'):
            r = root_name(f.value)
            return r is not None and (not local_name(sc, r) or isinstance(f.value, ast.Attribute))
    if tg is None:
        return False
    for t in tg:
        if isinstance(t, (ast.Attribute,)):
            r = program().resolve(t.value, sc)
            if r is not None and r[0] == 'mod' and r[1].endswith('.xplib'):
                continue
            return True
        if isinstance(t, ast.Subscript):
            return root_name(t) is not None and (not local_name(sc, root_name(t)) or isinstance(t.value, ast.Attribute))
        if isinstance(t, ast.Name):
            f = sc
            while f is not None and f.kind == 'comp':
                f = f.parent
            if f is not None and (t.id in f.globals_ or f.kind in ('module', 'class')):
                return True
    return False


def local_name(sc, name):
    s = sc.lookup(name)
    return s is not None and s.kind not in ('module', 'class')


def cached(m, n):
    for q in parents(m, n):
        if isinstance(q, FUNC):
            for d in q.decorator_list:
                f = d.func if isinstance(d, ast.Call) else d
                if getattr(f, 'id', getattr(f, 'attr', '')) in ('lru_cache', 'cache', 'memoize', 'memoized', 'cached_property', 'singledispatch'):
                    return True
    return False


# ------------------------------------------------------------------ C24
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add',
            'discard', 'appendleft', 'extendleft', 'popleft', 'intersection_update', 'difference_update', 'symmetric_difference_update',
            '__setitem__', '__delitem__', 'fill', 'resize', 'itemset', 'put'}
PROCESS = {'random.seed', 'numpy.random.seed', 'numpy.random.set_state', 'random.setstate', 'warnings.filterwarnings',
           'warnings.simplefilter', 'warnings.resetwarnings', 'numpy.seterr', 'numpy.seterrcall', 'numpy.set_printoptions', 'sys.setrecursionlimit',
           'os.chdir', 'os.umask', 'os.putenv', 'locale.setlocale', 'gc.disable', 'gc.enable', 'numpy.setbufsize', 'numpy.errstate_',
           'signal.signal', 'sys.settrace', 'sys.setprofile', 'numpy.random.shuffle_'}


def mutable_expr(e, p, sc):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        f = e.func
        nm = f.id if isinstance(f, ast.Name) else getattr(f, 'attr', '')
        if nm in ('list', 'dict', 'set', 'bytearray', 'defaultdict', 'OrderedDict', 'Counter', 'deque', 'zeros', 'ones', 'empty', 'array', 'eye', 'identity', 'full'):
            return True
        t = p.resolve(f, sc)
        return t is not None and t[0] == 'cls'
    if isinstance(e, ast.BinOp):
        return mutable_expr(e.left, p, sc) or mutable_expr(e.right, p, sc)
    return False


def setting(p, name):
    """setXP, or a helper that only setXP uses"""
    if name == 'setXP':
        return True
    for m in p.mods.values():
        todo = [m.tree]
        while todo:
            n = todo.pop()
            if isinstance(n, FUNC) and n.name in ('setXP', name):
                continue
            if (isinstance(n, ast.Name) and n.id == name) or (isinstance(n, ast.Attribute) and n.attr == name) or \
                    (isinstance(n, ast.alias) and n.name == name and n.asname is not None):
                return False
            todo.extend(ast.iter_child_nodes(n))
    return True


def persistent(tier):
    F = Found('no call changes a default value, a module-level or a class-level object, or a process-wide setting')
    p = program()
    # module-level and class-level mutable objects
    for m, sc in scopes():
        if sc.kind not in ('function', 'lambda', 'comp'):
            continue
        fsc = sc
        while fsc is not None and fsc.kind == 'comp':
            fsc = fsc.parent
        if fsc is None or fsc.kind not in ('function', 'lambda'):
            continue
        infn = fsc

        def persist(e, depth=0, deep=True):
            """what a call-outliving mutable object e names, or None"""
            if depth > 5:
                return None
            if isinstance(e, ast.Name):
                s = sc.lookup(e.id)
                if s is None:
                    return None
                if s.kind == 'module':
                    t = p.target(s, e.id)
                    if t is not None and t[0] == 'cls':
                        return ('class', t[1].name)
                    if t is not None and t[0] in ('func',):
                        return ('function', e.id)
                    if t is not None and t[0] in ('mod',):
                        return ('module', t[1])
                    if any(k == 'assign' and isinstance(x, ast.AST) and mutable_expr(x, p, s) for k, x in s.binds[e.id]):
                        return ('module-level object', e.id)
                    return None
                if s.kind in ('function', 'lambda'):
                    if s.kind == 'function' and s.parent is not None and s.parent.kind in ('function', 'lambda') and False:
                        return None
                    bs = s.binds[e.id]
                    if len(bs) == 1 and bs[0][0] == 'param':
                        d = default_of(s.node, e.id)
                        if d is not None and mutable_expr(d, p, s):
                            return ('default value of parameter', e.id)
                        return None
                    if len(bs) == 1 and bs[0][0] == 'clsarg':
                        return ('class', bs[0][1].name)
                    if len(bs) == 1 and bs[0][0] == 'assign':
                        return persist(bs[0][1], depth + 1, deep)
                return None
            if isinstance(e, ast.Attribute):
                t = p.resolve(e.value, sc)
                if t is not None and t[0] == 'self':
                    c = t[1]
                    if e.attr == '__class__':
                        return ('class', c.name)
                    return class_level(c, e.attr)
                if t is not None and t[0] == 'cls':
                    return class_level(t[1], e.attr)
                if t is not None and t[0] == 'mod':
                    ms = p.mods.get(t[1])
                    if ms is not None and e.attr in ms.scope.binds:
                        tt = p.target(ms.scope, e.attr)
                        if tt is not None and tt[0] == 'cls':
                            return ('class', tt[1].name)
                        if any(k == 'assign' and isinstance(x, ast.AST) and mutable_expr(x, p, ms.scope) for k, x in ms.scope.binds[e.attr]):
                            return ('module-level object', t[1] + '.' + e.attr)
                    return None
                if e.attr == '__class__':
                    return ('class', ast.unparse(e.value) + '.__class__')
                if e.attr in ('__defaults__', '__kwdefaults__'):
                    return ('default values', ast.unparse(e.value))
                return None
            if isinstance(e, ast.Subscript):
                r = persist(e.value, depth + 1) if deep else None
                return r if r is not None and r[0] in ('module-level object', 'class-level object', 'default value of parameter') else None
            if isinstance(e, ast.Call):
                nm = e.func.id if isinstance(e.func, ast.Name) else None
                if nm == 'type' and len(e.args) == 1:
                    return ('class', ast.unparse(e))
                if nm == 'globals':
                    return ('module-level object', 'globals()')
            return None

        def class_level(c, attr):
            for k in c.mro():
                if attr in k.attrs:
                    # an instance attribute of the same name hides it
                    if any(attr in inits(x) for x in c.mro()):
                        return None
                    bs = k.scope.binds.get(attr, [])
                    if any(kk == 'assign' and isinstance(x, ast.AST) and mutable_expr(x, p, k.scope) for kk, x in bs):
                        return ('class-level object', k.name + '.' + attr)
                    return None
            return None

        for n in own_nodes(sc):
            if isinstance(n, ast.Global):
                for name in n.names:
                    if any(isinstance(x, (ast.Name,)) and x.id == name and isinstance(x.ctx, (ast.Store, ast.Del)) for x in ast.walk(infn.node)) or \
                            any(isinstance(x, FUNC + (ast.ClassDef,)) and x.name == name for x in ast.walk(infn.node)):
                        F.add(m, n, sc, 'rebinds the module-level name %r' % name)
            tgts = []
            if isinstance(n, ast.Assign):
                tgts = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tgts = [n.target]
            elif isinstance(n, ast.Delete):
                tgts = n.targets
            elif isinstance(n, (ast.For, ast.comprehension)):
                tgts = [n.target]
            flat = []
            while tgts:
                t = tgts.pop() if isinstance(tgts, list) else None
                if isinstance(t, (ast.Tuple, ast.List)):
                    tgts = tgts + list(t.elts)
                elif isinstance(t, ast.Starred):
                    tgts = tgts + [t.value]
                else:
                    flat.append(t)
            for t in flat:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    F.count('stores')
                    if isinstance(t, ast.Attribute):
                        tm = p.resolve(t.value, sc)
                        if tm is not None and tm[0] == 'mod' and tm[1].endswith('.xplib') and t.attr == 'xp' and setting(p, infn.name):
                            continue          # the one setting of the library
                        if tm is not None and tm[0] == 'mod':
                            F.add(m, n, sc, 'stores %r into module %s' % (t.attr, tm[1]))
                            continue
                        if tm is not None and tm[0] in ('lib', 'backend') and scan.stdlib(tm[1].split('.')[0]) is not None | (top(tm) == 'numpy'):
                            F.add(m, n, sc, 'stores %r into module %s' % (t.attr, tm[1]))
                            continue
                    r = persist(t.value)
                    if r is not None:
                        F.add(m, n, sc, 'changes the %s %s' % r)
                elif isinstance(t, ast.Name) and isinstance(n, ast.AugAssign):
                    r = default_aug(infn, t.id, p)
                    if r:
                        F.add(m, n, sc, 'changes the default value of parameter %s' % t.id)
            if isinstance(n, ast.Call):
                F.count('calls')
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
                    r = persist(f.value)
                    if r is not None and r[0] in ('module-level object', 'class-level object', 'default value of parameter', 'default values'):
                        F.add(m, n, sc, 'changes the %s %s' % r)
                    if isinstance(f.value, ast.Attribute) and ast.unparse(f.value) == 'os.environ' and f.attr in ('update', 'setdefault', 'pop', 'clear'):
                        F.add(m, n, sc, 'changes the process environment')
                t = p.resolve(f, sc)
                if t is not None and t[0] in ('lib', 'backend') and t[1] in PROCESS:
                    if not in_with(m, n):
                        F.add(m, n, sc, 'changes the process-wide setting %s' % t[1])
                if isinstance(f, ast.Name) and f.id == 'setattr' and n.args:
                    r = persist(n.args[0])
                    if r is not None:
                        F.add(m, n, sc, 'changes the %s %s' % r)
            # a mutable default value handed out: stored in an attribute or a container, or returned
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                if any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in tg):
                    r = persist(n.value, 0, False)
                    if r is not None and r[0] in ('default value of parameter', 'module-level object', 'class-level object'):
                        F.add(m, n, sc, 'stores the %s %s: it is shared between calls' % r)
            if isinstance(n, ast.Return) and n.value is not None:
                r = persist(n.value, 0, False)
                if r is not None and r[0] in ('default value of parameter', 'module-level object', 'class-level object'):
                    F.add(m, n, sc, 'returns the %s %s: it is shared between calls' % r)
        if sc.kind == 'function':
            F.count('function bodies')
            for d in sc.node.decorator_list:
                f = d.func if isinstance(d, ast.Call) else d
                if getattr(f, 'id', getattr(f, 'attr', '')) in ('lru_cache', 'cache') and returns_mutable(sc, p):
                    F.add(m, sc.node, sc, 'returns one cached object to every caller')
    return F.result()


def returns_mutable(sc, p):
    return any(isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant) for n in own_nodes(sc))


def in_with(m, n):
    """inside `with warnings.catch_warnings()` or `with np.errstate()`"""
    for q in parents(m, n):
        if isinstance(q, ast.With) and any(isinstance(i.context_expr, ast.Call) and getattr(i.context_expr.func, 'attr', getattr(i.context_expr.func, 'id', '')) in
                                           ('catch_warnings', 'errstate', 'printoptions') for i in q.items):
            return True
        if isinstance(q, FUNC):
            break
    return False


def inits(c):
    """attributes that __init__ assigns on self"""
    fn = c.methods.get('__init__')
    out = set()
    if fn is not None and fn.args.args:
        s = fn.args.args[0].arg
        for x in ast.walk(fn):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == s:
                out.add(x.attr)
    return out


def default_of(fn, name):
    a = fn.args
    pos = a.posonlyargs + a.args
    for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        if x.arg == name:
            return d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == name:
            return d
    return None


def default_aug(sc, name, p):
    """`param += [..]` on a mutable default"""
    bs = sc.binds.get(name, [])
    if sc.kind != 'function' or not any(k == 'param' for k, _ in bs):
        return False
    d = default_of(sc.node, name)
    return d is not None and mutable_expr(d, p, sc) and not any(k == 'assign' for k, _ in bs)


if __name__ == '__main__':
    for r in (names, attributes, calls, formats, backend, persistent):
        x = r('quick')
        print(x['rule'], x['coverage'])
        for f in x['findings']:
            print('   ', f['construct'][0], '|', f['what'])
