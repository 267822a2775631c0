"""Scopes, name resolution and class tables of the repository's modules, read from the syntax tree (nothing is imported)."""
import ast
import builtins
import importlib
import json
import os
import sys

from .runner import REPO

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(REPO, 'src')
BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__path__', '__builtins__', '__loader__', '__class__', 'WindowsError'}
_NP = None


def numpy_names():
    global _NP
    if _NP is None:
        _NP = json.load(open(os.path.join(HERE, 'numpy_names.json')))
        _NP['modules'] = {k: set(v) for k, v in _NP['modules'].items()}
    return _NP


FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


class Scope(object):
    def __init__(self, kind, node, mod, parent, cls=None):
        self.kind, self.node, self.mod, self.parent, self.cls = kind, node, mod, parent, cls
        self.binds = {}          # name -> [(kind, payload)]
        self.globals_, self.nonlocals = set(), set()
        self.name = getattr(node, 'name', '<%s>' % kind)

    def bind(self, name, kind, payload=None):
        if name in self.globals_ and self.kind != 'module':
            self.mod.scope.bind(name, 'global', payload)
            return
        if name in self.nonlocals:
            s = self.parent
            while s is not None and not (s.kind in ('function', 'lambda') and name in s.binds):
                s = s.parent
            if s is not None:
                s.bind(name, 'other')
            return
        self.binds.setdefault(name, []).append((kind, payload))

    def qual(self):
        parts, s = [], self
        while s is not None:
            if s.kind in ('function', 'class'):
                parts.append(s.name)
            s = s.parent
        return '.'.join([self.mod.name] + parts[::-1])

    def function(self):
        s = self
        while s is not None and s.kind not in ('function', 'lambda'):
            if s.kind in ('class', 'module'):
                return None
            s = s.parent
        return s

    def lookup(self, name):
        """-> the scope binding name, or None"""
        s, first = self, True
        while s is not None:
            if s.kind == 'class' and not first:
                s = s.parent
                continue
            if s.kind in ('function', 'lambda') and name in s.globals_:
                return s.mod.scope if name in s.mod.scope.binds else None
            if name in s.binds:
                return s
            if s.kind not in ('comp',):
                first = False
            s = s.parent
        return None


class Cls(object):
    def __init__(self, mod, node, scope):
        self.mod, self.node, self.scope, self.name = mod, node, scope, node.name
        self.base_exprs = node.bases
        self.bases = []
        self.open = False          # a base class outside the repository, or attributes set by name at run time
        self.methods = {}
        self.attrs = set()
        self.stored = set()
        self.subs = []

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def descendants(self):
        out = [self]
        for s in self.subs:
            for d in s.descendants():
                if d not in out:
                    out.append(d)
        return out

    def find(self, name):
        """the defining class and node of a method"""
        for c in self.mro():
            if name in c.methods:
                return c, c.methods[name]
            if name in c.attrs or c.open:
                return None, None
        return None, None

    def is_open(self):
        return any(c.open for c in self.mro())

    def has(self, name):
        return any(name in c.methods or name in c.attrs or name in c.stored for c in self.mro())

    @property
    def qual(self):
        return self.mod.name + '.' + self.name


class Mod(object):
    def __init__(self, name, file, prog):
        self.name, self.file, self.prog = name, file, prog
        self.tree = ast.parse(open(file, encoding='utf-8').read(), file)
        self.scope = None
        self.scopes = {}           # id(node) -> Scope
        self.classes = []
        self.star = False
        self.parents = {}


class Program(object):
    def __init__(self, src=SRC, package='CTL', skip=('tests',)):
        self.mods = {}
        self.classes = []
        top = os.path.join(src, package)
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in skip and x != '__pycache__')
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    name = os.path.relpath(p, src)[:-3].replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    self.mods[name] = Mod(name, p, self)
        self.packages = set()
        for m in self.mods:
            parts = m.split('.')
            for i in range(1, len(parts) + 1):
                self.packages.add('.'.join(parts[:i]))
        for m in self.mods.values():
            Builder(m).run()
        for m in self.mods.values():
            for c in m.classes:
                self.classes.append(c)
                for b in c.base_exprs:
                    t = self.resolve(b, c.scope.parent)
                    if t and t[0] == 'cls':
                        c.bases.append(t[1])
                        t[1].subs.append(c)
                    elif isinstance(b, ast.Name) and b.id == 'object':
                        pass
                    else:
                        c.open = True
                for k in c.node.keywords:
                    c.open = True
        for m in self.mods.values():
            for sc in m.scopes.values():
                self.stores(sc)
        self.universe_ = None

    # ---- attributes stored on instances
    def stores(self, sc):
        for n in own_nodes(sc):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                t = self.resolve(n.value, sc)
                if t and t[0] in ('self', 'inst', 'cls'):
                    t[1].stored.add(n.attr)
                self.mods_stored().add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'vars') and n.args:
                t = self.resolve(n.args[0], sc)
                if t and t[0] in ('self', 'inst', 'cls'):
                    t[1].open = True
            elif isinstance(n, ast.Attribute) and n.attr == '__dict__':
                t = self.resolve(n.value, sc)
                if t and t[0] in ('self', 'inst', 'cls'):
                    t[1].open = True

    def mods_stored(self):
        if not hasattr(self, '_st'):
            self._st = set()
        return self._st

    # ---- resolution
    def module_attr(self, mod, name):
        """target of attribute `name` of repository module `mod`; ('none',) when it does not exist"""
        m = self.mods.get(mod)
        sub = mod + '.' + name
        if m is not None and name in m.scope.binds:
            return self.target(m.scope, name)
        if sub in self.packages:
            return ('mod', sub)
        if m is not None and (m.star or '__getattr__' in m.scope.binds):
            return None
        if name in ('__name__', '__file__', '__doc__', '__path__', '__dict__', '__all__', '__package__', '__spec__'):
            return None
        return ('none', mod, name)

    def target(self, scope, name, depth=0):
        bs = scope.binds[name]
        if len(bs) != 1:
            # the same import repeated is one binding
            ts = [self.one(scope, b, depth) for b in bs]
            if ts and all(t is not None and t == ts[0] for t in ts) and ts[0][0] in ('mod', 'lib', 'backend'):
                return ts[0]
            if scope.kind == 'module' and scope.mod.name.endswith('.xplib') and name == 'xp':
                return ('backend', 'numpy')
            return None
        return self.one(scope, bs[0], depth)

    def one(self, scope, b, depth=0):
        kind, p = b
        if depth > 6:
            return None
        if kind == 'import':
            dotted, asname = p
            top = dotted if asname else dotted.split('.')[0]
            if top in self.packages:
                return ('mod', top)
            return ('lib', top)
        if kind == 'from':
            mod, name = p
            if mod in self.packages:
                t = self.module_attr(mod, name)
                if mod.endswith('.xplib') and name == 'xp':
                    return ('backend', 'numpy')
                if t is not None and t[0] == 'none':
                    return None
                return t
            return ('lib', mod + '.' + name) if mod else None
        if kind == 'def':
            return ('func', scope.mod, p)
        if kind == 'class':
            return ('cls', p)
        if kind == 'self':
            return ('self', p)
        if kind == 'clsarg':
            return ('cls', p)
        if kind == 'assign':
            t = self.resolve(p, scope, depth + 1)
            if t is not None and t[0] in ('mod', 'lib', 'backend', 'cls', 'inst', 'func', 'self'):
                return t
            return None
        return None

    def resolve(self, e, scope, depth=0):
        if depth > 8:
            return None
        if isinstance(e, ast.Name):
            s = scope.lookup(e.id)
            if s is None:
                return ('builtin', e.id) if e.id in BUILTINS else None
            return self.target(s, e.id, depth)
        if isinstance(e, ast.Attribute):
            t = self.resolve(e.value, scope, depth + 1)
            if t is None:
                return None
            if t[0] == 'mod':
                if t[1].endswith('.xplib') and e.attr == 'xp':
                    return ('backend', 'numpy')
                r = self.module_attr(t[1], e.attr)
                return r
            if t[0] in ('lib', 'backend'):
                return (t[0], t[1] + '.' + e.attr)
            if t[0] in ('self', 'inst', 'cls', 'super'):
                return ('attr', t, e.attr)
            return None
        if isinstance(e, ast.Call):
            t = self.resolve(e.func, scope, depth + 1)
            if t is None:
                return None
            if t[0] == 'cls':
                return ('inst', t[1])
            if t == ('builtin', 'super'):
                f = scope.function()
                c = f
                while c is not None and c.cls is None:
                    c = c.parent
                if c is not None and not e.args:
                    return ('super', c.cls)
                if len(e.args) == 2:
                    a = self.resolve(e.args[0], scope, depth + 1)
                    if a and a[0] == 'cls':
                        return ('super', a[1])
                return None
            if t == ('builtin', 'type') and len(e.args) == 1:
                a = self.resolve(e.args[0], scope, depth + 1)
                if a and a[0] in ('self', 'inst'):
                    return ('cls', a[1])
            return None
        return None

    def universe(self):
        """every attribute name that something in the program or the libraries it uses can have"""
        if self.universe_ is None:
            u = set(numpy_names()['array_attributes']) | self.mods_stored()
            for t in (str, list, dict, set, frozenset, tuple, int, float, complex, bytes, bytearray, range, slice, type, object,
                      BaseException, ImportError, OSError, KeyError, UnicodeDecodeError, property, memoryview, StopIteration):
                u |= set(dir(t))
            u |= set(dir(lambda: 0)) | set(dir((i for i in ()))) | set(dir(open(os.devnull))) | set(dir(sys))
            for m in self.mods.values():
                u |= set(m.scope.binds)
                for c in m.classes:
                    u |= set(c.methods) | c.attrs | c.stored
                for sc in m.scopes.values():
                    for bs in sc.binds.values():
                        for kind, p in bs:
                            top = p[0].split('.')[0] if kind in ('import', 'from') and p[0] else None
                            if top in sys.stdlib_module_names:
                                mod = stdlib(p[0])
                                for k in dir(mod) if mod else ():
                                    u.add(k)
                                    v = getattr(mod, k, None)
                                    if isinstance(v, type):
                                        u |= set(dir(v))
            self.universe_ = u
        return self.universe_


_std = {}


def stdlib(name):
    if name not in _std:
        _std[name] = None
        if name.split('.')[0] in sys.stdlib_module_names and name.split('.')[0] not in ('antigravity', 'this', 'idlelib', 'turtle', 'tkinter'):
            try:
                _std[name] = importlib.import_module(name)
            except Exception:
                pass
    return _std[name]


def own_nodes(scope):
    """the nodes evaluated in this scope (bodies of nested scopes excluded; their defaults and decorators are included)"""
    n = scope.node
    if scope.kind == 'module':
        todo = list(n.body)
    elif scope.kind == 'class':
        todo = list(n.body)
    elif scope.kind == 'function':
        todo = list(n.body)
    elif scope.kind == 'lambda':
        todo = [n.body]
    else:
        todo = []
        for i, g in enumerate(n.generators):
            todo.append(g.target)
            if i:
                todo.append(g.iter)
            todo.extend(g.ifs)
        todo.extend([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt])
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, FUNC):
            todo.extend(x.decorator_list)
            todo.extend(x.args.defaults)
            todo.extend(d for d in x.args.kw_defaults if d is not None)
        elif isinstance(x, ast.Lambda):
            todo.extend(x.args.defaults)
            todo.extend(d for d in x.args.kw_defaults if d is not None)
        elif isinstance(x, ast.ClassDef):
            todo.extend(x.decorator_list)
            todo.extend(x.bases)
            todo.extend(k.value for k in x.keywords)
        elif isinstance(x, COMP):
            todo.append(x.generators[0].iter)
        elif isinstance(x, ast.AnnAssign):
            todo.append(x.target)
            if x.value is not None:
                todo.append(x.value)
        elif isinstance(x, ast.arg):
            pass
        else:
            todo.extend(ast.iter_child_nodes(x))


class Builder(object):
    def __init__(self, mod):
        self.mod = mod

    def run(self):
        m = self.mod
        m.scope = Scope('module', m.tree, m, None)
        m.scopes[id(m.tree)] = m.scope
        for n in ast.walk(m.tree):
            for c in ast.iter_child_nodes(n):
                m.parents[c] = n
        self.fill(m.scope)

    def sub(self, kind, node, parent, cls=None):
        s = Scope(kind, node, self.mod, parent, cls)
        self.mod.scopes[id(node)] = s
        return s

    def fill(self, sc):
        nested = []
        nodes = list(own_nodes(sc))
        for x in nodes:
            if isinstance(x, ast.Global):
                sc.globals_ |= set(x.names)
            elif isinstance(x, ast.Nonlocal):
                sc.nonlocals |= set(x.names)
        if sc.kind in ('function', 'lambda'):
            a = sc.node.args
            allargs = a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]
            for i, x in enumerate(allargs):
                kind, p = 'param', x
                if i == 0 and sc.cls is not None and sc.kind == 'function' and a.args:
                    decs = [getattr(d, 'id', getattr(d, 'attr', '')) for d in sc.node.decorator_list]
                    if 'staticmethod' in decs:
                        pass
                    elif 'classmethod' in decs or sc.node.name == '__new__':
                        kind, p = 'clsarg', sc.cls
                    else:
                        kind, p = 'self', sc.cls
                sc.bind(x.arg, kind, p)
        for x in nodes:
            if isinstance(x, FUNC):
                sc.bind(x.name, 'def', x)
                nested.append(self.sub('function', x, sc, sc.cls if sc.kind == 'class' else None))
            elif isinstance(x, ast.Lambda):
                nested.append(self.sub('lambda', x, sc))
            elif isinstance(x, COMP):
                nested.append(self.sub('comp', x, sc))
            elif isinstance(x, ast.ClassDef):
                s = self.sub('class', x, sc)
                c = Cls(self.mod, x, s)
                s.cls = c
                self.mod.classes.append(c)
                sc.bind(x.name, 'class', c)
                nested.append(s)
            elif isinstance(x, ast.Import):
                for al in x.names:
                    sc.bind(al.asname or al.name.split('.')[0], 'import', (al.name, al.asname))
            elif isinstance(x, ast.ImportFrom):
                base = x.module or ''
                if x.level:
                    parts = self.mod.name.split('.')
                    pk = parts if os.path.basename(self.mod.file) == '__init__.py' else parts[:-1]
                    pk = pk[:len(pk) - (x.level - 1)]
                    base = '.'.join(pk + ([x.module] if x.module else []))
                for al in x.names:
                    if al.name == '*':
                        self.mod.star = True
                    else:
                        sc.bind(al.asname or al.name, 'from', (base, al.name))
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        sc.bind(t.id, 'assign', x.value)
            elif isinstance(x, ast.AnnAssign):
                if isinstance(x.target, ast.Name):
                    sc.bind(x.target.id, 'assign' if x.value is not None else 'other', x.value)
            elif isinstance(x, ast.NamedExpr):
                s = sc
                while s.kind == 'comp':
                    s = s.parent
                s.bind(x.target.id, 'assign', x.value)
            elif isinstance(x, ast.ExceptHandler):
                if x.name:
                    sc.bind(x.name, 'other')
            elif isinstance(x, (ast.MatchAs, ast.MatchStar)):
                if x.name:
                    sc.bind(x.name, 'other')
            elif isinstance(x, ast.MatchMapping):
                if x.rest:
                    sc.bind(x.rest, 'other')
            elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store,)):
                p = self.mod.parents.get(x)
                if isinstance(p, ast.Assign) and x in p.targets or isinstance(p, (ast.AnnAssign, ast.NamedExpr)):
                    continue
                sc.bind(x.id, 'other')
        for s in nested:
            self.fill(s)
        if sc.kind == 'class':
            c = sc.cls
            for name, bs in sc.binds.items():
                for kind, p in bs:
                    if kind == 'def':
                        c.methods[name] = p
                    else:
                        c.attrs.add(name)


def where(mod, node, scope):
    return '%s:%d in %s' % (os.path.relpath(mod.file, REPO), getattr(node, 'lineno', 0), scope.qual())
