"""Equality of two terms derived from the source, by identity testing.

Both terms are mapped to the same random interpretation of their free symbols and of every operation that is not arithmetic
(an uninterpreted operation gets a value that depends on its name and on the values of its operands, so equal operands give
equal results).  Two terms that differ under an interpretation which respects the facts of the path are different; nothing is
claimed when a term uses an operation that the specified term does not use.
"""
import hashlib
import math
import random
from fractions import Fraction

from .values import *


class Undefined(Exception):
    pass


def rnum(key, lo=1.1, hi=3.7):
    h = int(hashlib.sha256(repr(key).encode()).hexdigest()[:14], 16)
    return lo + (hi - lo) * (h / float(16 ** 14))


def norm_key(v):
    if isinstance(v, tuple):
        return tuple(norm_key(x) for x in v)
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, float, Fraction)):
        f = float(v)
        return 0.0 if f == 0 else float('%.7g' % f)
    if isinstance(v, complex):
        return norm_key(v.real) if abs(v.imag) < 1e-12 else ('complex', norm_key(v.real), norm_key(v.imag))
    return v


def vecop(f, *xs):
    n = {len(x) for x in xs if isinstance(x, tuple)}
    if not n:
        return f(*xs)
    if len(n) > 1:
        raise Undefined('lengths')
    n = n.pop()
    return tuple(f(*[x[i] if isinstance(x, tuple) else x for x in xs]) for i in range(n))


def num(x):
    if isinstance(x, bool):
        return int(x)
    if not isinstance(x, (int, float, complex)):
        raise Undefined('number')
    return x


class Interp(object):
    def __init__(self, seed):
        self.seed = seed
        self.memo = {}
        self.atoms = set()

    def rnd(self, key, lo=1.1, hi=3.7):
        return rnum((self.seed, key), lo, hi)

    def integer(self, t):
        return (2 if t.op == 'dim' else 0) + int(self.rnd(('int', repr(t)), 0, 0.999) * 8)

    def spectrum(self, kind, src, n):
        if not isinstance(n, int) or not 0 <= n < 5000:
            raise Undefined('length')
        vs = [self.rnd((kind, src, i), 0.3, 3.0) for i in range(n)]
        z = int(self.rnd((kind, src, 'zeros'), 0, 2.999)) if kind == 'eigW' or self.seed % 2 else 0
        vs = sorted(vs, reverse=True)
        if kind == 'eigW' and self.seed % 5 == 1 and self.seed % 3:
            # none of them positive
            return tuple(-v for v in vs)
        vs = [0.0 if i >= n - z and i > 0 else v for i, v in enumerate(vs)]
        if kind == 'eigW' and self.seed % 3:
            # a hermitian matrix may have negative eigenvalues: the last ones, in order
            vs = [v if v else -0.02 * (i + 1) for i, v in enumerate(vs)]
        return tuple(reversed(vs)) if kind == 'eigW' else tuple(vs)

    def ev(self, t):
        if isinstance(t, K):
            v = t.v
            if v is None or isinstance(v, (str, bool, int, float, complex)):
                return v
            return ('const', repr(v))
        if isinstance(t, str) or t is None or isinstance(t, (int, float)):
            return t
        if isinstance(t, Tup):
            return ('tup',) + tuple(norm_key(self.ev(x)) for x in t.items)
        if not isinstance(t, T) or t is TOP:
            raise Undefined(repr(t))
        if t not in self.memo:
            self.memo[t] = self.ev1(t)
        return self.memo[t]

    def selection(self, t):
        """rows and columns selected from a factor of a decomposition: (base, [range, range]) | None"""
        op, a = t.op, t.args
        if op in ('svdU', 'svdV', 'eigV') and len(a) == 3:
            n = [self.ev(a[1]), self.ev(a[2])]
            if not all(isinstance(x, int) and not isinstance(x, bool) for x in n):
                raise Undefined('extent')
            return (op, norm_key(self.ev(a[0]))), [range(n[0]), range(n[1])]
        if op == 'slice' and isinstance(a[0], T):
            m = self.selection(a[0])
            if m is None:
                return None
            base, rs = m
            rs = list(rs)
            for z in a[1:]:
                if z.op != 'sl':
                    return None
                ax = self.ev(z.args[0])
                lo, hi, step = [self.ev(x) for x in z.args[1:]]
                if not all(x is None or isinstance(x, int) for x in (lo, hi, step)):
                    raise Undefined('slice')
                rs[ax] = rs[ax][slice(lo, hi, step)]
            return base, [range(0) if not len(r) else r if len(r) > 1 else range(r[0], r[0] + 1) for r in rs]
        if op == 'flip' and len(a) > 1 and isinstance(a[0], T):
            m = self.selection(a[0])
            if m is None:
                return None
            rs = list(m[1])
            for z in a[1:]:
                k = self.ev(z)
                rs[k] = rs[k][::-1]
            return m[0], rs
        return None

    def ev1(self, t):
        op, a = t.op, t.args
        if op in ('dim', 'symint'):
            return self.integer(t)
        if op in ('svdU', 'svdV', 'eigV', 'slice', 'flip') and len(a) > 1:
            m = self.selection(t)
            if m is not None:
                base, rs = m
                self.atoms.add(base)
                return self.rnd((base, tuple((len(r), r[0] if len(r) else 0, r.step if len(r) > 1 else 1) for r in rs)))
        if op == 'lit':
            r = [self.ev(x) for x in a[1:]]
            if any(isinstance(x, tuple) for x in r):
                raise Undefined('lit')
            return tuple(r)
        if op == 'symcomplex':
            return complex(self.rnd(('free', repr(t))), self.rnd(('imaginary', repr(t))))
        if op in ('sym', 'symfloat', 'data'):
            return self.rnd(('free', repr(t)))
        if op in ('svdS', 'eigW') and len(a) == 2:
            return self.spectrum(op, norm_key(self.ev(a[0])), self.ev(a[1]))
        if op == 'const':
            return self.ev(a[0])
        if op == 'add':
            r = [self.ev(x) for x in a]
            return vecop(lambda *xs: sum(num(x) for x in xs), *r)
        if op == 'mul':
            r = [self.ev(x) for x in a]
            return vecop(lambda *xs: math.prod(num(x) for x in xs), *r)
        if op == 'neg':
            return vecop(lambda x: -num(x), self.ev(a[0]))
        if op in ('div', 'floordiv', 'mod', 'pow', 'sub'):
            x, y = self.ev(a[0]), self.ev(a[1])

            def f(p, q):
                p, q = num(p), num(q)
                try:
                    return {'div': lambda: p / q, 'floordiv': lambda: p // q, 'mod': lambda: p % q,
                            'pow': lambda: p ** q, 'sub': lambda: p - q}[op]()
                except (ZeroDivisionError, OverflowError):
                    raise Undefined(op)
            r = vecop(f, x, y)
            if isinstance(r, complex) and not any(isinstance(z, complex) for z in (x, y)):
                raise Undefined('complex')
            return r
        if op in ('min', 'max') and len(a) > 1:
            return (min if op == 'min' else max)(num(self.ev(x)) for x in a)
        if op in ('exp', 'log', 'sqrt', 'abs', 'log2', 'log10', 'square', 'sinh', 'cosh', 'tanh') and len(a) == 1:
            def g(p):
                p = num(p)
                try:
                    return {'exp': math.exp, 'log': math.log, 'sqrt': math.sqrt, 'abs': abs, 'log2': math.log2, 'log10': math.log10, 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh,
                            'square': lambda z: z * z}[op](p)
                except (ValueError, OverflowError):
                    raise Undefined(op)
            return vecop(g, self.ev(a[0]))
        if op in ('conj', 'conjugate', 'real'):
            if op != 'real' and isinstance(a[0], T) and a[0].op == 'mul':
                return vecop(lambda *xs: math.prod(num(q) for q in xs), *[self.ev(T('conj', z)) for z in a[0].args])
            x = self.ev(a[0])
            if isinstance(x, complex):
                return x.real if op == 'real' else x.conjugate()
            if isinstance(x, tuple):
                if any(isinstance(y, complex) for y in x):
                    return tuple(y.real if op == 'real' else y.conjugate() for y in map(num, x))
                return x
            if op != 'real' and isinstance(a[0], K):
                return x
            if op != 'real' and isinstance(a[0], T) and spectral_vec(a[0]):
                return x
            op = 'conj' if op == 'conjugate' else op
        if op in ('sum', 'sumof') and len(a) == 1:
            x = a[0].args[0] if op == 'sumof' and isinstance(a[0], T) and a[0].op == 'elem' else a[0]
            x = self.ev(x)
            if isinstance(x, tuple):
                return sum(num(y) for y in x)
        if op in ('amax', 'amin', 'max', 'min') and len(a) == 1:
            x = self.ev(a[0])
            if isinstance(x, tuple) and x:
                return (max if 'max' in op else min)(num(y) for y in x)
        if op == 'norm' and len(a) == 1:
            x = self.ev(a[0])
            if isinstance(x, tuple):
                return math.sqrt(sum(abs(num(y)) ** 2 for y in x))
        if op == 'cmp' and len(a) == 3:
            x, y = self.ev(a[1]), self.ev(a[2])
            o = a[0].v if isinstance(a[0], K) else a[0]
            fs = {'Gt': lambda p, q: p > q, 'Lt': lambda p, q: p < q, 'GtE': lambda p, q: p >= q, 'LtE': lambda p, q: p <= q,
                  'Eq': lambda p, q: p == q, 'NotEq': lambda p, q: p != q}
            if o in fs and (isinstance(x, tuple) or isinstance(y, tuple)):
                return vecop(lambda p, q: fs[o](num(p), num(q)), x, y)
        if op == 'count_nonzero' and len(a) == 1:
            x = self.ev(a[0])
            if isinstance(x, tuple):
                return sum(1 for y in x if y)
        if op == 'lt' and len(a) == 2:
            return num(self.ev(a[0])) < num(self.ev(a[1]))
        if op == 'elem' and len(a) >= 1:
            pass
        if op == 'slice':
            x = self.ev(a[0])
            if isinstance(x, tuple) and len(a) == 2 and a[1].op == 'sl' and a[1].args[0] == K(0):
                lo, hi, step = [self.ev(z) for z in a[1].args[1:]]
                for z in (lo, hi, step):
                    if z is not None and not isinstance(z, int):
                        raise Undefined('slice')
                return x[slice(lo, hi, step)]
        if op == 'flip' and len(a) >= 1:
            x = self.ev(a[0])
            if isinstance(x, tuple):
                return tuple(reversed(x))
        if op == 'item' and len(a) == 2:
            x = self.ev(a[0])
            if isinstance(x, tuple) and isinstance(a[1], T) and a[1].op == 'at':
                i = self.ev(a[1].args[1])
                if isinstance(i, int) and -len(x) <= i < len(x):
                    return x[i]
                raise Undefined('item')
        # uninterpreted
        vals = tuple(norm_key(self.ev(x)) for x in a)
        key = (op, vals)
        self.atoms.add(key)
        return self.rnd(key)


def spectral_vec(t):
    return t.op in ('svdS', 'eigW') or (t.op in ('slice', 'sqrt') and isinstance(t.args[0], T) and spectral_vec(t.args[0]))


def fact_holds(it, f, val):
    """None when the fact cannot be evaluated"""
    try:
        v = it.ev(f)
    except (Undefined, OverflowError, TypeError, ValueError, RecursionError):
        return None
    if isinstance(v, bool):
        return v == val
    return None


def close(x, y):
    if isinstance(x, tuple) or isinstance(y, tuple):
        if not (isinstance(x, tuple) and isinstance(y, tuple)):
            return None
        if len(x) != len(y):
            return False
        r = [close(p, q) for p, q in zip(x, y)]
        return False if False in r else None if None in r else True
    if isinstance(x, (int, float, complex)) and isinstance(y, (int, float, complex)):
        return abs(x - y) <= 1e-8 * max(1.0, abs(x), abs(y))
    if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
        return x == y
    return None


def equivalent(x, y, facts=None, trials=6):
    """x: derived, y: specified -> True, False, None"""
    done = 0
    for seed in range(400):
        it = Interp(seed)
        ok = True
        for f, val in list((facts or {}).items()):
            if isinstance(f, T) and f.op == 'lt' and fact_holds(it, f, val) is False:
                ok = False
                break
        if not ok:
            continue
        it.atoms = set()
        try:
            it.memo = {}
            b = it.ev(y)
            spec = set(it.atoms)
            it.memo = {}
            it.atoms = set()
            a = it.ev(x)
            used = set(it.atoms)
        except (Undefined, OverflowError, TypeError, ValueError, RecursionError):
            return None
        c = close(a, b)
        if c is not True:
            if c is False and used <= spec:
                return False
            return None
        done += 1
        if done >= trials:
            return True
    return None
