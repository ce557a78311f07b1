"""Confirmation of a reported difference: two abstract values that are not identical terms are only reported as different
when some valuation of their symbols separates them (ordering, absolute values and roots are interpreted consistently,
everything else is an uninterpreted function of its evaluated arguments)."""
import hashlib, math, time
from fractions import Fraction
import expr as E
import ctx as X
from expr import Poly, D

POS = {'hx', 'hy', 'hz', 'inv_tol', 'width', 'lx', 'ly', 'lz'}


class CannotEval(Exception):
    pass


TAINTED = []        # non-empty: only static objects and hidden inputs count as indeterminate (C24)


class Ap:
    """an inexact value with a bound of its error"""
    __slots__ = ('v', 'e')

    def __init__(self, v, e):
        self.v, self.e = v, e

    @staticmethod
    def of(x):
        if isinstance(x, Ap):
            return x
        v = float(x)
        return Ap(v, abs(v) * 2e-16)

    def __add__(self, o):
        o = Ap.of(o)
        v = self.v + o.v
        return Ap(v, self.e + o.e + abs(v) * 4e-16)
    __radd__ = __add__

    def __neg__(self):
        return Ap(-self.v, self.e)

    def __sub__(self, o):
        return self + (-Ap.of(o))

    def __rsub__(self, o):
        return Ap.of(o) + (-self)

    def __mul__(self, o):
        o = Ap.of(o)
        v = self.v * o.v
        return Ap(v, abs(self.v) * o.e + abs(o.v) * self.e + self.e * o.e + abs(v) * 4e-16)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Ap.of(o)
        if abs(o.v) <= 8 * o.e:
            raise CannotEval('division by zero')
        v = self.v / o.v
        return Ap(v, (self.e + abs(v) * o.e) / (abs(o.v) - o.e) + abs(v) * 4e-16)

    def __rtruediv__(self, o):
        return Ap.of(o) / self

    def __abs__(self):
        return Ap(abs(self.v), self.e)


class Val:
    wild = False

    def __init__(self, seed, strict=False):
        self.seed = seed
        self.strict = strict        # integers of unknown range have no value
        self.memo = {}
        self.am = {}
        self.env = {}
        self.over = {}              # chosen values of single symbols
        self.canon = {}
        self.steps = 0
        self.punning = False
        self.first = False          # loops are looked at in their first iteration
        self.undefsalt = 0          # indeterminate values differ between valuations with different salts

    def h(self, *k):
        b = hashlib.blake2b(repr((self.seed,) + k).encode(), digest_size=8).digest()
        return int.from_bytes(b, 'big') / 2.0 ** 64

    def key(self, x):
        if isinstance(x, (Poly, D)):
            return self.near(self.num(x))
        if isinstance(x, tuple):
            return tuple(self.key(y) for y in x)
        if isinstance(x, E.Atom):
            return self.atom(x)
        if isinstance(x, (str, int, Fraction, bool)) or x is None:
            return str(x)
        return getattr(x, 'name', None) or repr(x)

    def near(self, v):
        """floating-point values that differ by rounding only are the same argument"""
        if not isinstance(v, float) or v == 0:
            return v
        c = self.canon
        k = ['%.9g' % (v * f) for f in (1.0, 1 + 1e-10, 1 - 1e-10)]
        for i in k:
            if i in c:
                return c[i]
        for i in k:
            c[i] = k[0]
        return k[0]

    def pick(self, a, lo, hi, u):
        return lo + int(u * (hi - lo + 1))

    def cv(self, v):
        return float(v)

    def zero(self, v):
        return v == 0

    def neg(self, v):
        return v < 0

    def root(self, v):
        if v < 0:
            raise CannotEval('sqrt of a negative number')
        return math.sqrt(v)

    def num(self, x):
        if isinstance(x, Poly):
            s = 0
            for m, c in x.t.items():
                p = c
                for i in m:
                    p = p * self.atom(E.A(i))
                    if isinstance(p, (int, float, Fraction)) and p == 0:
                        break
                s += p
            if isinstance(s, Fraction) and s.denominator == 1:
                s = int(s)
            return s
        k = (id(x),) + self.rel(x) if self.env else (id(x),)
        if k in self.memo:
            return self.memo[k]
        r = self._num(x)
        if isinstance(r, float) and (r != r or abs(r) == float('inf')):
            raise CannotEval('nan')
        self.memo[k] = r
        return r

    def rel(self, x):
        """the bound variables x depends on, with their values"""
        d = E.deps(x) if isinstance(x, (Poly, D)) else E.adeps(x)
        return tuple((i, self.env[i]) for i in self.env if i in d)

    def _num(self, x):
        self.steps += 1
        if self.steps > 400000:
            raise CannotEval('too large')
        op, a = x.op, x.args
        if op == 'const':
            return self.cv(a[0])
        if op == 'add':
            return self.num(a[0]) + self.num(a[1])
        if op == 'sub':
            return self.num(a[0]) - self.num(a[1])
        if op == 'mul':
            l = self.num(a[0])
            return l * self.num(a[1]) if not isinstance(l, (int, float, Fraction)) or l != 0 else l
        if op == 'neg':
            return -self.num(a[0])
        if op == 'inv':
            v = self.num(a[0])
            if self.zero(v):
                raise CannotEval('division by zero')
            return 1 / v
        if op == 'div':
            v = self.num(a[1])
            if self.zero(v):
                raise CannotEval('division by zero')
            return self.num(a[0]) / v
        if op == 'sqrt':
            return self.root(self.num(a[0]))
        if op == 'sqrtq':
            return self.root(self.cv(Fraction(a[0])))
        if op == 'fabs':
            return abs(self.num(a[0]))
        if op == 'i2d':
            return self.cv(self.num(a[0]))
        if op == 'ite':
            return self.num(a[1]) if self.num(a[0]) else self.num(a[2])
        if op == 'sum':
            T = self.num(a[0])
            if not isinstance(T, int) or T > 400:
                raise CannotEval('sum')
            s = self.cv(0)
            old = self.env
            for t in range(max(T, 0)):
                self.env = dict(old)
                self.env[a[1].id] = t
                s += self.num(a[2])
            self.env = old
            return s
        if op == 'atom':
            return self.cv(self.atom(a[0], True))
        raise CannotEval(op)

    def atom(self, a, dbl=False):
        if a.id in self.env:
            return self.env[a.id]
        if a.id in self.over:
            return self.over[a.id]
        k = (a.id,) + self.rel(a) if self.env else (a.id,)
        if k in self.am:
            return self.am[k]
        r = self._atom(a, dbl)
        self.am[k] = r
        return r

    def _atom(self, a, dbl):
        k = a.kind
        if k == 'fbits' and self.punning:
            return int(self.h(k, self.key(a.args)) * 1000)
        if a.unk:
            raise CannotEval('unknown')
        if k == 'lt0':
            return 1 if self.num(a.args[0]) < 0 else 0
        if k == 'eq0':
            return 1 if self.num(a.args[0]) == 0 else 0
        if k == 'flt0':
            return 1 if self.neg(self.num(a.args[0])) else 0
        if k == 'feq0':
            return 1 if self.zero(self.num(a.args[0])) else 0
        if k == 'frz' or k.endswith('#') and len(a.args) == 1:
            v = self.cv(self.num(a.args[0]))
            if k == 'frz':
                return v
            if k == 'inv#':
                if self.zero(v):
                    raise CannotEval('division by zero')
                return 1 / v
            if k == 'sqrt#':
                return self.root(v)
            if k == 'fabs#':
                return abs(v)
            raise CannotEval(k)
        if k in ('any', 'psum'):
            T = self.num(a.args[0])
            ta = list(a.args[1].atoms())[0]
            if not isinstance(T, int) or T > 400:
                raise CannotEval(k)
            old = self.env
            s = 0
            for t in range(max(T, 0)):
                self.env = dict(old)
                self.env[ta] = t
                s += self.num(a.args[2])
            self.env = old
            return s if k == 'psum' else (1 if s else 0)
        if k in ('sdiv', 'srem'):
            x, y = self.num(a.args[0]), self.num(a.args[1])
            if y == 0:
                raise CannotEval(k)
            q = abs(x) // abs(y)
            q = q if (x < 0) == (y < 0) else -q
            return q if k == 'sdiv' else x - q * y
        if k == 'tau' and self.first:
            return 0
        if k in ('lv', 'lvp', 'H', 'Hb', 'tau', 'tmpiv', 'pfx', 'first', 'iters'):
            raise CannotEval(k)
        if a.id in X.SLACK:
            return self.num(X.SLACK[a.id])
        if a.id in X._default_slack:
            return self.num(X._default_slack[a.id])
        ka = self.key(a.args)
        if k == 'undef' and self.undefsalt and (not TAINTED or str(a.args[0]).startswith(('static ', 'hidden '))):
            ka = (self.undefsalt, ka)
        u = self.h(k, ka)
        if a.id in X._slack_atoms:
            return int(u * 3) + X._shift.get(a.id, 0)
        if not dbl and not a.isbool:
            bd = X._bound(a.id)
            if bd is not None and bd[1] is not None:
                lo, hi = self.num(bd[0]), self.num(bd[1])
                if not isinstance(lo, int) or not isinstance(hi, int) or hi < lo:
                    raise CannotEval('empty range')
                return self.pick(a, lo, hi, u)
            if self.strict:
                raise CannotEval('integer of unknown range')
        if a.isbool:
            return 1 if u < 0.5 else 0
        if k == 'sym':
            n = a.args[0] if isinstance(a.args, tuple) else a.args
            if n in ('nx', 'ny', 'nz'):
                return 3 + int(u * 3)
            return int(u * 4)
        if k == 'dsym':
            n = a.args[0]
            if self.wild:
                return self.special(n in POS, n)
            v = 10.0 ** (u * 3 - 1.5) if n != 'inv_tol' else 10.0 ** (u * 6 - 3)
            w = self.h('sign', n)
            return v if n in POS or w < 0.6 else -v
        if k == 'sqrt' or k == 'fabs':
            raise CannotEval(k)
        if not dbl:
            if k == 'undef':
                return int((u - 0.5) * 2 ** (2 + int(self.h('w', ka) * 28)))
            return int(self.h('i', k, ka) * 4)
        if self.wild:
            return self.special(k == 'init' and a.args[0] == 'params', k, ka)
        v = 10.0 ** (self.h('m', k, ka) * 2 - 1)
        return v if u < 0.5 else -v


class Extreme(Val):
    """valuations near the ends of the ranges of the integers"""

    def __init__(self, seed):
        Val.__init__(self, seed, True)
        self.used = {}

    def pick(self, a, lo, hi, u):
        w = self.h('end', a.kind, self.key(a.args))
        v = lo if w < 0.2 else hi if w > 0.4 else lo + int(u * (hi - lo + 1))
        self.used[a.name or a.kind] = v
        return v

    def shown(self):
        n = {}
        for s in ('nx', 'ny', 'nz'):
            p = getattr(X, s.upper(), None)
            if p is not None:
                try:
                    n[s] = self.num(p)
                except CannotEval:
                    pass
        n.update(self.used)
        return ', '.join('%s=%s' % (k, v) for k, v in list(n.items())[:8])


class Wild(Val):
    """valuations with zeros, ties, and very small and large magnitudes; exact rational arithmetic, and bounds of the error where
    a root is irrational, so that a tie is a tie"""
    wild = True

    def __init__(self, seed, strict=False):
        Val.__init__(self, ('wild', seed), strict)
        self.mode = seed % 6
        self.n = seed

    def special(self, pos, *k):
        u, w = self.h('w', *k), self.h('x', *k)
        if pos:
            return Fraction(1 + int(u * 4), 1 + int(w * 4))
        m = self.mode
        if m == 0:
            return Fraction(int(u * 3) - 1)
        if m == 1:
            return (Fraction(int(u * 3) - 1)) / 10 ** 12
        if m == 2:
            return Fraction(int(u * 7) - 3) * 1000
        if m == 3:
            return Fraction(0) if u < 0.8 else Fraction(1 if w < 0.5 else -1)
        if m == 4:
            return Fraction(0) if u < 0.3 else (Fraction(10) ** (3 * int(w * 6) - 12)) * (1 if u < 0.65 else -1)
        return Fraction(int(u * 9) - 4, 10 ** 6)

    def cv(self, v):
        if isinstance(v, Ap):
            return v
        if isinstance(v, float):
            return Ap.of(v)
        return Fraction(v)

    def near(self, v):
        if isinstance(v, Ap):
            if abs(v.v) <= 1e8 * v.e:
                raise CannotEval('inexact argument')
            return Val.near(self, v.v)
        return v

    def _num(self, x):
        r = Val._num(self, x)
        if isinstance(r, Fraction) and r.denominator.bit_length() + r.numerator.bit_length() > 4000:
            raise CannotEval('too long')
        return r

    def zero(self, v):
        if isinstance(v, Ap):
            if abs(v.v) <= 8 * v.e:
                raise CannotEval('tie')
            return False
        return v == 0

    def neg(self, v):
        if isinstance(v, Ap):
            self.zero(v)
            return v.v < 0
        return v < 0

    def root(self, v):
        if self.neg(v):
            raise CannotEval('sqrt of a negative number')
        if isinstance(v, Ap):
            r = math.sqrt(v.v)
            return Ap(r, v.e / r + r * 4e-16)
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return Fraction(n, d)
        return Ap.of(math.sqrt(v))


LIMIT = 8.0
BUDGET = [150.0]        # seconds for all searches of a process; short searches afterwards


def evaluate(v, a, b, guard, tune):
    if tune is not None:
        tune(v)
    if guard is not None and not v.num(guard):
        return None
    return v.num(a), v.num(b)


ERRS = (CannotEval, OverflowError, ZeroDivisionError, RecursionError)


def separated(a, b, guard=None, n=60, strict=False, tune=None):
    """True: some valuation separates a and b; False: none of those tried does; None: they cannot be evaluated"""
    t0 = time.time()
    try:
        return _separated(a, b, guard, n, strict, tune, t0, LIMIT if BUDGET[0] > 0 else 0.5)
    finally:
        BUDGET[0] -= time.time() - t0


def _separated(a, b, guard, n, strict, tune, t0, limit):
    good = sep = big = 0
    if guard is not None and tune is None:
        n *= 6
    for s in range(n):
        v = Val(s, strict)
        try:
            r = evaluate(v, a, b, guard, tune)
        except ERRS as e:
            if str(e) == 'too large':
                big += 1
            if big > 2 or time.time() - t0 > limit:
                break
            continue
        if r is None:
            if time.time() - t0 > limit:
                break
            continue
        x, y = r
        good += 1
        if abs(x - y) > 1e-7 * max(abs(x), abs(y)) + 1e-300:
            sep += 1
            if sep >= 2 or abs(x - y) > 1e-4 * max(abs(x), abs(y)):
                return True
        if good >= 24 or time.time() - t0 > limit:
            break
    if big <= 2:
        t0 = time.time()
        for s in range(n):
            if time.time() - t0 > limit:
                break
            v = Wild(s, strict)
            try:
                r = evaluate(v, a, b, guard, tune)
                if r is None:
                    continue
                x, y = (v.cv(q) for q in r)
                good += 1
                d = x - y
                if not v.zero(d) and abs(float(getattr(d, 'v', d))) > 1e-7 * max(abs(float(getattr(q, 'v', q))) for q in (x, y)):
                    return True
            except ERRS:
                continue
    return False if good >= 8 else None
