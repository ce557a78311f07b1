"""Value domain of the analysis.

ints / bools : exact multivariate polynomials (Poly) over interned atoms;
               boolean atoms are idempotent, so ite(c,a,b) = c*a+(1-c)*b is canonical.
doubles      : hash-consed DAG nodes (D) interned by their canonical value number in a
               prime field (random interpretation / global value numbering), multilinear
               over boolean atoms.  Equal value numbers <=> equal terms of the theory of
               commutative fields with uninterpreted atoms, up to ~deg/2^90 probability.
"""
import hashlib, os
from fractions import Fraction

# prime p = 3 mod 4 with 2,3,5,7 quadratic residues (found by _find_prime)
def _is_prime(n):
    if n % 2 == 0:
        return n == 2
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if a % n == 0:
            continue
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def _find_prime(start):
    p = start
    while True:
        if p % 4 == 3 and all(pow(q, (p - 1) // 2, p) == 1 for q in (2, 3, 5, 7)) and _is_prime(p):
            return p
        p += 1


PRIME = _find_prime((1 << 89) + 12345)
P = PRIME
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def set_seed(s):
    global SEED
    SEED = int(s)


def gfhash(*key):
    h = hashlib.blake2b(repr((SEED,) + key).encode(), digest_size=16).digest()
    v = int.from_bytes(h, 'big') % P
    return v or 1


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ('id', 'kind', 'args', 'gf', 'isbool', 'unk', 'undef', 'name', '_deps', 'meta')

    def __repr__(self):
        return self.name


_atoms = []
_atab = {}


def _canon(a):
    """hashable key, stable across runs (contents only)."""
    if isinstance(a, Poly):
        return ('P', a.key())
    if isinstance(a, D):
        return ('D', a.vkey())
    if isinstance(a, tuple):
        return tuple(_canon(x) for x in a)
    return a


def _stable(a):
    """like _canon, but using gf fingerprints so that it does not depend on atom ids."""
    if isinstance(a, Poly):
        return ('P', a.fp())
    if isinstance(a, D):
        return ('D', a.fp())
    if isinstance(a, tuple):
        return tuple(_stable(x) for x in a)
    return a


def atom(kind, args, isbool=False, unk=False, undef=False, name=None):
    k = (kind, _canon(args), isbool)
    a = _atab.get(k)
    if a is not None:
        return a
    a = Atom()
    a.id = len(_atoms)
    a.kind = kind
    a.args = args
    a.isbool = isbool
    a.gf = gfhash(kind, _stable(args))
    fl = _flags(args)
    a.unk = unk or fl[0]
    a.undef = undef or fl[1]
    a.name = name or ('%s(%s)' % (kind, ','.join(map(_show, args if isinstance(args, tuple) else (args,)))))
    a._deps = None
    a.meta = None
    _atoms.append(a)
    _atab[k] = a
    return a


def _show(x):
    s = str(x)
    return s if len(s) < 160 else s[:157] + '...'


def _flags(args):
    u = d = False
    if isinstance(args, (Poly, D)):
        return args.unk, args.undef
    if isinstance(args, tuple):
        for x in args:
            a, b = _flags(x)
            u = u or a
            d = d or b
    return u, d


def A(i):
    return _atoms[i]


# ------------------------------------------------------------------ polynomials
class Poly:
    __slots__ = ('t', '_k', '_val', '_fl', '_fp')

    def __init__(self, t):
        self.t = t
        self._k = None
        self._val = None
        self._fl = None
        self._fp = None

    def key(self):
        k = self._k
        if k is None:
            k = self._k = frozenset(self.t.items())
        return k

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def isconst(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def const(self):
        return self.t.get((), 0)

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    @property
    def unk(self):
        return self._getfl()[0]

    @property
    def undef(self):
        return self._getfl()[1]

    def _getfl(self):
        if self._fl is None:
            u = d = False
            for i in self.atoms():
                a = _atoms[i]
                u = u or a.unk
                d = d or a.undef
            self._fl = (u, d)
        return self._fl

    def fp(self):
        """id-independent fingerprint"""
        if self._fp is None:
            v = 0
            for m, c in self.t.items():
                x = _gfq(c)
                for i in m:
                    x = x * _atoms[i].gf % P
                v += x
            self._fp = v % P
        return self._fp

    def val(self):
        """gf value, multilinear dict over bool atoms or int"""
        v = self._val
        if v is None:
            d = {}
            for m, c in self.t.items():
                x = _gfq(c)
                bs = []
                for i in m:
                    a = _atoms[i]
                    if a.isbool:
                        bs.append(i)
                    else:
                        x = x * a.gf % P
                k = tuple(bs)
                d[k] = (d.get(k, 0) + x) % P
            v = self._val = _norm(d)
        return v

    def __add__(self, o):
        if not isinstance(o, Poly):
            o = C(o)
        if len(o.t) > len(self.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            x = t.get(m, 0) + c
            if x:
                t[m] = x
            else:
                t.pop(m, None)
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if not isinstance(o, Poly):
            o = C(o)
        return self + (-o)

    def __rsub__(self, o):
        return C(o) - self

    def __mul__(self, o):
        if not isinstance(o, Poly):
            if o == 0:
                return ZERO
            return Poly({m: c * o for m, c in self.t.items()})
        if len(o.t) == 1 and () in o.t:
            c0 = o.t[()]
            return Poly({m: c * c0 for m, c in self.t.items()})
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mmul(m1, m2)
                x = t.get(m, 0) + c1 * c2
                if x:
                    t[m] = x
                else:
                    t.pop(m, None)
        return Poly(t)

    __rmul__ = __mul__

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (-len(x[0]), x[0])):
            names = [_atoms[i].name for i in m]
            if not names:
                s = str(c)
            elif c == 1:
                s = '*'.join(names)
            elif c == -1:
                s = '-' + '*'.join(names)
            else:
                s = '%s*%s' % (c, '*'.join(names))
            out.append(s)
        return '+'.join(out).replace('+-', '-')

    def coeff(self, i):
        """split p = a*x + b with x=atom i (must be linear); returns (a,b) or None"""
        a, b = {}, {}
        for m, c in self.t.items():
            n = m.count(i)
            if n == 0:
                b[m] = c
            elif n == 1:
                l = list(m)
                l.remove(i)
                a[tuple(l)] = c
            else:
                return None
        return Poly(a), Poly(b)


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    l = sorted(a + b)
    # idempotent bools
    out = []
    prev = -1
    for i in l:
        if i == prev and _atoms[i].isbool:
            continue
        out.append(i)
        prev = i
    return tuple(out)


def _gfq(c):
    if isinstance(c, int):
        return c % P
    return c.numerator % P * pow(c.denominator, P - 2, P) % P


def C(c):
    return Poly({(): c}) if c else ZERO


ZERO = Poly({})
ONE = Poly({(): 1})


def V(a):
    return Poly({(a.id,): 1})


def sym(name, isbool=False):
    return V(atom('sym', (name,), isbool=isbool, name=name))


def exact_div(p, q):
    """polynomial division p/q when exact, else None (multivariate, lex lead)."""
    if q.isconst():
        c = q.const()
        if c == 0:
            return None
        t = {}
        for m, x in p.t.items():
            y = Fraction(x) / c
            if y.denominator != 1:
                return None
            t[m] = int(y)
        return Poly(t)
    lead = max(q.t, key=lambda m: (len(m), m))
    lc = q.t[lead]
    r = p
    out = ZERO
    for _ in range(400):
        if not r.t:
            return out
        m = max(r.t, key=lambda m: (len(m), m))
        l = list(m)
        ok = True
        for i in lead:
            if i in l:
                l.remove(i)
            else:
                ok = False
                break
        if not ok:
            return None
        c = Fraction(r.t[m]) / lc
        if c.denominator != 1:
            return None
        term = Poly({tuple(l): int(c)})
        out = out + term
        r = r - term * q
    return None


# ------------------------------------------------------------------ gf multilinear
def _norm(d):
    for k in [k for k, v in d.items() if not v]:
        del d[k]
    if not d:
        return 0
    if len(d) == 1 and () in d:
        return d[()]
    return d


def vadd(a, b):
    if type(a) is int and type(b) is int:
        return (a + b) % P
    d = dict(a) if type(a) is dict else {(): a}
    if type(b) is dict:
        for k, v in b.items():
            d[k] = (d.get(k, 0) + v) % P
    else:
        d[()] = (d.get((), 0) + b) % P
    return _norm(d)


def vscale(a, s):
    if type(a) is int:
        return a * s % P
    return _norm({k: v * s % P for k, v in a.items()})


def vmul(a, b):
    if type(a) is int:
        if type(b) is int:
            return a * b % P
        return vscale(b, a)
    if type(b) is int:
        return vscale(a, b)
    d = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            k = k1 if k1 == k2 else (k2 if not k1 else (k1 if not k2 else tuple(sorted(set(k1 + k2)))))
            d[k] = (d.get(k, 0) + v1 * v2) % P
    return _norm(d)


def vkey(v):
    if type(v) is int:
        return v
    return frozenset(v.items())


def vrestrict(v, bid, bit):
    if type(v) is int:
        return v
    d = {}
    for k, x in v.items():
        if bid in k:
            if not bit:
                continue
            k = tuple(i for i in k if i != bid)
        d[k] = (d.get(k, 0) + x) % P
    return _norm(d)


# ------------------------------------------------------------------ double nodes
class D:
    __slots__ = ('op', 'args', 'v', '_vk', 'unk', 'undef', 'hassum', '_deps', '_fp', 'num')

    def vkey(self):
        k = self._vk
        if k is None:
            k = self._vk = vkey(self.v)
        return k

    def fp(self):
        if self._fp is None:
            v = self.v
            if type(v) is int:
                self._fp = v
            else:
                s = 0
                for k, x in v.items():
                    for i in k:
                        x = x * _atoms[i].gf % P
                    s += x
                self._fp = s % P
        return self._fp

    def isconst(self):
        return self.op == 'const'

    def const(self):
        return self.args[0]

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        return add(self, o)

    def __sub__(self, o):
        return sub(self, o)

    def __mul__(self, o):
        return mul(self, o)

    def __truediv__(self, o):
        return div(self, o)

    def __neg__(self):
        return neg(self)


_dtab = {}


def show(n, depth=6):
    if n.op == 'const':
        return str(n.args[0])
    if depth == 0:
        return '..'
    if n.op in ('add', 'mul', 'div', 'sub'):
        s = {'add': '+', 'mul': '*', 'div': '/', 'sub': '-'}[n.op]
        return '(' + s.join(show(a, depth - 1) for a in n.args) + ')'
    if n.op == 'atom':
        return n.args[0].name
    if n.op == 'neg':
        return '-' + show(n.args[0], depth - 1)
    if n.op == 'i2d':
        return 'i2d[%r]' % (n.args[0],)
    if n.op == 'ite':
        return 'ite(%r, %s, %s)' % (n.args[0], show(n.args[1], depth - 1), show(n.args[2], depth - 1))
    if n.op == 'sum':
        return 'Sum[%s<%r](%s)' % (n.args[1].name, n.args[0], show(n.args[2], depth - 1))
    return '%s(%s)' % (n.op, ', '.join(show(a, depth - 1) if isinstance(a, D) else str(a) for a in n.args))


def mk(op, args, v, unk=False, undef=False, hassum=False):
    k = vkey(v)
    n = _dtab.get(k)
    if n is not None:
        return n
    n = D()
    n.op = op
    n.args = args
    n.v = v
    n._vk = k
    n._fp = None
    n._deps = None
    n.num = None
    if not (unk and undef and hassum):
        for a in args:
            if isinstance(a, (D, Poly)):
                unk = unk or a.unk
                undef = undef or a.undef
                if isinstance(a, D):
                    hassum = hassum or a.hassum
            elif isinstance(a, Atom):
                unk = unk or a.unk
                undef = undef or a.undef
    n.unk, n.undef, n.hassum = unk, undef, hassum
    _dtab[k] = n
    return n


def dconst(q):
    q = Fraction(q)
    return mk('const', (q,), _gfq(q))


D0 = dconst(0)
D1 = dconst(1)
DM1 = dconst(-1)

_SQ = {q: pow(q, (P + 1) // 4, P) for q in (2, 3, 5, 7)}


def _sqrt_rational(q):
    """node for sqrt of positive rational with prime factors in {2,3,5,7}."""
    n, d = q.numerator, q.denominator
    v = 1
    out = 1
    for x, inv in ((n, False), (d, True)):
        for pr in (2, 3, 5, 7):
            e = 0
            while x % pr == 0:
                x //= pr
                e += 1
            f = pow(pr, e // 2, P)
            if e % 2:
                f = f * _SQ[pr] % P
            if inv:
                f = pow(f, P - 2, P)
            v = v * f % P
        # perfect square remainder
        if x != 1:
            r = int(round(x ** 0.5))
            if r * r != x:
                return None
            f = r % P
            if inv:
                f = pow(f, P - 2, P)
            v = v * f % P
    num = Fraction(1)
    rn, rd = _isqrt(n), _isqrt(d)
    if rn * rn == n and rd * rd == d:
        return dconst(Fraction(rn, rd))
    return mk('sqrtq', (str(q),), v)


def _isqrt(n):
    import math
    return math.isqrt(n)


_fcache = {}


def dfloat(x):
    n = _fcache.get(x)
    if n is not None:
        return n
    if x != x or x in (float('inf'), float('-inf')):
        n = datom('fpconst', (repr(x),))
        _fcache[x] = n
        return n
    if x == 0:
        n = D0
    else:
        f = Fraction(x)
        s = f.limit_denominator(10000)
        if s != 0 and abs(s - f) <= abs(f) * Fraction(4, 10 ** 16):
            n = dconst(s)
        else:
            sq = f * f
            s2 = sq.limit_denominator(1000)
            nn = None
            if s2 != 0 and abs(s2 - sq) <= abs(sq) * Fraction(2, 10 ** 14):
                nn = _sqrt_rational(s2)
                if nn is not None and x < 0:
                    nn = neg(nn)
            n = nn if nn is not None else dconst(Fraction(repr(x)))
    _fcache[x] = n
    return n


def datom(kind, args, unk=False, undef=False, name=None):
    a = atom(kind, args, unk=unk, undef=undef, name=name)
    return mk('atom', (a,), a.gf, unk=a.unk, undef=a.undef)


def dsym(name):
    return datom('dsym', (name,), name=name)


def i2d(p):
    if p.isconst():
        return dconst(p.const())
    return mk('i2d', (p,), p.val())


def freeze(n):
    if not n.hassum:
        return n
    if n.op == 'mul':
        # keep scalar factors outside
        s = [a for a in n.args if a.hassum]
        o = [a for a in n.args if not a.hassum]
        if len(s) == 1 and o:
            return mul(freeze(s[0]), o[0])
    if n.op == 'neg':
        return neg(freeze(n.args[0]))
    a = atom('frz', (n,))
    # frozen sums are opaque reals
    return mk('atom', (a,), a.gf, unk=n.unk, undef=n.undef)


def add(a, b):
    if a is D0:
        return b
    if b is D0:
        return a
    if a.op == 'const' and b.op == 'const':
        return dconst(a.args[0] + b.args[0])
    return mk('add', (a, b), vadd(a.v, b.v))


def neg(a):
    if a.op == 'const':
        return dconst(-a.args[0])
    if a.op == 'neg':
        return a.args[0]
    return mk('neg', (a,), vscale(a.v, P - 1))


def sub(a, b):
    if b is D0:
        return a
    if a.op == 'const' and b.op == 'const':
        return dconst(a.args[0] - b.args[0])
    return mk('sub', (a, b), vadd(a.v, vscale(b.v, P - 1)))


def mul(a, b):
    if a is D0 or b is D0:
        return D0
    if a is D1:
        return b
    if b is D1:
        return a
    if a.op == 'const' and b.op == 'const':
        return dconst(a.args[0] * b.args[0])
    if a.hassum and b.hassum:
        a, b = freeze(a), freeze(b)
    return mk('mul', (a, b), vmul(a.v, b.v))


MAXLIFT = 9


def boolids(n):
    v = n.v if isinstance(n, D) else n.val()
    if type(v) is int:
        return ()
    s = set()
    for k in v:
        s.update(k)
    return s


def restrict(n, bid, bit):
    """n with boolean atom bid fixed."""
    if isinstance(n, D):
        v = vrestrict(n.v, bid, bit)
        if v is n.v:
            return n
        r = _dtab.get(vkey(v))
        if r is not None:
            return r
        return subst(n, {bid: ONE if bit else ZERO})
    return subst(n, {bid: ONE if bit else ZERO})


def lift(fn, n, failname):
    if type(n.v) is int:
        return fn(n)
    n2 = freeze(n) if n.hassum else n
    if n2 is not n:
        return lift(fn, n2, failname)
    bs = sorted(boolids(n))
    if len(bs) > MAXLIFT:
        a = atom(failname + '#', (n,))
        return mk('atom', (a,), a.gf, unk=n.unk, undef=n.undef)
    b = bs[0]
    x1 = lift(fn, restrict(n, b, 1), failname)
    x0 = lift(fn, restrict(n, b, 0), failname)
    return ite(V(_atoms[b]), x1, x0)


def inv(n):
    def f(x):
        x = freeze(x)
        if x.v == 0:
            return datom('div0', (x,), unk=True)
        if x.op == 'const':
            return dconst(1 / x.args[0])
        if x.op == 'inv':
            return x.args[0]
        return mk('inv', (x,), pow(x.v, P - 2, P))
    return lift(f, n, 'inv')


def div(a, b):
    if b.op == 'const' and b.args[0] != 0:
        if a.op == 'const':
            return dconst(a.args[0] / b.args[0])
        return mul(a, dconst(1 / b.args[0]))
    if a is D0 and b.v != 0:
        return D0
    return mul(a, inv(b))


def sqrt(n):
    def f(x):
        if x.op == 'const':
            q = x.args[0]
            if q == 0:
                return D0
            if q > 0:
                r = _sqrt_rational(q)
                if r is not None:
                    return r
        x = freeze(x)
        return mk('sqrt', (x,), atom('sqrt', (x,)).gf)
    return lift(f, n, 'sqrt')


def fabs(n):
    def f(x):
        if x.op == 'const':
            return dconst(abs(x.args[0]))
        y = neg(x)
        if y.fp() < x.fp():
            x = y
        if x.op == 'neg':
            x = freeze(x.args[0])
        x = freeze(x)
        return mk('fabs', (x,), atom('fabs', (x,)).gf)
    return lift(f, n, 'fabs')


def fcall(name, args, unk=False):
    """uninterpreted real function"""
    return datom('fn:' + name, tuple(args), unk=unk)


def ite(c, a, b):
    """c: boolean Poly; a, b: D"""
    if c.isconst():
        return a if c.const() else b
    if a is b:
        return a
    cv = c.val()
    v = vadd(vmul(cv, a.v), vmul(vadd(1, vscale(cv, P - 1)), b.v))
    return mk('ite', (c, a, b), v)


def pite(c, a, b):
    """int/bool ite"""
    if c.isconst():
        return a if c.const() else b
    if a == b:
        return a
    return c * a + (ONE - c) * b


def bnot(c):
    return ONE - c


def band(a, b):
    return a * b


def bor(a, b):
    return a + b - a * b


# comparisons -----------------------------------------------------------------
def plift(fn, p):
    bs = sorted(i for i in p.atoms() if _atoms[i].isbool)
    if not bs:
        return fn(p)
    if len(bs) > MAXLIFT:
        return V(atom('plift#', (p,), isbool=True, unk=True))
    b = bs[0]
    x1 = plift(fn, subst(p, {b: ONE}))
    x0 = plift(fn, subst(p, {b: ZERO}))
    return pite(V(_atoms[b]), x1, x0)


DECIDE = None   # hook: fn(poly) -> 'neg','nonneg','zero','nonzero' or None


def lt0(p):
    """p < 0 for integer p"""
    def f(p):
        if p.isconst():
            return ONE if p.const() < 0 else ZERO
        if DECIDE:
            r = DECIDE(p)
            if r == 'neg':
                return ONE
            if r in ('nonneg', 'zero'):
                return ZERO
        q = -p - 1      # p<0  <=>  not (q < 0)
        if _pref(q, p):
            return ONE - V(atom('lt0', (q,), isbool=True))
        return V(atom('lt0', (p,), isbool=True))
    return plift(f, p)


def _pref(q, p):
    """choose canonical polarity: leading non-constant coefficient positive"""
    m = min((m for m in p.t if m), key=lambda m: (tuple(sorted(_atoms[i].gf for i in m))))
    return p.t[m] < 0


def eq0(p):
    def f(p):
        if p.isconst():
            return ONE if p.const() == 0 else ZERO
        if DECIDE:
            r = DECIDE(p)
            if r == 'zero':
                return ONE
            if r == 'neg' or r == 'nonzero':
                return ZERO
            r2 = DECIDE(-p)
            if r2 == 'neg':
                return ZERO
        q = -p
        if _pref(q, p):
            p = q
        return V(atom('eq0', (p,), isbool=True))
    return plift(f, p)


NUMSIGN = None  # hook: sign of a double node under assumptions: '+','-','0+','0-','0'


NEGS = {'+': '-', '-': '+', '0+': '0-', '0-': '0+', '0': '0', None: None}


def dsign(x, depth=6):
    """sign of a double term from its shape: '+', '-', '0+', '0-', '0' or None"""
    if depth == 0:
        return None
    op = x.op
    if op == 'const':
        c = x.args[0]
        return '+' if c > 0 else '-' if c < 0 else '0'
    if op == 'fabs' or op == 'sqrt':
        return '0+'
    if op == 'sqrtq':
        return '+'
    if op == 'neg':
        return NEGS[dsign(x.args[0], depth - 1)]
    if op in ('add', 'sub'):
        a = dsign(x.args[0], depth - 1)
        if a is None:
            return None
        b = dsign(x.args[1], depth - 1)
        if op == 'sub':
            b = NEGS[b]
        if b is None:
            return None
        if a == '0':
            return b
        if b == '0':
            return a
        if a[-1] == b[-1]:
            return a if len(a) == 1 else b if len(b) == 1 else a
        return None
    if op == 'mul':
        if x.args[0] is x.args[1]:
            return '0+'
        a, b = dsign(x.args[0], depth - 1), dsign(x.args[1], depth - 1)
        if a is None or b is None:
            return None
        if '0' in (a, b):
            return '0'
        s = '+' if a[-1] == b[-1] else '-'
        return s if len(a) == len(b) == 1 else '0' + s
    return None


def flt0(n):
    """n < 0 for a double"""
    def f(x):
        if x.op == 'const':
            return ONE if x.args[0] < 0 else ZERO
        s = NUMSIGN(x) if NUMSIGN else dsign(x)
        if s == '-':
            return ONE
        if s in ('+', '0+', '0'):
            return ZERO
        x = freeze(x)
        return V(atom('flt0', (x,), isbool=True))
    return _liftb(f, n)


def feq0(n):
    def f(x):
        if x.op == 'const':
            return ONE if x.args[0] == 0 else ZERO
        x = freeze(x)
        y = neg(x)
        if y.fp() < x.fp():
            x = y
        return V(atom('feq0', (x,), isbool=True))
    return _liftb(f, n)


def _liftb(fn, n):
    if n.hassum:
        n = freeze(n)
    if type(n.v) is int:
        return fn(n)
    bs = sorted(boolids(n))
    if len(bs) > MAXLIFT:
        return V(atom('fcmp#', (n,), isbool=True, unk=True))
    b = bs[0]
    return pite(V(_atoms[b]), _liftb(fn, restrict(n, b, 1)), _liftb(fn, restrict(n, b, 0)))


# integer division ------------------------------------------------------------
def pdiv(a, b):
    if b.isconst() and b.const() == 0:
        return V(atom('sdiv', (a, b), unk=True))
    if a.isconst() and b.isconst():
        x, y = a.const(), b.const()
        q = abs(x) // abs(y)
        return C(q if (x < 0) == (y < 0) else -q)
    q = exact_div(a, b)
    if q is not None:
        return q
    if SIMPDIV:
        r = SIMPDIV(a, b)
        if r is not None:
            return r[0]
    return V(atom('sdiv', (a, b)))


def prem(a, b):
    if b.isconst() and b.const() == 0:
        return V(atom('srem', (a, b), unk=True))
    if a.isconst() and b.isconst():
        x, y = a.const(), b.const()
        r = abs(x) % abs(y)
        return C(-r if x < 0 else r)
    if exact_div(a, b) is not None:
        return ZERO
    if SIMPDIV:
        r = SIMPDIV(a, b)
        if r is not None:
            return r[1]
    return V(atom('srem', (a, b)))


SIMPDIV = None   # hook: (a,b) -> (quot, rem) polys when decidable


# sums ------------------------------------------------------------------------
def tau(T, used):
    d = 0
    while True:
        a = atom('tau', (T, d))
        if a.id not in used:
            return a
        d += 1


def dsum(T, iv, body):
    """Sum_{iv=0}^{T-1} body"""
    if body is D0:
        return D0
    if iv.id not in deps(body):
        return mul(i2d(T), body)
    r = single_term(T, iv, body)
    if r is not None:
        return r
    ta = tau(T, deps(body))
    b2 = subst(body, {iv.id: V(ta)})
    return mk('sum', (T, ta, b2), sumv(T, ta, b2), hassum=True)


def single_term(T, iv, body):
    """a body that is zero unless iv equals one given value in range"""
    for i in deps(body):
        a = _atoms[i]
        if a.kind != 'eq0' or not isinstance(a.args[0], Poly) or iv.id not in a.args[0].atoms():
            continue
        c = a.args[0].coeff(iv.id)
        if c is None or not c[0].isconst() or abs(c[0].const()) != 1:
            continue
        sol = -c[1] * c[0].const()
        if iv.id in deps(sol) or DECIDE(sol) not in ('zero', 'nonneg') or DECIDE(T - 1 - sol) not in ('zero', 'nonneg'):
            continue
        if subst(body, {i: ZERO}) is D0:
            return subst(subst(body, {i: ONE}), {iv.id: sol})
    return None


def sumv(T, ta, b):
    """value of a sum: linear in the body and unchanged when the order of summation is reversed"""
    r = subst(b, {ta.id: T - 1 - V(ta)})
    return vscale(vadd(b.v, r.v), gfhash('kappa', T.fp()))


def psum(T, iv, body):
    if not body.t:
        return ZERO
    if iv.id not in deps(body):
        return T * body
    ta = tau(T, deps(body))
    b2 = subst(body, {iv.id: V(ta)})
    return V(atom('psum', (T, ta_key(ta), b2)))


def ta_key(ta):
    return V(ta)


def anyof(T, iv, cond):
    if cond.isconst():
        if cond.const() == 0:
            return ZERO
        return ONE - lt0(T - 1)
    if iv.id not in deps(cond):
        return cond * (ONE - lt0(T - 1))
    ta = tau(T, deps(cond))
    b2 = subst(cond, {iv.id: V(ta)})
    return V(atom('any', (T, V(ta), b2), isbool=True))


# dependencies ---------------------------------------------------------------
def deps(x):
    """set of ids of atoms occurring (transitively) in x"""
    if isinstance(x, Poly):
        s = set()
        for i in x.atoms():
            s |= adeps(_atoms[i])
        return s
    if isinstance(x, D):
        if x._deps is not None:
            return x._deps
        # iterative to avoid deep recursion
        st = [x]
        while st:
            n = st[-1]
            if n._deps is not None:
                st.pop()
                continue
            pend = [a for a in n.args if isinstance(a, D) and a._deps is None]
            if pend:
                st.extend(pend)
                continue
            s = set()
            for a in n.args:
                if isinstance(a, D):
                    s |= a._deps
                elif isinstance(a, Poly):
                    s |= deps(a)
                elif isinstance(a, Atom):
                    s |= adeps(a)
            n._deps = frozenset(s)
            st.pop()
        return x._deps
    if isinstance(x, tuple):
        s = set()
        for a in x:
            if isinstance(a, (Poly, D, tuple)):
                s |= deps(a)
        return s
    return set()


def adeps(a):
    if a._deps is None:
        s = {a.id}
        for x in (a.args if isinstance(a.args, tuple) else (a.args,)):
            if isinstance(x, (Poly, D, tuple)):
                s |= deps(x)
        a._deps = frozenset(s)
    return a._deps


# substitution ---------------------------------------------------------------
_tmpc = [0]


def _tmpn():
    _tmpc[0] += 1
    return _tmpc[0]


class Subst:
    """map: atom id -> Poly or D (for double atoms).  ldfn(atom)->value or None rewrites load atoms."""

    def __init__(self, m, ldfn=None, atomfn=None):
        self.m = m
        self.ids = set(m)
        self.ldfn = ldfn
        self.atomfn = atomfn
        self.md = {}
        self.ma = {}

    def hits(self, dp):
        if self.ldfn or self.atomfn:
            return True
        ids = self.ids
        if len(ids) < len(dp):
            for i in ids:
                if i in dp:
                    return True
            return False
        return bool(ids & dp)

    def val(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, D):
            return self.node(x)
        if isinstance(x, tuple):
            return tuple(self.val(a) for a in x)
        if hasattr(x, 'subst'):
            return x.subst(self)
        return x

    def poly(self, p):
        ats = p.atoms()
        rep = {}
        for i in ats:
            r = self.atomv(_atoms[i])
            if r is not None:
                rep[i] = r
        if not rep:
            return p
        out = {}
        res = ZERO
        for m, c in p.t.items():
            if not any(i in rep for i in m):
                x = out.get(m, 0) + c
                if x:
                    out[m] = x
                else:
                    out.pop(m, None)
                continue
            keep = []
            term = None
            for i in m:
                r = rep.get(i)
                if r is None:
                    keep.append(i)
                else:
                    term = r if term is None else term * r
            res = res + term * Poly({tuple(keep): c})
        return res + Poly(out)

    def atomv(self, a):
        """replacement Poly (or D) for atom, or None when unchanged"""
        if a.id in self.ma:
            return self.ma[a.id]
        r = self.m.get(a.id)
        if r is None:
            if self.atomfn:
                r = self.atomfn(a, self)
            if r is None and self.ldfn and a.kind in ('ld', 'bld', 'dld'):
                r = self.ldfn(a, self)
            if r is None and a.args and self.hits(adeps(a)) and a.kind not in ('sym', 'dsym'):
                r = self.rebuild(a)
        self.ma[a.id] = r
        return r

    def rebuild(self, a):
        na = tuple(self.val(x) for x in a.args)
        if all(x is y or x == y for x, y in zip(na, a.args)):
            return None
        k = a.kind
        if k == 'lt0':
            return lt0(na[0])
        if k == 'eq0':
            return eq0(na[0])
        if k == 'flt0':
            return flt0(na[0])
        if k == 'feq0':
            return feq0(na[0])
        if k == 'sdiv':
            return pdiv(na[0], na[1])
        if k == 'srem':
            return prem(na[0], na[1])
        if k == 'frz':
            return freeze(na[0])
        if k in ('any', 'psum'):
            T, ta, b = na
            if len(ta.t) == 1 and list(ta.t.values())[0] == 1:
                ida = list(ta.t)[0][0]
                fresh = atom('tmpiv', (_tmpn(),))
                b2 = subst(b, {ida: V(fresh)})
                return (anyof if k == 'any' else psum)(T, fresh, b2)
        if k == 'tau':
            return None
        n = atom(k, na, isbool=a.isbool, unk=a.unk, undef=a.undef)
        return V(n)

    def node(self, n):
        md = self.md
        r = md.get(n)
        if r is not None:
            return r
        if not self.hits(deps(n)):
            return n
        # iterative postorder
        st = [n]
        while st:
            x = st[-1]
            if x in md:
                st.pop()
                continue
            pend = [a for a in x.args if isinstance(a, D) and a not in md and self.hits(deps(a))]
            if pend:
                st.extend(pend)
                continue
            md[x] = self._rebuild(x)
            st.pop()
        return md[n]

    def _g(self, a):
        r = self.md.get(a)
        return a if r is None else r

    def _rebuild(self, x):
        op = x.op
        a = x.args
        if op == 'add':
            return add(self._g(a[0]), self._g(a[1]))
        if op == 'sub':
            return sub(self._g(a[0]), self._g(a[1]))
        if op == 'mul':
            return mul(self._g(a[0]), self._g(a[1]))
        if op == 'neg':
            return neg(self._g(a[0]))
        if op == 'inv':
            return inv(self._g(a[0]))
        if op == 'sqrt':
            return sqrt(self._g(a[0]))
        if op == 'fabs':
            return fabs(self._g(a[0]))
        if op == 'i2d':
            p = self.poly(a[0])
            return i2d(p)
        if op == 'ite':
            return ite(self.poly(a[0]), self._g(a[1]), self._g(a[2]))
        if op == 'sum':
            T = self.poly(a[0])
            ta = a[1]
            if ta.id in self.m:
                b = self._g(a[2])
                return mk('sum', (T, ta, b), sumv(T, ta, b), hassum=True)
            fresh = atom('tmpiv', (_tmpn(),))
            b2 = subst(self._g(a[2]), {ta.id: V(fresh)})
            return dsum(T, fresh, b2)
        if op == 'atom':
            r = self.atomv(a[0])
            if r is None:
                return x
            if isinstance(r, Poly):
                # rebuilt double atom
                if len(r.t) == 1 and list(r.t.values()) == [1]:
                    na = _atoms[list(r.t)[0][0]]
                    return mk('atom', (na,), na.gf, unk=na.unk, undef=na.undef)
                return i2d(r)
            return r
        return x


def subst(x, m, ldfn=None):
    if not m and not ldfn:
        return x
    return Subst(m, ldfn).val(x)


def find_atoms(x, pred, out=None, seen=None):
    """collect atoms satisfying pred anywhere in x"""
    ds = deps(x)
    return [_atoms[i] for i in sorted(ds) if pred(_atoms[i])]
