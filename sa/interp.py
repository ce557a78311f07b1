"""Whole-program data-flow analysis of LLVM IR in one pass per function context.

* join at every control-flow merge (no path enumeration): states are merged with
  value-select under the branch predicate (gated SSA);
* arrays: a chain of guarded writes with loop frames (array last-write analysis);
* loops: constant trip counts are unrolled (constant propagation); all other loops are
  summarised from ONE generic iteration: induction variables get closed forms, sums become
  symbolic sums, flags become any-of, iteration-local values are taken at the last iteration.
Nothing of the analysed program is ever executed.
"""
import os
import re
import heapq
from math import gcd
import expr as E
import ctx as X
from expr import Poly, C, ZERO, ONE, V, D

UNROLL = 5000
NORETURN = object()


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ values
class Ptr:
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def subst(self, S):
        out = []
        for c, o, f in self.alts:
            c2 = S.poly(c)
            if c2.isconst() and c2.const() == 0:
                continue
            out.append((c2, o, S.poly(f)))
        return Ptr(tuple(out))

    def plus(self, p):
        if not p.t:
            return self
        return Ptr(tuple((c, o, f + p) for c, o, f in self.alts))

    def __repr__(self):
        return 'Ptr[' + '; '.join('%s%s+%r' % ('' if c == ONE else '(%r)?' % (c,), o, f)
                                   for c, o, f in self.alts) + ']'

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.alts == o.alts

    def __hash__(self):
        return hash(self.alts)

    @property
    def unk(self):
        return any(f.unk or c.unk for c, o, f in self.alts)

    @property
    def undef(self):
        return any(f.undef or c.undef for c, o, f in self.alts)


def ptr(obj, off=ZERO):
    return Ptr(((ONE, obj, off),))


NULL = Ptr(((ONE, None, ZERO),))


class Lazy:
    __slots__ = ('fn', 'v')

    def __init__(self, fn):
        self.fn = fn
        self.v = None


def force(x):
    while isinstance(x, Lazy):
        if x.v is None:
            x.v = force(x.fn())
            x.fn = None
        x = x.v
    return x


def vdeps(v):
    v = force(v)
    if isinstance(v, Ptr):
        s = set()
        for c, o, f in v.alts:
            s |= E.deps(c) | E.deps(f)
        return s
    return E.deps(v)


def asptr(v):
    if isinstance(v, Ptr):
        return v
    if isinstance(v, Poly) and not v.t:
        return NULL
    return None


def vite(c, a, b):
    if a is b:
        return a
    if c.isconst():
        return a if c.const() else b
    if isinstance(a, Lazy) or isinstance(b, Lazy):
        return Lazy(lambda: vite(c, force(a), force(b)))
    if a is None or b is None:
        return a if b is None else b
    if isinstance(a, D) and isinstance(b, D):
        return E.ite(c, a, b)
    if isinstance(a, Poly) and isinstance(b, Poly):
        return E.pite(c, a, b)
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        pa, pb = asptr(a), asptr(b)
        if pa is None or pb is None:
            return Ptr(((ONE, OPAQUE, V(E.atom('badptr', (_vk(a), _vk(b)), unk=True))),))
        if pa == pb:
            return pa
        out = []
        for cc, o, f in pa.alts:
            x = cc * c
            if x.t:
                out.append([x, o, f])
        nc = ONE - c
        for cc, o, f in pb.alts:
            x = cc * nc
            if not x.t:
                continue
            for r in out:
                if r[1] is o and r[2] == f:
                    r[0] = r[0] + x
                    break
            else:
                out.append([x, o, f])
        # same object, different offsets: fold to one alternative
        return Ptr(tuple(tuple(r) for r in out))
    if isinstance(a, Poly) and isinstance(b, D):
        return E.ite(c, E.i2d(a), b)
    if isinstance(a, D) and isinstance(b, Poly):
        return E.ite(c, a, E.i2d(b))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque('join')
    raise Unsupported('join %r %r' % (type(a), type(b)))


def _vk(v):
    v = force(v)
    if isinstance(v, Ptr):
        return tuple((c, str(o), f) for c, o, f in v.alts)
    if isinstance(v, Opaque):
        return v.what
    return v


class Opaque:
    """value outside the domain (vectors, aggregates, library structs)"""
    unk = True
    undef = False

    count = 0

    def __init__(self, what):
        self.what = what
        Opaque.count += 1
        self.ser = Opaque.count

    def subst(self, S):
        return self

    def __repr__(self):
        return 'opaque(%s)' % (self.what,)


# ------------------------------------------------------------------ memory
TAINT = False                                     # static objects hold indeterminate values (C24)
GLOBALS = os.environ.get('VERIF_GLOBALS', '')     # 'A' fresh process, 'B' after earlier calls


class Obj:
    """memory object.  init: 'undef' | 'sym' | 'zero' | callable(off, ty) | ('const', {off: val})"""
    __slots__ = ('key', 'size', 'init', 'kind', 'name', 'line', 'ptrinit', 'meta')

    def __init__(self, key, size, init, kind, name=None, line=None):
        self.key = key
        self.size = size
        self.init = init
        self.kind = kind
        self.name = name or str(key)
        self.line = line
        self.ptrinit = None
        self.meta = None

    def __repr__(self):
        return '<%s>' % self.name


OPAQUE = Obj('opaque', None, 'sym', 'opaque', 'opaque')
TRACE = Obj('trace', None, 'zero', 'trace', 'trace')
_eserial = [0]


class Entry:
    __slots__ = ('kind', 'off', 'size', 'val', 'frames', 'line', 'seq', '_gc', '_ren', 'fn')

    def __init__(self, kind, off, size, val, frames=(), line=None, fn=None):
        self.kind = kind
        self.off = off
        self.size = size
        self.val = val
        self.frames = frames
        self.line = line
        self.fn = fn
        _eserial[0] += 1
        self.seq = _eserial[0]
        self._gc = None
        self._ren = None

    def gc(self):
        if self._gc is None:
            self._gc = _gc(self.off)
        return self._gc

    def wrap(self, fr):
        e = Entry(self.kind, self.off, self.size, self.val, (fr,) + self.frames, self.line, self.fn)
        return e

    def ivs(self):
        return [f for f in self.frames if f[0] == 'loop']

    def __repr__(self):
        return '%s[%r]=%s %s' % (self.kind, self.off, str(self.val)[:80],
                                 [(f[0], f[1] if f[0] == 'if' else (f[2].name, f[3])) for f in self.frames])


def _gc(p):
    g = 0
    for m, c in p.t.items():
        if m:
            if not isinstance(c, int):
                return (1, p.const())
            g = gcd(g, c)
    return (g, p.const())


class Node:
    __slots__ = ('e', 'p', 'd', 'ser')
    N = 0

    def __init__(self, e, p):
        self.e = e
        self.p = p
        self.d = 0 if p is None else p.d + 1
        Node.N += 1
        self.ser = Node.N


ROOT = Node(None, None)
VER = {}


class OS:
    __slots__ = ('cells', 'chain', 'tok', 'conv', 'freed')

    def __init__(self, cells, chain, tok):
        self.cells = cells
        self.chain = chain
        self.tok = tok
        self.conv = None
        self.freed = None

    def copy(self, tok):
        o = OS(dict(self.cells) if self.cells is not None else None, self.chain, tok)
        return o

    def as_chain(self):
        if self.chain is not None:
            return self.chain
        if self.conv is None:
            n = ROOT
            for off in sorted(self.cells):
                sz, v = self.cells[off]
                n = Node(Entry('w', C(off), sz, v), n)
            self.conv = n
        return self.conv


class State:
    __slots__ = ('mem', 'pc', 'tok', 'occ')

    def __init__(self):
        self.mem = {}
        self.pc = ONE
        self.tok = object()
        self.occ = {}

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.occ = dict(self.occ)
        self.tok = object()
        return s

    def wos(self, obj):
        """writable OS"""
        o = self.mem.get(obj)
        if o is None:
            o = OS({}, None, self.tok)
            self.mem[obj] = o
        elif o.tok is not self.tok:
            o = o.copy(self.tok)
            self.mem[obj] = o
        o.conv = None
        return o

    def chain(self, obj):
        o = self.mem.get(obj)
        if o is None:
            return ROOT
        return o.as_chain()

    def event(self, ev, line=None, cond=None):
        o = self.wos(TRACE)
        fr = () if cond is None or cond == ONE else (('if', cond),)
        o.chain = Node(Entry('ev', ZERO, 0, ev, fr, line), o.as_chain())
        o.cells = None


def suffix(node, anc):
    """entries after ancestor, oldest first"""
    out = []
    while node is not anc:
        if node is None or node.e is None:
            return None
        out.append(node.e)
        node = node.p
    out.reverse()
    return out


def common(a, b):
    while a is not b:
        if a.d > b.d:
            a = a.p
        elif b.d > a.d:
            b = b.p
        else:
            a, b = a.p, b.p
    return a


def given(c):
    """values of the boolean atoms that the condition c determines"""
    sb = {}
    for b in c.atoms():
        if E.A(b).isbool:
            if not E.subst(c, {b: ZERO}).t:
                sb[b] = ONE
            elif not E.subst(c, {b: ONE}).t:
                sb[b] = ZERO
    return sb


def localise(c, total):
    if total == ONE or c.isconst():
        return c
    if total == c:
        return ONE
    q = E.exact_div(c, total)
    if q is not None and q * total == c:
        return q
    return c


class Event:
    __slots__ = ('kind', 'name', 'args', 'state', 'path', 'line', 'fn', 'ret')

    def __init__(self, kind, name, args=(), state=None, path=None, line=None, fn=None, ret=None):
        self.kind = kind
        self.name = name
        self.args = args
        self.state = state
        self.path = path
        self.line = line
        self.fn = fn
        self.ret = ret

    def subst(self, S):
        return Event(self.kind, self.name, tuple(sub(S, a) for a in self.args), self.state,
                     self.path, self.line, self.fn, self.ret)

    def __repr__(self):
        return '%s %s%r' % (self.kind, self.name, self.args)


def sub(S, v):
    if isinstance(v, Lazy):
        return Lazy(lambda: sub(S, force(v)))
    if isinstance(v, (Poly, D)):
        return S.val(v)
    if isinstance(v, (Ptr, Event)):
        return v.subst(S)
    if isinstance(v, tuple):
        return tuple(sub(S, x) for x in v)
    return v


# ------------------------------------------------------------------ solving
class Hit:
    __slots__ = ('e', 'sol', 'cond', 'free')

    def __init__(self, e, sol, cond, free):
        self.e = e
        self.sol = sol
        self.cond = cond
        self.free = free


MAYBE = 'maybe'


def renamed(e):
    if e._ren is None:
        m = {}
        frames = []
        for f in e.frames:
            if f[0] == 'loop':
                iv = f[2]
                a = E.atom('ivr', (iv.name,), name=iv.name + "'")
                b = X.BOUNDS.get(iv.id)
                S = E.Subst(dict(m))
                T2, T3 = S.poly(f[3]), S.poly(f[4])
                m[iv.id] = V(a)
                X.set_bound(a, ZERO, T2 - 1, (b[2] if b else 5))
                frames.append(('loop', f[1], a, T2, T3))
            else:
                frames.append(('if', E.Subst(dict(m)).poly(f[1])))
        S = E.Subst(m)
        r = Entry(e.kind, S.poly(e.off), e.size, None, tuple(frames), e.line, e.fn)
        v = e.val
        if e.kind in ('w', 'acc'):
            r.val = Lazy(lambda: sub(S, force(v)))
        elif e.kind == 'fill':
            r.val = (S.poly(v[0]), v[1])
        elif e.kind == 'copy':
            r.val = (S.poly(v[0]), v[1], v[2], S.poly(v[3]))
        else:
            r.val = v
        r.seq = e.seq
        e._ren = r
    return e._ren


def quick_no(e, qgc):
    """cheap rejection by residues"""
    if e.kind not in ('w', 'acc'):
        return False
    g1, c1 = e.gc()
    g2, c2 = qgc
    g = gcd(g1, g2)
    d = c1 - c2
    if g == 0:
        return d != 0
    return d % g != 0


def refine(loops):
    """slack refinement under which every loop of the entry has at least one iteration"""
    m = {}
    conds = []
    for f in loops:
        T = f[3]
        if X.pn(T - 1):
            continue
        q = X.slackify(T - 1)
        # q = s - c  with a single slack atom s
        ats = q.atoms()
        if len(ats) != 1:
            return None
        i = list(ats)[0]
        sp = q.coeff(i)
        if sp is None or sp[0] != ONE or not sp[1].isconst() or i not in X._slack_atoms:
            return None
        c = -sp[1].const()
        if c > m.get(i, (0,))[0]:
            m[i] = (c,)
        conds.append(T)
    if not m:
        return None
    return m, conds


def solve(e, q):
    """hits of entry e at offset q -> Hit, None (no hit) or MAYBE"""
    r = solve1(e, q)
    if r is MAYBE and e.kind in ('w', 'acc'):
        loops = [f for f in e.frames if f[0] == 'loop']
        rf = refine(loops)
        if rf is not None:
            m, conds = rf
            with X.Shift(m):
                r = solve1(e, q)
            if isinstance(r, Hit):
                c = r.cond
                for T in conds:
                    c = c * (ONE - E.lt0(T - 1))
                r = Hit(r.e, r.sol, c, r.free)
                if not c.t:
                    return None
    return r


def solve1(e, q):
    ids = set(f[2].id for f in e.frames if f[0] == 'loop')
    if ids and (E.deps(q) & ids):
        e = renamed(e)
    loops = [f for f in e.frames if f[0] == 'loop']
    off = e.off
    if e.kind == 'h':
        return MAYBE
    rng = None
    if e.kind == 'fill':
        rng = e.val[0]
    elif e.kind == 'copy':
        rng = e.val[0]
    if not loops:
        if rng is not None:
            r = q - off
            if X.pn(-r - 1) or X.pn(r - rng):
                return None
            if X.pn(r) and X.pn(rng - 1 - r):
                c = ONE
            else:
                c = (ONE - E.lt0(r)) * E.lt0(r - rng)
                if not c.t:
                    return None
            return fin_conds(e, {}, c, [])
        d = q - off
        if not d.t:
            return fin_conds(e, {}, ONE, [])
        r = X.decide(d)
        if r == 'zero':
            return fin_conds(e, {}, ONE, [])
        if X.nonzero(d):
            return None
        if e.kind in ('w', 'acc'):
            if any(not E.A(i).isbool and E.A(i).unk for i in d.atoms()):
                return MAYBE
            c = E.eq0(d)
            if not c.t:
                return None
            return fin_conds(e, {}, c, [])
        return MAYBE
    if rng is not None:
        return MAYBE
    # linear form in the ivs
    coef = []
    rest = off
    free = []
    for f in loops:
        s = rest.coeff(f[2].id)
        if s is None:
            return MAYBE
        a, rest = s
        if not a.t:
            free.append(f)
        else:
            if any(g[2].id in E.deps(a) for g in loops):
                return MAYBE
            coef.append([f, a, False])
    R = q - rest
    for k in coef:
        a = k[1]
        if X.pn(a - 1):
            continue
        if X.pn(-a - 1):
            T = k[0][3]
            if any(g[2].id in E.deps(T) for g in loops):
                return MAYBE
            # a*iv = a*(T-1) - a*iv'   with iv' = T-1-iv
            R = R - a * (T - 1)
            k[1] = -a
            k[2] = True
        else:
            return MAYBE
    # order by size, descending
    items = []
    for k in coef:
        pos = 0
        for pos in range(len(items) + 1):
            if pos == len(items):
                break
            if X.pn(k[1] - items[pos][1]) and k[1] != items[pos][1]:
                break
        items.insert(pos, k)
    sol = {}
    cond = ONE
    n = len(items)
    for i, (f, a, fl) in enumerate(items):
        M = ZERO
        for g, b, _ in items[i + 1:]:
            M = M + b * (g[3] - 1)
        if i + 1 < n:
            if not X.pn(a - 1 - M):
                # dependence of inner bounds on outer ivs or overlapping digits
                if not _unique(R, a, M, f):
                    return MAYBE
        if X.pn(-R - 1):
            return None
        dm = X.floordiv(R, a)
        if dm is None:
            T = f[3]
            # provably too large?
            if X.pn(R - a * (T - 1) - M - 1) and X.pn(T - 1):
                return None
            return MAYBE
        qq, R = dm
        if fl:
            qq = f[3] - 1 - qq
        sol[f[2].id] = qq
    if R.t and X.decide(R) != 'zero':
        if X.nonzero(R):
            return None
        return MAYBE
    S = E.Subst(sol)
    for f, a, fl in items:
        s = sol[f[2].id]
        T = S.poly(f[3])
        if any(g[2].id in E.deps(T) for g in free):
            return MAYBE
        if not X.pn(s):
            if X.pn(-s - 1):
                return None
            cond = cond * (ONE - E.lt0(s))
        if not X.pn(T - 1 - s):
            if X.pn(s - T):
                return None
            cond = cond * E.lt0(s - T)
        if not cond.t:
            return None
    return fin_conds(e, sol, cond, free)


def _unique(R, a, M, f):
    return False


def fin_conds(e, sol, cond, free):
    S = E.Subst(sol) if sol else None
    fids = set(f[2].id for f in free)
    inner = ONE
    freel = []
    for f in free:
        T, Xc = (S.poly(f[3]), S.poly(f[4])) if S else (f[3], f[4])
        freel.append((f[2], T, Xc, f[1]))
    for f in e.frames:
        if f[0] == 'if':
            c = resimp(S.poly(f[1]) if S else f[1])
            if c.isconst():
                if c.const() == 0:
                    return None
                continue
            if fids & E.deps(c):
                inner = inner * c
            else:
                cond = cond * c
                if not cond.t:
                    return None
    h = Hit(e, sol, cond, (freel, inner))
    return h


class _Resimp(E.Subst):
    """re-evaluate comparison atoms in the current context"""

    def __init__(self):
        E.Subst.__init__(self, {}, None, None)
        self.rs = True

    def hits(self, dp):
        for i in dp:
            if E.A(i).kind in ('lt0', 'eq0', 'srem', 'sdiv', 'any', 'first', 'ld'):
                return True
        return False

    def rebuild(self, a):
        k = a.kind
        na = tuple(self.val(x) for x in a.args)
        if k == 'lt0':
            return _same(E.lt0(na[0]), a)
        if k == 'eq0':
            return _same(E.eq0(na[0]), a)
        if k == 'srem':
            return _same(E.prem(na[0], na[1]), a)
        if k == 'sdiv':
            return _same(E.pdiv(na[0], na[1]), a)
        if k == 'ld' and na[0] == 'may':
            # a load whose reaching definitions were not decided in the context it was made in
            obj, node, size, interp = VER[(na[1], na[2])]
            if a.id not in Loads.busy:
                Loads.busy.add(a.id)
                try:
                    v = walk(obj, node, na[3], size, na[4] if len(na) > 4 else 'double', interp)
                    if isinstance(v, (Poly, D)):
                        if E.A(a.id).kind == 'ld' and not (isinstance(v, D) and v.op == 'atom' and v.args[0].id == a.id):
                            return self.val(v)
                finally:
                    Loads.busy.discard(a.id)
        return E.Subst.rebuild(self, a)


def _same(p, a):
    return None if p == V(a) else p


_rsc = [None, None]


def resimp(x):
    """simplify decided comparisons in the current assumption context"""
    if isinstance(x, Poly):
        if x.isconst():
            return x
    key = X.ctxkey()
    if _rsc[0] != key:
        _rsc[0] = key
        _rsc[1] = _Resimp()
    return sub(_rsc[1], x)


def later(h1, h2):
    """1 if h1 is later in time, -1 if earlier, None unknown"""
    f1, f2 = h1.e.frames, h2.e.frames
    for a, b in zip(f1, f2):
        if a[0] != b[0]:
            break
        if a[0] == 'if':
            if a[1] != b[1]:
                break
            continue
        if a[1] != b[1]:
            break
        s1, s2 = h1.sol.get(a[2].id), h2.sol.get(b[2].id)
        if s1 is None or s2 is None:
            # free iv: last iteration
            if s1 is None and s2 is None:
                continue
            if s1 is None:
                s1 = a[3] - 1
            if s2 is None:
                s2 = b[3] - 1
        d = s1 - s2
        if not d.t or X.is_zero(d):
            continue
        if X.pn(d - 1):
            return 1
        if X.pn(-d - 1):
            return -1
        return None
    return 1 if h1.e.seq > h2.e.seq else -1


def hit_value(h):
    """(cond, value) of a hit; w: last free iteration; acc: summed over free ivs"""
    v = force(h.e.val)
    if h.sol:
        v = sub(E.Subst(h.sol), v)
    freel, inner = h.free
    cond = h.cond
    if not freel:
        return cond, v
    if h.e.kind == 'acc':
        if inner != ONE:
            v = E.ite(inner, v, E.D0) if isinstance(v, D) else inner * v
        for iv, T, Xc, uid in reversed(freel):
            v = E.dsum(Xc, iv, v) if isinstance(v, D) else E.psum(Xc, iv, v)
        return cond, v
    if inner != ONE:
        return None
    m = {}
    for iv, T, Xc, uid in freel:
        m[iv.id] = T - 1
        if not X.pn(T - 1):
            if X.pn(-T):
                return ZERO, v
            cond = cond * (ONE - E.lt0(T - 1))
    return cond, sub(E.Subst(m), v)


class Loads:
    busy = set()
    """statistics"""
    n = 0
    maybe = 0


def firstloop(e):
    for f in e.frames:
        if f[0] == 'loop':
            return f[1]
    return None


_widx = {}
_wcnt = {}


def seq_of(node, qgc):
    """entries of the chain, newest first, that residues do not rule out: iterator of (entry, node)"""
    if node.d > 48:
        r = _widx.get(node.ser)
        if r is None:
            c = _wcnt.get(node.ser, 0) + 1
            _wcnt[node.ser] = c
            if c > 3:
                G = 0
                l = []
                n = node
                while n.e is not None:
                    if n.e.kind in ('w', 'acc'):
                        G = gcd(G, n.e.gc()[0])
                    l.append((n.e, n))
                    n = n.p
                r = (G, l, {}, n)
                if len(_widx) > 64:
                    _widx.clear()
                _widx[node.ser] = r
        if r is not None:
            G, l, buckets, root = r
            g = gcd(G, qgc[0])
            key = (g, qgc[1] % g) if g else (0, qgc[1])
            bk = buckets.get(key)
            if bk is None:
                bk = []
                for e, n in l:
                    if e.kind in ('w', 'acc'):
                        d = e.gc()[1] - qgc[1]
                        if (d % g if g else d) != 0:
                            continue
                    bk.append((e, n))
                bk.append((None, root))
                buckets[key] = bk
            return iter(bk)
    return chain_iter(node)


def chain_iter(node):
    while True:
        yield node.e, node
        if node.e is None:
            return
        node = node.p


def walk(obj, node, q, size, ty, interp, depth=0):
    """value of (obj, q) after the writes of chain node"""
    Loads.n += 1
    start = node
    qgc = _gc(q)
    hits = []          # newest first
    base = None
    done = False
    maybe = None
    sq = seq_of(node, qgc)
    e, node = next(sq)
    while not done:
        if e is None:
            base = interp.init_value(obj, q, ty)
            break
        if e.kind == 'mark':
            uid, iv, prior, Tu = e.val
            r = marker_check(e, q, qgc)
            if r:
                base = ld_atom(obj, node, q, ty, 'it', size, interp)
                break
            e, node = next(sq)
            if not hits and e is not None:
                start = node       # nothing in this iteration or earlier ones: the value is the one before the loop
            continue
        k = firstloop(e)
        if k is None:
            if not quick_no(e, qgc):
                r = solve(e, q)
                if r is MAYBE:
                    maybe = e
                    break
                if r is not None:
                    hits.append(r)
                    if r.cond != ONE and len(hits) > 12 and sum(1 for h in hits if h.cond != ONE) > 12:
                        maybe = e
                        break
                    if r.e.kind != 'acc' and r.cond == ONE:
                        base = None
                        done = True
                        break
            e, node = next(sq)
            continue
        grp = []
        while e is not None and e.kind != 'mark' and firstloop(e) == k:
            if not quick_no(e, qgc):
                r = solve(e, q)
                if r is MAYBE:
                    maybe = e
                    break
                if r is not None:
                    grp.append(r)
            e, node = next(sq)
        if maybe:
            break
        if len(grp) > 1:
            grp, ok = order(grp)
            if not ok:
                if all(h.e.kind == 'acc' for h in grp):
                    pass
                else:
                    maybe = grp[0].e
                    break
        for h in grp:
            hits.append(h)
            if h.e.kind != 'acc' and h.cond == ONE and not h.free[0]:
                done = True
                break
            if h.e.kind != 'acc' and h.free[0] and h.free[1] == ONE:
                c, _ = hit_value(h)
                if c == ONE:
                    done = True
                    break
    if maybe is not None:
        Loads.maybe += 1
        return ld_atom(obj, start, q, ty, 'may', size, interp)
    val = base
    if done:
        val = None
    for h in reversed(hits):
        if h.e.kind == 'fill':
            v = _fillval(h.e.val[1], ty)
            c = h.cond
        elif h.e.kind == 'copy':
            _n, so, snode, soff = h.e.val
            S = E.Subst(h.sol)
            v = walk(so, snode, S.poly(soff) + (q - S.poly(h.e.off)), size, ty, interp)
            c = h.cond
        else:
            r = hit_value(h)
            if r is None:
                return ld_atom(obj, start, q, ty, 'may', size, interp)
            c, v = r
        v = coerce(v, ty)
        if h.e.kind == 'acc':
            if val is None:
                val = zero_of(ty)
            if isinstance(val, D):
                val = E.add(val, E.ite(c, v, E.D0))
            elif isinstance(val, Poly):
                val = val + c * v
            elif isinstance(val, Ptr):
                val = val.plus(c * v)
        else:
            val = v if (val is None or c == ONE) else vite(c, v, val)
    return val


def order(grp):
    """sort newest first; ok False when some relevant pair is unordered"""
    out = []
    ok = True
    for h in grp:
        pos = None
        for i, g in enumerate(out):
            r = later(h, g)
            if r is None:
                if h.e.kind == 'acc' and g.e.kind == 'acc':
                    continue
                ok = False
                continue
            if r > 0:
                pos = i
                break
        if pos is None:
            out.append(h)
        else:
            out.insert(pos, h)
    return out, ok


def marker_check(me, q, qgc):
    """may an earlier iteration of the loop have written offset q?"""
    uid, iv, prior, Tu = me.val
    if prior is None:
        return False
    ivp = E.atom('ivp', (iv.name,), name=iv.name + '`')
    b = X.BOUNDS.get(iv.id)
    X.set_bound(ivp, ZERO, V(iv) - 1, (b[2] + 0.5) if b else 5.5)
    for e in prior:
        if quick_no(e, qgc):
            continue
        pe = me_prior(me, e, iv, ivp, uid)
        r = solve(pe, q)
        if r is None:
            continue
        return True
    return False


_mp = {}


def me_prior(me, e, iv, ivp, uid):
    k = e.seq
    r = _mp.get(k)
    if r is not None and r[0] is iv:
        return r[1]
    S = E.Subst({iv.id: V(ivp)})
    frames = [('loop', uid + ('prior',), ivp, V(iv), V(iv))]
    for f in e.frames:
        if f[0] == 'loop':
            frames.append(('loop', f[1], f[2], S.poly(f[3]), S.poly(f[4])))
        else:
            frames.append(('if', S.poly(f[1])))
    val = e.val
    if e.kind == 'fill':
        val = (S.poly(val[0]), val[1])
    elif e.kind == 'copy':
        val = (S.poly(val[0]), val[1], val[2], S.poly(val[3]))
    pe = Entry(e.kind if e.kind != 'acc' else 'w', S.poly(e.off), e.size, val, tuple(frames), e.line)
    _mp[k] = (iv, pe)
    return pe


def _fillval(byte, ty):
    if ty == 'double' or ty == 'float':
        return E.D0 if byte == 0 else E.datom('fillbyte', (byte,), unk=True)
    if ty == 'ptr':
        return NULL if byte == 0 else Opaque('fill')
    if byte == 0:
        return ZERO
    if byte in (-1, 255) and ty in ('i32', 'i64'):
        return C(-1)
    if ty in ('i8', 'i1'):
        return C(byte)
    return V(E.atom('fillint', (byte, ty), unk=True))


def zero_of(ty):
    return E.D0 if ty in ('double', 'float') else (NULL if ty == 'ptr' else ZERO)


def ld_atom(obj, node, q, ty, tag, size, interp):
    VER[(obj.name, node.ser)] = (obj, node, size, interp)
    args = (tag, obj.name, node.ser, q)
    unk = True
    if ty in ('double', 'float'):
        return E.datom('ld', args, unk=unk)
    if ty == 'ptr':
        return Ptr(((ONE, OPAQUE, V(E.atom('ldp', args, unk=unk))),))
    return V(E.atom('ld', args + (ty,), isbool=(ty in ('i1', 'i8')), unk=unk))


def coerce(v, ty):
    if isinstance(v, _Untyped):
        return v.at(ty)
    v = force(v)
    if ty in ('double', 'float'):
        if isinstance(v, Poly):
            return E.i2d(v) if v.isconst() and v.const() == 0 else E.datom('bits', (v,), unk=True)
        return v
    if ty == 'ptr':
        p = asptr(v)
        return p if p is not None else Ptr(((ONE, OPAQUE, V(E.atom('badptr', (_vk(v),), unk=True))),))
    if isinstance(v, D):
        if v is E.D0:
            return ZERO
        return V(E.atom('fbits', (v, ty), unk=True))
    return v


# ------------------------------------------------------------------ interpreter
class LoopRec:
    """what one loop summary was built from (for rules about the generic iteration)"""

    def __init__(self):
        self.fn = self.header = self.path = None
        self.iv = self.Tu = self.X = None
        self.entry = None        # state before the loop
        self.start = None        # state at start of the generic iteration
        self.cont = None         # state at end of the generic iteration
        self.exits = None        # [(target, rel cond, state, phivals)]
        self.locs = None         # loc -> dict(kind, init, start, next)
        self.mode = None


class Frame:
    def __init__(self, fn, path):
        self.fn = fn
        self.env = {}
        self.path = path
        self.allocas = []
        self.ret = None
        self.idx = {b: i for i, b in enumerate(fn.rpo)}


class Interp:
    def __init__(self, mod, handlers=None, opaque=None):
        self.mod = mod
        self.T = mod.T
        self.handlers = handlers or {}
        self.opaque = opaque or {}
        self.globals = {}
        self.objs = {}
        self.loopstack = []
        self.loopcache = {}
        self.recs = []
        self.stack = []
        self.problems = []
        self.stats = {'instrs': 0, 'calls': 0, 'loops_unrolled': 0, 'loops_summarised': 0,
                      'loops_opaque': 0, 'joins': 0, 'stores': 0, 'loads': 0}
        self.fnseen = {}
        self.unrollfirst = None
        self.accesshook = None
        self.undefhook = None
        self.ownhook = None
        self.cur = None

    # ---------------------------------------------------------- objects
    def obj(self, key, size, init, kind, name=None, line=None):
        o = self.objs.get(key)
        if o is None:
            o = Obj(key, size, init, kind, name, line)
            self.objs[key] = o
        else:
            o.size = size
        return o

    def init_value(self, obj, off, ty):
        init = obj.init
        if callable(init):
            r = init(off, ty)
            if r is not None:
                return r
            init = 'sym'
        if init == 'zero':
            return zero_of(ty)
        if isinstance(init, tuple) and init[0] == 'const':
            if off.isconst():
                v = init[1].get(off.const())
                if v is not None:
                    return coerce(v, ty)
            return self._atom('tab', (obj.name, off), ty, unk=True)
        if init == 'undef':
            return self._atom('undef', (obj.name, off), ty, undef=True)
        return self._atom('init', (obj.name, off), ty)

    def _atom(self, kind, args, ty, unk=False, undef=False):
        if ty in ('double', 'float'):
            return E.datom(kind, args, unk=unk, undef=undef, name='%s(%s,%r)' % (kind, args[0], args[1]))
        if ty == 'ptr':
            if undef:
                return Ptr(((ONE, OPAQUE, V(E.atom(kind + 'p', args, undef=True))),))
            if unk:
                return Ptr(((ONE, OPAQUE, V(E.atom(kind + 'p', args, unk=True))),))
            o = self.obj(('deref', args[0], args[1]), None, 'sym', 'ext', '*%s[%r]' % (args[0], args[1]))
            return ptr(o)
        return V(E.atom(kind, args + (ty,), isbool=(ty in ('i1', 'i8')), unk=unk, undef=undef,
                        name='%s(%s,%r)' % (kind, args[0], args[1])))

    def globs(self):
        g = getattr(self.mod, '_globs', None)
        if g is None:
            import globs
            g = self.mod._globs = globs.Globs(self.mod)
        return g

    def global_obj(self, name):
        o = self.globals.get(name)
        if o is not None:
            return o
        g = self.mod.globals.get(name)
        if g is None:
            o = Obj(('g', name), None, 'sym', 'fn' if name in self.mod.funcs or name in self.mod.decls else 'global', name)
            self.globals[name] = o
            return o
        ty, init, const, raw = g
        try:
            sz = C(self.T.size_align(ty)[0])
        except Exception:
            sz = None
        cls = 'const' if const else self.globs().classify(name)[0]
        shared = lambda off, t: self._shared(name, off, t)
        if name.startswith('_ZGV') and not const:
            # guard of a static local: a value that never varies may as well be computed at every call
            gc = self.globs().classify('_Z' + name[4:])[0]
            o = Obj(('g', name), sz, 'zero' if gc == 'once' or GLOBALS == 'A' else shared, 'global', name)
        elif cls in ('mut', 'leak', 'first', 'firstq', 'once') and GLOBALS != 'A':
            # whatever earlier calls left there
            o = Obj(('g', name), sz, shared, 'global', name)
        elif init is None:
            o = Obj(('g', name), sz, 'sym', 'global', name)
        elif init == ('zero',):
            o = Obj(('g', name), sz, 'zero', 'global', name)
        else:
            tab = {}
            try:
                self._flatten(ty, init, 0, tab)
                o = Obj(('g', name), sz, ('const', tab), 'global', name)
            except Unsupported:
                o = Obj(('g', name), sz, 'sym', 'global', name)
        if init and init[0] == 'str':
            o.meta = init[1]
        if not const and o.kind == 'global':
            o.meta = ('mutable',)
            if name.startswith('_ZGV') and gc == 'once':
                o.meta = ('once',)
        self.globals[name] = o
        if cls == 'init':
            self._dyninit(name, o, ty)
        return o

    def _shared(self, name, off, ty):
        """content of an object that ordinary code writes: unknown, except in the runs that fix a history"""
        if name.startswith('_ZGV'):
            if TAINT or GLOBALS == 'B':
                return C(1)
        elif TAINT:
            if not self.globs().constant(name):
                return self._atom('undef', ('static ' + name, off), ty, undef=True)
        elif GLOBALS == 'B':
            v = self.globs().literal(name)
            if v is not None and off.isconst() and off.const() == 0:
                return C(v[1]) if v[0] == 'i' else E.dfloat(v[1])
        return self._atom('gstate', (name, off), ty, unk=True)

    def _dyninit(self, name, o, ty):
        """contents left by the initialiser that runs before main"""
        fns = []
        for f, i in self.globs().classify(name)[1]:
            if f not in fns:
                fns.append(f)
        unknown = lambda off, t: self._atom('gstate', (name, off), t, unk=True)
        hooks = (self.accesshook, self.undefhook, self.ownhook, self.stack)
        self.accesshook = self.undefhook = self.ownhook = None
        self.stack = []
        np = len(self.problems)
        try:
            st = State()
            for f in fns:
                if f.name.startswith('_GLOBAL__'):
                    continue
                r = self.call(f, [], st, ('ginit', f.name))
                if r is NORETURN:
                    raise Unsupported('initialiser of ' + name)
                st = r[1]
            os_ = st.mem.get(o)
            if os_ is None or os_.chain is not None:
                raise Unsupported('initialiser of ' + name)
            tab = {}
            self._zero(ty, 0, tab)
            old = o.init
            for k in tab:
                if isinstance(old, tuple) and k in old[1]:
                    tab[k] = old[1][k]
            for k, (sz, v) in os_.cells.items():
                if k not in tab:
                    raise Unsupported('initialiser of ' + name)
                tab[k] = v
            o.init = ('const', tab)
        except Unsupported:
            o.init = unknown
        finally:
            del self.problems[np:]
            self.accesshook, self.undefhook, self.ownhook, self.stack = hooks

    def _flatten(self, ty, init, off, tab):
        if init == ('zero',) or init == ('null',):
            n = self.T.size_align(ty)[0]
            self._zero(ty, off, tab)
            return
        if init[0] == 'str':
            for i, b in enumerate(init[1]):
                tab[off + i] = C(b)
            return
        if init[0] == 'agg':
            lay = None
            if isinstance(ty, tuple) and ty[0] == 'arr':
                es = self.T.size_align(ty[2])[0]
                for i, (t, v) in enumerate(init[1]):
                    self._flatten(t, v, off + i * es, tab)
                return
            lay = self.T.layout(ty)
            for i, (t, v) in enumerate(init[1]):
                self._flatten(t, v, off + lay[0][i] if isinstance(lay, tuple) else off + lay[i], tab)
            return
        if init[0] == 'i':
            tab[off] = C(init[1])
        elif init[0] == 'd':
            tab[off] = E.dfloat(init[1])
        elif init[0] == 'g':
            tab[off] = ptr(self.global_obj(init[1]))
        else:
            raise Unsupported('init %r' % (init,))

    def _zero(self, ty, off, tab):
        if isinstance(ty, tuple) and ty[0] == 'arr':
            es = self.T.size_align(ty[2])[0]
            for i in range(ty[1]):
                self._zero(ty[2], off + i * es, tab)
        elif isinstance(ty, tuple):
            for i, t in enumerate(self.T.fields(ty)):
                lay = self.T.layout(ty)
                o = lay[0][i] if isinstance(lay, tuple) else lay[i]
                self._zero(t, off + o, tab)
        else:
            tab[off] = zero_of(ty)

    # ---------------------------------------------------------- memory access
    def size_of(self, ty):
        return self.T.size_align(ty)[0]

    def load(self, st, p, ty, line=None):
        self.stats['loads'] += 1
        p = force(p)
        if not isinstance(p, Ptr):
            return self._atom('badload', ('?', ZERO), ty, unk=True)
        res = None
        size = self.size_of(ty)
        for c, o, off in p.alts:
            if o is None:
                continue
            v = self.load1(st, o, off, ty, size)
            res = v if res is None else vite(c, v, res)
        if self.accesshook:
            self.accesshook(self, st, 'load', p, size, line)
        if res is None:
            return self._atom('nullload', (str(line), ZERO), ty, unk=True)
        return force(res)

    def load1(self, st, o, off, ty, size):
        bs = [i for i in off.atoms() if E.A(i).isbool]
        if bs:
            b = bs[0]
            h1 = self.load1(st, o, E.subst(off, {b: ONE}), ty, size)
            h0 = self.load1(st, o, E.subst(off, {b: ZERO}), ty, size)
            return vite(V(E.A(b)), h1, h0)
        if o is OPAQUE:
            return self._atom('opq', ('opaque', off), ty, unk=True)
        os_ = st.mem.get(o)
        if os_ is None:
            return self.init_value(o, off, ty)
        if os_.chain is None:
            if off.isconst():
                r = os_.cells.get(off.const())
                if r is None:
                    return self.init_value(o, off, ty)
                if r[0] != size:
                    v = force(r[1])
                    if isinstance(v, (Poly, D)) and v.isconst() and v.const() == 0:
                        return zero_of(ty)
                    return self._atom('pun', (o.name, off), ty, unk=True)
                return coerce(r[1], ty)
            if not os_.cells:
                return self.init_value(o, off, ty)
        return walk(o, os_.as_chain(), off, size, ty, self)

    def store(self, st, p, v, ty, line=None):
        self.stats['stores'] += 1
        p = force(p)
        size = self.size_of(ty)
        if self.accesshook:
            self.accesshook(self, st, 'store', p, size, line)
        if not isinstance(p, Ptr):
            self.problems.append(('store through non-pointer', line))
            return
        alts = [a for a in p.alts if a[1] is not None]
        for c, o, off in alts:
            self.store1(st, o, off, v, ty, size, c if len(p.alts) > 1 else ONE, line)

    def store1(self, st, o, off, v, ty, size, cond, line):
        bs = [i for i in off.atoms() if E.A(i).isbool]
        if bs:
            b = bs[0]
            bv = V(E.A(b))
            self.store1(st, o, E.subst(off, {b: ONE}), v, ty, size, cond * bv, line)
            self.store1(st, o, E.subst(off, {b: ZERO}), v, ty, size, cond * (ONE - bv), line)
            return
        if not cond.t:
            return
        if o is OPAQUE:
            self.problems.append(('store through unknown pointer', line))
            st.event(Event('wildstore', '', (), None, None, line, self.cur), line)
            return
        os_ = st.wos(o)
        if os_.chain is None and off.isconst():
            k = off.const()
            if cond != ONE:
                old = os_.cells.get(k)
                ov = old[1] if old else self.init_value(o, off, ty)
                v = vite(cond, v, ov)
            # kill overlapping cells of other sizes
            if size == 8:
                if (k + 4) in os_.cells:
                    del os_.cells[k + 4]
            elif size == 4 and k % 8 == 4 and os_.cells.get(k - 4, (0,))[0] == 8:
                del os_.cells[k - 4]
            os_.cells[k] = (size, v)
            return
        if os_.chain is None:
            os_.chain = os_.as_chain()
            os_.cells = None
        kind = 'w'
        fv = force(v)
        if isinstance(fv, (D, Poly)) and cond == ONE and fv.unk and self.loopstack:
            cur = force(self.load1(st, o, off, ty, size))
            if type(cur) is type(fv) and cur.unk:
                if isinstance(fv, D):
                    d = E.sub(fv, cur)
                else:
                    d = fv - cur
                if not d.unk or not (E.deps(cur) & E.deps(d)):
                    kind = 'acc'
                    fv = d
        fr = () if cond == ONE else (('if', cond),)
        os_.chain = Node(Entry(kind, off, size, fv if kind == 'acc' else v, fr, line, self.cur), os_.chain)

    def havoc(self, st, o, tag):
        os_ = st.wos(o)
        os_.chain = Node(Entry('h', ZERO, 0, tag, (), None), os_.as_chain())
        os_.cells = None

    def memset(self, st, p, byte, n, line):
        for c, o, off in p.alts:
            if o is None:
                continue
            if self.accesshook:
                self.accesshook(self, st, 'store', Ptr(((c, o, off),)), n, line)
            os_ = st.wos(o)
            if os_.chain is None and off.isconst() and n.isconst() and n.const() <= 8192 and byte == 0 and (c == ONE or len(p.alts) == 1):
                lo, hi = off.const(), off.const() + n.const()
                # fine-grained zero: drop cells, record zero words lazily
                for k in list(os_.cells):
                    if lo <= k < hi:
                        del os_.cells[k]
                for k in self._words(o, lo, hi):
                    os_.cells[k[0]] = (k[1], ZERO)
                continue
            os_.chain = Node(Entry('fill', off, 1, (n, byte), () if c == ONE or len(p.alts) == 1 else (('if', c),), line, self.cur), os_.as_chain())
            os_.cells = None

    def _words(self, o, lo, hi):
        ty = o.meta if isinstance(o.meta, tuple) and o.meta and o.meta[0] == 'type' else None
        out = []
        if ty is not None:
            tab = {}
            self._scal(ty[1], 0, out, lo, hi)
            return out
        k = lo
        while k < hi:
            if k % 8 == 0 and k + 8 <= hi:
                out.append((k, 8))
                k += 8
            elif k % 4 == 0 and k + 4 <= hi:
                out.append((k, 4))
                k += 4
            else:
                out.append((k, 1))
                k += 1
        return out

    def _scal(self, ty, off, out, lo, hi):
        if isinstance(ty, tuple) and ty[0] == 'arr':
            es = self.T.size_align(ty[2])[0]
            for i in range(ty[1]):
                self._scal(ty[2], off + i * es, out, lo, hi)
        elif isinstance(ty, tuple):
            lay = self.T.layout(ty)
            for i, t in enumerate(self.T.fields(ty)):
                o = lay[0][i] if isinstance(lay, tuple) else lay[i]
                self._scal(t, off + o, out, lo, hi)
        else:
            if lo <= off < hi:
                out.append((off, self.T.size_align(ty)[0]))

    def memcpy(self, st, d, s, n, line):
        d, s = asptr(d), asptr(s)
        if d is None or s is None or any(o is OPAQUE for c, o, f in d.alts):
            self.problems.append(('memcpy with unknown pointers', line))
            for c, o, off in (d.alts if d is not None else ()):
                if o is not None and o is not OPAQUE:
                    self.havoc(st, o, 'memcpy')
            return
        da = [a for a in d.alts if a[1] is not None]
        sa = [a for a in s.alts if a[1] is not None]
        if len(d.alts) == 1 and len(s.alts) == 1 and da and sa:
            return self.memcpy1(st, d, s, n, line)
        # one copy per pair of alternatives, joined under its condition
        for cd, do, doff in da:
            for cs, so, soff in sa:
                c = cd * cs
                if not c.t:
                    continue
                sb = given(c)
                n1 = E.subst(n, sb) if sb else n
                t = st.copy()
                if so is OPAQUE:
                    self.havoc(t, do, 'memcpy')
                else:
                    self.memcpy1(t, ptr(do, doff), ptr(so, soff), n1, line, c)
                ob = t.mem.get(do)
                oa = st.mem.get(do) or OS({}, None, None)
                if ob is not None and ob is not oa:
                    st.tok = object()
                    st.mem[do] = self.mergeos(do, oa, ob, c, ONE - c, st.tok)

    def memcpy1(self, st, d, s, n, line, cond=ONE):
        _, do, doff = d.alts[0]
        _, so, soff = s.alts[0]
        if self.accesshook:
            self.accesshook(self, st, 'store', Ptr(((cond, do, doff),)), n, line)
            self.accesshook(self, st, 'load', Ptr(((cond, so, soff),)), n, line)
        ss = st.mem.get(so)
        dos = st.wos(do)
        if dos.chain is None and doff.isconst() and soff.isconst() and n.isconst() and (ss is None or ss.chain is None):
            lo, hi = soff.const(), soff.const() + n.const()
            sh = doff.const() - lo
            cells = ss.cells if ss is not None else {}
            for k in list(dos.cells):
                if lo + sh <= k < hi + sh:
                    del dos.cells[k]
            cov = set()
            for k, (sz, v) in list(cells.items()):
                if lo <= k < hi:
                    dos.cells[k + sh] = (sz, v)
                    cov.update(range(k, k + sz))
            init = so.init
            if isinstance(init, tuple) and init[0] == 'const':
                for k, v in init[1].items():
                    if lo <= k < hi and k not in cov:
                        sz = 8 if isinstance(v, (D, Ptr)) else None
                        if sz is None:
                            sz = self._tabsz(init[1], k)
                        dos.cells[k + sh] = (sz, v)
            elif init == 'zero':
                for k, sz in self._words(do, lo + sh, hi + sh):
                    if (k - sh) not in cov:
                        dos.cells[k] = (sz, ZERO)
            else:
                # unwritten source bytes: copy initial contents word by word using the destination layout
                for k, sz in self._words(do if isinstance(do.meta, tuple) else so, lo + (sh if isinstance(do.meta, tuple) else 0), hi + (sh if isinstance(do.meta, tuple) else 0)):
                    kk = k - (sh if isinstance(do.meta, tuple) else 0)
                    if kk in cov:
                        continue
                    dos.cells[kk + sh] = (sz, _TypedInit(self, so, C(kk), sz))
            return
        dos.chain = Node(Entry('copy', doff, 1, (n, so, st.chain(so), soff), (), line, self.cur), dos.as_chain())
        dos.cells = None

    def _tabsz(self, tab, k):
        for s in (1, 2, 4):
            if k + s in tab:
                return s
        return 4

    # ---------------------------------------------------------- values
    def val(self, fr, a, ty=None):
        k = a[0]
        if k == 'r':
            v = fr.env.get(a[1])
            if v is None:
                raise Unsupported('undefined register %s in %s' % (a[1], fr.fn.dname))
            return v
        if k == 'i':
            return C(a[1])
        if k == 'd':
            return E.dfloat(a[1])
        if k == 'g':
            return ptr(self.global_obj(a[1]))
        if k == 'null':
            return NULL
        if k == 'zero':
            return zero_of(ty or 'i32')
        if k == 'undef':
            return self._atom('undef', ('reg', ZERO), ty or 'i32', undef=True)
        if k == 'cgep':
            return self.gep(a[1], [(t, self.val(fr, v, t)) for t, v in a[2]])
        if k == 'opq':
            return Opaque(a[1])
        raise Unsupported('operand %r' % (a,))

    def gep(self, bt, ops):
        p = force(ops[0][1])
        off = ZERO
        t = bt
        for i, (ty, v) in enumerate(ops[1:]):
            v = force(v)
            if not isinstance(v, Poly):
                return Ptr(((ONE, OPAQUE, V(E.atom('badgep', (_vk(v),), unk=True))),))
            if i == 0:
                off = off + v * self.T.size_align(t)[0]
                continue
            if isinstance(t, tuple) and t[0] in ('arr', 'vec'):
                t = t[2]
                off = off + v * self.T.size_align(t)[0]
            else:
                j = v.const()
                lay = self.T.layout(t)
                o = lay[0][j] if isinstance(lay, tuple) else lay[j]
                off = off + o
                t = self.T.fields(t)[j]
        pp = asptr(p)
        if pp is None:
            return Ptr(((ONE, OPAQUE, V(E.atom('badgep', (_vk(p),), unk=True))),))
        return pp.plus(off)

    # ---------------------------------------------------------- functions
    def call(self, fn, args, st, path):
        """inline analysis of fn; returns (ret value or None, state) or NORETURN"""
        if len(self.stack) > 60 or fn.name in [f for f in self.stack]:
            raise Unsupported('recursion in ' + fn.dname)
        self.stack.append(fn.name)
        self.fnseen[fn.name] = self.fnseen.get(fn.name, 0) + 1
        oldcur = self.cur
        self.cur = fn
        try:
            fr = Frame(fn, path)
            for (ty, nm, raw), v in zip(fn.params, args):
                fr.env[nm] = v
            outs = self.region(fr, None, fn.entry, [(None, st, {})])
            if fr.ret is None:
                return NORETURN
            rv, rst = fr.ret
            for o in fr.allocas:
                rst.mem.pop(o, None)
            return rv, rst
        finally:
            self.cur = oldcur
            self.stack.pop()

    # ---------------------------------------------------------- joins
    def merge(self, inc):
        """inc: list of (state, phivals) -> (state, phivals)"""
        st, ph = inc[0]
        for st2, ph2 in inc[1:]:
            self.stats['joins'] += 1
            total = st.pc + st2.pc
            sel = localise(st2.pc, total)
            if sel is st2.pc and total != ONE:
                s1 = localise(st.pc, total)
                if s1 is not st.pc:
                    sel = ONE - s1
            st = self.merge2(st, st2, sel, total)
            if ph or ph2:
                ph = {k: vite(sel, ph2[k], ph[k]) for k in ph}
        return st, ph

    def merge2(self, a, b, sel, total):
        """state b when sel else a"""
        r = State()
        r.pc = total
        r.occ = dict(a.occ)
        for k, v in b.occ.items():
            if v > r.occ.get(k, -1):
                r.occ[k] = v
        mem = r.mem
        ns = ONE - sel
        am, bm = a.mem, b.mem
        for o, oa in am.items():
            ob = bm.get(o)
            if ob is None:
                # object absent in b (not yet created or untouched)
                if o.kind in ('alloca', 'heap'):
                    mem[o] = oa
                    continue
                ob = OS({}, None, None)
            if oa is ob:
                mem[o] = oa
                continue
            mem[o] = self.mergeos(o, oa, ob, sel, ns, r.tok)
        for o, ob in bm.items():
            if o not in am:
                if o.kind in ('alloca', 'heap'):
                    mem[o] = ob
                else:
                    mem[o] = self.mergeos(o, OS({}, None, None), ob, sel, ns, r.tok)
        a.tok = object()
        b.tok = object()
        return r

    def mergeos(self, o, oa, ob, sel, ns, tok):
        if oa.chain is None and ob.chain is None:
            ca, cb = oa.cells, ob.cells
            cells = {}
            for k, va in ca.items():
                vb = cb.get(k)
                if vb is va:
                    cells[k] = va
                elif vb is None:
                    if untyped(va[1]):
                        cells[k] = (va[0], _TypedJoin(sel, _TypedInit(self, o, C(k), va[0]), va[1], va[0]))
                    else:
                        cells[k] = (va[0], self._mv(sel, _Init(self, o, k, va), va[1]))
                else:
                    sz = va[0]
                    if vb[0] != sz:
                        cells[k] = (max(sz, vb[0]), Opaque('size-join'))
                        continue
                    if untyped(va[1]) and untyped(vb[1]) and (isinstance(va[1], _Untyped) or isinstance(vb[1], _Untyped)):
                        cells[k] = (sz, _TypedJoin(sel, vb[1], va[1], sz))
                    else:
                        cells[k] = (sz, vite(sel, vb[1], va[1]))
            for k, vb in cb.items():
                if k not in ca:
                    if untyped(vb[1]):
                        cells[k] = (vb[0], _TypedJoin(sel, vb[1], _TypedInit(self, o, C(k), vb[0]), vb[0]))
                    else:
                        cells[k] = (vb[0], self._mv(sel, vb[1], _Init(self, o, k, vb)))
            return OS(cells, None, tok)
        na, nb = oa.as_chain(), ob.as_chain()
        anc = common(na, nb)
        n = anc
        for e in suffix(na, anc):
            n = Node(e.wrap(('if', ns)), n)
        for e in suffix(nb, anc):
            n = Node(e.wrap(('if', sel)), n)
        return OS(None, n, tok)

    def _mv(self, sel, a, b):
        return Lazy(lambda: vite(sel, force(a), force(b)))

    # ---------------------------------------------------------- regions
    def region(self, fr, L, start, incoming):
        """run the acyclic region (function body or one loop iteration).
        incoming: [(pred, state, phivals)].  Returns (conts, exits)."""
        fn = fr.fn
        idx = fr.idx
        pend = {start: [(s, ph) for _p, s, ph in incoming]}
        heap = [(idx[start], start)]
        conts, exits = [], []
        blocks = L.blocks if L is not None else None
        first = True

        def route(target, pred, s, ph=None):
            if ph is None:
                ph = self.phivals(fr, target, pred)
            if L is not None and target == L.header:
                conts.append((s, ph))
            elif blocks is not None and target not in blocks:
                exits.append((target, pred, s, ph))
            else:
                if target not in pend:
                    pend[target] = []
                    heapq.heappush(heap, (idx[target], target))
                pend[target].append((s, ph))

        while heap:
            _, b = heapq.heappop(heap)
            inc = pend.pop(b)
            inc = [x for x in inc if x[0].pc.t]
            if not inc:
                first = False
                continue
            st, ph = self.merge(inc)
            L2 = fn.loops.get(b)
            if L2 is not None and not (first and L is L2):
                first = False
                for (target, pred, s2, ph2) in self.loop(fr, L2, st, ph):
                    route(target, pred, s2, ph2)
                continue
            first = False
            fr.env.update(ph)
            blk = fn.blocks[b]
            ok = True
            for ins in blk.instrs:
                r = self.instr(fr, st, ins)
                if r is NORETURN:
                    ok = False
                    break
                if type(r) is State:
                    st = r
            if not ok:
                continue
            t = blk.term
            if t.op == 'br':
                route(t.args[0], b, st)
            elif t.op == 'cbr':
                c = force(self.val(fr, t.args[0], 'i1'))
                if t.args[1] == t.args[2]:
                    route(t.args[1], b, st)
                    continue
                if not isinstance(c, Poly):
                    c = V(E.atom('opqcond', (fn.name, b), isbool=True, unk=True))
                if self.undefhook and c.undef:
                    self.undefhook(self, st, 'branch', c, t.line if t.line else (blk.instrs[-1].line if blk.instrs else None))
                c = self.asbool(c)
                if not c.isconst():
                    pc = st.pc
                    if pc != ONE:
                        m = pc * c
                        if not m.t:
                            c = ZERO
                        elif m == pc:
                            c = ONE
                if c.isconst():
                    route(t.args[1] if c.const() else t.args[2], b, st)
                else:
                    s2 = st.copy()
                    s1 = st
                    s2.pc = st.pc * (ONE - c)
                    s1.pc = st.pc * c
                    route(t.args[1], b, s1)
                    route(t.args[2], b, s2)
            elif t.op == 'ret':
                v = self.val(fr, t.args[0], None) if t.args and t.args[0] is not None else None
                fr.ret = (v, st)
            elif t.op == 'unreachable':
                continue
            else:
                raise Unsupported('terminator ' + t.op)
        return conts, exits

    def asbool(self, c):
        if c.isconst():
            return ONE if c.const() else ZERO
        if all(E.A(i).isbool for i in c.atoms()):
            return c
        return ONE - E.eq0(c)

    def phivals(self, fr, target, pred):
        blk = fr.fn.blocks[target]
        out = {}
        for ph in blk.phis:
            for v, p in ph.args:
                if p == pred:
                    out[ph.dst] = self.val(fr, v, ph.ty)
                    break
            else:
                raise Unsupported('phi without edge')
        return out

    # ---------------------------------------------------------- loops
    def loop(self, fr, L, st, ph):
        import loops
        return loops.run_loop(self, fr, L, st, ph)

    # ---------------------------------------------------------- instructions
    def instr(self, fr, st, ins):
        self.stats['instrs'] += 1
        op = ins.op
        env = fr.env
        a = ins.args
        if op == 'gep':
            env[ins.dst] = self.gep(ins.extra, [(t, self.val(fr, v, t)) for t, v in a])
            if self.accesshook and isinstance(ins.extra, tuple) and ins.extra[0] == 'arr' and len(a) > 2:
                self.subobject(fr, st, ins)
        elif op == 'load':
            v = self.load(st, self.val(fr, a[0], 'ptr'), ins.ty, ins.line)
            env[ins.dst] = v
        elif op == 'store':
            v = self.val(fr, a[0], ins.ty)
            self.store(st, self.val(fr, a[1], 'ptr'), v, ins.ty, ins.line)
        elif op == 'alloca':
            n = self.val(fr, a[0], 'i64')
            sz = n * self.T.size_align(ins.ty)[0]
            o = self.obj(('a', fr.path, ins.dst), sz, 'undef', 'alloca', '%s:%s' % (fr.fn.short, ins.dst), ins.line)
            o.meta = ('type', ins.ty)
            st.mem[o] = OS({}, None, st.tok)
            fr.allocas.append(o)
            env[ins.dst] = ptr(o)
        elif op == 'call':
            return self.do_call(fr, st, ins)
        elif op == 'phi':
            raise Unsupported('phi in body')
        else:
            env[ins.dst] = self.pure(fr, ins)
        return None

    def subobject(self, fr, st, ins):
        """indexing of a declared array (member or local): the element lies inside that array"""
        ops = [(t, force(self.val(fr, v, t))) for t, v in ins.args]
        if not all(isinstance(v, Poly) for _, v in ops[1:]) or ops[1][1].t or all(not v.t for _, v in ops[1:]):
            return
        addr = getattr(fr.fn, 'addrs', None)
        if addr is None:
            addr = set()
            for b in fr.fn.blocks.values():
                for i in b.instrs:
                    if i.op == 'load':
                        addr.add(i.args[0])
                    elif i.op == 'store':
                        addr.add(i.args[1])
                    elif i.op == 'gep':
                        addr.add(i.args[0][1])
            fr.fn.addrs = addr
        total = self.T.size_align(ins.extra)[0]
        t = ins.extra
        for _ in ops[2:]:
            t = t[2] if isinstance(t, tuple) and t[0] == 'arr' else t
        used = any(isinstance(x, tuple) and ins.dst in x or x == ins.dst for x in addr)
        o = self.obj(('declared', ins.extra), C(total), 'sym', 'declared', 'an array of declared size %d' % total)
        off = asptr(self.gep(ins.extra, [('ptr', ptr(o))] + ops[1:])).alts[0][2]
        self.accesshook(self, st, 'index', Ptr(((ONE, o, off),)), self.T.size_align(t)[0] if used else 0, ins.line)

    BIN = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}

    def pure(self, fr, ins):
        op = ins.op
        a = ins.args
        ty = ins.ty
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            x = self.dv(self.val(fr, a[0], ty))
            y = self.dv(self.val(fr, a[1], ty))
            if op == 'fadd':
                return E.add(x, y)
            if op == 'fsub':
                return E.sub(x, y)
            if op == 'fmul':
                return E.mul(x, y)
            return E.div(x, y)
        if op == 'fneg':
            return E.neg(self.dv(self.val(fr, a[0], ty)))
        if op in ('add', 'sub', 'mul'):
            x = self.iv(self.val(fr, a[0], ty))
            y = self.iv(self.val(fr, a[1], ty))
            return self.BIN[op](x, y)
        if op in ('sext', 'zext', 'trunc', 'bitcast', 'freeze', 'fpext', 'fptrunc', 'addrspacecast'):
            v = force(self.val(fr, a[0], ty))
            if op == 'trunc' and ins.extra == 'i1' and isinstance(v, Poly):
                return self.asbool(v)
            if op == 'sext' and ty == 'i1' and isinstance(v, Poly):
                return -v
            return v
        if op == 'icmp':
            return self.icmp(ins.extra, force(self.val(fr, a[0], ty)), force(self.val(fr, a[1], ty)))
        if op == 'fcmp':
            x = self.dv(self.val(fr, a[0], ty))
            y = self.dv(self.val(fr, a[1], ty))
            p = ins.extra
            if p in ('olt', 'ult'):
                return E.flt0(E.sub(x, y))
            if p in ('ogt', 'ugt'):
                return E.flt0(E.sub(y, x))
            if p in ('ole', 'ule'):
                return ONE - E.flt0(E.sub(y, x))
            if p in ('oge', 'uge'):
                return ONE - E.flt0(E.sub(x, y))
            if p in ('oeq', 'ueq'):
                return E.feq0(E.sub(x, y))
            if p in ('one', 'une'):
                return ONE - E.feq0(E.sub(x, y))
            if p in ('ord', 'true'):
                return ONE
            return ZERO
        if op == 'select':
            c = self.asbool(self.iv(self.val(fr, a[0], 'i1')))
            return vite(c, self.val(fr, a[1], ty), self.val(fr, a[2], ty))
        if op in ('sitofp', 'uitofp'):
            return E.i2d(self.iv(self.val(fr, a[0], ty)))
        if op in ('fptosi', 'fptoui'):
            x = self.dv(self.val(fr, a[0], ty))
            if x.isconst():
                return C(int(x.const()))
            return V(E.atom('fptosi', (x,)))
        if op in ('sdiv', 'udiv'):
            return E.pdiv(self.iv(self.val(fr, a[0], ty)), self.iv(self.val(fr, a[1], ty)))
        if op in ('srem', 'urem'):
            return E.prem(self.iv(self.val(fr, a[0], ty)), self.iv(self.val(fr, a[1], ty)))
        if op in ('and', 'or', 'xor'):
            x = self.iv(self.val(fr, a[0], ty))
            y = self.iv(self.val(fr, a[1], ty))
            if self.boolish(x) and self.boolish(y):
                if op == 'and':
                    return x * y
                if op == 'or':
                    return x + y - x * y
                return x + y - (x * y) * 2
            if op == 'xor' and ty == 'i1':
                return x + y - (x * y) * 2
            if x.isconst() and y.isconst():
                p, q = x.const(), y.const()
                return C(p & q if op == 'and' else (p | q if op == 'or' else p ^ q))
            if y.isconst() and y.const() == -1:
                if op == 'xor':
                    return -x - 1
                if op == 'and':
                    return x
            if op == 'and' and y.isconst() and y.const() > 0 and (y.const() & (y.const() + 1)) == 0 and X.pn(x):
                return E.prem(x, y + 1)
            return V(E.atom('bit' + op, (x, y)))
        if op == 'shl':
            x = self.iv(self.val(fr, a[0], ty))
            y = self.iv(self.val(fr, a[1], ty))
            if y.isconst():
                return x * (1 << y.const())
            return V(E.atom('shl', (x, y)))
        if op in ('ashr', 'lshr'):
            x = self.iv(self.val(fr, a[0], ty))
            y = self.iv(self.val(fr, a[1], ty))
            if y.isconst():
                q = E.exact_div(x, C(1 << y.const()))
                if q is not None:
                    return q
                if X.pn(x):
                    return E.pdiv(x, C(1 << y.const()))
            return V(E.atom(op, (x, y)))
        if op in ('ptrtoint', 'inttoptr'):
            return Lazy(lambda: self.val(fr, a[0], ty)) if False else self.val(fr, a[0], ty)
        return Opaque(op)

    def boolish(self, x):
        if x.isconst():
            return x.const() in (0, 1)
        return all(E.A(i).isbool for i in x.atoms())

    def dv(self, v):
        v = force(v)
        if isinstance(v, D):
            return v
        if isinstance(v, Poly):
            return E.i2d(v)
        return E.datom('opqd', (str(_vk(v)), getattr(v, 'ser', 0)), unk=True)

    def iv(self, v):
        v = force(v)
        if isinstance(v, Poly):
            return v
        if isinstance(v, Ptr):
            if v == NULL:
                return ZERO
            if len(v.alts) == 1:
                # address as integer: object base atom + offset
                o = v.alts[0][1]
                return V(E.atom('addr', (o.name,))) + v.alts[0][2]
            if all(o is not OPAQUE for c, o, f in v.alts):
                r = ZERO
                for c, o, f in v.alts:
                    if o is not None:
                        r = r + c * (V(E.atom('addr', (o.name,))) + f)
                return r
        return V(E.atom('opqi', (str(_vk(v)), getattr(v, 'ser', 0)), unk=True))

    def icmp(self, pred, x, y):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            px, py = asptr(x), asptr(y)
            if px is not None and py is not None:
                r = ZERO
                for c1, o1, f1 in px.alts:
                    for c2, o2, f2 in py.alts:
                        cc = c1 * c2
                        if not cc.t:
                            continue
                        if o1 is OPAQUE or o2 is OPAQUE:
                            t = V(E.atom('ptrcmp', (pred, _vk(px), _vk(py)), isbool=True, unk=True))
                        elif o1 is o2:
                            d = f1 - f2
                            t = self.icmpi(pred, d, ZERO) if o1 is not None else (ONE if pred in ('eq', 'ule', 'uge', 'sle', 'sge') else ZERO)
                        else:
                            if pred == 'eq':
                                t = ZERO
                            elif pred == 'ne':
                                t = ONE
                            else:
                                t = V(E.atom('ptrcmp', (pred, _vk(px), _vk(py)), isbool=True, unk=True))
                        r = r + cc * t
                return r
        return self.icmpi(pred, self.iv(x), self.iv(y))

    def icmpi(self, p, x, y):
        d = x - y
        if not d.isconst():
            # sizes and counts are far below 2**56
            k = d.t.get((), 0)
            if abs(k) >= 1 << 56 and all(abs(v) < 1 << 20 for m, v in d.t.items() if m):
                d = C(k)
        if p == 'eq':
            return E.eq0(d)
        if p == 'ne':
            return ONE - E.eq0(d)
        if p in ('slt', 'ult'):
            return E.lt0(d)
        if p in ('sgt', 'ugt'):
            return E.lt0(-d)
        if p in ('sle', 'ule'):
            return ONE - E.lt0(-d)
        if p in ('sge', 'uge'):
            return ONE - E.lt0(d)
        raise Unsupported('icmp ' + p)

    # ---------------------------------------------------------- calls
    def do_call(self, fr, st, ins):
        self.stats['calls'] += 1
        callee, sret = ins.extra
        name = callee
        dn = self.mod.dn.get(name, name)
        args = [self.val(fr, v, t) for t, v in ins.args]
        fn = self.mod.funcs.get(name)
        if fn is None and name in self.mod.globals:
            m = re.search(r'\balias\b.*@([\w.$]+)\s*$', self.mod.globals[name][3] or '')
            if m:
                fn = self.mod.funcs.get(m.group(1))
        path = fr.path + ((ins.line[1] if ins.line else 0, fr.idx.get(None, 0), ins.dst or id_of(fr, ins), name),)
        h = None
        if fn is not None and not dn.startswith(('std::', '__gnu_cxx::')):
            base = fn.short
            h = self.opaque.get(base) or self.opaque.get(dn)
        if h is not None:
            r = h(self, st, fn, args, path, ins.line)
        elif fn is not None and not lib(dn):
            r = self.call(fn, args, st, path)
            if r is NORETURN:
                return NORETURN
            rv, st2 = r
            if ins.dst is not None:
                fr.env[ins.dst] = rv if rv is not None else Opaque('void')
            return st2
        else:
            import libmodel
            r = libmodel.call(self, st, name, dn, ins, args, path, fr)
        if r is NORETURN:
            return NORETURN
        if ins.dst is not None:
            fr.env[ins.dst] = r if r is not None else Opaque('ret ' + dn)
        return None


def lib(dn):
    s = dn
    return 'std::' in s.split('(')[0] or '__gnu_cxx' in s.split('(')[0]


def id_of(fr, ins):
    d = getattr(fr, '_cid', None)
    if d is None:
        d = fr._cid = {}
    if id(ins) not in d:
        # static position: block order
        n = 0
        for b in fr.fn.rpo:
            for i in fr.fn.blocks[b].instrs:
                if i.op == 'call':
                    d[id(i)] = 'c%d' % n
                    n += 1
    return d.get(id(ins), 'c?')


class _Untyped(Lazy):
    """contents whose type is only known at the load"""
    __slots__ = ('size',)

    def _guess(self):
        return self.at(WORD.get(self.size, 'i32'))


WORD = {1: 'i8', 2: 'i16', 4: 'i32', 8: 'double'}


class _TypedInit(_Untyped):
    """initial contents"""
    __slots__ = ('it', 'o', 'off')

    def __init__(self, it, o, off, size=8):
        self.it, self.o, self.off, self.size = it, o, off, size
        self.v = None
        self.fn = self._guess

    def at(self, ty):
        return self.it.init_value(self.o, self.off, ty)


class _TypedJoin(_Untyped):
    """join of contents of which none determines the type"""
    __slots__ = ('sel', 'a', 'b')

    def __init__(self, sel, a, b, size):
        self.sel, self.a, self.b, self.size = sel, a, b, size
        self.v = None
        self.fn = self._guess

    def at(self, ty):
        return vite(self.sel, coerce(self.a, ty), coerce(self.b, ty))


def untyped(v):
    return isinstance(v, _Untyped) or (isinstance(v, Poly) and not v.t)


def _Init(it, o, k, other):
    def f():
        v = force(other[1])
        if isinstance(v, D):
            ty = 'double'
        elif isinstance(v, Ptr):
            ty = 'ptr'
        else:
            ty = {1: 'i8', 4: 'i32', 8: 'i64'}.get(other[0], 'i32')
            if other[0] == 8 and isinstance(v, Poly) and not v.t:
                ty = 'double'
        return it.init_value(o, C(k), ty)
    return Lazy(f)
