"""Grid-cell classes, comparison of abstract values and the obligation ledger."""
import json, os, time
import expr as E
import numval
import ctx as X
import interp as I
from expr import Poly, C, ZERO, ONE, V, D
from interp import force, Ptr
from model import NX, NY, NZ

SIZES = {'x': NX, 'y': NY, 'z': NZ}


def _id(p):
    return list(p.t)[0][0]


def axis_classes(ax, full=True):
    """partition of {(n, I): n >= 2, 0 <= I < n} into finitely many classes.
    yields (label, I as polynomial, {atom id: slack polynomial}, kind)"""
    n = SIZES[ax]
    if n.isconst():
        n = n.const()
        for v in range(n):
            kind = 'lo' if v == 0 else 'hi' if v == n - 1 else 'both' if n == 3 else 'first' if v == 1 else \
                'last' if v == n - 2 else 'mid'
            yield ('%s=%d,n=%d' % (ax, v, n), C(v), {}, kind)
        return
    s1, s2 = X.slack(ax + '1'), X.slack(ax + '2')
    nid = _id(n)
    a = E.sym('I' + ax)
    yield ('%s=0' % ax, ZERO, {}, 'lo')
    yield ('%s=n-1' % ax, n - 1, {}, 'hi')
    yield ('%s=1,n=3' % ax, ONE, {nid: C(3)}, 'both')
    yield ('%s=1,n>=4' % ax, ONE, {nid: s1 + 4}, 'first')
    yield ('%s=n-2,n>=4' % ax, n - 2, {nid: s1 + 4}, 'last')
    yield ('2<=%s<=n-3' % ax, V(E.A(_id(a))), {nid: s1 + s2 + 5, _id(a): s1 + 2}, 'mid')


def node_classes(dim):
    """classes of grid nodes: (label, (I,J,K), context map, kinds)"""
    for lx, i, mx, kx in axis_classes('x'):
        for ly, j, my, ky in axis_classes('y'):
            if dim == 2:
                yield ('%s %s' % (lx, ly), (i, j, ZERO), {**mx, **my}, (kx, ky))
            else:
                for lz, k, mz, kz in axis_classes('z'):
                    yield ('%s %s %s' % (lx, ly, lz), (i, j, k), {**mx, **my, **mz}, (kx, ky, kz))


def elem_axis(ax):
    """a generic element index 0 <= e <= n-2"""
    n = SIZES[ax]
    a = E.sym('e' + ax)
    s1, s2 = X.slack('e' + ax + '1'), X.slack('e' + ax + '2')
    return V(E.A(_id(a))), {_id(n): s1 + s2 + 2, _id(a): s1}


def generic_elems(dim):
    """one symbolic element covering all of them; every element of a refinement run with fixed sizes"""
    if NX.isconst():
        for ex in range(NX.const() - 1):
            for ey in range(NY.const() - 1):
                for ez in range(NZ.const() - 1 if dim == 3 else 1):
                    yield (C(ex), C(ey), C(ez)), {}
    else:
        yield generic_elem(dim)


def generic_elem(dim):
    m = {}
    if NX.isconst():
        return tuple(C(v.const() - 2) if k < dim else ZERO for k, v in enumerate((NX, NY, NZ))), {}
    out = []
    for ax in ('x', 'y', 'z')[:dim]:
        e, mm = elem_axis(ax)
        out.append(e)
        m.update(mm)
    while len(out) < 3:
        out.append(ZERO)
    return tuple(out), m


def total(sizes, fn, name):
    """nested sum of fn(indices) over 0 <= i_a < sizes[a] (expanded when the sizes are fixed)"""
    import itertools
    if all(s.isconst() for s in sizes):
        r = E.D0
        for ix in itertools.product(*[range(s.const()) for s in sizes]):
            r = r + fn([C(i) for i in ix])
        return r
    iv = [E.atom('iv', (name, a)) for a in range(len(sizes))]
    for a, s in enumerate(sizes):
        X.set_bound(iv[a], ZERO, s - 1, 1)
    r = fn([V(x) for x in iv])
    for a in reversed(range(len(sizes))):
        r = E.dsum(sizes[a], iv[a], r)
    return r


def anyof(sizes, fn, name):
    import itertools
    if all(s.isconst() for s in sizes):
        r = ZERO
        for ix in itertools.product(*[range(s.const()) for s in sizes]):
            r = E.bor(r, fn([C(i) for i in ix]))
        return r
    iv = [E.atom('iv', (name, a)) for a in range(len(sizes))]
    for a, s in enumerate(sizes):
        X.set_bound(iv[a], ZERO, s - 1, 1)
    r = fn([V(x) for x in iv])
    for a in reversed(range(len(sizes))):
        r = E.anyof(sizes[a], iv[a], r)
    return r


class Grid(X.Cell):
    """context of one class; canon() rewrites values into the class's slack variables"""

    def __enter__(self):
        X.Cell.__enter__(self)
        mm = {}
        for i, p in list(self.m.items()):
            mm[i] = X.slackify(p)
        for i in X._default_slack:
            if i not in mm:
                mm[i] = X._default_slack[i]
        self.S = E.Subst(mm)
        return self

    def canon(self, v):
        v = force(v)
        return I.sub(self.S, I.resimp(v))


def is_boundary(kinds):
    return any(k in ('lo', 'hi') for k in kinds)


INTCOND = ('lt0', 'eq0', 'srem', 'sdiv', 'first', 'any', 'ptrcmp', 'psum', 'exitsel', 'opqcond', 'iters', 'fptosi')


def _geom(i):
    """does the integer condition with atom id i speak about grid geometry only (sizes, indices)?"""
    for k in E.adeps(E.A(i)):
        a = E.A(k)
        if a.kind in ('init', 'deref', 'etype', 'nlflag', 'gpflag'):
            return False
        if a.kind == 'sym' and a.isbool:
            return False
    return True


def soft(v):
    """does v still contain integer conditions / unresolved loop facts the domain could not decide?"""
    for i in E.deps(v):
        k = E.A(i).kind
        if k in ('lt0', 'eq0', 'srem', 'sdiv', 'any', 'psum'):
            if _geom(i):
                return True
            continue
        if k in INTCOND:
            return True
        if k.startswith(('ld', 'lv', 'H', 'opq', 'bit', 'badptr', 'pun')):
            return True
    return False


class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obs = 0
        self.held = 0
        self.und = []
        self.viol = []
        self.rules = {}
        self.analysed = {}
        self.notes = []
        self.samples = []
        self.nviol = 0
        self.t0 = time.time()
        self._vk = set()
        self.guard = None     # condition of the case under examination
        self.tune = None      # chooses symbol values of a valuation for that case

    def rule(self, name, text):
        self.rules.setdefault(name, {'text': text, 'obligations': 0, 'held': 0, 'undecided': 0, 'violated': 0})

    def dump(self):
        return {k: getattr(self, k) for k in ('obs', 'held', 'und', 'viol', 'rules', 'analysed', 'notes', 'samples', 'nviol')}

    def merge(self, d):
        self.obs += d['obs']
        self.held += d['held']
        self.nviol += d['nviol']
        self.und += d['und']
        self.notes += d['notes']
        self.samples = (self.samples + d['samples'])[:12]
        for v in d['viol']:
            k = (v['rule'], v['where'], v['what'])
            if k not in self._vk and len(self.viol) < 200:
                self._vk.add(k)
                self.viol.append(v)
        for n, r in d['rules'].items():
            self.rule(n, r['text'])
            for k in ('obligations', 'held', 'undecided', 'violated'):
                self.rules[n][k] += r[k]
            if self.rules[n]['text'] == n:
                self.rules[n]['text'] = r['text']
        for k, v in d['analysed'].items():
            self.analysed[k] = self.analysed.get(k, 0) + v

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(str(s)[:300])

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def _r(self, name):
        if name not in self.rules:
            self.rule(name, name)
        return self.rules[name]

    def ok(self, rule, n=1):
        r = self._r(rule)
        r['obligations'] += n
        r['held'] += n
        self.obs += n
        self.held += n

    def undecided(self, rule, where, why):
        where = where() if callable(where) else where
        r = self._r(rule)
        r['obligations'] += 1
        r['undecided'] += 1
        self.obs += 1
        if len(self.und) < 200:
            self.und.append({'rule': rule, 'where': where, 'why': str(why)[:400]})

    def bad(self, rule, where, what, expected=None, got=None, case=None):
        where = where() if callable(where) else where
        r = self._r(rule)
        r['obligations'] += 1
        r['violated'] += 1
        self.obs += 1
        self.nviol += 1
        k = (rule, where, what)
        if k in self._vk:
            return
        self._vk.add(k)
        if len(self.viol) < 100:
            self.viol.append({'rule': rule, 'where': where, 'what': what, 'case': case,
                              'expected': str(expected)[:600] if expected is not None else None,
                              'got': str(got)[:600] if got is not None else None})

    def fn(self, inst):
        for f, n in inst.it.fnseen.items():
            self.analysed[f] = self.analysed.get(f, 0) + n
        for k, v in inst.it.stats.items():
            d = self.analysed.setdefault('#' + k, 0)
            self.analysed['#' + k] = d + v

    def eq(self, rule, where, got, want, g=None, case=None, what='value differs', softok=False, count=True):
        got, want = force(got), force(want)
        if g is not None:
            got, want = g.canon(got), g.canon(want)
        if same(got, want):
            if count:
                self.ok(rule)
            return True
        if callable(where):
            where = where()
        if isinstance(got, (Poly, D)) and isinstance(want, (Poly, D)):
            if getattr(got, 'unk', False) or getattr(want, 'unk', False):
                self.undecided(rule, where, 'not resolved (%s): %s' % (case, got))
                return None
            if self.rules.get(rule, {}).get('violated', 0) >= 25 or self.nviol and time.time() - self.t0 > 45:
                self.undecided(rule, where, 'not examined, the rule is violated already (%s)' % (case,))
                return None
            strict = not softok and (soft(got) or soft(want))
            if not numval.separated(got, want, self.guard, strict=strict, tune=self.tune):
                self.undecided(rule, where, 'no valuation found that separates the two terms (%s): %s' % (case, got))
                return None
            self.bad(rule, where, what, want, got, case)
            return False
        if isinstance(got, I.Opaque) or isinstance(want, I.Opaque):
            self.undecided(rule, where, 'outside the domain: %s' % (got,))
            return None
        if isinstance(got, Ptr) and got.unk:
            self.undecided(rule, where, 'pointer not resolved: %s' % (got,))
            return None
        self.bad(rule, where, what, want, got, case)
        return False


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a == b
    if isinstance(a, D) and isinstance(b, Poly):
        return a is E.i2d(b)
    if isinstance(a, Poly) and isinstance(b, D):
        return b is E.i2d(a)
    return False


def last_writer(st, obj, off, g=None):
    """file:line of the newest entry that may write (obj, off), for reports"""
    node = st.chain(obj)
    while node is not None and node.e is not None:
        e = node.e
        if e.kind in ('w', 'acc', 'fill', 'copy'):
            try:
                r = I.solve(e, off)
            except Exception:
                r = None
            if r is not None and e.line:
                return '%s:%s' % (os.path.basename(e.line[0]), e.line[1])
        node = node.p
    return None


def splits(mp):
    """sub-cases of a class by small grid sizes"""
    opts = []
    if NX.isconst():
        return
    for n in (NX, NY, NZ):
        i = _id(n)
        cur = mp.get(i)
        if cur is None:
            cur = X._default_slack[i]
        if cur.isconst():
            opts.append([{}])
            continue
        # cur = s (+ s') + c : split on the first slack atom
        ats = sorted(cur.atoms())
        l = []
        a = ats[0]
        for v in (ZERO, ONE, V(E.A(a)) + 2):
            S = E.Subst({a: v})
            m = {i: S.poly(cur)}
            for k, p in mp.items():
                if k != i and a in p.atoms():
                    m[k] = S.poly(p)
            l.append(m)
        opts.append(l)
    for a in opts[0]:
        for b in opts[1]:
            for c in opts[2]:
                yield {**mp, **a, **b, **c}


class Batch:
    """obligations of one class: evaluated together in the class's context; those the domain cannot settle are
    refined by small grid sizes"""

    def __init__(self, R, mp):
        self.R, self.mp, self.obs = R, mp, []

    def add(self, rule, where, fn, case, what='value differs', softok=False):
        self.obs.append((rule, where, fn, case, what, softok))

    def run(self):
        R = self.R
        rest = []
        with Grid(self.mp) as g:
            for ob in self.obs:
                rule, where, fn, case, what, softok = ob
                got, want = fn(g)
                got, want = g.canon(got), g.canon(want)
                if same(got, want):
                    R.ok(rule)
                elif definite(got, want) or softok:
                    R.eq(rule, where, got, want, None, case, what, softok)
                else:
                    rest.append(ob)
        if not rest:
            return
        if NX.isconst():
            with Grid(self.mp) as g:
                for rule, where, fn, case, what, softok in rest:
                    got, want = fn(g)
                    R.eq(rule, where, got, want, g, case, what, softok)
            return
        state = {}
        for m2 in splits(self.mp):
            live = [q for q in range(len(rest)) if state.get(q) is None]
            if not live:
                break
            with Grid(m2) as g:
                for q in live:
                    rule, where, fn, case, what, softok = rest[q]
                    got, want = fn(g)
                    r = R.eq(rule, where, got, want, g, '%s, %s' % (case, sizes(m2)), what, softok, count=False)
                    if r is not True:
                        state[q] = r if r is False else 'und'
        for q in range(len(rest)):
            if state.get(q) is None:
                R.ok(rest[q][0])
        self.obs = []


def decide(R, rule, where, fn, mp, case, what='value differs', softok=False):
    b = Batch(R, mp)
    b.add(rule, where, fn, case, what, softok)
    b.run()


def sizes(m):
    out = []
    for nm, n in (('nx', NX), ('ny', NY), ('nz', NZ)):
        if n.isconst():
            continue
        p = m.get(_id(n))
        if p is not None:
            out.append('%s=%s' % (nm, p))
    return ' '.join(out)


def definite(got, want):
    if not (isinstance(got, (Poly, D)) and isinstance(want, (Poly, D))):
        return True
    return not (got.unk or want.unk or soft(got) or soft(want))
