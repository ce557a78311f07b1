"""Assumption context: bounds of loop variables, size parameters >= 2, grid-cell classes.
Decides signs of integer polynomials by monotone elimination of bounded variables and
non-negativity of coefficients after slack substitution (sound, incomplete)."""
import expr as E
from expr import Poly, C, ZERO, ONE, V

BIGS = {}        # atom ids standing for 'larger than any offset' strides
BOUNDS = {}      # atom id -> (lo Poly, hi Poly, level)
DYN = {}         # atom kind -> fn(atom) -> (lo, hi, level) or None
MINS = {}        # atom id -> integer lower bound (unbounded above) : size parameters
SLACK = {}       # atom id -> Poly in slack atoms (grid-cell class); overrides MINS
FACTS = {}
_cache = {}
_slack_atoms = {}
_default_slack = {}


_epoch = [0]


def bump():
    _cache.clear()
    _epoch[0] += 1


def ctxkey():
    return _epoch[0]


def set_bound(a, lo, hi, level):
    b = BOUNDS.get(a.id)
    nb = (lo, hi, level)
    if b is None or b[0] != lo or b[1] != hi or b[2] != level:
        BOUNDS[a.id] = nb
        bump()


def set_min(p, m):
    (mono,) = p.t
    i = mono[0]
    MINS[i] = m
    s = slack('s_' + E.A(i).name)
    _default_slack[i] = s + m
    bump()


def slack(name):
    p = E.sym('~' + name)
    _slack_atoms[list(p.t)[0][0]] = True
    return p


class Cell:
    """context manager: slack substitution {atom id: Poly in slack atoms} for one grid-cell class"""

    def __init__(self, m, bounds=None):
        self.m = m
        self.b = bounds or {}

    def __enter__(self):
        global SLACK
        self.old = dict(SLACK)
        self.oldb = {}
        SLACK.update(self.m)
        for k, v in self.b.items():
            self.oldb[k] = BOUNDS.get(k)
            BOUNDS[k] = v
        bump()
        return self

    def __exit__(self, *a):
        SLACK.clear()
        SLACK.update(self.old)
        for k, v in self.oldb.items():
            if v is None:
                BOUNDS.pop(k, None)
            else:
                BOUNDS[k] = v
        bump()


class Shift:
    """assume slack atom i >= c (an execution of a loop body implies its trip count is positive)"""

    def __init__(self, m):
        self.m = m

    def __enter__(self):
        global _shift
        self.old = dict(_shift)
        for i, (c,) in self.m.items():
            _shift[i] = max(_shift.get(i, 0), c)
        bump()

    def __exit__(self, *a):
        _shift.clear()
        _shift.update(self.old)
        bump()


_shift = {}


def _bound(i):
    if i in SLACK:
        return None
    b = BOUNDS.get(i)
    if b is not None:
        return b
    a = E.A(i)
    k = a.kind
    if k in DYN:
        b = DYN[k](a)
        if b is not None:
            return b
    if k == 'tau':
        return (ZERO, a.args[0] - 1, 50 + a.args[1])
    if k == 'first':
        return (ZERO, a.args[0] - 1, 40)
    if k == 'srem':
        if pn(a.args[0]) and pn(a.args[1] - 1):
            return (ZERO, a.args[1] - 1, 60)
    if k == 'sdiv':
        if pn(a.args[0]) and pn(a.args[1] - 1):
            q = E.exact_div(a.args[0], a.args[1])
            return (ZERO, a.args[0], 60)
    return None


def slackify(p):
    m = {}
    for i in p.atoms():
        if i in SLACK:
            m[i] = SLACK[i]
        elif i in _default_slack:
            m[i] = _default_slack[i]
    if not m:
        return p
    q = E.Subst(m).poly(p)
    # slack polys may mention sizes again (e.g. I -> nx-1)
    if any((i in SLACK or i in _default_slack) for i in q.atoms()):
        return slackify(q)
    return q


def pn(p, depth=0):
    """prove p >= 0 for all values of the context"""
    if p.isconst():
        return p.const() >= 0
    k = p
    r = _cache.get(k)
    if r is not None:
        return r
    r = _pn(p, depth)
    _cache[k] = r
    return r


def _pn(p, depth):
    if depth > 24:
        return False
    best = None
    for i in p.atoms():
        if i in BIGS:
            # huge stride: decides alone
            s = p.coeff(i)
            if s is None:
                return False
            a, b = s
            if pn(a - 1, depth + 1):
                return True
            if not a.t:
                continue
            return False
        b = _bound(i)
        if b is None and E.A(i).isbool and any(c < 0 and i in m for m, c in p.t.items()):
            b = (ZERO, ONE, 30)
        if b is not None and (best is None or b[2] > best[1][2]):
            best = (i, b)
    if best is not None:
        i, (lo, hi, lev) = best
        s = p.coeff(i)
        if s is not None:
            a, b = s
            if pn(a, depth + 1):
                return pn(a * lo + b, depth + 1)
            if hi is not None and pn(-a, depth + 1):
                return pn(a * hi + b, depth + 1)
            # mixed sign coefficient: linear in i => check both ends
            if hi is not None:
                return pn(a * lo + b, depth + 1) and pn(a * hi + b, depth + 1)
        return False
    q = slackify(p)
    if q.isconst():
        return q.const() >= 0
    if _shift:
        m = {i: V(E.A(i)) + c for i, c in _shift.items() if i in q.atoms()}
        if m:
            q = E.Subst(m).poly(q)
            if q.isconst():
                return q.const() >= 0
    for m, c in q.t.items():
        if c < 0:
            return False
        for i in m:
            if i not in _slack_atoms and not E.A(i).isbool:
                return False
    return True


def is_zero(p):
    if not p.t:
        return True
    if p.isconst():
        return False
    q = slackify(p)
    return not q.t


def decide(p):
    if p.isconst():
        c = p.const()
        return 'zero' if c == 0 else ('neg' if c < 0 else 'nonneg')
    if is_zero(p):
        return 'zero'
    if pn(p):
        return 'nonneg'
    if pn(-p - 1):
        return 'neg'
    return None


def nonzero(p):
    if p.isconst():
        return p.const() != 0
    return pn(p - 1) or pn(-p - 1)


def poly_divmod(R, c):
    """candidate (q, r) with R = c*q + r by multivariate division on c's leading monomial"""
    lead = max(c.t, key=lambda m: (len(m), m))
    lc = c.t[lead]
    q = ZERO
    r = ZERO
    p = R
    for _ in range(200):
        if not p.t:
            break
        m = max(p.t, key=lambda m: (len(m), m))
        l = list(m)
        ok = True
        for i in lead:
            if i in l:
                l.remove(i)
            else:
                ok = False
                break
        co = p.t[m]
        if ok and co % lc == 0 if isinstance(co, int) else False:
            t = Poly({tuple(l): co // lc})
            q = q + t
            p = p - t * c
        else:
            t = Poly({m: co})
            r = r + t
            p = p - t
    return q, r


def floordiv(R, c):
    """(q, r) with R = c*q + r, 0 <= r < c provable; else None.  c > 0 assumed provable."""
    if not R.t:
        return ZERO, ZERO
    if c.isconst():
        cc = c.const()
        # all-constant modulus: need divisibility of symbolic part
        sp = Poly({m: x for m, x in R.t.items() if m})
        q = E.exact_div(sp, c)
        if q is not None:
            k = R.const()
            return q + (k // cc), C(k % cc)
    cands = []
    q0, r0 = poly_divmod(R, c)
    cands.append((q0, r0))
    # alternative: slackified constants can be larger than c; try neighbours
    for dq in (-1, 1, -2, 2):
        cands.append((q0 + dq, r0 - c * dq))
    for q, r in cands:
        if pn(r) and pn(c - 1 - r):
            return q, r
    if SLACK:
        # evaluate in slack variables: R and c as slack polynomials
        Rs, cs = slackify(R), slackify(c)
        if Rs.isconst() and cs.isconst() and cs.const() > 0:
            return C(Rs.const() // cs.const()), C(Rs.const() % cs.const())
        q0, r0 = poly_divmod(Rs, cs)
        for dq in (0, -1, 1, -2, 2):
            q, r = q0 + dq, r0 - cs * dq
            if pn(r) and pn(cs - 1 - r):
                return q, r
    return None


def simpdiv(a, b):
    if not pn(b - 1):
        return None
    if not pn(a):
        return None
    return floordiv(a, b)


E.DECIDE = decide
E.SIMPDIV = simpdiv


def reset():
    BOUNDS.clear()
    SLACK.clear()
    FACTS.clear()
    _cache.clear()
