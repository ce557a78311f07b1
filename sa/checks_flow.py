"""C10-C14: the homogenisation driver (history, shortcut, tangent, flags, isolation)."""
from fractions import Fraction
import effects
import expr as E
import ctx as X
import interp as I
import libmodel
import model as M
import query as Q
from expr import Poly, C, ZERO, ONE, V, D, D0, D1
from interp import ptr, force, Ptr
from model import NX, NY, NZ, AnchorError
from harness import check, parallel, REPO
from checks_grid import ENV, defsets, trace
from checks_elem import nvoi, q, call

FLOWENV = ENV + ['set_displ, newton_raphson and calc_ave_stress are replaced by their contracts: the solution, the iteration '
                 'count, the error, the non-linear flag, the average stress and the trial history are functions of the strain '
                 'prescribed last and of the committed history in vars_old (initial-guess independence of the solver is not claimed)',
                 'the two history pointers of a Gauss point are null or non-null together (rule history-pair shows it is kept)']


def ptrs_of(args):
    return [force(a) for a in args if isinstance(force(a), Ptr)]


class Flow:
    """instance with a list of n Gauss points in an arbitrary state; solver functions replaced by contracts"""

    def __init__(self, src, dim, n, mt=0, ctor_state=False, ix=None):
        self.src, self.dim, self.n = src, dim, n
        self.nv = nvoi(dim)
        m = self.m = M.Inst(src, dim, mt)
        it = self.it = m.it
        gm = self.gm = m.gm
        for k in ('id', 'nr_its', 'int_vars_n', 'int_vars_k', 'macro_strain', 'macro_stress', 'macro_ctan', 'nr_err', 'inv_max'):
            if k not in gm:
                raise AnchorError('field %s of gp_t not found' % k)
        st = m.ctor_st.copy() if ctor_state else m.generic()
        if ctor_state:
            m.generic()
        self.GS = libmodel.GPSIZE[0]
        off = m.off('gauss_list')
        w = st.wos(m.this)
        w.cells[off + 16] = (8, C(n))
        self.g, _, _ = libmodel.gplist(it, ptr(m.this, C(off)))
        self.num = force(m.get('num_int_vars', st))
        self.null = [V(E.atom('nohist', (k,), isbool=True, name='nohist%d' % k)) for k in range(n)]
        self.hn = [it.obj(('hist_n', k), self.num * 8, 'sym', 'ext', 'hist_n%d' % k) for k in range(n)]
        self.hk = [it.obj(('hist_k', k), self.num * 8, 'sym', 'ext', 'hist_k%d' % k) for k in range(n)]
        on, ok = gm['int_vars_n'][0], gm['int_vars_k'][0]

        def init(o, ty):
            if ty != 'ptr':
                return None
            if not o.isconst():
                return Ptr(((V(E.atom('histany', (o,), isbool=True, unk=True)), None, ZERO),))
            k, f = divmod(o.const(), self.GS)
            if k >= n or f not in (on, ok):
                return None
            b = (self.hn if f == on else self.hk)[k]
            return Ptr(((self.null[k], None, ZERO), (ONE - self.null[k], b, ZERO)))
        self.g.init = init
        if ix is not None:
            self.ix = ZERO if ix == 'first' else self.num - 1
        elif self.num.isconst():
            self.ix = C(min(self.num.const() - 1, 3 + 7 * 8))
        else:
            a = E.atom('histix', (dim,), name='ix')
            X.set_bound(a, ZERO, self.num - 1, 1)
            self.ix = V(a)
        self.ghost = it.obj(('ghost',), C(64), 'sym', 'arg', 'ghost')
        self.strains = []
        self.calls = []
        self.trials = {}
        it.opaque['set_displ'] = self.h_displ
        it.opaque['newton_raphson'] = self.h_newton
        it.opaque['calc_ave_stress'] = self.h_ave
        self.st = st
        it.loopcache.clear()

    # ---- contracts
    def ctx(self, it, st):
        """(strain, solved, committed history at ix) the solver functions see"""
        s = [it.load(st, ptr(self.ghost, C(8 * v)), 'double') for v in range(6)]
        sv = force(it.load(st, ptr(self.ghost, C(48)), 'i32'))
        return s, sv

    def vo(self, it, st):
        p = force(self.m.get('vars_old', st))
        return force(it.load(st, p.plus(self.ix * 8), 'double'))

    def h_displ(self, it, st, fn, args, path, line):
        p = ptrs_of(args)[-1]
        s = [force(it.load(st, p.plus(C(8 * v)), 'double')) for v in range(self.nv)] + [D0] * (6 - self.nv)
        self.strains.append(s[:self.nv])
        self.calls.append(('set_displ', line))
        for v in range(6):
            it.store(st, ptr(self.ghost, C(8 * v)), s[v], 'double', line)
        it.store(st, ptr(self.ghost, C(48)), ZERO, 'i32', line)
        return None

    def fill(self, it, st, key, args, line):
        """vars_new := trial history of the current solution"""
        p = force(self.m.get('vars_new', st))
        if len(p.alts) != 1 or p.alts[0][1] in (None, I.OPAQUE):
            raise AnchorError('vars_new is not a unique buffer')
        k = (tuple(key), tuple(args))
        i = self.trials.setdefault(k, len(self.trials))
        o = it.obj(('trial',) + k, self.num * 8, None, 'ext', 'trial%d' % i)

        def init(off, ty, args=tuple(args)):
            return E.datom('vnew', (off,) + args) if ty == 'double' else None
        o.init = init
        os_ = st.wos(p.alts[0][1])
        os_.chain = I.Node(I.Entry('copy', p.alts[0][2], 1, (self.num * 8, o, st.chain(o), ZERO), (), line), os_.as_chain())
        os_.cells = None

    def h_newton(self, it, st, fn, args, path, line):
        ps = ptrs_of(args)
        if len(ps) < 4:
            raise AnchorError('unexpected signature of newton_raphson')
        s, _ = self.ctx(it, st)
        a = tuple(s) + (self.vo(it, st),)
        self.calls.append(('newton_raphson', line))
        it.store(st, ps[1], V(E.atom('nlflag', a, isbool=True)), 'i8', line)
        it.store(st, ps[2], V(E.atom('its', a)), 'i32', line)
        it.store(st, ps[3], E.datom('nrerr', a), 'double', line)
        it.store(st, ptr(self.ghost, C(48)), ONE, 'i32', line)
        self.fill(it, st, tuple(path), a + (ONE,), line)
        return None

    def h_ave(self, it, st, fn, args, path, line):
        p = ptrs_of(args)[-1]
        s, sv = self.ctx(it, st)
        a = tuple(s) + (self.vo(it, st), sv)
        self.calls.append(('calc_ave_stress', line))
        self.fill(it, st, tuple(path), a, line)
        for v in range(self.nv):
            it.store(st, p.plus(C(8 * v)), E.datom('SIG', (C(v),) + a), 'double', line)
        return None

    # ---- access
    def off(self, k, f, i=0):
        o, s, t = self.gm[f]
        return k * self.GS + o + i

    def ld(self, st, k, f, i=0, ty='double'):
        return self.m.ld(st, self.g, self.off(k, f, i), ty)

    def strain(self, k):
        return [self.it.init_value(self.g, C(self.off(k, 'macro_strain', 8 * v)), 'double') for v in range(self.nv)]

    def hist(self, st, p, ix=None):
        """value at index ix through the pointer p (alternatives)"""
        return force(self.it.load(st, p.plus((self.ix if ix is None else ix) * 8), 'double'))

    def SIG(self, v, eps, vo, solved=ONE):
        return E.datom('SIG', (C(v),) + tuple(eps) + tuple([D0] * (6 - self.nv)) + (vo, solved))

    def fn_of(self, kind, eps, vo):
        a = tuple(eps) + tuple([D0] * (6 - self.nv)) + (vo,)
        if kind == 'nrerr':
            return E.datom(kind, a)
        return V(E.atom(kind, a, isbool=kind == 'nlflag'))

    def vnew(self, eps, vo, ix=None):
        return E.datom('vnew', ((self.ix if ix is None else ix) * 8,) + tuple(eps) + tuple([D0] * (6 - self.nv)) + (vo, ONE))

    def committed(self, k):
        h = self.it.init_value(self.hn[k], self.ix * 8, 'double')
        return E.ite(self.null[k], D0, h)

    def CL(self, i, j):
        return E.dsym('ctan_lin[%d]' % (i * self.nv + j))

    def lin_stress(self, eps):
        out = []
        for i in range(self.nv):
            s = D0
            for j in range(self.nv):
                s = s + self.CL(i, j) * eps[j]
            out.append(s)
        return out

    def step(self, eps):
        """the finite-difference step actually used (a common small positive constant)"""
        c = set()
        for s in self.strains:
            for v in range(self.nv):
                d = s[v] - eps[v]
                if d.op == 'const' and 0 < d.args[0] <= Fraction(1, 10 ** 4):
                    c.add(d)
        return sorted(c, key=lambda d: d.args[0])[0] if c else E.dfloat(1e-8)


def isnull(p):
    r = ZERO
    for c, o, off in p.alts:
        if o is None:
            r = r + c
        elif o is I.OPAQUE:
            r = r + c * V(E.atom('opqnull', (off,), isbool=True, unk=True))
    return r


def expected(F, k, st=None):
    """reference results of one homogenisation of Gauss point k"""
    eps = F.strain(k)
    vo = F.committed(k)
    S = F.lin_stress(eps)
    tr = D0
    for i in range(2 if F.dim == 2 else 3):
        tr = tr + S[i]
    lin = E.flt0(E.fabs(tr) - E.dsym('inv_tol'))
    L = lin * F.null[k]
    d = F.step(eps)
    R = {'L': L, 'eps': eps, 'vo': vo, 'tr': tr, 'd': d}
    R['stress'] = [E.ite(L, S[i], F.SIG(i, eps, vo)) for i in range(F.nv)]
    pert = []
    for i in range(F.nv):
        p = list(eps)
        p[i] = p[i] + d
        pert.append(p)
    R['ctan'] = {}
    for v in range(F.nv):
        for i in range(F.nv):
            R['ctan'][v, i] = E.ite(L, F.CL(v, i), (F.SIG(v, pert[i], vo) - F.SIG(v, eps, vo)) / d)
    R['its'] = [E.pite(L, ZERO, F.fn_of('its', p, vo)) for p in [eps] + pert]
    R['err'] = [E.ite(L, D0, F.fn_of('nrerr', p, vo)) for p in [eps] + pert]
    R['null'] = F.null[k] * (L + (ONE - L) * (ONE - F.fn_of('nlflag', eps, vo)))
    R['nl'] = F.fn_of('nlflag', eps, vo)
    return R


def run_h(R, src, dim, n, ix=None):
    F = Flow(src, dim, n, ix=ix)
    f = src.fn('homogenize')
    rv, s2 = call(F.m, f, [ptr(F.m.this)], F.st.copy())
    R.fn(F.m)
    return F, f, s2


def cases(R, F, k, ex):
    """the four histories of Gauss point k: substitutions deciding (history, shortcut, yields)"""
    nid = Q._id(F.null[k])
    lin = [i for i in ex['L'].atoms() if i != nid]

    def S(*ms):
        def f(v):
            for m in ms:
                v = I.resimp(I.sub(E.Subst(m), force(v)))
            return v
        g = ONE
        for m in ms:
            for i, c in m.items():
                g = g * (V(E.A(i)) if c == ONE else ONE - V(E.A(i)))
        R.guard = g
        return f
    if len(lin) != 1:
        raise AnchorError('shortcut condition has an unexpected form')
    try:
        yield 'with history', S({nid: ZERO}), None
        yield 'no history, shortcut', S({nid: ONE}, {lin[0]: ONE}), None
        a = S({nid: ONE}, {lin[0]: ZERO})(ex['nl'])
        if len(a.atoms()) != 1:
            raise AnchorError('flag is not an atom')
        nlid = Q._id(a)
        yield 'no history, solved, no yielding', S({nid: ONE}, {lin[0]: ZERO}, {nlid: ZERO}), nlid
        yield 'no history, solved, yields', S({nid: ONE}, {lin[0]: ZERO}, {nlid: ONE}), nlid
    finally:
        R.guard = None


def w_of(src, f, s2=None, o=None, off=None):
    def w():
        if s2 is not None:
            l = Q.last_writer(s2, o, off if isinstance(off, Poly) else C(off))
            if l:
                return '%s (%s)' % (l, f.short)
        return '%s (%s)' % (src.loc(f), f.short)
    return w


def live(p):
    """alternatives of a pointer that are still possible"""
    return [(c, o, off) for c, o, off in p.alts if c.t]


def comps(F):
    for v in range(F.nv):
        yield v


# ------------------------------------------------------------------ C10
@check('C10', 'abstract interpretation of homogenize and update_vars for one Gauss point in an arbitrary state (any strain, with or '
       'without committed history, arbitrary shared buffers), the solver functions replaced by their contracts; the committed '
       'and trial histories afterwards are compared with the reference at an arbitrary index',
       'abstract interpretation with gated joins and array data-flow (typestate of the history buffers)', FLOWENV, sizes=('3,3,3',))
def c10(R, tier):
    R.rule('committed-in', 'the solver sees the committed history of the Gauss point (zero when it has none)')
    R.rule('committed-kept', 'homogenize does not change the committed history')
    R.rule('first-yield', 'a point that yields for the first time gets a zero committed history')
    R.rule('trial-out', 'the trial history is the one of the converged unperturbed solution')
    R.rule('commit', 'update_vars copies the whole trial history to the committed one, and nothing else changes')
    R.rule('history-pair', 'both history pointers are null or non-null together')
    R.rule('solver-frame', 'residual, matrix, solve and averaging do not write the committed history')
    for defs in defsets(tier):
        src = M.Source.get(REPO, defs)
        parallel(R, [(dim, w) for dim in (3, 2) for w in ('homogenize', 'homogenize first', 'homogenize last',
                    'update', 'update first', 'update last')] + [(3, 'frame')], lambda R, c: c10_one(R, src, *c))


def c10_one(R, src, dim, what):
    what, _, ix = what.partition(' ')
    if what == 'homogenize':
        F, f, s2 = run_h(R, src, dim, 1, ix or None)
        ex = expected(F, 0)
        w = w_of(src, f)
        for name, S, _ in cases(R, F, 0, ex):
            pn, pk = S(F.ld(s2, 0, 'int_vars_n', 0, 'ptr')), S(F.ld(s2, 0, 'int_vars_k', 0, 'ptr'))
            case = '%dD %s%s' % (dim, name, ', %s variable' % ix if ix else '')
            R.eq('history-pair', w, S(isnull(pn)), S(isnull(pk)), None, case, 'only one of the two history buffers exists')
            want = S(ex['null'])
            R.eq('history-pair', w, S(isnull(pn)), want, None, case,
                 'history allocated although nothing yielded' if want == ONE else 'history is missing')
            if name == 'with history':
                R.eq('committed-kept', w, S(F.hist(s2, pn)), S(F.it.init_value(F.hn[0], F.ix * 8, 'double')), None, case,
                     'homogenize changes the committed history')
            if name == 'no history, solved, yields':
                R.eq('first-yield', w, S(F.hist(s2, pn)), D0, None, case, 'first committed history is not zero')
            if name in ('with history', 'no history, solved, yields') and want == ZERO:
                R.eq('trial-out', w, S(F.hist(s2, pk)), S(F.vnew(ex['eps'], ex['vo'])), None, case,
                     'trial history is not that of the converged solution')
            if name != 'no history, shortcut':
                for v in comps(F):
                    R.eq('committed-in', w, S(F.ld(s2, 0, 'macro_stress', 8 * v)), S(ex['stress'][v]), None, case,
                         'stress is not that of the applied strain and the committed history')
            R.sample('homogenize %s: histories at a generic index, %d stresses' % (case, F.nv))
        return
    if what == 'update':
        F = Flow(src, dim, 2, ix=ix or None)
        f = src.fn('update_vars')
        rv, s2 = call(F.m, f, [ptr(F.m.this)], F.st.copy())
        R.fn(F.m)
        w = w_of(src, f)
        for k in range(2):
            pn, pk = F.ld(s2, k, 'int_vars_n', 0, 'ptr'), F.ld(s2, k, 'int_vars_k', 0, 'ptr')
            nid = Q._id(F.null[k])
            S = E.Subst({nid: ZERO})
            trial = F.it.init_value(F.hk[k], F.ix * 8, 'double')
            hn = I.resimp(I.sub(S, F.m.ld(s2, F.hn[k], F.ix * 8)))
            hk = I.resimp(I.sub(S, F.m.ld(s2, F.hk[k], F.ix * 8)))
            R.eq('commit', w, hn, trial, None, '%dD point %d committed' % (dim, k), 'committed history is not the trial history')
            R.eq('commit', w, hk, trial, None, '%dD point %d trial' % (dim, k), 'update_vars changes the trial history')
            for f2, n2, t2 in (('int_vars_n', 1, 'ptr'), ('int_vars_k', 1, 'ptr'), ('macro_strain', 6, 'double'),
                               ('macro_stress', 6, 'double'), ('macro_ctan', 36, 'double'), ('id', 1, 'i32')):
                for i in range(n2):
                    o = F.off(k, f2, i * (4 if t2 == 'i32' else 8))
                    R.eq('commit', w, F.m.ld(s2, F.g, o, t2), F.it.init_value(F.g, C(o), t2), None,
                         '%dD point %d %s[%d]' % (dim, k, f2, i), 'update_vars changes %s' % f2)
        return
    # nothing the solution runs through writes vars_old
    roots = ['newton_raphson', 'set_displ', 'calc_ave_stress', 'calc_ave_strain', 'calc_fields']
    X_ = effects.Effects(src)
    for r in roots:
        if src.fn(r, must=False) is None:
            continue
        e = X_.of(r)
        for n in ('vars_old', 'this.vars_old', 'this.vars_new'):
            if n in e:
                R.bad('solver-frame', e[n], 'the committed history is written during the solution (%s)' % r, None, None, 'effects of ' + r)
            else:
                R.ok('solver-frame')
        if '?' in e:
            R.note('%s stores through a pointer the effect analysis cannot resolve: %s' % (r, e['?']))
    R.note('effect analysis: %d functions, %d stores' % (len(X_.fns), X_.stores))


def short_loc(line):
    import os
    return '%s:%s' % (os.path.basename(line[0]), line[1]) if line else '?'


# ------------------------------------------------------------------ C12
@check('C12', 'abstract interpretation of homogenize for one Gauss point in an arbitrary state; the condition of the linear shortcut, '
       'the stress, tangent, iteration counts and errors it stores, and the reported invariant are compared with the reference '
       'in each of the four histories of the point', 'abstract interpretation with gated joins', FLOWENV, sizes=('3,3,3',))
def c12(R, tier):
    R.rule('linear-values', 'below the threshold and without history: stress = CL E, tangent = CL, no iterations, no error, no history')
    R.rule('nonlinear-values', 'otherwise the stress is that of the solved microscopic problem for the strain and committed history')
    R.rule('invariant', 'the reported invariant is |trace of CL E|, which alone (with the history) selects the shortcut')
    R.rule('no-solve', 'the shortcut neither prescribes displacements nor solves')
    for defs in defsets(tier):
        src = M.Source.get(REPO, defs)
        parallel(R, [3, 2], lambda R, dim: c12_one(R, src, dim))


def c12_one(R, src, dim):
    F, f, s2 = run_h(R, src, dim, 1)
    ex = expected(F, 0)
    g = F.g

    def w(fld, i=0):
        return w_of(src, f, s2, g, F.off(0, fld, i))
    R.eq('invariant', w('inv_max'), F.ld(s2, 0, 'inv_max'), E.fabs(ex['tr']), None, '%dD' % dim, 'inv_max is not |trace(CL E)|')
    for name, S, _ in cases(R, F, 0, ex):
        case = '%dD %s' % (dim, name)
        lin = name == 'no history, shortcut'
        for v in range(F.nv):
            R.eq('linear-values' if lin else 'nonlinear-values', w('macro_stress', 8 * v), S(F.ld(s2, 0, 'macro_stress', 8 * v)),
                 S(ex['stress'][v]), None, '%s stress %d' % (case, v),
                 'shortcut stress is not CL E' if lin else 'stress is not that of the solved problem')
            for i in range(F.nv):
                o = 8 * (v * F.nv + i)
                if lin:
                    R.eq('linear-values', w('macro_ctan', o), S(F.ld(s2, 0, 'macro_ctan', o)), F.CL(v, i), None,
                         '%s tangent %d,%d' % (case, v, i), 'shortcut tangent is not CL')
        if lin:
            for i in range(F.nv + 1):
                R.eq('linear-values', w('nr_its', 4 * i), S(F.ld(s2, 0, 'nr_its', 4 * i, 'i32')), ZERO, None, case, 'iterations reported for the shortcut')
                R.eq('linear-values', w('nr_err', 8 * i), S(F.ld(s2, 0, 'nr_err', 8 * i)), D0, None, case, 'error reported for the shortcut')
            R.eq('linear-values', w('int_vars_n'), S(isnull(F.ld(s2, 0, 'int_vars_n', 0, 'ptr'))), ONE, None, case, 'shortcut creates a history')
            R.eq('no-solve', w_of(src, f), S(F.m.ld(s2, F.ghost, 48, 'i32')), F.it.init_value(F.ghost, C(48), 'i32'), None, case,
                 'shortcut solves the cell')
            R.eq('no-solve', w_of(src, f), S(F.m.ld(s2, F.ghost, 0)), F.it.init_value(F.ghost, ZERO, 'double'), None, case,
                 'shortcut prescribes displacements')
        R.sample('homogenize %s' % case)
    for i in range(F.nv):
        o = F.off(0, 'macro_strain', 8 * i)
        R.eq('nonlinear-values', w('macro_strain', 8 * i), F.m.ld(s2, g, o), F.it.init_value(g, C(o), 'double'), None,
             '%dD strain %d' % (dim, i), 'homogenize changes the macroscopic strain')


# ------------------------------------------------------------------ C13
@check('C13', 'abstract interpretation of homogenize (solved branch) and of calc_ctan_lin from the state in which the constructor '
       'calls it; every tangent entry is compared with the forward difference of the average stress', 'abstract interpretation '
       'with value numbering', FLOWENV, sizes=('3,3,3',))
def c13(R, tier):
    R.rule('tangent', 'macro_ctan[v][i] = (sigma_v(E + h e_i) - sigma_v(E)) / h with the committed history of the point')
    R.rule('report', 'iterations and error of solve 0 (stress) and 1+i (perturbation i) are reported at index 0 and 1+i')
    R.rule('linear-tangent', 'ctan_lin[v][i] = sigma_v(h e_i)/h on the undeformed, history-free cell')
    R.rule('constructed', 'the linear tangent is computed once everything it depends on is final')
    for defs in defsets(tier):
        src = M.Source.get(REPO, defs)
        parallel(R, [(d, w) for d in (3, 2) for w in ('macro', 'lin')], lambda R, c: c13_one(R, src, *c))


def c13_one(R, src, dim, what):
    if what == 'macro':
        F, f, s2 = run_h(R, src, dim, 1)
        ex = expected(F, 0)
        for name, S, _ in cases(R, F, 0, ex):
            if name == 'no history, shortcut':
                continue
            case = '%dD %s' % (dim, name)
            for v in range(F.nv):
                for i in range(F.nv):
                    o = 8 * (v * F.nv + i)
                    R.eq('tangent', w_of(src, f, s2, F.g, F.off(0, 'macro_ctan', o)), S(F.ld(s2, 0, 'macro_ctan', o)), S(ex['ctan'][v, i]),
                         None, '%s entry %d,%d' % (case, v, i), 'tangent entry is not the forward difference')
            for i in range(F.nv + 1):
                R.eq('report', w_of(src, f, s2, F.g, F.off(0, 'nr_its', 4 * i)), S(F.ld(s2, 0, 'nr_its', 4 * i, 'i32')), S(ex['its'][i]), None,
                     '%s solve %d' % (case, i), 'wrong iteration count reported')
                R.eq('report', w_of(src, f, s2, F.g, F.off(0, 'nr_err', 8 * i)), S(F.ld(s2, 0, 'nr_err', 8 * i)), S(ex['err'][i]), None,
                     '%s solve %d' % (case, i), 'wrong error reported')
            R.sample('tangent of %s: %d entries' % (case, F.nv * F.nv))
        return
    m = M.Inst(src, dim, 0)
    ev = [e for e in events(m.ctor_st) if e.kind == 'call' and e.name == 'calc_ctan_lin']
    w0 = w_of(src, src.fn('micropp_t'))
    if not ev:
        R.bad('constructed', w0(), 'the constructor does not compute the linear tangent', None, None, '%dD' % dim)
        return
    st = ev[-1].state
    # the state it runs in is the final one as far as members and the matrix pattern are concerned
    for n in ('nx', 'ny', 'nz', 'nn', 'dim', 'dx', 'dy', 'dz', 'lx', 'ly', 'npe', 'nvoi', 'nelem', 'num_int_vars', 'inv_tol', 'width'):
        if n in m.mem:
            R.eq('constructed', w0, m.get(n, st), m.get(n, m.ctor_st), None, '%dD %s' % (dim, n), '%s is set after the linear tangent' % n)
    mm = src.members('material_t')
    sz = (max(o + s for o, s, _ in mm.values()) + 7) // 8 * 8
    for i in range(2):
        for n, (o, s, t) in mm.items():
            ty = 'double' if t == 'double' else 'i8'
            p = ptr(m.this, C(m.off('material_list') + i * sz + o))
            R.eq('constructed', w0, force(m.it.load(st, p, ty)), force(m.it.load(m.ctor_st, p, ty)), None, '%dD material %d %s' % (dim, i, n),
                 'material %s is set after the linear tangent' % n)
    a = E.atom('anyelem', (dim,), name='e')
    X.set_bound(a, ZERO, force(m.get('nelem', st)) - 1, 1)
    et = m.field('elem_type', m.ctor_st)
    R.eq('constructed', w0, m.ld(st, et, V(a) * 4, 'i32'), m.ld(m.ctor_st, et, V(a) * 4, 'i32'), None, '%dD elem_type' % dim,
         'phases are set after the linear tangent')
    for n in ('nrow', 'ncol', 'nnz'):
        am = src.members('ell_matrix')
        if n in am:
            p = ptr(m.this, C(m.off('A') + am[n][0]))
            R.eq('constructed', w0, force(m.it.load(st, p, 'i32')), force(m.it.load(m.ctor_st, p, 'i32')), None, '%dD A.%s' % (dim, n),
                 'matrix pattern is built after the linear tangent')
    # the computation itself
    F = Flow(src, dim, 0, ctor_state=True)
    e2 = [e for e in events(F.m.ctor_st) if e.kind == 'call' and e.name == 'calc_ctan_lin'][-1]
    f = src.fn('calc_ctan_lin')
    rv, s2 = call(F.m, f, [ptr(F.m.this)], e2.state.copy())
    R.fn(F.m)
    d = F.step([D0] * F.nv)
    for v in range(F.nv):
        for i in range(F.nv):
            eps = [D0] * F.nv
            eps[i] = d
            o = F.m.off('ctan_lin') + 8 * (v * F.nv + i)
            R.eq('linear-tangent', w_of(src, f, s2, F.m.this, o), F.m.ld(s2, F.m.this, o), F.SIG(v, eps, D0) / d, None,
                 '%dD entry %d,%d' % (dim, v, i), 'linear tangent entry is not the response to the unit perturbation')


# ------------------------------------------------------------------ C14
@check('C14', 'abstract interpretation of get_elem_rhs, assembly_rhs, homogenize and get_nl_flag with the flag of the level below '
       'as an uninterpreted boolean; compared with the disjunction, and with "sticky" history allocation at the Gauss-point level',
       'abstract interpretation with gated joins (boolean data-flow)', FLOWENV, sizes=('3,3,3',))
def c14(R, tier):
    R.rule('element', 'the element flag is the disjunction of the flags of its integration points')
    R.rule('cell', 'the flag of the cell is the disjunction of the element flags')
    R.rule('point', 'a Gauss point is non-linear from the first solve in which its cell yields, and stays so')
    R.rule('query', 'get_nl_flag returns 1 exactly for a listed point with history')
    for defs in defsets(tier):
        src = M.Source.get(REPO, defs)
        parallel(R, [(w, d) for d in (3, 2) for w in ('element', 'cell', 'point', 'query')], lambda R, c: c14_one(R, src, *c))


def c14_one(R, src, what, dim):
    import checks_elem as CE
    import checks_grid as CG
    if what == 'element':
        m = M.Inst(src, dim, 0)
        st = m.generic()
        it = m.it
        it.opaque['get_strain%dD' % dim] = CE.strain_handler(dim)
        log = []
        it.opaque['get_stress%dD' % dim] = CE.stress_handler(dim, log)
        f = src.fn('get_elem_rhs%dD' % dim)
        for e, mp in Q.generic_elems(dim):
            del log[:]
            with Q.Grid(mp) as g:
                fl = it.obj(('flag', e), C(1), 'sym', 'arg', 'flag')
                be = it.obj(('be', e), C(8 * dim * 2 ** dim), 'undef', 'arg', 'be')
                rv, s2 = call(m, f, [ptr(m.this)] + CE.elem_args(dim, e) + [ptr(fl), ptr(be)], st.copy())
                want = ZERO
                for gp in range(2 ** dim):
                    eps = [E.datom('eps', tuple(CE.elem_args(dim, e)) + (C(gp), C(v))) for v in range(F_nv(dim))]
                    want = E.bor(want, CE.gflag(list(CE.elem_args(dim, e)) + [C(gp)], eps))
                R.eq('element', w_of(src, f, s2, fl, 0), m.ld(s2, fl, 0, 'i8'), want, g, '%dD' % dim,
                     'the flag of an element is not set exactly when one of its points yields')
        R.fn(m)
        R.sample('get_elem_rhs%dD: flag of a generic element, %d points' % (dim, 2 ** dim))
        return
    if what == 'cell':
        m = M.Inst(src, dim, 0)
        st = m.generic()
        it = m.it
        it.opaque['get_elem_rhs%dD' % dim] = CG.rhs_handler(dim)
        f = src.fn('assembly_rhs')
        fl = it.obj(('flag',), C(1), 'sym', 'arg', 'flag')
        rv, s2 = call(m, f, [ptr(m.this), ptr(fl)], st)
        R.fn(m)
        got = force(m.ld(s2, fl, 0, 'i8'))
        want = CG.flag_any(dim)
        if want is not None:
            R.eq('cell', w_of(src, f, s2, fl, 0), got, want, None, '%dD' % dim, 'flag of the cell is not the disjunction of the element flags',
                 softok=got.isconst() if isinstance(got, Poly) else False)
        return
    if what == 'point':
        F, f, s2 = run_h(R, src, dim, 1)
        ex = expected(F, 0)
        for name, S, _ in cases(R, F, 0, ex):
            want = S(ex['null'])
            for fld in ('int_vars_n', 'int_vars_k'):
                R.eq('point', w_of(src, f, s2, F.g, F.off(0, fld)), S(isnull(F.ld(s2, 0, fld, 0, 'ptr'))), want, None, '%dD %s' % (dim, name),
                     'the point is marked non-linear although its cell did not yield' if want == ONE else 'a yielded point is not marked non-linear')
        return
    for n in (0, 1, 2):
        F = Flow(src, dim, n)
        it = F.it
        f = src.fn('get_nl_flag')
        o = it.obj(('nlout', n), C(4), 'undef', 'arg', 'nl_flag')
        gid = E.sym('gp_id')
        rv, s2 = call(F.m, f, [ptr(F.m.this), gid, ptr(o)], F.st.copy())
        R.fn(F.m)
        want = ZERO
        for k in reversed(range(n)):
            idk = F.it.init_value(F.g, C(F.off(k, 'id')), 'i32')
            want = E.pite(E.eq0(idk - gid), ONE - F.null[k], want)
        R.eq('query', w_of(src, f, s2, o, 0), F.m.ld(s2, o, 0, 'i32'), want, None, '%dD %d points' % (dim, n),
             'reported flag is not "the point has history"')


def events(st):
    return [e.val for e in trace(st)]


def F_nv(dim):
    return 3 if dim == 2 else 6


# ------------------------------------------------------------------ C11
@check('C11', 'abstract interpretation of homogenize, set_macro_strain, get_macro_stress, get_macro_ctan and get_nl_flag on lists of '
       '0..3 Gauss points with arbitrary numbers, strains and histories; the results of each point are compared with those it would '
       'have alone; effect analysis of every entry point for writes to shared set-up data',
       'abstract interpretation with gated joins + interprocedural effect analysis', FLOWENV, sizes=('3,3,3',))
def c11(R, tier):
    R.rule('own-results', 'the results of a point depend on its own strain and history only, whatever the other points are')
    R.rule('addressing', 'set/get calls touch exactly the first point with the given number; an unknown number is appended / leaves the output alone')
    R.rule('new-point', 'a new point starts without history, with its strain and with zero results')
    R.rule('shared-setup', 'no entry point other than the constructor writes sizes, materials, phases, matrix pattern or linear tangent')
    for defs in defsets(tier):
        src = M.Source.get(REPO, defs)
        items = [(d, 'homogenize', n) for d in (3, 2) for n in ((2, 3) if tier == 'thorough' else (2,))]
        items += [(d, w, n) for d in (3, 2) for w in ('set', 'stress', 'ctan') for n in (0, 1, 2, 3)]
        items += [(3, 'effects', 0)]
        parallel(R, items, lambda R, c: c11_one(R, src, *c))


SETUP = ('dim', 'nx', 'ny', 'nz', 'nn', 'lx', 'ly', 'lz', 'dx', 'dy', 'dz', 'width', 'inv_tol', 'npe', 'nvoi', 'nelem', 'micro_type',
         'num_int_vars', 'micro_params', 'numMaterials', 'material_list', 'ctan_lin', 'u', 'du', 'b', 'elem_stress', 'elem_strain',
         'elem_type', 'vars_old', 'vars_new', 'A.nrow', 'A.ncol', 'A.nnz', 'A.cols', 'A.vals')


def c11_one(R, src, dim, what, n):
    if what == 'effects':
        ef = effects.Effects(src)
        for r in ('homogenize', 'update_vars', 'set_macro_strain', 'get_macro_stress', 'get_macro_ctan', 'get_nl_flag', 'output',
                  'write_info_files'):
            if src.fn(r, must=False) is None:
                continue
            e = ef.of(r)
            for nme in ['this.' + x for x in SETUP] + ['elem_type', 'A.cols']:
                if nme in e:
                    R.bad('shared-setup', e[nme], '%s writes %s' % (r, nme.replace('this.', '')), None, None, 'effects of ' + r)
                else:
                    R.ok('shared-setup')
        R.note('effect analysis: %d functions, %d stores' % (len(ef.fns), ef.stores))
        return
    if what == 'homogenize':
        F, f, s2 = run_h(R, src, dim, n)
        for k in range(n):
            ex = expected(F, k)
            for name, S, _ in cases(R, F, k, ex):
                case = '%dD point %d of %d, %s' % (dim, k, n, name)
                for v in range(F.nv):
                    R.eq('own-results', w_of(src, f, s2, F.g, F.off(k, 'macro_stress', 8 * v)), S(F.ld(s2, k, 'macro_stress', 8 * v)),
                         S(ex['stress'][v]), None, '%s stress %d' % (case, v), 'stress of a point depends on other points or is stored elsewhere')
                    for i in range(F.nv):
                        o = 8 * (v * F.nv + i)
                        R.eq('own-results', w_of(src, f, s2, F.g, F.off(k, 'macro_ctan', o)), S(F.ld(s2, k, 'macro_ctan', o)),
                             S(ex['ctan'][v, i]), None, '%s tangent %d,%d' % (case, v, i), 'tangent of a point depends on other points')
                pn, pk = S(F.ld(s2, k, 'int_vars_n', 0, 'ptr')), S(F.ld(s2, k, 'int_vars_k', 0, 'ptr'))
                R.eq('own-results', w_of(src, f), S(isnull(pn)), S(ex['null']), None, case, 'history of a point depends on other points')
                if name == 'with history':
                    R.eq('own-results', w_of(src, f), S(F.hist(s2, pn)), S(F.it.init_value(F.hn[k], F.ix * 8, 'double')), None, case,
                         'committed history of a point is changed')
                    R.eq('own-results', w_of(src, f), S(F.hist(s2, pk)), S(F.vnew(ex['eps'], ex['vo'])), None, case,
                         'trial history of a point is not its own')
                R.eq('own-results', w_of(src, f), S(F.ld(s2, k, 'inv_max')), S(E.fabs(ex['tr'])), None, case, 'invariant of a point depends on other points')
            for fld, cnt, ty, w in (('macro_strain', F.nv, 'double', 8), ('id', 1, 'i32', 4)):
                for i in range(cnt):
                    R.eq('own-results', w_of(src, f), F.ld(s2, k, fld, i * w, ty), F.it.init_value(F.g, C(F.off(k, fld, i * w)), ty), None,
                         '%dD point %d' % (dim, k), 'homogenize changes %s' % fld)
        R.sample('homogenize %dD with %d points' % (dim, n))
        return
    F = Flow(src, dim, n)
    it, m = F.it, F.m
    gid = E.sym('gp_id')
    ids = [it.init_value(F.g, C(F.off(k, 'id')), 'i32') for k in range(n)]
    hit = []
    rest = ONE
    for k in range(n):
        e = E.eq0(ids[k] - gid)
        hit.append(rest * e)
        rest = rest * (ONE - e)
    if what == 'set':
        f = src.fn('set_macro_strain')
        a = it.obj(('strain_in',), C(48), 'sym', 'arg', 'strain_in')
        rv, s2 = call(m, f, [ptr(m.this), gid, ptr(a)], F.st.copy())
        R.fn(m)
        cnt = force(m.ld(s2, m.this, m.off('gauss_list') + 16, 'i64'))
        R.eq('addressing', w_of(src, f), cnt, C(n) + rest, None, '%dD %d points' % (dim, n), 'number of points after set_macro_strain')
        inp = [it.init_value(a, C(8 * v), 'double') for v in range(F.nv)]
        for k in range(n):
            for v in range(F.nv):
                o = F.off(k, 'macro_strain', 8 * v)
                R.eq('addressing', w_of(src, f, s2, F.g, o), m.ld(s2, F.g, o), E.ite(hit[k], inp[v], it.init_value(F.g, C(o), 'double')), None,
                     '%dD point %d of %d strain %d' % (dim, k, n, v), 'strain set on the wrong point or component')
            for fld, c2, ty, w in (('macro_stress', F.nv, 'double', 8), ('macro_ctan', F.nv ** 2, 'double', 8), ('id', 1, 'i32', 4),
                                   ('int_vars_n', 1, 'ptr', 8), ('int_vars_k', 1, 'ptr', 8)):
                for i in range(c2):
                    o = F.off(k, fld, i * w)
                    R.eq('addressing', w_of(src, f, s2, F.g, o), F.ld(s2, k, fld, i * w, ty), it.init_value(F.g, C(o), ty), None,
                         '%dD point %d of %d' % (dim, k, n), 'set_macro_strain changes %s' % fld)
        # the appended point, when no number matches
        smap = {i: ZERO for c in ids for i in E.eq0(c - gid).atoms()}
        S = E.Subst(smap)

        def new(fld, i=0, ty='double'):
            return I.resimp(I.sub(S, force(m.ld(s2, F.g, F.off(n, fld, i), ty))))
        for v in range(F.nv):
            R.eq('new-point', w_of(src, f), new('macro_strain', 8 * v), inp[v], None, '%dD after %d points' % (dim, n), 'strain of a new point')
            R.eq('new-point', w_of(src, f), new('macro_stress', 8 * v), D0, None, '%dD after %d points' % (dim, n), 'stress of a new point is not zero')
        for i in range(F.nv ** 2):
            R.eq('new-point', w_of(src, f), new('macro_ctan', 8 * i), D0, None, '%dD after %d points' % (dim, n), 'tangent of a new point is not zero')
        R.eq('new-point', w_of(src, f), new('id', 0, 'i32'), gid, None, '%dD after %d points' % (dim, n), 'number of a new point')
        for fld in ('int_vars_n', 'int_vars_k'):
            R.eq('new-point', w_of(src, f), isnull(new(fld, 0, 'ptr')), ONE, None, '%dD after %d points' % (dim, n), 'a new point has history')
        R.sample('set_macro_strain %dD with %d points' % (dim, n))
        return
    f = src.fn('get_macro_' + what)
    fld = 'macro_' + what
    c2 = F.nv if what == 'stress' else F.nv ** 2
    o = it.obj(('out',), C(8 * c2), 'sym', 'arg', 'out')
    rv, s2 = call(m, f, [ptr(m.this), gid, ptr(o)], F.st.copy())
    R.fn(m)
    for i in range(c2):
        want = it.init_value(o, C(8 * i), 'double')
        for k in reversed(range(n)):
            want = E.ite(E.eq0(ids[k] - gid), it.init_value(F.g, C(F.off(k, fld, 8 * i)), 'double'), want)
        R.eq('addressing', w_of(src, f, s2, o, 8 * i), m.ld(s2, o, 8 * i), want, None, '%dD %d points, %s %d' % (dim, n, what, i),
             '%s returns the value of another point or component' % f.short)
    for k in range(n):
        for i in range(c2):
            oo = F.off(k, fld, 8 * i)
            R.eq('addressing', w_of(src, f), m.ld(s2, F.g, oo), it.init_value(F.g, C(oo), 'double'), None, '%dD' % dim, '%s changes the point' % f.short)
