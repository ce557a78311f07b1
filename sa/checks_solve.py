"""C02, C18, C19: the Newton iteration and the linear solver."""
from fractions import Fraction
import effects
import expr as E
import ctx as X
import interp as I
import model as M
import numval
import query as Q
from expr import Poly, C, ZERO, ONE, V, D, D0, D1
from interp import ptr, force, Ptr
from model import NX, NY, NZ, AnchorError
from harness import check, parallel, REPO
from checks_grid import ENV, defsets, trace
from checks_elem import call
from checks_flow import w_of, ptrs_of, short_loc

TOL = Fraction(1, 10 ** 5)
NRMAX = 40


def unique(p, what):
    p = force(p)
    if not isinstance(p, Ptr) or len(p.alts) != 1 or p.alts[0][1] in (None, I.OPAQUE):
        raise AnchorError('%s is not a unique buffer' % what)
    return p.alts[0][1], p.alts[0][2]


def assign(it, st, p, size, key, fn, line):
    """buffer at p := fn(offset) for all offsets below size"""
    o, off = unique(p, 'buffer')
    src = it.obj(('assign',) + key, size, None, 'ext', 'assign%s' % (key,))
    src.init = lambda of, ty: fn(of) if ty == 'double' else None
    st.mem.pop(src, None)
    w = st.wos(o)
    w.chain = I.Node(I.Entry('copy', off, 1, (size, src, st.chain(src), ZERO), (), line), w.as_chain())
    w.cells = None


# ------------------------------------------------------------------ C19
@check('C19', 'abstract interpretation of newton_raphson for an arbitrary displacement field; residual, matrix and linear solve are '
       'replaced by contracts and the residual norm follows every pattern "k values not below the tolerance, then one below" for '
       'k = 0..41, which covers every run; the field at an arbitrary degree of freedom, the counter, the error, the flag and the '
       'state each contract is called in are compared with the reference', 'abstract interpretation with a typestate of the iteration', ENV + [
           'assembly_rhs, assembly_mat and solve are replaced by contracts; the residual norm is a number, not NaN'], sizes=('3,3,3',))
def c19(R, tier):
    R.rule('update', 'after k corrections u is the initial guess plus the k corrections, each applied once')
    R.rule('order', 'each correction solves the matrix and residual of the current displacement, starting from zero')
    R.rule('stop', 'the iteration stops exactly when the residual norm is below 1e-5 or after 40 corrections')
    R.rule('report', 'reported count, error and flag are those of the last residual evaluation')
    ks = list(range(0, 42))
    for defs in defsets(tier):
        src = M.Source.get(REPO, defs)
        src.fn('newton_raphson')
        for r in ('assembly_rhs', 'assembly_mat', 'solve'):
            src.fn(r)
        items = [(d, k, s, None) for k in ks for d in (2, 3) for s in ((0,) if k % 13 else (0, 1))]
        for d in (2, 3):
            if NX.isconst():
                n = (NX * NY * (NZ if d == 3 else ONE)).const() * d
                items += [(d, 1, 0, i) for i in range(n)]
            else:
                items += [(d, 2, 0, i) for i in ('first', 'last')]
        parallel(R, items, lambda R, c: c19_one(R, src, *c))


class TooMany(Exception):
    pass


def c19_one(R, src, dim, k, small, at, keep=None):
    """k residuals above the tolerance, then one below (k = 41: never)"""
    m = M.Inst(src, dim, 0)
    st = m.generic()
    it = m.it
    it.loopcache.clear()
    size = m.nn * dim
    a = E.atom('dof', (dim,), name='i')
    if at == 'first' or at == 'last':
        ix = ZERO if at == 'first' else size - 1
    elif at is not None:
        ix = C(at)
    elif size.isconst():
        ix = C(size.const() // 2)
    else:
        X.set_bound(a, ZERO, size - 1, 1)
        ix = V(a)
    u, du = m.buf['u'], m.buf['du']
    u0 = it.init_value(u, ix * 8, 'double')
    above = Fraction(101, 10 ** 7) if small else Fraction(3)
    below = Fraction(99, 10 ** 7) if small else Fraction(1, 10 ** 9)
    f = src.fn('newton_raphson')
    case = '%dD, residual below the tolerance at evaluation %s%s' % (dim, k if k < 41 else 'never', ', close to the tolerance' if small else '')
    if at is not None:
        case += ', degree of freedom %s' % at
    gh = it.obj(('cnt',), C(32), 'sym', 'arg', 'cnt')
    for i in range(4):
        st.wos(gh).cells[8 * i] = (4, ZERO)

    def cur(it, st):
        p = force(m.get('u', st))
        return force(it.load(st, p.plus(ix * 8), 'double'))

    def DU(j, of):
        if keep:
            return E.ite(E.eq0(of - ix * 8), D0, E.datom('DU', (j, of)))
        return E.datom('DU', (j, of))

    def count(it, st, i, line):
        n = force(it.load(st, ptr(gh, C(8 * i)), 'i32'))
        it.store(st, ptr(gh, C(8 * i)), n + 1, 'i32', line)
        if n.isconst() and n.const() > NRMAX + 4:
            raise TooMany()
        return n

    def rec(st, kind, *a, line=None):
        st.event(I.Event('newton', kind, a, None, None, line, None), line)

    def h_rhs(it, st, fn, args, path, line):
        n = count(it, st, 0, line)
        fl = ptrs_of(args)[-1]
        it.store(st, fl, V(E.atom('nlf', (n,), isbool=True)), 'i8', line)
        rec(st, 'rhs', cur(it, st), line=line)
        if not n.isconst():
            return E.datom('resnorm', (n,), unk=True)
        n = n.const()
        return E.dconst(above + Fraction(n, 10 ** 9) if n < k else below)

    def h_mat(it, st, fn, args, path, line):
        count(it, st, 1, line)
        rec(st, 'mat', cur(it, st), line=line)
        return None

    def h_solve(it, st, fn, args, path, line):
        n = count(it, st, 2, line)
        p = force(m.get('du', st))
        rec(st, 'solve', cur(it, st), force(it.load(st, p.plus(ix * 8), 'double')), line=line)
        assign(it, st, p, size * 8, ('du', n), lambda of: DU(n, of), line)
        return None
    it.opaque['assembly_rhs'] = h_rhs
    it.opaque['assembly_mat'] = h_mat
    it.opaque['solve'] = h_solve

    def uf(fn, L):
        return any(i.op == 'call' and src.mod.funcs.get(i.extra[0]) is not None and src.mod.funcs[i.extra[0]].file
                   and src.mod.funcs[i.extra[0]].file.startswith(src.repo) for b in L.blocks for i in fn.blocks[b].instrs)
    it.unrollfirst = uf
    o = {n: it.obj(('out', n), C(8), 'undef', 'arg', n) for n in ('flag', 'its', 'err')}
    w = w_of(src, f)
    try:
        rv, s2 = call(m, f, [ptr(m.this), ptr(o['flag']), ptr(o['its']), ptr(o['err'])], st.copy())
    except TooMany:
        if not keep:
            R.bad('stop', w(), 'the iteration does not stop', None, None, case)
        return
    R.fn(m)
    nc = min(k, NRMAX)
    cnt = [force(m.ld(s2, gh, 8 * i, 'i32')) for i in range(3)]
    if not all(c.isconst() for c in cnt):
        R.undecided(keep or 'stop', w(), 'number of iterations not resolved (%s)' % case)
        if not keep:
            R.eq('report', w, m.ld(s2, o['its'], 0, 'i32'), C(nc), None, case, 'wrong number of iterations reported')
        return
    cnt = dict(zip(('rhs', 'mat', 'solve'), [c.const() for c in cnt]))
    log = [(e.val.name,) + e.val.args + (e.val.line,) for e in trace(s2) if e.val.kind == 'newton']
    if keep:
        R.eq(keep, w_of(src, f, s2, u, ix * 8), m.ld(s2, u, ix * 8), u0, None, case, 'a boundary displacement changes')
        for e in log:
            if e[0] == 'solve':
                R.eq(keep, '%s (newton_raphson)' % short_loc(e[3]), e[2], D0, None, case, 'the correction does not start from zero')
        R.sample(case)
        return
    # displacement
    want = u0
    for j in range(nc):
        want = want + DU(C(j), ix * 8)
    if cnt['solve'] != nc:
        R.bad('stop', w(), '%d corrections instead of %d' % (cnt['solve'], nc), nc, cnt['solve'], case)
    else:
        R.ok('stop')
    R.eq('update', w_of(src, f, s2, u, ix * 8), m.ld(s2, u, ix * 8), want, None, case, 'displacement is not the initial guess plus the corrections')
    R.eq('report', w, m.ld(s2, o['its'], 0, 'i32'), C(nc), None, case, 'wrong number of iterations reported')
    last = cnt['rhs'] - 1
    R.eq('report', w, m.ld(s2, o['flag'], 0, 'i8'), V(E.atom('nlf', (C(last),), isbool=True)), None, case, 'flag is not that of the last residual')
    R.eq('report', w, m.ld(s2, o['err'], 0), E.dconst(below if last >= k else above + Fraction(last, 10 ** 9)), None, case,
         'error is not that of the last residual evaluation')
    # every correction uses the current state
    un = u0
    j = -1
    matok = rhsok = False
    for e in log:
        if e[0] == 'rhs':
            R.eq('order', '%s (newton_raphson)' % short_loc(e[2]), e[1], un, None, case, 'residual of another displacement')
            rhsok, matok = True, False
        elif e[0] == 'mat':
            R.eq('order', '%s (newton_raphson)' % short_loc(e[2]), e[1], un, None, case, 'matrix of another displacement')
            matok = True
        else:
            j += 1
            wl = '%s (newton_raphson)' % short_loc(e[3])
            if not (matok and rhsok):
                R.bad('order', wl, 'correction solved with an old %s' % ('matrix' if rhsok else 'residual'), None, None, case)
            else:
                R.ok('order')
            R.eq('order', wl, e[2], D0, None, case, 'the correction does not start from zero')
            un = un + DU(C(j), ix * 8)
            rhsok = matok = False
    R.sample(case)


# ------------------------------------------------------------------ C18
class Lin:
    """a linear system with an arbitrary structured matrix (nfields = 1, all sizes symbolic) or the constructed
    matrix pattern of a fixed small grid (nfields = dim)"""

    def __init__(self, src, dim, fixed=None):
        self.src, self.dim = src, dim
        self.sm = src.members('ell_solver')
        self.am = am = src.members('ell_matrix')
        for n in ('nrow', 'nnz', 'cols', 'vals'):
            if n not in am:
                raise AnchorError('field %s of ell_matrix not found' % n)
        for n in ('max_its', 'its', 'min_tol', 'err'):
            if n not in self.sm:
                raise AnchorError('field %s of ell_solver not found' % n)
        if fixed is None:
            m = self.m = M.Inst(src, dim, ctor=False)
            it = m.it
            st = m.st
            self.nf = 1
            if NX.isconst():
                self.nrow, self.nnz = C(3), C(14 if dim == 3 else 5)
                self.nx, self.ny = C(3), ONE
            else:
                self.nx, self.ny = E.sym('nn'), ONE
                X.set_min(self.nx, 1)
                self.nrow = self.nx
                self.nnz = E.sym('nnz')
                X.set_min(self.nnz, 14 if dim == 3 else 5)
            self.nn = self.nrow
            self.mat = it.obj(('ellmat',), C(max(o + s for o, s, _ in am.values())), 'sym', 'arg', 'A')
            self.cols = it.obj(('ellcols',), self.nrow * self.nnz * 4, None, 'ext', 'cols')
            self.vals = it.obj(('ellvals',), self.nrow * self.nnz * 8, 'sym', 'ext', 'vals')
            X.DYN['col'] = lambda a: (ZERO, self.nrow - 1, 70)

            def ci(off, ty):
                return V(E.atom('col', (off,))) if ty == 'i32' else None
            self.cols.init = ci
            w = st.wos(self.mat)
            w.cells[am['nrow'][0]] = (4, self.nrow)
            w.cells[am['ncol'][0]] = (4, self.nrow)
            w.cells[am['nnz'][0]] = (4, self.nnz)
            w.cells[am['cols'][0]] = (8, ptr(self.cols))
            w.cells[am['vals'][0]] = (8, ptr(self.vals))
            self.A = ptr(self.mat)
        else:
            m = self.m = M.Inst(src, dim, 0)
            it = m.it
            st = m.generic()
            self.nf = dim
            self.nx, self.ny = NX, NY
            self.nn = m.nn
            self.nrow = m.nn * dim
            self.A = ptr(m.this, C(m.off('A')))
            self.cols, self.vals = m.buf['A.cols'], m.buf['A.vals']
            self.nnz = force(it.load(st, self.A.plus(C(am['nnz'][0])), 'i32'))
        self.it, self.st = m.it, st
        n8 = self.nrow * 8
        self.x = it.obj(('lin', 'x'), n8, 'sym', 'arg', 'x')
        self.b = it.obj(('lin', 'b'), n8, 'sym', 'arg', 'b')
        self.s = it.obj(('lin', 's'), C(max(o + s for o, s, _ in self.sm.values())), 'undef', 'arg', 'solver')
        it.loopcache.clear()

    def vx(self, i):
        return self.it.init_value(self.x, i * 8, 'double')

    def vb(self, i):
        return self.it.init_value(self.b, i * 8, 'double')

    def val(self, i, j):
        return self.it.init_value(self.vals, (i * self.nnz + j) * 8, 'double')

    def col(self, i, j):
        return force(self.it.load(self.st, ptr(self.cols, (i * self.nnz + j) * 4), 'i32'))

    def diag(self, i):
        """coefficient (i, i): centre slot of the structured stencil"""
        c = 4 if self.dim == 2 else 13
        if self.nf == 1:
            return self.val(i, C(c))
        return self.val(i, C(c * self.nf + i.const() % self.nf))

    def mv(self, xf, nm):
        return lambda i: Q.total([self.nnz], lambda j: self.val(i, j[0]) * xf(self.col(i, j[0])), nm)

    def dot(self, f, g, nm):
        return Q.total([self.nrow], lambda i: f(i[0]) * g(i[0]), nm)

    def args(self, f):
        ints = {'nFields': C(self.nf), 'nx': self.nx, 'ny': self.ny, 'dim': C(self.dim), 'nn': self.nn}
        out = [ptr(self.s), self.A]
        rest = list(f.params[2:])
        for prm in rest[:-2]:
            nm = prm[1].split('.')[0]
            if nm not in ints:
                raise AnchorError('unexpected parameter %s of %s' % (nm, f.short))
            out.append(ints[nm])
        return out + [ptr(self.b), ptr(self.x)]

    def run(self, f, K, tol):
        st = self.st.copy()
        fs = self.src.mod.funcs

        def uf(fn, L):
            # the iteration itself: the outermost loop that contains loops
            inner = any(i.op == 'call' and i.extra[0] in fs and fs[i.extra[0]].file and fs[i.extra[0]].file.startswith(self.src.repo)
                        for b in L.blocks for i in fn.blocks[b].instrs)
            return K + 2 if inner else False
        self.it.unrollfirst = uf
        w = st.wos(self.s)
        w.cells[self.sm['max_its'][0]] = (4, C(K))
        w.cells[self.sm['min_tol'][0]] = (8, tol)
        return call(self.m, f, self.args(f), st)

    def reference(self, K):
        """iterates of the Jacobi-preconditioned conjugate gradient method: lists of x_k, |r_k|"""
        memo = {}

        def mm(tag, f):
            def g(i):
                k = (tag, i)
                if k not in memo:
                    memo[k] = f(i)
                return memo[k]
            return g
        x = self.vx
        kf = mm('k', lambda i: E.div(D1, self.diag(i)))
        mv0 = self.mv(x, 'mv0')
        r = mm('r0', lambda i: mv0(i) - self.vb(i))
        xs, errs = [x], [E.sqrt(self.dot(r, r, 'e0'))]
        p = rho0 = None
        for n in range(K):
            z = mm('z%d' % n, lambda i, r=r: kf(i) * r(i))
            rho = self.dot(r, z, 'rho%d' % n)
            if n == 0:
                p = z
            else:
                p = mm('p%d' % n, lambda i, z=z, p=p, be=rho / rho0: z(i) + be * p(i))
            q = mm('q%d' % n, self.mv(p, 'mv%d' % (n + 1)))
            d = rho / self.dot(p, q, 'pq%d' % n)
            x = mm('x%d' % (n + 1), lambda i, x=x, p=p, d=d: x(i) - d * p(i))
            r = mm('r%d' % (n + 1), lambda i, r=r, q=q, d=d: r(i) - d * q(i))
            rho0 = rho
            xs.append(x)
            errs.append(E.sqrt(self.dot(r, r, 'e%d' % (n + 1))))
        return xs, errs

    def rows(self):
        if self.nrow.isconst():
            for i in range(self.nrow.const()):
                yield C(i)
            return
        a = E.atom('row', (self.dim,), name='i')
        X.set_bound(a, ZERO, self.nrow - 1, 1)
        yield V(a)


SOLVERS = (('ell_solve_cgpd_2D', 2), ('ell_solve_cgpd_struct', 3))


@check('C18', 'abstract interpretation of the sparse matrix-vector product and of the conjugate-gradient solvers on a matrix of '
       'symbolic size with arbitrary columns and coefficients, and on the constructed pattern of fixed small grids; the first '
       'iterates, the residual norm that stops the iteration, the counter and the error are compared with the reference method; '
       'the call made by solve() and its limits are inspected', 'abstract interpretation with loop-sum summaries and value numbering',
       ENV + ['the first three iterations are compared (the loop body has no other dependence on the iteration number in its data flow)'], sizes=())
def c18(R, tier):
    R.rule('product', 'y = A x for every row: sum over the slots of coefficient times x at the stored column')
    R.rule('iterates', 'x after k iterations is the k-th iterate of CG preconditioned with the diagonal of A, from the given start')
    R.rule('stop', 'the solver stops at the first iterate with |A x - b| below min_tol, else after max_its, and reports that count')
    R.rule('error', 'the reported error is |A x - b| of the returned x when the tolerance is met')
    R.rule('limits', 'solve() uses a positive iteration limit and a tolerance of at most 1e-6 for its own system A du = b')
    R.rule('inputs-kept', 'matrix and right-hand side are not modified by the solver')
    for defs in defsets(tier):
        src = M.Source.get(REPO, defs)
        items = [('mvp', None, 0, 0)]
        for n, d in SOLVERS:
            items += [('iter', n, d, K) for K in (1, 2, 3)] + [('gate', n, d, 2)]
        items += [('call', None, d, 0) for d in (2, 3)]
        parallel(R, items, lambda R, c: c18_one(R, src, *c))
        fixed_c18(R, src, tier)


def c18_one(R, src, what, name, dim, K):
    if what == 'mvp':
        L = Lin(src, 3)
        f = src.fn('ell_mvp_2D')
        y = L.it.obj(('lin', 'y'), L.nrow * 8, 'undef', 'arg', 'y')
        rv, s2 = call(L.m, f, [L.A, ptr(L.x), ptr(y)], L.st.copy())
        R.fn(L.m)
        for i in L.rows():
            R.eq('product', w_of(src, f, s2, y, i * 8), L.m.ld(s2, y, i * 8), L.mv(L.vx, 'mvq')(i), None, 'row %s' % i, 'not the matrix-vector product')
            R.eq('inputs-kept', w_of(src, f), L.m.ld(s2, L.x, i * 8), L.vx(i), None, 'row %s' % i, 'the product changes its argument')
        R.sample('ell_mvp_2D, symbolic nrow and nnz')
        return
    if what == 'call':
        c18_call(R, src, dim)
        return
    L = Lin(src, dim)
    solver_obligations(R, src, L, src.fn(name), K, what, 'symbolic size')


def solver_obligations(R, src, L, f, K, what, tag):
    xs, errs = L.reference(K)
    w = w_of(src, f)
    tol = D0 if what == 'iter' else E.dsym('min_tol')
    rv, s2 = L.run(f, K, tol)
    R.fn(L.m)
    its = L.m.ld(s2, L.s, L.sm['its'][0], 'i32')
    err = L.m.ld(s2, L.s, L.sm['err'][0])
    case = '%s %dD %s, %d iterations' % (f.short, L.dim, tag, K)
    if what == 'iter':
        R.eq('stop', w, its, C(K), None, case, 'wrong number of iterations')
        for i in L.rows():
            R.eq('iterates', w_of(src, f, s2, L.x, i * 8), L.m.ld(s2, L.x, i * 8), xs[K](i), None, '%s row %s' % (case, i),
                 'iterate is not that of the preconditioned conjugate gradient method')
            R.eq('inputs-kept', w, L.m.ld(s2, L.b, i * 8), L.vb(i), None, case, 'the solver changes the right-hand side')
        R.sample(case)
        return
    # stopping: condition atoms in order
    conds = [E.flt0(e - tol) for e in errs[:K]]
    ids = []
    for c in conds:
        if len(c.atoms()) != 1:
            raise AnchorError('stopping condition has an unexpected form')
        ids.append(Q._id(c))
    for n in range(K + 1):
        mp = {ids[q]: ZERO for q in range(n)}
        if n < K:
            mp[ids[n]] = ONE
        S = E.Subst(mp)

        def s(v):
            return I.resimp(I.sub(S, force(v)))
        g = ONE
        for i, c in mp.items():
            g = g * (V(E.A(i)) if c == ONE else ONE - V(E.A(i)))
        R.guard = g
        R.tune = tuned(errs, n, K, tol)
        case = '%s %dD %s, %s' % (f.short, L.dim, tag, 'tolerance met after %d iterations' % n if n < K else 'tolerance not met')
        R.eq('stop', w, s(its), C(n), None, case, 'wrong number of iterations')
        if n < K:
            R.eq('error', w, s(err), s(errs[n]), None, case, 'reported error is not the norm of the residual')
        for i in L.rows():
            R.eq('stop', w, s(L.m.ld(s2, L.x, i * 8)), s(xs[n](i)), None, '%s row %s' % (case, i), 'the returned x is not the iterate that met the tolerance')
        R.sample(case)
    R.guard = R.tune = None


def tuned(errs, n, K, tol):
    """a tolerance just above the n-th residual or just below the earlier ones"""
    if not isinstance(tol, D) or tol.op != 'atom':
        return None

    def f(v):
        q = v.h('tol')
        eps = (1e-3, 1e-1, 1e-3, 0.5)[int(q * 4)]
        if n < K and (not n or q < 0.5):
            t = v.num(errs[n]) * (1 + v.cv(Fraction(eps)))
        else:
            es = [v.num(e) for e in errs[:n]]
            t = min(es, key=lambda x: float(getattr(x, 'v', x))) * (1 - v.cv(Fraction(eps)))
        if float(getattr(t, 'v', t)) <= 0:
            raise numval.CannotEval('tolerance')
        v.over[tol.args[0].id] = t
    return f


def fixed_c18(R, src, tier):
    """constructed pattern on fixed grids, in separate processes (the sizes are global to an analysis)"""
    if NX.isconst():
        return
    import os, pickle, sys, tempfile
    from harness import VERIF, subrun, run_end
    grids = ['3,2,2', '2,2,2'] if tier != 'thorough' else ['3,2,2', '2,2,2', '2,3,2', '3,3,2']
    for sz in grids:
        if R.nviol:
            break
        with tempfile.TemporaryDirectory() as d:
            fn = os.path.join(d, 'dump')
            env = dict(os.environ, VERIF_SIZES=sz, VERIF_DUMP=fn)
            p = subrun([sys.executable, os.path.join(VERIF, 'check.py'), 'C18X', tier], env, run_end())
            try:
                dump, err = pickle.load(open(fn, 'rb'))
            except Exception:
                R.undecided('iterates', 'fixed grid %s' % sz, p[-300:])
                continue
            for v in dump['viol']:
                v['case'] = '%s (grid %s)' % (v['case'], sz)
            R.merge(dump)
            if err:
                R.undecided('iterates', 'fixed grid %s' % sz, err[-300:])


@check('C18X', 'part of C18 on a fixed grid', '', sizes=())
def c18x(R, tier):
    src = M.Source.get(REPO, ())
    for n in ('iterates', 'stop', 'error', 'inputs-kept'):
        R.rule(n, n)
    items = [(n, d, K, w) for n, d in SOLVERS for K, w in ((1, 'iter'), (2, 'iter'), (2, 'gate'))]

    def one(R, c):
        n, d, K, w = c
        L = Lin(src, d, fixed=True)
        solver_obligations(R, src, L, src.fn(n), K, w, 'constructed pattern')
    parallel(R, items, one)


def c18_call(R, src, dim):
    m = M.Inst(src, dim, 0)
    st = m.generic()
    it = m.it
    got = []
    sm = src.members('ell_solver')

    def h(it, st, fn, args, path, line):
        st.event(I.Event('solver', fn.short, tuple(force(a) for a in args), st.copy(), path, line, None), line)
        return ZERO
    for f in src.mod.funcs.values():
        if f.short.startswith('ell_solve') and f.file and f.file.startswith(src.repo):
            it.opaque[f.short] = h
    f = src.fn('solve')
    rv, s2 = call(m, f, [ptr(m.this)], st)
    R.fn(m)
    ev = [e.val for e in trace(s2) if e.val.kind == 'solver']
    w = w_of(src, f)
    if len(ev) != 1:
        R.bad('limits', w(), '%d solver calls in solve()' % len(ev), 1, len(ev), '%dD' % dim)
        return
    e = ev[0]
    g = src.fn(e.name)
    ps = [a for a in e.args if isinstance(a, Ptr)]
    s = ps[0]
    mi = force(it.load(e.state, s.plus(C(sm['max_its'][0])), 'i32'))
    tl = force(it.load(e.state, s.plus(C(sm['min_tol'][0])), 'double'))
    if isinstance(mi, Poly) and mi.isconst() and mi.const() >= 100 or isinstance(mi, Poly) and not mi.isconst() and not mi.undef:
        R.ok('limits')
    else:
        R.bad('limits', w(), 'iteration limit', 'at least 100', mi, '%dD' % dim)
    if isinstance(tl, D) and tl.op == 'const' and 0 < tl.args[0] <= Fraction(1, 10 ** 6) or isinstance(tl, D) and tl.op != 'const' and not tl.undef:
        R.ok('limits')
    else:
        R.bad('limits', w(), 'tolerance of the linear solve', '(0, 1e-6]', tl, '%dD' % dim)
    want = [ptr(m.this, C(m.off('A'))), ptr(m.buf['b']), ptr(m.buf['du'])]
    for a, b, n in zip(ps[1:], want, ('A', 'b', 'du')):
        R.eq('limits', w, a, b, None, '%dD' % dim, 'solve() does not pass %s' % n)
    wantint = {'nFields': C(dim), 'nx': NX, 'ny': NY, 'dim': C(dim), 'nn': m.nn}
    for prm, a in zip(g.params, e.args):
        nm = prm[1].split('.')[0]
        if nm in wantint and isinstance(a, Poly):
            R.eq('limits', w, a, wantint[nm], None, '%dD %s' % (dim, nm), 'solve() passes a wrong %s' % nm)


# ------------------------------------------------------------------ C02
@check('C02', 'the boundary rows of the matrix and of the residual are compared with the identity system for every class of boundary '
       'nodes (abstract interpretation with symbolic sizes); the conjugate-gradient solvers are interpreted on a matrix of symbolic '
       'size that has one such row, and newton_raphson with a correction that vanishes there; the entry of x and u at that row is '
       'compared with its prescribed value', 'abstract interpretation (array last-write data-flow, loop-sum summaries)',
       ENV + ['the first three iterations of the linear solver are compared'])
def c02(R, tier):
    R.rule('identity-row', 'a boundary row of the matrix is 1 on its own diagonal and 0 elsewhere')
    R.rule('boundary-zero', 'the residual is zero at every boundary node')
    R.rule('solver-keeps', 'a row with identity coefficients, zero right-hand side and zero start keeps a zero correction')
    R.rule('newton-keeps', 'the Newton iteration leaves a degree of freedom unchanged whose corrections are zero, and starts from zero')
    import checks_grid as G
    G.bc_obligations(R, tier, True)
    G.rhs_obligations(R, tier, True)
    src = M.Source.get(REPO, ())
    items = [('solver', n, d, K, w) for n, d in SOLVERS for K, w in ((1, 'iter'), (2, 'iter'), (3, 'iter'), (2, 'gate'))]
    items += [('newton', None, d, k, None) for d in (2, 3) for k in (0, 1, 2, 3, 41)]
    parallel(R, items, lambda R, c: c02_one(R, src, *c))


def c02_one(R, src, what, name, dim, K, how):
    if what == 'newton':
        c19_one(R, src, dim, K, 0, None, keep='newton-keeps')
        return
    L = Lin(src, dim)
    f = src.fn(name)
    c = C(4 if dim == 2 else 13)
    it = L.it
    for ib in L.rows():
        def split(off, w):
            q = X.floordiv(E.exact_div(off, C(w)), L.nnz)
            if q is None:
                raise AnchorError('row of a coefficient not resolved')
            return q

        def vi(off, ty):
            if ty != 'double':
                return None
            r, j = split(off, 8)
            return E.ite(E.eq0(r - ib), E.ite(E.eq0(j - c), D1, D0), E.datom('init', ('vals', off)))

        def ci(off, ty):
            if ty != 'i32':
                return None
            r, j = split(off, 4)
            if r.isconst() and j.isconst():
                return C((r.const() + j.const() - c.const()) % L.nrow.const())
            k = E.eq0(r - ib) * E.eq0(j - c)
            return k * ib + (ONE - k) * V(E.atom('col', (off,)))

        def zi(nm):
            def g(off, ty):
                if ty != 'double':
                    return None
                return E.ite(E.eq0(E.exact_div(off, C(8)) - ib), D0, E.datom('init', (nm, off)))
            return g
        L.vals.init, L.cols.init, L.x.init, L.b.init = vi, ci, zi('x'), zi('b')
        it.loopcache.clear()
        rv, s2 = L.run(f, K, D0 if how == 'iter' else E.dsym('min_tol'))
        R.fn(L.m)
        case = '%s, %s%d iterations, identity row %s' % (f.short, '' if how == 'iter' else 'at most ', K, ib)
        R.eq('solver-keeps', w_of(src, f, s2, L.x, ib * 8), L.m.ld(s2, L.x, ib * 8), D0, None, case, 'the correction of a boundary row is not zero')
        R.sample(case)
