"""C15 (no result depends on an indeterminate value) and C17 (every access inside its buffer): every function of the library is
interpreted once per configuration in an arbitrary reachable state; the accesses, branches and outputs are the obligations."""
import itertools
import expr as E
import ctx as X
import interp as I
import libmodel
import model as M
import numval
import query as Q
from expr import Poly, C, ZERO, ONE, V, D, D0, D1
from interp import ptr, force, Ptr
from model import NX, NY, NZ, AnchorError
from harness import check, parallel, REPO
from checks_grid import ENV, defsets, trace, rhs_handler, mat_handler
import checks_elem
from checks_elem import nvoi, elem_args
from checks_flow import Flow, w_of, ptrs_of, short_loc
import checks_solve as CS


# ------------------------------------------------------------------ obligations raised while interpreting
class Watch:
    """hooks of one run: counts discharged obligations, keeps open ones in it.problems (which the loop engine rolls back
    with the state when a loop body is re-interpreted)"""

    def __init__(self, m, R, rule, kind):
        self.R, self.rule, self.kind = R, rule, kind
        self.n = 0
        self.sites = set()
        it = m.it
        it.problems = []
        self.m = m
        if kind == 'bounds':
            it.accesshook = self.access
        elif kind == 'own':
            self.own = Own(m, it)
            it.accesshook = self.own.access
            it.ownhook = self.own.event
        else:
            it.undefhook = self.undef
        self.it = it

    def access(self, it, st, kind, p, size, line):
        p = force(p)
        if isinstance(size, int):
            size = C(size)
        self.n += 1
        if not isinstance(p, Ptr):
            it.problems.append(('open', 'access through a value that is not a pointer', line))
            return
        for c, o, off in p.alts:
            if not c.t:
                continue
            if o is None:
                # null alternative: only reached if its condition is consistent with the path
                g = c * st.pc
                if g.t and feasible(g):
                    it.problems.append(('viol', '%s through a null pointer' % kind, line, str(c)))
                elif g.t:
                    it.problems.append(('open', '%s through a possibly null pointer' % kind, line))
                continue
            if o is I.OPAQUE or o.kind == 'fn' or o.size is None or o is I.TRACE:
                if o is I.OPAQUE:
                    it.problems.append(('open', '%s through an unresolved pointer' % kind, line))
                continue
            if kind != 'index' and isinstance(size, Poly) and X.pn(-size):
                continue
            off = instance(off)
            self.sites.add((line, kind, o.name))
            if X.pn(off) and X.pn(o.size - off - size):
                continue
            r = outside(off, o.size - size, c * st.pc, size)
            what = '%s of %s at offset %s of %s' % (kind, short(size), short(off), o.name)
            it.problems.append(('viol' if r else 'open', what, line, r or ''))

    def undef(self, it, st, kind, v, line):
        self.n += 1
        r = depends(v, st.pc)
        what = 'branch on an indeterminate value' if kind == 'branch' else 'output of an indeterminate value'
        it.problems.append(('viol' if r else 'open', what, line, short(v)))

    def flush(self, src, case, F=None, dtor=False):
        R = self.R
        it = self.it
        it.accesshook = it.undefhook = it.ownhook = None
        if self.kind == 'own':
            self.own.close(R, self.rule, src, case, F, dtor)
            self.sites = self.own.sites
        seen = set()
        bad = 0
        for p in it.problems:
            if p[0] not in ('viol', 'open'):
                continue
            k = (p[0], p[1].split(' at offset')[0], p[2])
            if k in seen:
                continue
            seen.add(k)
            bad += 1
            w = short_loc(p[2])
            if p[0] == 'viol':
                R.bad(self.rule, w, p[1], None, p[3], case)
            else:
                R.undecided(self.rule, w, '%s (%s)' % (p[1], case))
        R.ok(self.rule, max(1, len(self.sites)))
        it.problems = []


def instance(off):
    """offset inside one instance of an object allocated in a loop"""
    for i in X.BIGS:
        if i in off.atoms():
            s = off.coeff(i)
            if s is not None:
                off = s[1]
    return off


def short(x, n=160):
    s = str(x)
    return s if len(s) <= n else s[:n] + '...'


def feasible(g, strict=True):
    for s in range(40):
        v = numval.Val(s, strict)
        try:
            if v.num(g):
                return True
        except (numval.CannotEval, OverflowError, ZeroDivisionError, RecursionError):
            continue
    return False


def outside(off, room, g, size):
    """a consistent valuation of the symbols in range for which the access leaves its object"""
    good = dead = 0
    for s in range(60):
        v = numval.Extreme(s)
        try:
            gv = v.num(g)
            good += 1
            if not gv:
                dead += 1
                continue
            a, b = v.num(off), v.num(room)
            if isinstance(size, Poly) and size.t and v.num(size) <= 0:
                continue
        except (numval.CannotEval, OverflowError, ZeroDivisionError, RecursionError):
            continue
        if a < 0 or a > b:
            return 'offset %s with %s bytes of room, for %s' % (a, b, v.shown())
    if (not good or dead < good) and (not isinstance(size, Poly) or X.pn(size - 1)) and (X.pn(-off - 1) or X.pn(off - room - 1)):
        return 'offset %s with %s bytes of room, whenever it is executed' % (short(off), short(room))
    return None


def depends(x, g):
    """the value of x changes with the content of indeterminate memory"""
    x = force(x)
    if isinstance(x, Ptr):
        return True
    for s in range(60):
        v, w = numval.Val(s), numval.Val(s)
        v.first = w.first = s >= 40
        w.undefsalt = 1
        v.punning = w.punning = True
        try:
            if g is not None and not v.num(g):
                continue
            if v.num(x) != w.num(x):
                return True
        except (numval.CannotEval, OverflowError, ZeroDivisionError, RecursionError):
            continue
    return False


def call(m, f, args, st, tag='q'):
    before = st.copy()
    r = checks_elem.call(m, f, args, st, tag)
    m.it.lastrun = (before, r[1], f)
    return r


class Own:
    """ownership of heap blocks: what is allocated is released once or kept by the instance, nothing is used afterwards.
    The counts live in ghost cells, so that they are joined along with the rest of the state."""

    PAIR = {'malloc': ('free', 'realloc'), 'calloc': ('free', 'realloc'), 'realloc': ('free', 'realloc'), 'new': ('delete',), 'new[]': ('delete[]',)}

    def __init__(self, m, it):
        self.m = m
        self.ids = {}
        self.objs = []
        self.sites = set()
        self.ghost = it.obj(('ownghost',), C(1 << 20), lambda off, ty: ZERO if ty == 'i32' else None, 'arg', 'ownership')

    def cell(self, o, k):
        if o not in self.ids:
            self.ids[o] = len(self.objs)
            self.objs.append(o)
        return ptr(self.ghost, C(16 * self.ids[o] + 4 * k))

    def count(self, it, st, o, k):
        h, it.accesshook = it.accesshook, None
        try:
            return force(it.load(st, self.cell(o, k), 'i32'))
        finally:
            it.accesshook = h

    def gone(self, it, st, o):
        """condition under which the block is released; a site met in every iteration of a loop stands for the block of
        the current iteration, which is released when as many blocks are released as were allocated"""
        n = self.count(it, st, o, 1)
        if n.isconst() and n.const() in (0, 1) or all(E.A(i).isbool for i in n.atoms()) and not n.isconst():
            return n
        return n - self.count(it, st, o, 0) + 1

    def put(self, it, st, o, k, v):
        h, it.accesshook = it.accesshook, None
        try:
            it.store(st, self.cell(o, k), v, 'i32')
        finally:
            it.accesshook = h

    def event(self, it, st, kind, how, p, line):
        self.sites.add((line, kind))
        if kind == 'alloc':
            o = p.alts[0][1]
            self.put(it, st, o, 0, self.count(it, st, o, 0) + 1)
            return
        p = I.asptr(p)
        if p is None:
            it.problems.append(('open', 'release of a value that is not a pointer', line))
            return
        for c, o, off in p.alts:
            if o is None or not c.t:
                continue
            if o is I.OPAQUE:
                it.problems.append(('open', 'release of an unresolved pointer', line))
                continue
            off = instance(off)
            if off.t:
                it.problems.append(('viol' if off.isconst() else 'open', 'release of a pointer into the middle of %s' % o.name, line, short(off)))
            if o.kind not in ('heap', 'ext'):
                it.problems.append(('viol', 'release of %s, which is not a heap block of the library' % o.name, line, ''))
                continue
            for a, ok in self.PAIR.items():
                if o.kind == 'heap' and o.name.startswith(a + '@') and how not in ok:
                    it.problems.append(('viol', '%s is released with %s' % (o.name, how), line, ''))
            n = self.count(it, st, o, 1)
            g = self.gone(it, st, o) * c * st.pc
            if g.t:
                it.problems.append(('viol' if feasible(g) else 'open', '%s is released twice' % o.name, line, short(g)))
            self.put(it, st, o, 1, n + c)

    def access(self, it, st, kind, p, size, line):
        p = I.asptr(force(p))
        if p is None or kind == 'index':
            return
        for c, o, off in p.alts:
            if o in self.ids:
                n = self.gone(it, st, o)
                if n.t and (c * n * st.pc).t:
                    it.problems.append(('viol' if feasible(c * n * st.pc) else 'open', '%s of %s after its release' % (kind, o.name), line, short(n)))

    def held(self, st, F):
        """object -> condition under which the instance holds a pointer to it"""
        m, it = self.m, self.m.it
        out = {}

        def add(p):
            raw, p = p, I.asptr(force(p))
            if p is None or any(o is I.OPAQUE for c, o, off in p.alts):
                self.open.append(str(I._vk(raw)))
            if p is None:
                return
            for c, o, off in p.alts:
                if o is I.OPAQUE:
                    continue
                if o is not None and o.kind in ('heap', 'ext'):
                    out[o] = out.get(o, ZERO) + c
        if not hasattr(m, 'mem'):
            return out
        for n, (o, s, t) in m.mem.items():
            if t.endswith('*'):
                add(it.load(st, ptr(m.this, C(o)), 'ptr'))
        am = m.src.members('ell_matrix')
        for n, (o, s, t) in am.items():
            if t.endswith('*'):
                add(it.load(st, ptr(m.this, C(m.off('A') + o)), 'ptr'))
        if F is not None:
            for k in range(F.n + 1):
                for fl in ('int_vars_n', 'int_vars_k'):
                    if k < F.n:
                        add(F.ld(st, k, fl, 0, 'ptr'))
        return out

    def close(self, R, rule, src, case, F, dtor):
        it = self.m.it
        before, after, f = it.lastrun
        w = w_of(src, f)
        self.open = []
        b = self.held(before, F) if before is not None else {}
        known, self.open = self.open, []
        a = self.held(after, F) if not dtor else {}
        lost = any(k not in known for k in self.open)     # a member set to a pointer that is not resolved may keep a block
        for o in list(b) + [o for o in self.objs if o not in b]:
            have = b.get(o, ZERO) + self.count(it, after, o, 0)
            if o in b and o in self.ids and not dtor:
                pass
            left = self.count(it, after, o, 1) + a.get(o, ZERO)
            if dtor and o in a:
                left = left - a[o]
            if lost and left != have:
                left = left + V(E.atom('opqheld', (o.name,), unk=True))
            what = '%s is neither released nor kept exactly once' % o.name if not dtor else '%s is not released exactly once' % o.name
            R.eq(rule, w, left, have, None, case, what)


# ------------------------------------------------------------------ the runs
class Run:
    pass


def solver_args(it, st, fn, args, path, line):
    """contract of a linear solver: its limits are what it is given"""
    its = []
    p = I.asptr(force(args[0]))
    sm = it.mod.members('ell_solver')
    for n, t in (('max_its', 'i32'), ('min_tol', 'double')):
        if sm and n in sm:
            its.append((n, it.load(st, p.plus(C(sm[n][0])), t)))
    for i, a in enumerate(args[1:]):
        a = force(a)
        if not isinstance(a, Ptr):
            its.append(('argument %d' % (i + 1), a))
    st.event(I.Event('solverargs', fn.short, tuple(its), None, path, line, it.cur), line)
    return ZERO


def undef_buf(m, st, name):
    """the buffer of a member with indeterminate contents"""
    o = m.buf[name]
    n = m.it.obj(('ubuf', name), o.size, 'undef', 'ext', name)
    st.mem.pop(n, None)
    w = st.wos(m.this)
    if name.startswith('A.'):
        w.cells[m.off('A') + m.am[name[2:]][0]] = (8, ptr(n))
    else:
        w.cells[m.off(name)] = (8, ptr(n))
    m.buf[name] = n
    return n


def runs(tier):
    out = []
    for d in (2, 3):
        for mt in (0, 1):
            for a in (0, 1, 2):
                out.append(('ctor', d, (mt, a)))
        for f in ('set_displ', 'get_elem_rhs', 'get_elem_mat', 'assembly_rhs', 'assembly_mat', 'calc_ave_stress', 'calc_ave_strain',
                  'calc_fields', 'newton_raphson', 'solve', 'cg', 'write_vtu', 'homogenize', 'set_macro_strain', 'get_macro_stress',
                  'get_macro_ctan', 'get_nl_flag', 'update_vars', 'output', 'write_info_files', 'calc_ctan_lin', 'destroy', 'misc',
                  'ell_add', 'ell_bc', 'jacobi'):
            out.append((f, d, None))
    return out


def elem_symbols(dim):
    e, mp = Q.generic_elem(dim)
    return e, mp


def checked(R, rule, w, m, s2, items, case, kind):
    """post-conditions: values that must not be indeterminate"""
    if kind != 'undef':
        return
    for what, v in items:
        v = force(v)
        if not getattr(v, 'undef', False):
            R.ok(rule)
            continue
        ww = w() if callable(w) else w
        if depends(v, None):
            R.bad(rule, ww, '%s is indeterminate' % what, 'a defined value', short(v), case)
        else:
            R.undecided(rule, ww, '%s may be indeterminate (%s)' % (what, case))


def execute(R, src, what, dim, arg, kind, rule):
    """one run with the hooks of kind ('bounds' or 'undef')"""
    nv = nvoi(dim)
    case = '%s %dD' % (what, dim)
    if what == 'ctor':
        mt, a = arg
        case = 'constructor %dD, microstructure %d, material types %d' % (dim, mt, a)
        m = M.Inst(src, dim, mt, ctor=False)
        W = Watch(m, R, rule, kind)
        c = m.st.wos(m.it.obj(('mat_types',), C(8), 'sym', 'arg', 'mat_types')).cells
        c[0], c[4] = (4, C(a)), (4, C((a + 1) % 3))
        m.construct()
        m.it.lastrun = (None, m.ctor_st, src.fn('micropp_t'))
        W.flush(src, case)
        R.fn(m)
        f = src.fn('micropp_t')
        if kind == 'undef':
            st = m.ctor_st
            its = []
            for n, (o, s, t) in m.mem.items():
                if n in ('inv_max', 'ctan_lin', 'gauss_list', 'A', 'material_list', 'micro_params'):
                    continue
                its.append(('member %s' % n, m.get(n, st)))
            if 'micro_params' in m.mem:
                its += [('micro_params[%d]' % i, m.get('micro_params', st, 8 * i, 'double')) for i in range(5)]
            mm = src.members('material_t')
            sz = (max(o + s for o, s, _ in mm.values()) + 7) // 8 * 8
            for i in range(2):
                for n, (o, s, t) in mm.items():
                    its.append(('material %d %s' % (i, n), m.get('material_list', st, i * sz + o, 'double' if t == 'double' else 'i8')))
            e = E.atom('anyelem', (dim,), name='e')
            am = src.members('ell_matrix')
            for n in ('nrow', 'ncol', 'nnz'):
                its.append(('A.%s' % n, m.it.load(st, ptr(m.this, C(m.off('A') + am[n][0])), 'i32')))
            checked(R, rule, w_of(src, f), m, st, its, case, kind)
            # buffers that are read before anything else writes them
            for cl in Q.node_classes(dim) if not NX.isconst() else Q.node_classes(dim)[:4]:
                lab, (i, j, k), mp, kinds = cl
                with Q.Grid(mp) as g:
                    n = (k * NY + j) * NX + i
                    its = [('u at node %s' % lab, g.canon(m.ld(st, m.field('u', st), (n * dim + d) * 8))) for d in range(dim)]
                    checked(R, rule, w_of(src, f), m, st, its, case, kind)
            ez, mp = Q.generic_elem(dim)
            with Q.Grid(mp) as g:
                el = (ez[2] * (NY - 1) + ez[1]) * (NX - 1) + ez[0]
                its = [('elem_type', g.canon(m.ld(st, m.field('elem_type', st), el * 4, 'i32')))]
                its += [('%s' % b, g.canon(m.ld(st, m.field(b, st), (el * 56 + q) * 8))) for b in ('vars_old', 'vars_new') for q in (0, 55)]
                checked(R, rule, w_of(src, f), m, st, its, case, kind)
        return
    if what in ('homogenize', 'set_macro_strain', 'get_macro_stress', 'get_macro_ctan', 'get_nl_flag', 'update_vars', 'output',
                'write_info_files', 'calc_ctan_lin'):
        flow_run(R, src, what, dim, kind, rule, case)
        return
    if what in ('cg', 'jacobi'):
        for name, d in (CS.SOLVERS if what == 'cg' else (('ell_solve_jacobi_2D', 2),)):
            if d != dim:
                continue
            f = src.fn(name, must=False)
            if f is None:
                continue
            for K in (1, 2) if what == 'cg' else (0, 1, 2):
                L = CS.Lin(src, dim)
                W = Watch(L.m, R, rule, kind)
                rv, s2 = L.run(f, K, E.dsym('min_tol'))
                L.m.it.lastrun = (L.st, s2, f)
                W.flush(src, '%s, at most %d iterations' % (name, K))
                R.fn(L.m)
                its = [('its', L.m.ld(s2, L.s, L.sm['its'][0], 'i32')), ('err', L.m.ld(s2, L.s, L.sm['err'][0]))]
                its += [('x', L.m.ld(s2, L.x, i * 8)) for i in L.rows()]
                checked(R, rule, w_of(src, f), L.m, s2, its, '%s, at most %d iterations' % (name, K), kind)
        return
    m = M.Inst(src, dim, 0)
    st = m.generic()
    it = m.it
    if what == 'set_displ':
        f = src.fn('set_displ')
        eps = it.obj(('eps',), C(8 * nv), 'sym', 'arg', 'eps')
        W = Watch(m, R, rule, kind)
        call(m, f, [ptr(m.this), ptr(eps)], st)
        W.flush(src, case)
    elif what in ('get_elem_rhs', 'get_elem_mat'):
        f = src.fn('%s%dD' % (what, dim))
        n = 2 ** dim * dim
        for e, mp in Q.generic_elems(dim) if not NX.isconst() else list(Q.generic_elems(dim))[-1:]:
            with Q.Grid(mp) as g:
                size = n if what == 'get_elem_rhs' else n * n
                be = it.obj(('out', e), C(8 * size), 'undef', 'arg', 'out')
                fl = it.obj(('flag', e), C(1), 'undef', 'arg', 'flag')
                W = Watch(m, R, rule, kind)
                rv, s2 = call(m, f, [ptr(m.this)] + list(elem_args(dim, e)) + ([ptr(fl)] if what == 'get_elem_rhs' else []) + [ptr(be)], st.copy())
                W.flush(src, case)
                its = [('entry %d' % i, m.ld(s2, be, 8 * i)) for i in range(size)]
                if what == 'get_elem_rhs':
                    its.append(('non-linear flag', m.ld(s2, fl, 0, 'i8')))
                checked(R, rule, w_of(src, f), m, s2, its, case, kind)
    elif what == 'assembly_rhs':
        b = undef_buf(m, st, 'b')
        it.opaque['get_elem_rhs%dD' % dim] = contract(R, rule, kind, rhs_handler(dim), dim, 2 ** dim * dim * 8)
        fl = it.obj(('flag',), C(1), 'undef', 'arg', 'flag')
        f = src.fn(what)
        W = Watch(m, R, rule, kind)
        rv, s2 = call(m, f, [ptr(m.this), ptr(fl)], st)
        W.flush(src, case)
        if kind == 'undef':
            checked(R, rule, w_of(src, f), m, s2, [('norm', rv), ('flag', m.ld(s2, fl, 0, 'i8'))], case, kind)
            for lab, (i, j, k), mp, kinds in Q.node_classes(dim):
                with Q.Grid(mp) as g:
                    n = (k * NY + j) * NX + i
                    checked(R, rule, w_of(src, f), m, s2, [('b at node %s' % lab, g.canon(m.ld(s2, b, (n * dim + d) * 8))) for d in range(dim)], case, kind)
    elif what == 'assembly_mat':
        v = undef_buf(m, st, 'A.vals')
        it.opaque['get_elem_mat%dD' % dim] = contract(R, rule, kind, mat_handler(dim), dim, (2 ** dim * dim) ** 2 * 8)
        # matrix access itself is covered by the run of ell_add_struct / ell_set_bc with the same arguments
        f = src.fn(what)
        W = Watch(m, R, rule, kind)
        rv, s2 = call(m, f, [ptr(m.this)], st)
        W.flush(src, case)
        if kind == 'undef':
            am = m.am
            nnz = force(it.load(s2, ptr(m.this, C(m.off('A') + am['nnz'][0])), 'i32'))
            for lab, (i, j, k), mp, kinds in Q.node_classes(dim):
                with Q.Grid(mp) as g:
                    n = (k * NY + j) * NX + i
                    its = [('coefficient (row component %d, slot %d) of node %s' % (d, s, lab), g.canon(m.ld(s2, v, ((n * dim + d) * nnz + s) * 8)))
                           for d in range(dim) for s in range(0, 3 ** dim * dim, 3 ** dim * dim // 2)]
                    checked(R, rule, w_of(src, f), m, s2, its, case, kind)
    elif what in ('ell_add', 'ell_bc'):
        A = ptr(m.this, C(m.off('A')))
        if what == 'ell_bc':
            f = src.fn('ell_set_bc_%dD' % dim)
            W = Watch(m, R, rule, kind)
            call(m, f, [A, C(dim), NX, NY] + ([NZ] if dim == 3 else []), st)
            W.flush(src, case)
        else:
            f = src.fn('ell_add_struct%dD' % dim)
            for e, mp in Q.generic_elems(dim):
                with Q.Grid(mp) as g:
                    Ae = it.obj(('Ae',), C((2 ** dim * dim) ** 2 * 8), 'sym', 'arg', 'Ae')
                    W = Watch(m, R, rule, kind)
                    call(m, f, [A] + list(elem_args(dim, e)) + [ptr(Ae), C(dim), NX, NY] + ([NZ] if dim == 3 else []), st.copy())
                    W.flush(src, case)
    elif what in ('calc_ave_stress', 'calc_ave_strain'):
        f = src.fn(what)
        o = it.obj(('ave',), C(48 if dim == 3 else 24), 'undef', 'arg', 'ave')
        W = Watch(m, R, rule, kind)
        rv, s2 = call(m, f, [ptr(m.this), ptr(o)], st)
        W.flush(src, case)
        checked(R, rule, w_of(src, f), m, s2, [('component %d' % i, m.ld(s2, o, 8 * i)) for i in range(nv)], case, kind)
    elif what == 'calc_fields':
        f = src.fn(what)
        bs = [undef_buf(m, st, n) for n in ('elem_stress', 'elem_strain')]
        W = Watch(m, R, rule, kind)
        rv, s2 = call(m, f, [ptr(m.this)], st)
        W.flush(src, case)
        e, mp = Q.generic_elem(dim)
        with Q.Grid(mp) as g:
            el = (e[2] * (NY - 1) + e[1]) * (NX - 1) + e[0]
            its = [('%s[%d]' % (n, i), g.canon(m.ld(s2, b, (el * nv + i) * 8))) for b, n in zip(bs, ('elem_stress', 'elem_strain')) for i in range(nv)]
            checked(R, rule, w_of(src, f), m, s2, its, case, kind)
    elif what == 'newton_raphson':
        newton_run(R, src, m, st, dim, kind, rule, case)
    elif what == 'solve':
        f = src.fn('solve')
        for g in src.mod.funcs.values():
            if g.short.startswith('ell_solve') and g.file and g.file.startswith(src.repo):
                it.opaque[g.short] = solver_args
        W = Watch(m, R, rule, kind)
        rv, s2 = call(m, f, [ptr(m.this)], st)
        W.flush(src, case)
        for e in trace(s2):
            if e.val.kind == 'solverargs':
                checked(R, rule, w_of(src, f), m, s2, [('%s of the solver' % n, v) for n, v in e.val.args], case, kind)
    elif what == 'write_vtu':
        f = src.fn('write_vtu')
        W = Watch(m, R, rule, kind)
        call(m, f, [ptr(m.this), E.sym('tstep'), E.sym('gp_id')], st)
        W.flush(src, case)
    elif what == 'destroy':
        f = [x for x in src.mod.funcs.values() if x.dname.endswith('::~micropp_t()')]
        if f:
            W = Watch(m, R, rule, kind)
            F = Flow(src, dim, 2)
            W = Watch(F.m, R, rule, kind)
            call(F.m, f[0], [ptr(F.m.this)], F.st.copy())
            W.flush(src, case, F, True)
            R.fn(F.m)
    elif what == 'misc':
        for name in ('get_inv_1', 'get_inv_2', 'is_linear', 'get_dev_tensor', 'calc_bmat_3D', 'get_ctan_plast_sec', 'get_ctan_plast_exact'):
            f = src.fn(name, must=False)
            if f is None or name in ('calc_bmat_3D', 'get_dev_tensor') and dim == 2:
                continue
            args = None
            t = it.obj(('t', name), C(8 * nv), 'sym', 'arg', 'tensor')
            if name in ('get_inv_1', 'get_inv_2', 'is_linear'):
                args = [ptr(m.this), ptr(t)]
            elif name == 'get_dev_tensor':
                o = it.obj(('o', name), C(48), 'undef', 'arg', 'dev')
                args = [ptr(m.this), ptr(t), ptr(o)]
            elif name == 'calc_bmat_3D':
                o = it.obj(('o', name), C(8 * 6 * 24), 'undef', 'arg', 'bmat')
                args = [ptr(m.this), C(7), ptr(o)]
            if args is None:
                continue
            W = Watch(m, R, rule, kind)
            rv, s2 = call(m, f, args, st.copy())
            W.flush(src, name)
    R.fn(m)


def contract(R, rule, kind, h, dim, size):
    """element function replaced by its contract: the arguments must name an element of the grid and a large enough buffer"""
    def g(it, st, fn, args, path, line):
        if kind == 'bounds':
            ints = [force(a) for a in args if isinstance(force(a), Poly)]
            for x, n in zip(ints, (NX, NY, NZ)):
                if X.pn(x) and X.pn(n - 2 - x):
                    continue
                r = outside(x, n - 2, st.pc, ONE)
                it.problems.append(('viol' if r else 'open', 'element index %s outside the grid' % short(x), line, r or ''))
            p = force(args[-1])
            for c, o, off in p.alts if isinstance(p, Ptr) else ():
                if o is not None and o is not I.OPAQUE and o.size is not None and not X.pn(o.size - off - size):
                    r = outside(off + size, o.size, c * st.pc, ONE)
                    it.problems.append(('viol' if r else 'open', 'buffer too small for the element result', line, r or ''))
        ah, it.accesshook = it.accesshook, None
        try:
            return h(it, st, fn, args, path, line)
        finally:
            it.accesshook = ah
    return g


def newton_run(R, src, m, st, dim, kind, rule, case):
    it = m.it
    f = src.fn('newton_raphson')
    u, du = m.buf['u'], undef_buf(m, st, 'du')
    b = undef_buf(m, st, 'b')
    vals = undef_buf(m, st, 'A.vals')
    size = m.nn * dim
    probes = []

    def defined(it, st, what, o, line):
        if kind != 'undef':
            return
        a = E.atom('anyix', (what,), name='i')
        X.set_bound(a, ZERO, E.exact_div(o.size, C(8)) - 1, 1)
        for ix in (V(a), ZERO, E.exact_div(o.size, C(8)) - 1):
            v = force(it.load(st, ptr(o, ix * 8), 'double'))
            if getattr(v, 'undef', False):
                it.problems.append(('viol' if depends(v, st.pc) else 'open', '%s is indeterminate when the linear system is solved' % what, line, short(v)))

    def fill(it, st, o, key, line):
        CS.assign(it, st, ptr(o), o.size, key, lambda of: E.datom('cv', (key[0], of)), line)

    def h_rhs(it, st, fn, args, path, line):
        it.store(st, ptrs_of(args)[-1], V(E.atom('nlf', (str(path)[-40:],), isbool=True)), 'i8', line)
        fill(it, st, b, ('b',), line)
        return E.datom('resnorm', (V(E.atom('cnt', (str(line),))),))

    def h_mat(it, st, fn, args, path, line):
        fill(it, st, vals, ('vals',), line)

    def h_solve(it, st, fn, args, path, line):
        for what, o in (('b', b), ('the matrix', vals), ('the start vector', du)):
            defined(it, st, what, o, line)
        fill(it, st, du, ('du',), line)
    it.opaque.update({'assembly_rhs': h_rhs, 'assembly_mat': h_mat, 'solve': h_solve})
    fs = src.mod.funcs

    def uf(fn, L):
        inner = any(i.op == 'call' and i.extra[0] in fs and fs[i.extra[0]].file and fs[i.extra[0]].file.startswith(src.repo)
                    for b in L.blocks for i in fn.blocks[b].instrs)
        return 41 if inner else False
    it.unrollfirst = uf
    o = {n: it.obj(('out', n), C({'flag': 1, 'its': 4, 'err': 8}[n]), 'undef', 'arg', n) for n in ('flag', 'its', 'err')}
    W = Watch(m, R, rule, kind)
    rv, s2 = call(m, f, [ptr(m.this), ptr(o['flag']), ptr(o['its']), ptr(o['err'])], st.copy())
    W.flush(src, case)
    checked(R, rule, w_of(src, f), m, s2, [('flag', m.ld(s2, o['flag'], 0, 'i8')), ('its', m.ld(s2, o['its'], 0, 'i32')), ('err', m.ld(s2, o['err'], 0))], case, kind)


def flow_run(R, src, what, dim, kind, rule, case):
    nv = nvoi(dim)
    F = Flow(src, dim, 2 if what != 'calc_ctan_lin' else 0, ctor_state=what == 'calc_ctan_lin')
    m, it = F.m, F.it
    f = src.fn(what)
    st = F.st.copy()
    args = [ptr(m.this)]
    post = []
    if what == 'set_macro_strain':
        o = it.obj(('arg',), C(8 * nv), 'sym', 'arg', 'strain')
        args += [E.sym('gp_id'), ptr(o)]
        for fl, n, t in (('id', 1, 'i32'), ('macro_strain', 6, 'double'), ('macro_stress', 6, 'double'), ('macro_ctan', 36, 'double'),
                         ('nr_its', nv + 1, 'i32'), ('nr_err', nv + 1, 'double'), ('inv_max', 1, 'double'),
                         ('int_vars_n', 1, 'ptr'), ('int_vars_k', 1, 'ptr')):
            if fl == 'int_vars_k':
                continue
            for i in range(n):
                post.append(('%s[%d] of a new point' % (fl, i), lambda s, fl=fl, i=i, t=t: F.ld(s, 2, fl, i * (4 if t == 'i32' else 8), t)))
    elif what in ('get_macro_stress', 'get_macro_ctan'):
        o = it.obj(('arg',), C(8 * (nv if what == 'get_macro_stress' else nv * nv)), 'undef', 'arg', 'result')
        args += [E.sym('gp_id'), ptr(o)]
    elif what == 'get_nl_flag':
        o = it.obj(('arg',), C(4), 'undef', 'arg', 'flag')
        args += [E.sym('gp_id'), ptr(o)]
        post = [('flag', lambda s: m.ld(s, o, 0, 'i32'))]
    elif what == 'output':
        args += [E.sym('tstep'), E.sym('gp_id')]
        bs = [undef_buf(m, st, n) for n in ('elem_stress', 'elem_strain')]

        def h_fields(it, st, fn, args, path, line):
            for b in bs:
                CS.assign(it, st, ptr(b), b.size, (b.name,), lambda of, n=b.name: E.datom('field', (n, of)), line)

        def h_vtu(it, st, fn, args, path, line):
            if kind == 'undef':
                for b in bs:
                    v = force(it.load(st, ptr(b), 'double'))
                    if getattr(v, 'undef', False):
                        it.problems.append(('viol' if depends(v, st.pc) else 'open', '%s is indeterminate when it is written' % b.name, line, short(v)))
        it.opaque['calc_fields'] = h_fields
        it.opaque['write_vtu'] = h_vtu
    elif what == 'homogenize':
        w = st.wos(m.this)
        w.cells[m.off('inv_max')] = (8, it._atom('undef', ('inv_max', ZERO), 'double', undef=True))
        for k in range(2):
            for fl, n, t in (('macro_stress', nv, 'double'), ('macro_ctan', nv * nv, 'double'), ('nr_its', nv + 1, 'i32'), ('nr_err', nv + 1, 'double'), ('inv_max', 1, 'double')):
                for i in range(n):
                    post.append(('%s[%d] of point %d' % (fl, i, k), lambda s, k=k, fl=fl, i=i, t=t: F.ld(s, k, fl, i * (4 if t == 'i32' else 8), t)))
            for fl in ('int_vars_n', 'int_vars_k'):
                for ix in (ZERO, F.ix, m.get('num_int_vars', m.ctor_st) - 1):
                    post.append(('%s of point %d at index %s' % (fl, k, short(ix, 40)), lambda s, k=k, fl=fl, ix=ix: hist_of(F, s, k, fl, ix)))
    elif what == 'calc_ctan_lin':
        ev = [e.val for e in trace(m.ctor_st) if e.val.kind == 'call' and e.val.name == 'calc_ctan_lin']
        if not ev:
            raise AnchorError('the constructor does not call calc_ctan_lin')
        st = ev[-1].state.copy()
        post = [('ctan_lin[%d]' % i, lambda s, i=i: m.get('ctan_lin', s, 8 * i, 'double')) for i in range(nv * nv)]
    W = Watch(m, R, rule, kind)
    rv, s2 = call(m, f, args, st)
    W.flush(src, case, F)
    R.fn(m)
    checked(R, rule, w_of(src, f), m, s2, [(n, g(s2)) for n, g in post], case, kind)


def hist_of(F, s, k, fl, ix):
    """content of a history buffer that exists"""
    p = I.asptr(force(F.ld(s, k, fl, 0, 'ptr')))
    alts = [(c, o, off) for c, o, off in p.alts if o is not None and o is not I.OPAQUE]
    out = D0
    for c, o, off in alts:
        v = force(F.it.load(s, ptr(o, off + ix * 8), 'double'))
        bs = [i for i in c.atoms() if E.A(i).isbool]
        if getattr(v, 'undef', False) and len(bs) <= 6:
            # the alternative is looked at in each of the cases in which it is the one
            for k in itertools.product((ZERO, ONE), repeat=len(bs)):
                S = E.Subst(dict(zip(bs, k)))
                if S.poly(c).t:
                    w = I.resimp(I.sub(S, v))
                    if getattr(w, 'undef', False):
                        return w
            continue
        out = E.ite(c, v, out)
    return out


@check('C17', 'abstract interpretation of every function of the library with symbolic grid sizes; each load, store, fill and copy is an '
       'obligation: its byte range lies inside the object its pointer designates, for every iteration of the enclosing loops',
       'abstract interpretation (symbolic ranges of array accesses)', ENV + ['allocation succeeds', 'n >= 0 Gauss points; list nodes are handled by the list model'], sizes=('3,3,3',))
def c17(R, tier):
    R.rule('in-bounds', 'the bytes accessed lie inside the designated object, through a non-null pointer')
    for defs in defsets(tier):
        src = M.Source.get(REPO, defs)
        parallel(R, runs(tier), lambda R, c: execute(R, src, c[0], c[1], c[2], 'bounds', 'in-bounds'))


@check('C15', 'abstract interpretation of every function of the library from the states the public interface can reach, with buffers that '
       'are not yet written holding indeterminate values; branches, outputs, results and the buffers handed to the next stage are '
       'obligations: none of them depends on an indeterminate value', 'abstract interpretation (definite-initialisation data-flow)',
       ENV + ['material types are 0, 1 or 2 and microstructure types 0 or 1, as documented'])
def c15(R, tier):
    R.rule('defined', 'no branch, output or result depends on an indeterminate value')
    for defs in defsets(tier):
        src = M.Source.get(REPO, defs)
        parallel(R, runs(tier), lambda R, c: execute(R, src, c[0], c[1], c[2], 'undef', 'defined'))
