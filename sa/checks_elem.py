"""C06-C09: element kinematics, material law, plastic return mapping, volume averages."""
from fractions import Fraction
import itertools
import expr as E
import ctx as X
import interp as I
import model as M
import query as Q
from expr import Poly, C, ZERO, ONE, V, D, D0, D1
from interp import ptr, force, Ptr
from model import NX, NY, NZ, HX, HY, HZ, AnchorError
from harness import check, parallel, REPO
from checks_grid import ENV, defsets, node, local, where, trace

H = (HX, HY, HZ)


def q(a, b=1):
    return E.dconst(Fraction(a, b))


def gauss_points(dim):
    g = E._sqrt_rational(Fraction(1, 3))
    return [tuple(p) for p in itertools.product((-1, 1), repeat=dim)], g


def bmatrix(dim, pt):
    """strain-displacement matrix of the (bi/tri)linear element at the Gauss point with signs pt"""
    _, g = gauss_points(dim)
    xi = [g if s > 0 else -g for s in pt]
    loc = local(dim)
    nv = 3 if dim == 2 else 6
    B = [[D0] * (len(loc) * dim) for _ in range(nv)]
    for a, la in enumerate(loc):
        sg = [1 if la[k] else -1 for k in range(dim)]
        dN = []
        for k in range(dim):
            v = q(sg[k], 2 ** dim)
            for o in range(dim):
                if o != k:
                    v = v * (D1 + (xi[o] if sg[o] > 0 else -xi[o]))
            dN.append(v * q(2) / H[k])
        for k in range(dim):
            B[k][a * dim + k] = dN[k]
        sh = [(0, 1)] if dim == 2 else [(0, 1), (0, 2), (1, 2)]
        for r, (k, l) in enumerate(sh):
            B[dim + r][a * dim + k] = dN[l]
            B[dim + r][a * dim + l] = dN[k]
    return B


def elem_args(dim, e):
    return list(e[:dim])


def u_of(m, e, a, d):
    la = local(m.dim)[a]
    n = node(e[0] + la[0], e[1] + la[1], e[2] + la[2])
    return m.it.init_value(m.buf['u'], (n * m.dim + d) * 8, 'double')


def strain_at(m, e, B):
    out = []
    for v in range(len(B)):
        s = D0
        for a in range(len(local(m.dim))):
            for d in range(m.dim):
                s = s + B[v][a * m.dim + d] * u_of(m, e, a, d)
        out.append(s)
    return out


def nvoi(dim):
    return 3 if dim == 2 else 6


def split_args(fn, args, ni, np):
    ints = [force(a) for a in args if isinstance(force(a), Poly)]
    ptrs = [force(a) for a in args if isinstance(force(a), Ptr)]
    if len(ints) != ni or len(ptrs) != np:
        raise AnchorError('unexpected signature of %s' % fn.short)
    return ints, ptrs


def strain_handler(dim):
    def h(it, st, fn, args, path, line):
        ints, ptrs = split_args(fn, args, dim + 1, 2)
        for v in range(nvoi(dim)):
            it.store(st, ptrs[1].plus(C(8 * v)), E.datom('eps', tuple(ints) + (C(v),)), 'double', line)
        return None
    return h


def sig(ints, v, strain):
    return E.datom('sig', tuple(ints) + (C(v),) + tuple(strain))


def gflag(ints, strain):
    return V(E.atom('gpflag', tuple(ints) + tuple(strain), isbool=True))


def stress_handler(dim, log=None):
    nv = nvoi(dim)

    def h(it, st, fn, args, path, line):
        ints, ptrs = split_args(fn, args, dim + 1, 4)
        eps = [force(it.load(st, ptrs[1].plus(C(8 * v)), 'double')) for v in range(nv)]
        if log is not None:
            log.append((ints, eps, line))
        it.store(st, ptrs[2], gflag(ints, eps), 'i8', line)
        for v in range(nv):
            it.store(st, ptrs[3].plus(C(8 * v)), sig(ints, v, eps), 'double', line)
        return None
    return h


def call(m, f, args, st, tag='q'):
    r = m.it.call(f, args, st, (tag,))
    if r is I.NORETURN:
        raise AnchorError('%s does not return' % f.short)
    return r


def find_points(R, m, src, e, st, g):
    """gp number -> signs of the Gauss point, derived from get_strain"""
    dim = m.dim
    f = src.fn('get_strain%dD' % dim)
    pts, _ = gauss_points(dim)
    out = {}
    vals = {}
    for gp in range(2 ** dim):
        o = m.it.obj(('strain', gp), C(48), 'undef', 'arg', 'strain%d' % gp)
        rv, s2 = call(m, f, [ptr(m.this)] + elem_args(dim, e) + [C(gp), ptr(o)], st.copy(), 'gp%d' % gp)
        got = [g.canon(m.ld(s2, o, 8 * v)) for v in range(nvoi(dim))]
        vals[gp] = got
        for p in pts:
            want = [g.canon(w) for w in strain_at(m, e, bmatrix(dim, p))]
            if all(Q.same(x, y) for x, y in zip(got, want)):
                out[gp] = p
    return out, vals, f


@check('C06', 'abstract interpretation of get_strain2D/3D, get_elem_rhs2D/3D and get_elem_mat2D/3D on a generic element of a '
       'grid of symbolic size; strains, element forces and element stiffness are compared with B u, sum wB^T sigma and '
       'sum wB^T C B for the exact strain-displacement matrix B at the 2^dim Gauss points',
       'abstract interpretation with value numbering of the element integrals', ENV)
def c06(R, tier):
    R.rule('strain', 'strain at Gauss point gp of element e is B(gp) times the displacements of its nodes')
    R.rule('quadrature', 'the Gauss points are the 2^dim points (+-1/sqrt3)^dim, each once')
    R.rule('element-force', 'element force = sum over Gauss points of w B^T sigma(strain at the point)')
    R.rule('element-stiffness', 'element stiffness = sum over Gauss points of w B^T C B')
    for defs in defsets(tier):
        src = M.Source.get(REPO, defs)
        parallel(R, [(dim, what) for dim in (3, 2) for what in ('strain', 'rhs', 'mat')],
                 lambda R, c: c06_one(R, src, *c))


def elastic_matrix(dim, mat):
    if dim == 2:
        f = mat['E'] / ((D1 + mat['nu']) * (D1 - q(2) * mat['nu']))
        a, b, c = (D1 - mat['nu']) * f, mat['nu'] * f, (D1 - q(2) * mat['nu']) * q(1, 2) * f
        return [[a, b, D0], [b, a, D0], [D0, D0, c]]
    l, mu = mat['lambda'], mat['mu']
    Cm = [[D0] * 6 for _ in range(6)]
    for i in range(3):
        for j in range(3):
            Cm[i][j] = l
        Cm[i][i] = l + q(2) * mu
        Cm[3 + i][3 + i] = mu
    return Cm


def elem_id(m, e):
    return e[0] + e[1] * (NX - 1) + (e[2] * (NX - 1) * (NY - 1) if m.dim == 3 else ZERO)


def mat_sel(m, e):
    """condition: the element is of phase 0"""
    t = m.it.init_value(m.buf['elem_type'], elem_id(m, e) * 4, 'i32')
    return E.eq0(t)


def pick(sel, a, b):
    return E.ite(sel, a, b) if isinstance(a, D) else E.pite(sel, a, b)


def material(m, e):
    s = mat_sel(m, e)
    return {k: pick(s, m.mat[0][k], m.mat[1][k]) for k in m.mat[0]}


def c06_one(R, src, dim, what):
    e, mp = Q.generic_elem(dim)
    with Q.Grid(mp) as g:
        m = M.Inst(src, dim, 0)
        st = m.generic()
        it = m.it
        pts, vals, fs = find_points(R, m, src, e, st, g)
        R.fn(m)
        w = '%s (%s)' % (src.loc(fs), fs.short)
        ng = 2 ** dim
        if what == 'strain':
            _, gq = gauss_points(dim)
            std = standard_points(dim)
            for gp in range(ng):
                if gp in pts:
                    R.ok('strain', nvoi(dim))
                else:
                    want = [g.canon(x) for x in strain_at(m, e, bmatrix(dim, std[gp]))]
                    for v in range(nvoi(dim)):
                        R.eq('strain', w, vals[gp][v], want[v], None, '%dD Gauss point %d component %d' % (dim, gp, v),
                             'strain is not B u for any Gauss point')
            if len(pts) == ng:
                if len(set(pts.values())) == ng:
                    R.ok('quadrature', ng)
                else:
                    R.bad('quadrature', w, 'a Gauss point is used twice', None, pts, '%dD' % dim)
            R.sample('%dD Gauss points %s' % (dim, pts))
            return
        if len(pts) < ng:
            pts = standard_points(dim)       # already reported by the strain rule
        wg = q(1, ng)
        for k in range(dim):
            wg = wg * H[k]
        npd = ng * dim
        Bs = [bmatrix(dim, pts[gp]) for gp in range(ng)]
        if what == 'rhs':
            f = src.fn('get_elem_rhs%dD' % dim)
            w = '%s (%s)' % (src.loc(f), f.short)
            it.opaque['get_stress%dD' % dim] = stress_handler(dim)
            be = it.obj(('be',), C(npd * 8), 'sym', 'arg', 'be')
            fl = it.obj(('fl',), C(1), 'sym', 'arg', 'fl')
            rv, s2 = call(m, f, [ptr(m.this)] + elem_args(dim, e) + [ptr(fl), ptr(be)], st.copy())
            R.fn(m)
            strains = [strain_at(m, e, Bs[gp]) for gp in range(ng)]
            S = [[sig(list(e[:dim]) + [C(gp)], v, strains[gp]) for v in range(nvoi(dim))] for gp in range(ng)]
            for i in range(npd):
                want = D0
                for gp in range(ng):
                    for v in range(nvoi(dim)):
                        want = want + Bs[gp][v][i] * S[gp][v] * wg
                R.eq('element-force', w, m.ld(s2, be, 8 * i), want, g, '%dD local dof %d' % (dim, i),
                     'element force is not sum w B^T sigma')
            R.sample('%dD element force, %d local dofs' % (dim, npd))
            return
        f = src.fn('get_elem_mat%dD' % dim)
        w = '%s (%s)' % (src.loc(f), f.short)
        if dim == 3:
            def hp(it, st, fn, args, path, line):
                ints, ptrs = split_args(fn, args, 4, 2)
                for i in range(36):
                    it.store(st, ptrs[1].plus(C(8 * i)), E.datom('cpl', tuple(ints) + (C(i),)), 'double', line)
            for nm in ('get_ctan_plast_pert', 'get_ctan_plast_sec', 'get_ctan_plast_exact'):
                it.opaque[nm] = hp
        Ae = it.obj(('Ae',), C(npd * npd * 8), 'sym', 'arg', 'Ae')
        rv, s2 = call(m, f, [ptr(m.this)] + elem_args(dim, e) + [ptr(Ae)], st.copy())
        R.fn(m)
        mat = material(m, e)
        Cm = elastic_matrix(dim, mat)
        nv = nvoi(dim)
        cbs = []
        for gp in range(ng):
            if dim == 3:
                Cg = [[E.ite(mat['plasticity'], E.datom('cpl', tuple(e) + (C(gp), C(i * 6 + j))), Cm[i][j]) for j in range(6)]
                      for i in range(6)]
            else:
                Cg = Cm
            cb = [[D0] * npd for _ in range(nv)]
            for a in range(nv):
                for j in range(npd):
                    s = D0
                    for k in range(nv):
                        if Bs[gp][k][j] is not D0:
                            s = s + Cg[a][k] * Bs[gp][k][j]
                    cb[a][j] = s * wg
            cbs.append(cb)
        for i in range(npd):
            for j in range(npd):
                want = D0
                for gp in range(ng):
                    for a in range(nv):
                        if Bs[gp][a][i] is not D0:
                            want = want + Bs[gp][a][i] * cbs[gp][a][j]
                R.eq('element-stiffness', w, m.ld(s2, Ae, 8 * (i * npd + j)), want, g, '%dD entry (%d,%d)' % (dim, i, j),
                     'element stiffness is not sum w B^T C B')
        R.sample('%dD element stiffness, %d entries' % (dim, npd * npd))


def standard_points(dim):
    return {gp: tuple(1 if c else -1 for c in local(dim)[gp][:dim]) for gp in range(2 ** dim)}


# ------------------------------------------------------------------ C07
@check('C07', 'abstract interpretation of the constructor (elastic constants), get_material, get_stress2D/3D and '
       'get_ctan_plast_pert; the stress of a linear phase is compared with the isotropic law, the tangent of a plastic '
       'phase with the forward difference of the stress function',
       'abstract interpretation with value numbering', ENV)
def c07(R, tier):
    R.rule('constants', 'k, mu, lambda derive from E and nu of the same material')
    R.rule('phase', 'an element uses the parameters of the material its type selects')
    R.rule('linear-stress', 'stress of a linear phase is the isotropic linear elastic law (2D: plane strain)')
    R.rule('bulk', 'k = lambda + 2/3 mu: the elastic branch of the plastic law is the same isotropic law')
    R.rule('plastic-tangent', 'tangent of a plastic phase is a forward difference of its stress with one common step')
    for defs in defsets(tier):
        src = M.Source.get(REPO, defs)
        parallel(R, [(dim, mt, what) for dim in (3, 2) for mt in (0, 1) for what in ('stress', 'const', 'tangent')
                     if not (what == 'tangent' and (dim == 2 or mt))], lambda R, c: c07_one(R, src, *c))


def c07_one(R, src, dim, mt, what):
    e, mp = Q.generic_elem(dim)
    with Q.Grid(mp) as g:
        m = M.Inst(src, dim, mt)
        st = m.generic()
        it = m.it
        fc = src.fn('micropp_t')
        wc = '%s (constructor)' % src.loc(fc)
        R.fn(m)
        params = it.objs[('params',)]
        if what == 'const':
            mm = src.members('material_t')
            sz = (max(o + s for o, s, _ in mm.values()) + 7) // 8 * 8
            mtypes = it.objs[('mat_types',)]
            for i in range(2):
                P = [it.init_value(params, C(8 * (10 * i + k)), 'double') for k in range(4)]
                Em, nu, Sy, Ka = P
                d = m.mat[i]
                k = Em / (q(3) * (D1 - q(2) * nu))
                mu = Em / (q(2) * (D1 + nu))
                la = nu * Em / ((D1 + nu) * (D1 - q(2) * nu))
                for n, want in (('E', Em), ('nu', nu), ('Sy', Sy), ('Ka', Ka), ('k', k), ('mu', mu), ('lambda', la)):
                    R.eq('constants', wc, d[n], want, None, '%dD micro_type %d material %d %s' % (dim, mt, i, n),
                         'material parameter %s is wrong' % n)
                R.eq('bulk', wc, d['k'], d['lambda'] + q(2, 3) * d['mu'], None, 'material %d' % i, 'k differs from lambda+2mu/3')
                b = m.off('material_list') + i * sz
                t = it.init_value(mtypes, C(4 * i), 'i32')
                for tv in (0, 1, 2):
                    S = E.Subst({list(t.t)[0][0]: C(tv)})
                    for n in ('plasticity', 'damage'):
                        got = I.resimp(I.sub(S, force(it.load(m.ctor_st, ptr(m.this, C(b + mm[n][0])), 'i8'))))
                        want = ONE if (n, tv) in (('plasticity', 1), ('damage', 2)) else ZERO
                        if n == 'damage':
                            continue
                        R.eq('constants', wc, got, want, None, '%dD material %d type %d' % (dim, i, tv), 'plasticity switch is wrong')
            # get_material picks by element type
            f = src.fn('get_material')
            o = it.obj(('mat',), C(sz), 'undef', 'arg', 'mat')
            rv, s2 = call(m, f, [ptr(m.this), elem_id(m, e), ptr(o)], st.copy())
            want = material(m, e)
            for n in ('E', 'nu', 'Sy', 'Ka', 'mu', 'k', 'lambda', 'plasticity'):
                got = m.ld(s2, o, mm[n][0], 'i8' if n == 'plasticity' else 'double')
                R.eq('phase', '%s (get_material)' % src.loc(f), got, want[n], g, '%dD micro_type %d %s' % (dim, mt, n),
                     'material parameter of another phase')
            return
        if what == 'tangent':
            log = []
            it.opaque['get_strain3D'] = strain_handler(3)
            it.opaque['get_stress3D'] = stress_handler(3, log)
            f = src.fn('get_ctan_plast_pert')
            w = '%s (get_ctan_plast_pert)' % src.loc(f)
            o = it.obj(('ctan',), C(36 * 8), 'undef', 'arg', 'ctan')
            gp = E.sym('gp')
            ints = list(e) + [gp]
            rv, s2 = call(m, f, [ptr(m.this)] + list(e) + [gp, ptr(o)], st.copy())
            R.fn(m)
            eps = [E.datom('eps', tuple(ints) + (C(v),)) for v in range(6)]
            steps = set()
            for _, sv, line in log:
                for v in range(6):
                    d = sv[v] - eps[v]
                    if d is not D0:
                        steps.add(d)
            steps = [s for s in steps if s.op == 'const' and 0 < s.args[0] <= Fraction(1, 10 ** 4)]
            if len(steps) != 1:
                d = steps[0] if steps else E.dfloat(1e-8)
            else:
                d = steps[0]
            for i in range(6):
                pert = list(eps)
                pert[i] = pert[i] + d
                for j in range(6):
                    want = (sig(ints, j, pert) - sig(ints, j, eps)) / d
                    R.eq('plastic-tangent', w, m.ld(s2, o, 8 * (j * 6 + i)), want, g, 'ctan[%d][%d]' % (j, i),
                         'tangent is not the forward difference of the stress')
            return
        # stress
        f = src.fn('get_stress%dD' % dim)
        w = '%s (%s)' % (src.loc(f), f.short)
        gp = E.sym('gp')
        nv = nvoi(dim)
        so = it.obj(('sigma',), C(8 * nv), 'undef', 'arg', 'sigma')
        eo = it.obj(('epsg',), C(8 * nv), 'sym', 'arg', 'epsg')
        fl = it.obj(('fl',), C(1), 'sym', 'arg', 'fl')
        rv, s2 = call(m, f, [ptr(m.this)] + elem_args(dim, e) + [gp, ptr(eo), ptr(fl), ptr(so)], st.copy())
        R.fn(m)
        mat = material(m, e)
        Cm = elastic_matrix(dim, mat)
        ev = [it.init_value(eo, C(8 * v), 'double') for v in range(nv)]
        kill = {}
        if dim == 3:
            kill = {Q._id(E.sym('plast0', isbool=True)): ZERO, Q._id(E.sym('plast1', isbool=True)): ZERO}
        for v in range(nv):
            want = D0
            for k in range(nv):
                want = want + Cm[v][k] * ev[k]
            got = m.ld(s2, so, 8 * v)
            if kill:
                got = I.sub(E.Subst(kill), got)
            R.eq('linear-stress', w, got, want, g, '%dD micro_type %d component %d' % (dim, mt, v),
                 'stress of a linear phase is not the isotropic law')
        R.sample('%dD micro_type %d linear stress, %d components' % (dim, mt, nv))


# ------------------------------------------------------------------ C08
def var_layout(m, src, e, gp, st):
    """offsets in vars_old that get_stress3D reads for (e, gp)"""


@check('C08', 'abstract interpretation of get_stress3D/plastic_step with symbolic strain, history and material; trial stress, yield '
       'condition, returned stress, plastic strain and hardening variable are compared with the J2 radial return, and the '
       'history addressing of (element, Gauss point) is checked for injectivity',
       'abstract interpretation with gated joins and value numbering', ENV)
def c08(R, tier):
    R.rule('trial', 'below the yield surface stress = K tr(eps) 1 + 2mu dev(eps - eps_p), history unchanged')
    R.rule('return', 'above it the stress is returned radially onto the yield surface, eps_p grows along the normal and alpha by sqrt(2/3) dl')
    R.rule('yield-condition', 'plastic flow happens exactly when |dev trial| > sqrt(2/3)(Sy + Ka alpha)')
    R.rule('addressing', 'every (element, Gauss point) owns its seven history variables, the same ones in vars_old and vars_new')
    R.rule('history-frame', 'the stress evaluation of a point changes no other history variable and never the committed history')
    for defs in defsets(tier):
        src = M.Source.get(REPO, defs)
        c08_run(R, src)


def c08_run(R, src):
    dim = 3
    e, mp = Q.generic_elem(dim)
    with Q.Grid(mp) as g:
        m = M.Inst(src, dim, 0)
        st = m.generic()
        it = m.it
        f = src.fn('get_stress3D')
        w = '%s (get_stress3D)' % src.loc(f)
        fp = src.fn('plastic_step', must=False)
        wp = '%s (plastic_step)' % src.loc(fp) if fp else w
        eo = it.obj(('epsg',), C(48), 'sym', 'arg', 'epsg')
        ev = [it.init_value(eo, C(8 * v), 'double') for v in range(6)]
        res = {}
        for gp in range(8):
            so = it.obj(('sigma', gp), C(48), 'undef', 'arg', 'sigma%d' % gp)
            fl = it.obj(('fl', gp), C(1), 'sym', 'arg', 'fl%d' % gp)
            rv, s2 = call(m, f, [ptr(m.this)] + list(e) + [C(gp), ptr(eo), ptr(fl), ptr(so)], st.copy(), 'gp%d' % gp)
            res[gp] = (s2, so, fl)
        R.fn(m)
        mat = material(m, e)
        yes = E.Subst({Q._id(E.sym('plast0', isbool=True)): ONE, Q._id(E.sym('plast1', isbool=True)): ONE})
        eid = elem_id(m, e)
        vo, vn = m.buf['vars_old'], m.buf['vars_new']
        # history addresses: from the writes to vars_new
        lay = {}
        for gp in range(8):
            s2, so, fl = res[gp]
            offs = []
            nd = s2.chain(vn)
            while nd is not None and nd.e is not None:
                if nd.e.kind == 'w' and not any(fr[0] == 'loop' for fr in nd.e.frames):
                    offs.append(g.canon(nd.e.off))
                else:
                    offs.append(None)
                nd = nd.p
            os_ = s2.mem.get(vn)
            lay[gp] = offs
        canon = {gp: [eid * 56 * 8 + (gp * 7 + i) * 8 for i in range(7)] for gp in range(8)}
        L = {}
        std = True
        for gp in range(8):
            want = set(g.canon(o) for o in canon[gp])
            got = set(lay[gp])
            if got != want:
                std = False
        if std:
            R.ok('addressing', 56)
        else:
            addressing(R, m, lay, e, g, w)
        # value semantics with the addresses actually used
        for gp in range(8):
            s2, so, fl = res[gp]
            hist = [it.init_value(vo, canon[gp][i], 'double') for i in range(7)]
            if not std:
                R.undecided('return', w, 'history layout differs from the documented one; values not compared')
                continue
            ep, al = hist[:6], hist[6]
            mu, k, Sy, Ka = mat['mu'], mat['k'], mat['Sy'], mat['Ka']
            tr = (ev[0] + ev[1] + ev[2]) * q(1, 3)
            trp = (ep[0] + ep[1] + ep[2]) * q(1, 3)
            s = []
            for i in range(6):
                if i < 3:
                    s.append(q(2) * mu * ((ev[i] - tr) - (ep[i] - trp)))
                else:
                    s.append(mu * (ev[i] - q(2) * ep[i]))
            nrm = E.sqrt(s[0] * s[0] + s[1] * s[1] + s[2] * s[2] + q(2) * (s[3] * s[3] + s[4] * s[4] + s[5] * s[5]))
            F = nrm - E._sqrt_rational(Fraction(2, 3)) * (Sy + Ka * al)
            y = E.flt0(-F)          # F > 0
            dl = F / (q(2) * mu)
            case = 'Gauss point %d' % gp
            got = I.sub(yes, m.ld(s2, fl, 0, 'i8'))
            R.eq('yield-condition', wp, got, y, g, case, 'non-linear flag is not the yield condition')
            ys = cond_ids(g.canon(y))
            for i in range(6):
                n_i = s[i] / nrm
                el = s[i] + (k * (ev[0] + ev[1] + ev[2]) if i < 3 else D0)
                pl = el - q(2) * mu * dl * n_i
                cmp_cond(R, g, wp, I.sub(yes, m.ld(s2, so, 8 * i)), y, pl, el, case + ' stress component %d' % i,
                         'stress is not the elastic trial', 'stress is not the radial return')
                cmp_cond(R, g, wp, I.sub(yes, m.ld(s2, vn, canon[gp][i])), y, ep[i] + dl * n_i, ep[i],
                         case + ' plastic strain %d' % i, 'plastic strain changes in an elastic step', 'plastic strain increment is not dl*n')
            cmp_cond(R, g, wp, I.sub(yes, m.ld(s2, vn, canon[gp][6])), y, al + E._sqrt_rational(Fraction(2, 3)) * dl, al,
                     case + ' alpha', 'hardening variable changes in an elastic step', 'hardening increment is not sqrt(2/3) dl')
            # committed history untouched
            if s2.chain(vo).e is None or s2.chain(vo) is st.chain(vo):
                R.ok('history-frame')
            else:
                i = 0
                for i in range(7):
                    R.eq('history-frame', w, m.ld(s2, vo, canon[gp][i]), hist[i], g, case, 'committed history modified')
            R.sample('get_stress3D %s: 6 stresses, 6 plastic strains, alpha, flag' % case)
            # linear phase: no history written
            no = E.Subst({Q._id(E.sym('plast0', isbool=True)): ZERO, Q._id(E.sym('plast1', isbool=True)): ZERO})
            for i in range(7):
                R.eq('history-frame', w, I.sub(no, m.ld(s2, vn, canon[gp][i])), it.init_value(vn, canon[gp][i], 'double'), g,
                     case, 'linear phase writes history')


def cond_ids(p):
    return p.atoms()


def cmp_cond(R, g, w, got, y, pl, el, case, wel, wpl):
    """compare separately under the yield condition and its negation"""
    got = g.canon(got)
    want = g.canon(E.ite(y, pl, el))
    if Q.same(got, want):
        R.ok('trial')
        R.ok('return')
        return
    ids = [i for i in g.canon(y).atoms()]
    if len(ids) == 1:
        for bit, rule, wh, ref in ((0, 'trial', wel, el), (1, 'return', wpl, pl)):
            S = E.Subst({ids[0]: C(bit)})
            # y may be the atom or its negation
            yv = S.poly(g.canon(y))
            r = 'return' if yv == ONE else 'trial'
            R.eq(r, w, I.sub(S, got), I.sub(S, g.canon(pl if yv == ONE else el)), None, case, wpl if yv == ONE else wel)
    else:
        R.eq('return', w, got, want, None, case, wpl)


def addressing(R, m, lay, e, g, w):
    """injectivity of a non-standard history layout"""
    offs = {}
    for gp, l in lay.items():
        if any(o is None for o in l):
            R.undecided('addressing', w, 'writes to vars_new not resolved')
            return
        for o in set(l):
            if o in offs and offs[o] != gp:
                R.bad('addressing', w, 'Gauss points %d and %d share a history variable' % (offs[o], gp), None, o)
                return
            offs[o] = gp
        if len(set(l)) < 7:
            R.bad('addressing', w, 'Gauss point %d has fewer than seven history variables' % gp, None, l)
            return
    ex = e[0]
    i0 = Q._id(X.SLACK.get(Q._id(ex), ex))
    # shift by one element in x
    base = sorted(offs, key=repr)
    a = base[0]
    rel = []
    for o in base:
        d = o - a
        if not d.isconst():
            R.undecided('addressing', w, 'layout not affine')
            return
        rel.append(d.const())
    c = a.coeff(i0)
    if c is None or not c[0].isconst():
        R.undecided('addressing', w, 'layout not affine in the element')
        return
    s = c[0].const()
    rs = set(rel)
    for k in range(1, 64):
        if s == 0 or any(r + k * s in rs for r in rel):
            R.bad('addressing', w, 'elements %d apart share history variables' % k, None, a)
            return
    R.undecided('addressing', w, 'non-standard history layout')


# ------------------------------------------------------------------ C09
@check('C09', 'abstract interpretation of calc_ave_stress, calc_ave_strain and calc_fields with point stresses and strains as '
       'uninterpreted functions of (element, Gauss point); results are compared with the volume averages over the cell and '
       'over each element',
       'abstract interpretation with loop-sum summaries', ENV)
def c09(R, tier):
    R.rule('cell-average', 'macroscopic value = (1/volume) * sum over elements and Gauss points of w * point value')
    R.rule('element-average', 'element field = average of the Gauss points of that element')
    R.rule('point-arguments', 'the stress is evaluated at the strain of the same element and Gauss point')
    for defs in defsets(tier):
        src = M.Source.get(REPO, defs)
        parallel(R, [(dim, nm) for dim in (3, 2) for nm in ('calc_ave_stress', 'calc_ave_strain', 'calc_fields')],
                 lambda R, c: c09_one(R, src, *c))


def c09_one(R, src, dim, nm):
    m = M.Inst(src, dim, 0)
    st = m.generic()
    it = m.it
    it.opaque['get_strain%dD' % dim] = strain_handler(dim)
    it.opaque['get_stress%dD' % dim] = stress_handler(dim)
    f = src.fn(nm)
    nv = nvoi(dim)
    ng = 2 ** dim

    def at(e, gp, v, stress):
        ints = tuple(e[:dim]) + (C(gp),)
        eps = [E.datom('eps', ints + (C(k),)) for k in range(nv)]
        return sig(ints, v, eps) if stress else eps[v]

    if nm == 'calc_fields':
        rv, s2 = call(m, f, [ptr(m.this)], st)
        R.fn(m)
        for e, mp in Q.generic_elems(dim):
          with Q.Grid(mp) as g:
            eid = elem_id(m, e)
            for fld in ('elem_strain', 'elem_stress'):
                for v in range(nv):
                    want = D0
                    for gp in range(ng):
                        want = want + at(e, gp, v, fld == 'elem_stress') * q(1, ng)
                    off = (eid * nv + v) * 8
                    R.eq('element-average', where(src, f, s2, m.buf[fld], off), m.ld(s2, m.buf[fld], off), want, g,
                         '%dD %s component %d' % (dim, fld, v), '%s is not the average of the element' % fld)
        return
    o = it.obj(('ave',), C(48), 'undef', 'arg', 'ave')
    rv, s2 = call(m, f, [ptr(m.this), ptr(o)], st)
    R.fn(m)
    w = '%s (%s)' % (src.loc(f), nm)
    sz = (NX, NY, NZ)
    for v in range(nv):
        def one(ix):
            s = D0
            for gp in range(ng):
                s = s + at(ix, gp, v, nm == 'calc_ave_stress')
            return s
        wg = q(1, ng)
        vol = D1
        for a in range(dim):
            wg = wg * H[a]
            vol = vol * (H[a] * E.i2d(sz[a] - 1))
        want = Q.total([sz[a] - 1 for a in range(dim)], one, 'ave') * wg / vol
        R.eq('cell-average', w, m.ld(s2, o, 8 * v), want, None, '%dD %s component %d' % (dim, nm, v),
             'not the volume average over the cell', softok=False)
    R.sample('%dD %s: %d components over (nx-1)(ny-1)%s elements x %d points' % (dim, nm, nv, '(nz-1)' if dim == 3 else '', ng))
