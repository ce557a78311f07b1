"""C01, C03, C04, C05: the structured-grid layer (boundary displacements, ELL pattern, assembly, BCs)."""
import os
import expr as E
import ctx as X
import interp as I
import model as M
import query as Q
from expr import Poly, C, ZERO, ONE, V, D, D0, D1
from interp import ptr, force
from model import NX, NY, NZ, HX, HY, HZ, AnchorError
from harness import check, parallel, REPO

HALF = None
REAL = ('Values are compared as terms over the real field: floating-point rounding, overflow, NaN and '
        'int overflow for huge grids are outside the claim.')
ENV = ['malloc/calloc/new succeed', 'grid sizes nx, ny (and nz in 3D) are at least 2, lengths are positive',
       'dim is 2 or 3 and micro_type is 0 or 1', REAL,
       'value numbers are computed in a prime field of ~2^89 elements: two different terms collide with probability < 2^-60']


def defsets(tier):
    return [()] if tier == 'quick' else [(), ('NDEBUG',)]


def node(i, j, k):
    return (k * NY + j) * NX + i


def neigh(dim):
    return [(x, y, z) for z in ((-1, 0, 1) if dim == 3 else (0,)) for y in (-1, 0, 1) for x in (-1, 0, 1)]


LOCAL2 = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)]
LOCAL3 = LOCAL2 + [(x, y, 1) for x, y, _ in LOCAL2]


def local(dim):
    return LOCAL2 if dim == 2 else LOCAL3


def where(src, f, st=None, obj=None, off=None):
    def w(g=None):
        if st is not None:
            l = Q.last_writer(st, obj, off)
            if l:
                return '%s (%s)' % (l, f.short)
        return '%s (%s)' % (src.loc(f), f.short)
    return w


def strain_tensor(e, dim):
    h = E.dconst(E.Fraction(1, 2))
    if dim == 2:
        return [[e[0], h * e[2]], [h * e[2], e[1]]]
    return [[e[0], h * e[3], h * e[4]], [h * e[3], e[1], h * e[5]], [h * e[4], h * e[5], e[2]]]


# ------------------------------------------------------------------ C01
@check('C01', 'abstract interpretation of micropp_t::set_displ with symbolic grid sizes; the last write reaching every '
       'node class (6 classes per axis, covering all nx,ny,nz>=2) is compared with the affine field eps*x',
       'abstract interpretation (array last-write data-flow, value numbering)', ENV)
def c01(R, tier):
    R.rule('affine', 'u at a boundary node equals the affine field eps.x of the macroscopic strain')
    R.rule('interior-kept', 'set_displ does not modify the displacement of interior nodes')
    for defs in defsets(tier):
        src = M.Source.get(REPO, defs)
        for dim in (2, 3):
            m = M.Inst(src, dim, 0)
            st = m.generic()
            it = m.it
            f = src.fn('set_displ')
            eps = it.obj(('eps',), C(48), 'sym', 'arg', 'eps')
            r = it.call(f, [ptr(m.this), ptr(eps)], st, ('q',))
            if r is I.NORETURN:
                raise AnchorError('set_displ does not return')
            s2 = r[1]
            T = strain_tensor([m.ld(s2, eps, 8 * i) for i in range(6)], dim)
            R.fn(m)

            def one(R, c):
                B = Q.Batch(R, {})
                lab, (i, j, k), mp, kinds = c
                B.mp = mp
                n = node(i, j, k)
                x = [E.i2d(i) * HX, E.i2d(j) * HY, E.i2d(k) * HZ]
                for d in range(dim):
                    off = (n * dim + d) * 8
                    bnd = Q.is_boundary(kinds)
                    if bnd:
                        want = D0
                        for a in range(dim):
                            want = want + T[d][a] * x[a]
                    else:
                        want = it.init_value(m.buf['u'], off, 'double')
                    B.add('affine' if bnd else 'interior-kept', where(src, f, s2, m.buf['u'], off),
                             lambda g, off=off, want=want: (m.ld(s2, m.buf['u'], off), want),
                     '%dD node %s dof %d' % (dim, lab, d),
                             'displacement is not the affine field' if bnd else 'interior displacement modified')
                B.run()
                R.sample('%dD node class [%s] dofs 0..%d -> u[(node)*%d+d]' % (dim, lab, dim - 1, dim))
            parallel(R, Q.node_classes(dim), one)


# ------------------------------------------------------------------ ELL helpers
class Ell:
    def __init__(self, m, st, R=None, rule=None, f=None):
        self.m, self.st = m, st
        dim = m.dim
        self.nF = dim
        self.ns = 3 ** dim
        am = m.am
        oA = m.off('A')
        self.nnz = force(m.it.load(st, ptr(m.this, C(oA + am['nnz'][0])), 'i32'))
        self.nrow = force(m.it.load(st, ptr(m.this, C(oA + am['nrow'][0])), 'i32'))
        self.ncol = force(m.it.load(st, ptr(m.this, C(oA + am['ncol'][0])), 'i32'))
        self.cols = m.buf['A.cols']
        self.vals = m.buf['A.vals']
        # slot -> neighbour at a generic interior node
        self.slot = {}
        self.bad = []
        mid = [c for c in Q.node_classes(dim) if all(k == 'mid' for k in c[3])] or \
            [c for c in Q.node_classes(dim) if not Q.is_boundary(c[3])]
        if not mid:
            self.slot = {d: x for x, d in enumerate(neigh(dim))}
            self.nb = {s: d for d, s in self.slot.items()}
            return
        mid = mid[0]
        lab, (i, j, k), mp, kinds = mid
        n = node(i, j, k)
        nb = neigh(dim)
        with Q.Grid(mp) as g:
            for s in range(self.ns):
                got = g.canon(m.ld(st, self.cols, (n * self.nF * self.nnz + s * self.nF) * 4, 'i32'))
                hit = [d for d in nb if got == g.canon((n + d[0] + d[1] * NX + d[2] * NX * NY) * self.nF)]
                if len(hit) == 1 and hit[0] not in self.slot:
                    self.slot[hit[0]] = s
                else:
                    self.bad.append((s, got))
        self.nb = {s: d for d, s in self.slot.items()}

    def idx(self, n, d1, s, d2):
        return (n * self.nF + d1) * self.nnz + s * self.nF + d2


def ell_of(m, st):
    e = Ell(m, st)
    if e.bad:
        # the pattern is broken (reported by C04): use the documented lexicographic layout
        e.slot = {d: q for q, d in enumerate(neigh(m.dim))}
        e.nb = {s: d for d, s in e.slot.items()}
    return e


# ------------------------------------------------------------------ C03
@check('C03', 'abstract interpretation of ell_set_bc_2D/3D over an arbitrary matrix; every (row class, slot, component) '
       'entry is compared with the Dirichlet form: identity rows on the boundary, zero coupling of interior rows to '
       'boundary columns, other entries untouched',
       'abstract interpretation (array last-write data-flow over grid classes)', ENV)
def c03(R, tier):
    bc_obligations(R, tier, False)


def bc_obligations(R, tier, only):
    """only: rows of boundary nodes only (C02)"""
    R.rule('identity-row', 'a boundary row is 1 on its own diagonal and 0 elsewhere')
    if not only:
        R.rule('decoupled', 'an interior row has no coupling to a boundary node')
        R.rule('untouched', 'couplings between interior nodes are left as assembled')
    R.rule('solver-order', 'assembly_mat applies the boundary conditions after the last element contribution')
    for defs in defsets(tier):
        src = M.Source.get(REPO, defs)
        for dim in (2, 3):
            m = M.Inst(src, dim, 0)
            st = m.generic()
            it = m.it
            L = ell_of(m, st)
            nF = dim
            f = src.fn('ell_set_bc_%dD' % dim)
            r = it.call(f, [ptr(m.this, C(m.off('A'))), C(nF), NX, NY] + ([NZ] if dim == 3 else []), st.copy(), ('q',))
            if r is I.NORETURN:
                raise AnchorError('%s does not return' % f.short)
            s2 = r[1]
            R.fn(m)

            def one(R, c):
                B = Q.Batch(R, {})
                lab, (i, j, k), mp, kinds = c
                B.mp = mp
                n = node(i, j, k)
                bnd = Q.is_boundary(kinds)
                for s in range(L.ns):
                    dl = L.nb[s]
                    if bnd:
                        rule = 'identity-row'
                    else:
                        tob = any((kinds[a] in ('first', 'both') and dl[a] < 0) or (kinds[a] in ('last', 'both') and dl[a] > 0)
                                  for a in range(dim))
                        rule = 'decoupled' if tob else 'untouched'
                    for d1 in range(nF):
                        for d2 in range(nF):
                            off = L.idx(n, d1, s, d2) * 8
                            if bnd:
                                want = D1 if not any(dl) and d1 == d2 else D0
                            else:
                                want = D0 if tob else it.init_value(L.vals, off, 'double')
                            B.add(rule, where(src, f, s2, L.vals, off), lambda g, off=off, want=want: (m.ld(s2, L.vals, off), want),
                     '%dD row node %s dof %d, neighbour %s dof %d' % (dim, lab, d1, dl, d2),
                                     R.rules[rule]['text'] if rule in R.rules else rule)
                B.run()
                R.sample('%dD row class [%s], %d slots x %dx%d components' % (dim, lab, L.ns, nF, nF))
            parallel(R, [c for c in Q.node_classes(dim) if not only or Q.is_boundary(c[3])], one)
            # order of calls in assembly_mat
            am = M.Inst(src, dim, 0)
            st = am.generic()
            ev = []

            def rec(name):
                def h(it, st, fn, args, path, line):
                    st.event(I.Event('call', name, tuple(force(a) for a in args), None, path, line, it.cur), line)
                    return None
                return h
            for nm in ('ell_set_bc_2D', 'ell_set_bc_3D', 'ell_add_struct2D', 'ell_add_struct3D', 'get_elem_mat2D',
                       'get_elem_mat3D', 'ell_set_zero_mat'):
                am.it.opaque[nm] = rec(nm)
            fa = src.fn('assembly_mat')
            r = am.it.call(fa, [ptr(am.this)], st, ('q',))
            evs = trace(r[1])
            R.fn(am)
            bc = [q for q, e in enumerate(evs) if e.val.name == 'ell_set_bc_%dD' % dim]
            add = [q for q, e in enumerate(evs) if e.val.name.startswith(('ell_add_struct', 'ell_set_zero'))]
            w = '%s (assembly_mat)' % src.loc(fa)
            if not bc:
                R.bad('solver-order', w, 'the boundary conditions are never applied to the %dD matrix' % dim)
            elif add and max(add) > bc[-1]:
                R.bad('solver-order', w, 'the %dD matrix is modified after the boundary conditions' % dim)
            else:
                e = evs[bc[-1]]
                if e.frames:
                    R.undecided('solver-order', w, 'boundary conditions applied under %r' % (e.frames,))
                else:
                    a = e.val.args
                    good = len(a) >= 4 and isinstance(a[0], I.Ptr) and a[1] == C(nF) and a[2] == NX and a[3] == NY and \
                        (dim == 2 or a[4] == NZ)
                    if good:
                        R.ok('solver-order')
                    else:
                        R.bad('solver-order', w, 'boundary conditions applied with arguments %r' % (a,))


def trace(st):
    out = []
    o = st.mem.get(I.TRACE)
    if o is None:
        return out
    node_ = st.chain(I.TRACE)
    while node_ is not None and node_.e is not None:
        out.append(node_.e)
        node_ = node_.p
    out.reverse()
    return [e for e in out if e.kind == 'ev']


# ------------------------------------------------------------------ C04
def mat_handler(dim):
    """element stiffness as uninterpreted function of the element"""
    n = (4 if dim == 2 else 8) * dim

    def h(it, st, fn, args, path, line):
        ints = [force(a) for a in args if isinstance(force(a), Poly)]
        ptrs = [force(a) for a in args if isinstance(force(a), I.Ptr)]
        if len(ints) != dim or len(ptrs) != 2:
            raise AnchorError('unexpected signature of %s' % fn.short)
        for i in range(n * n):
            it.store(st, ptrs[1].plus(C(8 * i)), E.datom('Ae', tuple(ints) + (C(i),)), 'double', line)
        return None
    return h


@check('C04', 'abstract interpretation of the constructor (ell_init), ell_add_struct2D/3D and assembly_mat; the column '
       'index of every slot, the slot every element coefficient is added to, and the assembled matrix are compared with '
       'the nodal connectivity for every class of rows',
       'abstract interpretation (array last-write data-flow, loop-sum summaries)', ENV)
def c04(R, tier):
    R.rule('shape', 'nrow = ncol = nodes*dim, nnz = 3^dim*dim, buffers hold nrow*nnz entries')
    R.rule('slot-map', 'the slots of a row are a bijection to the 3^dim neighbours')
    R.rule('column', 'cols of an existing neighbour is that neighbour')
    R.rule('column-range', 'cols of a slot without neighbour is a valid column')
    R.rule('scatter', 'Ae[(a,i),(b,j)] is added to row (a,i), column (b,j)')
    R.rule('scatter-frame', 'no other entry changes')
    R.rule('assembled', 'the assembled interior row is the sum over the adjacent elements')
    for defs in defsets(tier):
        src = M.Source.get(REPO, defs)
        for dim in (2, 3):
            m = M.Inst(src, dim, 0)
            st = m.generic()
            it = m.it
            L = Ell(m, st)
            nF = dim
            fi = src.fn('ell_init_%dD' % dim)
            wi = '%s (%s)' % (src.loc(fi), fi.short)
            nn = m.nn
            R.fn(m)
            R.eq('shape', wi, L.nrow, nn * nF, None, '%dD nrow' % dim, 'wrong number of rows')
            R.eq('shape', wi, L.ncol, nn * nF, None, '%dD ncol' % dim, 'wrong number of columns')
            R.eq('shape', wi, L.nnz, C(L.ns * nF), None, '%dD nnz' % dim, 'wrong number of entries per row')
            for o, s in ((L.cols, 4), (L.vals, 8)):
                if o.size is None:
                    R.undecided('shape', wi, 'size of %r unknown' % o)
                elif X.pn(o.size - nn * nF * L.ns * nF * s):
                    R.ok('shape')
                else:
                    R.eq('shape', wi, o.size, nn * nF * L.ns * nF * s, None, '%dD' % dim, 'buffer size')
            for s, got in L.bad:
                if Q.soft(got) or got.unk:
                    R.undecided('slot-map', wi, 'slot %d: %r' % (s, got))
                else:
                    R.bad('slot-map', wi, 'slot %d of a generic row does not name a distinct neighbour' % s, None, got, '%dD' % dim)
            if not L.bad:
                R.ok('slot-map', L.ns)
            L = ell_of(m, st)

            def cols(R, c):
                B = Q.Batch(R, {})
                lab, (i, j, k), mp, kinds = c
                B.mp = mp
                n = node(i, j, k)
                for d1 in range(nF):
                    for s in range(L.ns):
                        dl = L.nb[s]
                        ex = all(not ((kinds[a] == 'lo' and dl[a] < 0) or (kinds[a] == 'hi' and dl[a] > 0)) for a in range(dim))
                        for d2 in range(nF):
                            off = L.idx(n, d1, s, d2) * 4
                            case = '%dD row node %s dof %d, neighbour %s dof %d' % (dim, lab, d1, dl, d2)
                            if ex:
                                want = (n + dl[0] + dl[1] * NX + dl[2] * NX * NY) * nF + d2
                                B.add('column', where(src, fi, st, L.cols, off), lambda g, off=off, want=want: (m.ld(st, L.cols, off, 'i32'), want),
                                         mp, case, 'column index is not the neighbour of the slot')
                            else:
                                with Q.Grid(mp) as g:
                                    v = g.canon(m.ld(st, L.cols, off, 'i32'))
                                    if X.pn(v) and X.pn(nn * nF - 1 - v):
                                        R.ok('column-range')
                                    elif v.unk or Q.soft(v) or not (X.pn(-v - 1) or X.pn(v - nn * nF)):
                                        R.undecided('column-range', wi, case)
                                    else:
                                        R.bad('column-range', where(src, fi, st, L.cols, off)(), 'column index outside the matrix',
                                              None, v, case)
                B.run()
                R.sample('%dD columns of row class [%s]' % (dim, lab))
            parallel(R, Q.node_classes(dim), cols)

            # scatter of one element matrix
            fa = src.fn('ell_add_struct%dD' % dim)
            (ex, ey, ez), mp = Q.generic_elem(dim)
            Ae = it.obj(('Ae',), C((nF * 2 ** dim) ** 2 * 8), 'sym', 'arg', 'Ae')
            with Q.Grid(mp) as g:
                if dim == 2:
                    args = [ptr(m.this, C(m.off('A'))), ex, ey, ptr(Ae), C(nF), NX, NY]
                else:
                    args = [ptr(m.this, C(m.off('A'))), ex, ey, ez, ptr(Ae), C(nF), NX, NY, NZ]
                r = it.call(fa, args, st.copy(), ('q2',))
            if r is I.NORETURN:
                raise AnchorError('%s does not return' % fa.short)
            sa = r[1]
            R.fn(m)
            loc = local(dim)
            npe = len(loc)
            # positions of a node relative to the element, per axis
            ev = (ex, ey, ez)
            names = ('x', 'y', 'z')

            def rel(a):
                n = (NX, NY, NZ)[a]
                if n.isconst():
                    e0 = ev[a].const()
                    for v in range(n.const()):
                        yield ('lo' if v == e0 else 'hi' if v == e0 + 1 else 'below' if v < e0 else 'above', C(v), {})
                    return
                nid, eid = Q._id(n), Q._id(ev[a])
                s1, s2, s3 = X.slack('r%d1' % a), X.slack('r%d2' % a), X.slack('r%d3' % a)
                i = E.sym('R' + names[a])
                iid = Q._id(i)
                yield ('lo', ev[a], {nid: s1 + s2 + 2, eid: s1})
                yield ('hi', ev[a] + 1, {nid: s1 + s2 + 2, eid: s1})
                yield ('below', i, {iid: s1, eid: s1 + s2 + 1, nid: s1 + s2 + s3 + 3})
                yield ('above', i, {eid: s1, iid: s1 + s2 + 2, nid: s1 + s2 + s3 + 3})
            pos = [[]]
            for a in range(dim):
                pos = [p + [q] for p in pos for q in rel(a)]

            def scat(R, p):
                B = Q.Batch(R, {})
                P = [q[1] for q in p] + [ZERO] * (3 - dim)
                mp2 = {}
                for q in p:
                    mp2.update(q[2])
                B.mp = mp2
                n = node(*P)
                inside = all(q[0] in ('lo', 'hi') for q in p)
                la = tuple(1 if q[0] == 'hi' else 0 for q in p) + (0,) * (3 - dim)
                lab = ' '.join('%s:%s' % (names[a], q[0]) for a, q in enumerate(p))
                for s in range(L.ns):
                    dl = L.nb[s]
                    lb = tuple(la[a] + dl[a] for a in range(3))
                    tgt = inside and lb in loc
                    for d1 in range(nF):
                        for d2 in range(nF):
                            off = L.idx(n, d1, s, d2) * 8
                            old = it.init_value(L.vals, off, 'double')
                            if tgt:
                                a, b = loc.index(la), loc.index(lb)
                                want = old + m.ld(sa, Ae, 8 * ((a * nF + d1) * npe * nF + b * nF + d2))
                            else:
                                want = old
                            B.add('scatter' if tgt else 'scatter-frame', where(src, fa, sa, L.vals, off),
                                     lambda g, off=off, want=want: (m.ld(sa, L.vals, off), want),
                     '%dD row at %s dof %d, neighbour %s dof %d' % (dim, lab, d1, dl, d2),
                                     'element coefficient added to the wrong entry' if tgt else 'entry modified that the element does not touch')
                B.run()
                R.sample('%dD scatter, row at [%s]' % (dim, lab))
            parallel(R, pos, scat)

            # assembled matrix
            m2 = M.Inst(src, dim, 0)
            st2 = m2.generic()
            m2.it.opaque['get_elem_mat%dD' % dim] = mat_handler(dim)
            m2.it.opaque['ell_set_bc_%dD' % dim] = lambda it, st, fn, args, path, line: None
            fm = src.fn('assembly_mat')
            r = m2.it.call(fm, [ptr(m2.this)], st2, ('q',))
            if r is I.NORETURN:
                raise AnchorError('assembly_mat does not return')
            s3 = r[1]
            R.fn(m2)
            vals2 = m2.buf['A.vals']

            def assem(R, c):
                B = Q.Batch(R, {})
                lab, (i, j, k), mp, kinds = c
                B.mp = mp
                n = node(i, j, k)
                for s in range(L.ns):
                    dl = L.nb[s]
                    for d1 in range(nF):
                        for d2 in range(nF):
                            want = D0
                            for a, la in enumerate(loc):
                                lb = tuple(la[q] + dl[q] for q in range(3))
                                if lb not in loc:
                                    continue
                                b = loc.index(lb)
                                e = (i - la[0], j - la[1], k - la[2])[:dim]
                                want = want + E.datom('Ae', tuple(e) + (C((a * nF + d1) * npe * nF + b * nF + d2),))
                            off = L.idx(n, d1, s, d2) * 8
                            B.add('assembled', where(src, fm), lambda g, off=off, want=want: (m2.ld(s3, vals2, off), want),
                     '%dD row node %s dof %d, neighbour %s dof %d' % (dim, lab, d1, dl, d2),
                                     'assembled entry is not the sum of the adjacent element contributions')
                B.run()
                R.sample('%dD assembled row class [%s]' % (dim, lab))
            cl = [c for c in Q.node_classes(dim) if not Q.is_boundary(c[3])]
            if dim == 3 and tier == 'quick':
                cl = [c for c in cl if len(set(c[3]) - {'mid'}) <= 1 and list(c[3]).count('mid') >= 2]
            parallel(R, cl, assem)


# ------------------------------------------------------------------ C05
def rhs_handler(dim):
    n = (4 if dim == 2 else 8) * dim

    def h(it, st, fn, args, path, line):
        ints = [force(a) for a in args if isinstance(force(a), Poly)]
        ptrs = [force(a) for a in args if isinstance(force(a), I.Ptr)]
        if len(ints) != dim or len(ptrs) != 3:
            raise AnchorError('unexpected signature of %s' % fn.short)
        it.store(st, ptrs[1], V(E.atom('nlflag', tuple(ints), isbool=True)), 'i8', line)
        for i in range(n):
            it.store(st, ptrs[2].plus(C(8 * i)), E.datom('be', tuple(ints) + (C(i),)), 'double', line)
        return None
    return h


@check('C05', 'abstract interpretation of assembly_rhs with the element force as an uninterpreted function of the element; '
       'b at every node class, the returned norm and the non-linear flag are compared with the connectivity sum',
       'abstract interpretation (array last-write data-flow, loop-sum summaries)', ENV)
def c05(R, tier):
    rhs_obligations(R, tier, False)


def rhs_obligations(R, tier, only):
    if not only:
        R.rule('interior-force', 'b at an interior node is minus the sum of the forces of its adjacent elements')
        R.rule('norm', 'the returned value is the Euclidean norm of b')
    R.rule('boundary-zero', 'b is zero at every boundary node')
    if not only:
        R.rule('flag', 'the reported non-linear flag is the disjunction of the element flags')
    for defs in defsets(tier):
        src = M.Source.get(REPO, defs)
        for dim in (2, 3):
            m = M.Inst(src, dim, 0)
            st = m.generic()
            it = m.it
            it.opaque['get_elem_rhs%dD' % dim] = rhs_handler(dim)
            f = src.fn('assembly_rhs')
            fl = it.obj(('flag',), C(1), 'sym', 'arg', 'flag')
            r = it.call(f, [ptr(m.this), ptr(fl)], st, ('q',))
            if r is I.NORETURN:
                raise AnchorError('assembly_rhs does not return')
            rv, s2 = r
            R.fn(m)
            b = m.buf['b']
            loc = local(dim)

            def one(R, c):
                B = Q.Batch(R, {})
                lab, (i, j, k), mp, kinds = c
                B.mp = mp
                n = node(i, j, k)
                for d in range(dim):
                    off = (n * dim + d) * 8
                    if Q.is_boundary(kinds):
                        want = D0
                    else:
                        want = D0
                        for a, la in enumerate(loc):
                            want = want - E.datom('be', tuple((i - la[0], j - la[1], k - la[2])[:dim]) + (C(a * dim + d),))
                    bnd = Q.is_boundary(kinds)
                    B.add('boundary-zero' if bnd else 'interior-force', where(src, f, s2, b, off),
                             lambda g, off=off, want=want: (m.ld(s2, b, off), want),
                     '%dD node %s dof %d' % (dim, lab, d),
                             'residual not zeroed on the boundary' if bnd else 'residual is not minus the sum of the adjacent element forces')
                B.run()
                R.sample('%dD b at node class [%s]' % (dim, lab))
            parallel(R, [c for c in Q.node_classes(dim) if not only or Q.is_boundary(c[3])], one)
            if only:
                continue
            w = '%s (assembly_rhs)' % src.loc(f)
            # norm: sum over all entries of b^2 of the final b
            def sq(ix):
                x = m.ld(s2, b, ix[0] * 8)
                return x * x
            want = E.sqrt(Q.total([m.nn * dim], sq, 'normq'))
            R.eq('norm', w, rv, want, None, '%dD' % dim, 'returned value is not the norm of b')
            got = force(m.ld(s2, fl, 0, 'i8'))
            want = flag_any(dim)
            if want is not None:
                R.eq('flag', w, got, want, None, '%dD' % dim, 'flag is not the disjunction of the element flags', softok=got.isconst() if isinstance(got, Poly) else False)


def flag_any(dim):
    if NX.isconst() and (NX.const() - 1) * (NY.const() - 1) * (NZ.const() - 1 if dim == 3 else 1) > 9:
        return None
    return Q.anyof([x - 1 for x in (NX, NY, NZ)[:dim]], lambda ix: V(E.atom('nlflag', tuple(ix), isbool=True)), 'fq')
