"""Loop summarisation from one generic iteration."""
import expr as E
import ctx as X
from expr import Poly, C, ZERO, ONE, V, D
from interp import (Ptr, ptr, Lazy, force, OS, State, Node, Entry, ROOT, suffix, common, sub, vdeps,
                    vite, localise, LoopRec, Unsupported, UNROLL, TRACE, OPAQUE, Opaque, Event, NORETURN, asptr)


def occurrence(st, key):
    n = st.occ.get(key, 0)
    st.occ[key] = n + 1
    return n


def syntactic_ind(it, fr, L, ph):
    """phis whose latch value is phi + invariant"""
    fn = fr.fn
    hdr = fn.blocks[L.header]
    latch = list(L.latches)[0]
    defs = getattr(fn, '_defs', None)
    if defs is None:
        defs = fn._defs = {}
        for b in fn.blocks.values():
            for i in b.instrs:
                if i.dst is not None:
                    defs[i.dst] = (i, b.name)
            for p in b.phis:
                defs[p.dst] = (p, b.name)
    out = {}

    def invariant(v):
        if v[0] in ('i', 'd'):
            return True
        if v[0] == 'r':
            d = defs.get(v[1])
            return d is None or d[1] not in L.blocks
        return False
    for p in hdr.phis:
        lv = None
        for v, b in p.args:
            if b == latch:
                lv = v
        if lv is None or lv[0] != 'r':
            continue
        d = defs.get(lv[1])
        if d is None:
            continue
        i = d[0]
        if i.op in ('add', 'sub') and len(i.args) == 2:
            a, b = i.args
            if a == ('r', p.dst) and invariant(b):
                s = force(it.val(fr, b, i.ty))
                if isinstance(s, Poly):
                    out[p.dst] = s if i.op == 'add' else -s
            elif i.op == 'add' and b == ('r', p.dst) and invariant(a):
                s = force(it.val(fr, a, i.ty))
                if isinstance(s, Poly):
                    out[p.dst] = s
        elif i.op == 'gep' and len(i.args) == 2 and i.args[0][1] == ('r', p.dst) and invariant(i.args[1][1]):
            s = force(it.val(fr, i.args[1][1], i.args[1][0]))
            if isinstance(s, Poly):
                out[p.dst] = s * it.T.size_align(i.extra)[0]
    return out


def shift(v, d):
    v = force(v)
    if isinstance(v, Ptr):
        return v.plus(d)
    if isinstance(v, Poly):
        return v + d
    if isinstance(v, D):
        return E.add(v, E.i2d(d))
    return None


def diff(a, b):
    """a - b as Poly / D, or None"""
    a, b = force(a), force(b)
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a - b
    if isinstance(a, D) and isinstance(b, D):
        return E.sub(a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and len(a.alts) == 1 and len(b.alts) == 1:
        if a.alts[0][1] is b.alts[0][1]:
            return a.alts[0][2] - b.alts[0][2]
    return None


PURE = {'gep', 'load', 'icmp', 'fcmp', 'sext', 'zext', 'trunc', 'add', 'sub', 'mul', 'sdiv', 'srem', 'select',
        'sitofp', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr', 'udiv', 'urem',
        'bitcast', 'freeze', 'ptrtoint'}


def header_trip(it, fr, L, st, ph, ind, t):
    """(Tu, X) of a loop whose only regular test is in the header, from syntactic inductions"""
    fn = fr.fn
    hdr = fn.blocks[L.header]
    term = hdr.term
    if term.op != 'cbr':
        return None
    ins = [x in L.blocks for x in term.args[1:3]]
    if ins[0] == ins[1]:
        return None
    if any(i.op not in PURE for i in hdr.instrs):
        return None
    save = {}
    hook, it.accesshook = it.accesshook, None
    try:
        for p in hdr.phis:
            if p.dst in ind:
                fr.env[p.dst] = shift(ph[p.dst], ind[p.dst] * V(t))
            else:
                fr.env[p.dst] = hatom(it, ('phi', p.dst), ph[p.dst], p.ty, ('trip', fn.name, L.header))
        s2 = st.copy()
        # contents of memory may change inside the loop: only allow loads of unmodified objects later (checked by rounds)
        for i in hdr.instrs:
            it.instr(fr, s2, i)
        c = force(it.val(fr, term.args[0], 'i1'))
        if not isinstance(c, Poly):
            return None
        c = it.asbool(c)
        if not ins[0]:
            c = ONE - c
        return solve_trip(c, t)
    except Unsupported:
        return None
    finally:
        it.accesshook = hook


def header_exit(it, fr, L, st, ph):
    """the exit edge of a pure header test, evaluated for an unbounded iteration number"""
    fn = fr.fn
    hdr = fn.blocks[L.header]
    term = hdr.term
    if term.op != 'cbr' or any(i.op not in PURE for i in hdr.instrs):
        return None
    ins = [x in L.blocks for x in term.args[1:3]]
    if ins[0] == ins[1]:
        return None
    hook, it.accesshook = it.accesshook, None
    uh, it.undefhook = it.undefhook, None
    try:
        s2 = st.copy()
        fr.env.update(ph)
        for i in hdr.instrs:
            it.instr(fr, s2, i)
        c = force(it.val(fr, term.args[0], 'i1'))
        if not isinstance(c, Poly):
            return None
        c = it.asbool(c)
        if ins[0]:
            c = ONE - c
        tg = term.args[2] if ins[0] else term.args[1]
        return ((tg, L.header, s2, it.phivals(fr, tg, L.header)), c)
    finally:
        it.accesshook = hook
        it.undefhook = uh


def solve_trip(stay, t):
    """number of iterations for which the stay condition holds from t=0; returns (Tu, X) or None.
    Tu may be negative (then X=0)."""
    if stay.isconst():
        return (ZERO, ZERO) if stay.const() == 0 else None
    ats = stay.atoms()
    if len(ats) == 2 and len(stay.t) == 1:
        # conjunction of two tests: the smaller count
        x, y = (V(E.A(i)) for i in sorted(ats))
        if stay == x * y:
            a, b = solve_trip(x, t), solve_trip(y, t)
            if a is None or b is None:
                return None
            c = E.lt0(a[0] - b[0])
            T = c * a[0] + (ONE - c) * b[0]
            return T, clip(T)
    if len(ats) != 1:
        return None
    a = E.A(list(ats)[0])
    if a.kind == 'lt0':
        p = a.args[0]
        if stay == V(a):
            pass
        elif stay == ONE - V(a):
            p = -p - 1
        else:
            return None
        s = p.coeff(t.id)
        if s is None:
            return None
        b, a0 = s
        if not b.t or t.id in E.deps(a0) or t.id in E.deps(b):
            return None
        if not X.pn(b - 1):
            return None
        # p = a0 + b*t < 0  <=>  t < -a0/b
        if b == ONE:
            Tu = -a0
        else:
            q = E.exact_div(-a0, b)
            if q is not None:
                Tu = q
            elif b.isconst() and (-a0).isconst():
                Tu = C(-((a0.const()) // b.const()))
            else:
                if not X.pn(-a0):
                    return None
                Tu = E.pdiv(-a0 + b - 1, b)
        return Tu, clip(Tu)
    if a.kind == 'eq0':
        p = a.args[0]
        if stay != ONE - V(a):
            return None
        s = p.coeff(t.id)
        if s is None:
            return None
        b, a0 = s
        if not b.t or t.id in E.deps(a0) or t.id in E.deps(b):
            return None
        q = E.exact_div(-a0, b)
        if q is None or not X.pn(q):
            return None
        return q, q
    return None


def clip(T):
    if T.isconst():
        return T if T.const() > 0 else ZERO
    if X.pn(T):
        return T
    n = E.lt0(T)
    if n.isconst():
        return ZERO if n.const() else T
    return (ONE - n) * T


def hatom(it, loc, init, ty, uid):
    """generic value at the start of an iteration"""
    init = force(init)
    args = (uid[0] if isinstance(uid, tuple) and isinstance(uid[0], str) else str(uid), str(loc), str(uid))
    if isinstance(init, Ptr) or ty == 'ptr':
        if isinstance(init, Ptr) and len(init.alts) == 1 and init.alts[0][1] not in (None, OPAQUE):
            return ptr(init.alts[0][1], V(E.atom('H', args, unk=True, name='H:%s' % (loc[-1],))))
        return Ptr(((ONE, OPAQUE, V(E.atom('H', args, unk=True, name='H:%s' % (loc[-1],)))),))
    if isinstance(init, D) or ty in ('double', 'float'):
        return E.datom('Hd', args, unk=True, name='H:%s' % (loc[-1],))
    b = ty in ('i1', 'i8') or (isinstance(init, Poly) and ty is None and False)
    return V(E.atom('Hb' if b else 'H', args, isbool=b, unk=True, name='H:%s' % (loc[-1],)))


def atom_ids(v):
    v = force(v)
    if isinstance(v, Poly):
        return v.atoms()
    if isinstance(v, Ptr):
        s = set()
        for c, o, f in v.alts:
            s |= f.atoms()
        return s
    if isinstance(v, D):
        return {v.args[0].id} if v.op == 'atom' else set()
    return set()


def run_loop(it, fr, L, st, ph):
    fn = fr.fn
    key = ('L', fr.path, L.header)
    n = occurrence(st, key)
    uid = ('%s@%s#%d' % (fn.short, L.header, n), fr.path, L.header, n)
    t = E.atom('iv', (uid[0], str(hash_path(fr.path))), name='t_%s_%s' % (fn.short, L.header.replace('for.cond', 'f')))
    ind = syntactic_ind(it, fr, L, ph)
    X.BOUNDS.pop(t.id, None)
    if it.unrollfirst and it.unrollfirst(fn, L):
        np_, nr_ = len(it.problems), len(it.recs)
        lim = it.unrollfirst(fn, L)
        try:
            if lim is True:
                r = unroll_decided(it, fr, L, st.copy(), ph, UNROLL)
            else:
                r = unroll(it, fr, L, st.copy(), ph, lim)
        except Unsupported:
            r = None
        if r is not None:
            return r
        del it.recs[nr_:]
        del it.problems[np_:]
    hs = header_trip(it, fr, L, st, ph, ind, t)
    if hs is not None and hs[0].isconst() and hs[0].const() <= UNROLL:
        r = unroll(it, fr, L, st, ph, max(0, hs[0].const()))
        if r is not None:
            return r
    return summarise(it, fr, L, st, ph, uid, t, ind, hs)


def hash_path(p):
    import hashlib
    return hashlib.blake2b(repr(p).encode(), digest_size=6).hexdigest()


def unroll(it, fr, L, st, ph, limit):
    it.stats['loops_unrolled'] += 1
    exits = []
    cur = [(None, st, ph)]
    for k in range(limit + 2):
        conts, ex = it.region(fr, L, L.header, cur)
        exits += ex
        conts = [c for c in conts if c[0].pc.t]
        if not conts:
            break
        s, p = it.merge(conts)
        cur = [(None, s, p)]
    else:
        raise Unsupported('unroll limit in %s %s' % (fr.fn.dname, L.header))
    return mergeexits(it, exits)


def unroll_decided(it, fr, L, st, ph, limit):
    cur = [(None, st, ph)]
    pc0 = st.pc
    for k in range(limit + 2):
        conts, ex = it.region(fr, L, L.header, cur)
        conts = [c for c in conts if c[0].pc.t]
        ex = [e for e in ex if e[2].pc.t]
        if not conts:
            it.stats['loops_unrolled'] += 1
            return mergeexits(it, ex)
        if ex:
            return None
        s, p = it.merge(conts)
        if s.pc != pc0:
            return None
        cur = [(None, s, p)]
    return None


def mergeexits(it, exits):
    by = {}
    order = []
    for tg, pr, s, p in exits:
        if tg not in by:
            by[tg] = []
            order.append((tg, pr))
        by[tg].append((s, p))
    out = []
    for tg, pr in order:
        l = [x for x in by[tg] if x[0].pc.t]
        if not l:
            continue
        s, p = it.merge(l)
        out.append((tg, pr, s, p))
    return out


class Loc:
    __slots__ = ('key', 'init', 'ty', 'kind', 'step', 'start', 'next', 'size', 'fin', 'red', 'hid')

    def __init__(self, key, init, ty, size=None):
        self.key, self.init, self.ty, self.size = key, init, ty, size
        self.kind = 'H'
        self.step = None
        self.start = self.next = None
        self.fin = None
        self.red = None
        self.hid = None


def tyof(v, size):
    v = force(v)
    if isinstance(v, D):
        return 'double'
    if isinstance(v, Ptr):
        return 'ptr'
    return {1: 'i8', 4: 'i32', 8: 'i64'}.get(size, 'i32')


def summarise(it, fr, L, st0, ph0, uid, t, ind, hs):
    fn = fr.fn
    hdr = fn.blocks[L.header]
    depth = len(it.loopstack)
    ck = (fr.path, L.header)
    cache = it.loopcache.get(ck)
    tv = V(t)
    locs = {}
    for p in hdr.phis:
        lc = Loc(('phi', p.dst), ph0[p.dst], p.ty)
        if p.dst in ind:
            lc.kind = 'ind'
            lc.step = ind[p.dst]
        locs[lc.key] = lc
    cells = {}          # (obj, off) -> Loc
    prior = {}          # obj -> entries of the previous round
    chobjs = set()
    if cache:
        for (o, off), (kind, step, ty, size) in cache['cells'].items():
            cur = cell_value(it, st0, o, off, ty, size)
            if cur is None:
                continue
            lc = Loc(('cell', o, off), cur, ty, size)
            lc.kind, lc.step = kind, step
            cells[(o, off)] = lc
        for o in cache['ch']:
            if o in st0.mem or o.kind not in ('alloca', 'heap'):
                chobjs.add(o)
    Tu, Xc = hs if hs else (None, None)
    hdrtrip = hs is not None
    rec = None
    maxr = 9
    for rnd in range(maxr):
        s = st0.copy()
        # generic start state
        for lc in list(locs.values()) + list(cells.values()):
            if lc.kind == 'ind':
                lc.start = shift(lc.init, lc.step * tv)
                if lc.start is None:
                    lc.kind = 'H'
            if lc.kind == 'inv':
                lc.start = lc.init
            elif lc.kind in ('H', 'U'):
                lc.start = hatom(it, lc.key, lc.init, lc.ty, uid)
        phs = {k[1]: l.start for k, l in locs.items()}
        for (o, off), lc in cells.items():
            os_ = s.wos(o)
            if os_.chain is not None:
                continue
            os_.cells[off] = (lc.size, lc.start)
        marks = {}
        for o in chobjs:
            os_ = s.wos(o)
            base = os_.as_chain()
            m = Node(Entry('mark', ZERO, 0, (uid, t, prior.get(o), Tu), ()), base)
            os_.chain = m
            os_.cells = None
            marks[o] = m
        startmem = dict(s.mem)
        start = s
        hx = None
        X.set_bound(t, ZERO, None, depth + 1)
        if Tu is not None:
            hx = header_exit(it, fr, L, s, phs) if hdrtrip else None
            X.set_bound(t, ZERO, Tu - 1 if hx is not None else Tu, depth + 1)
        it.loopstack.append((uid, t, Tu))
        nrec = len(it.recs)
        nprob = len(it.problems)
        try:
            run = s.copy()
            conts, exits = it.region(fr, L, L.header, [(None, run, phs)])
        finally:
            it.loopstack.pop()
        conts = [c for c in conts if c[0].pc.t]
        exits = [e for e in exits if e[2].pc.t]
        if hx is not None:
            exits = [e for e in exits if e[1] != L.header]
        if not conts and not (hx is not None and not exits):
            # at most one iteration: run it directly
            del it.recs[nrec:]
            c2, ex2 = it.region(fr, L, L.header, [(None, st0.copy(), ph0)])
            c2 = [c for c in c2 if c[0].pc.t]
            if c2:
                raise Unsupported('loop shape')
            return mergeexits(it, ex2)
        cs, nph = it.merge(conts)
        changed = False
        for k, lc in locs.items():
            lc.next = nph[k[1]]
        # modified memory
        newprior = {}
        for o, os1 in cs.mem.items():
            os0 = startmem.get(o)
            if os0 is os1:
                continue
            if os0 is None:
                if o.kind in ('alloca', 'heap'):
                    continue
                os0 = OS({}, None, None)
            if os1.chain is None and os0.chain is None:
                keys = set(os1.cells) | set(os0.cells)
                for off in keys:
                    c1, c0 = os1.cells.get(off), os0.cells.get(off)
                    if c1 is c0 or c1 is None:
                        continue
                    lc = cells.get((o, off))
                    if lc is None:
                        if c0 is not None and c0[1] is c1[1]:
                            continue
                        a, b = force(c1[1]), (force(c0[1]) if c0 is not None else None)
                        if b is not None and veq(a, b):
                            continue
                        ty = tyof(a, c1[0])
                        init = c0[1] if c0 is not None else Lazy(lambda o=o, off=off, ty=ty: it.init_value(o, C(off), ty))
                        lc = Loc(('cell', o, off), init, ty, c1[0])
                        cells[(o, off)] = lc
                        changed = True
                    lc.next = c1[1]
            else:
                if o not in chobjs:
                    chobjs.add(o)
                    changed = True
                    # cells of this object become chain content
                    for kk in [kk for kk in cells if kk[0] is o]:
                        del cells[kk]
                    anc = os0.as_chain()
                    newprior[o] = suffix_any(os1.as_chain(), anc)
                else:
                    newprior[o] = suffix_any(os1.as_chain(), marks[o])
        for (o, off), lc in cells.items():
            os1 = cs.mem.get(o)
            if os1 is None or os1.chain is not None:
                continue
            c1 = os1.cells.get(off)
            lc.next = c1[1] if c1 is not None else lc.start
        for o in chobjs:
            a, b = prior.get(o), newprior.get(o, [])
            if o is TRACE:
                prior[o] = []
                continue
            ka = None if a is None else sorted(ekey(e) for e in a)
            kb = sorted(ekey(e) for e in b)
            if ka != kb:
                changed = True
            prior[o] = b
        # trip count
        total = cs.pc
        for e in exits:
            total = total + e[2].pc
        rel = [(e, localise(e[2].pc, total)) for e in exits]
        if hx is not None:
            rel.insert(0, hx)
        hids = {}
        for lc in list(locs.values()) + list(cells.values()):
            if lc.kind in ('H', 'U'):
                for i in atom_ids(lc.start):
                    hids[i] = lc
        trip = find_trip(it, L, rel, localise(cs.pc, total), t, hids)
        nTu = trip[0] if trip else None
        hdrtrip = trip is not None and rel[trip[3] if trip[2] == 'search' else 0][0][1] == L.header
        if nTu != Tu:
            if not (nTu is None and Tu is None):
                changed = True
            Tu = nTu
        # kinds
        for lc in list(locs.values()) + list(cells.values()):
            if lc.kind == 'ind':
                want = shift(lc.init, lc.step * (tv + 1))
                nx = force(lc.next)
                if not veq(want, nx):
                    lc.kind = 'U'
                    changed = True
            elif lc.kind == 'inv':
                if not veq(force(lc.next), force(lc.init)):
                    lc.kind = 'U'
                    changed = True
            elif lc.kind == 'H':
                d = diff(lc.next, lc.start)
                if d is not None and isinstance(d, D) and d is E.D0:
                    lc.kind = 'inv'
                    changed = True
                elif isinstance(d, Poly):
                    if not d.t:
                        lc.kind = 'inv'
                        changed = True
                    elif t.id not in E.deps(d) and not d.unk and not isinstance(force(lc.init), D) \
                            and lc.ty not in ('i1', 'i8') and invariant_poly(d):
                        lc.kind, lc.step = 'ind', d
                        changed = True
        if not changed:
            break
        del it.recs[nrec:]
        del it.problems[nprob:]
    it.loopcache[ck] = {'cells': {k: (l.kind, l.step, l.ty, l.size) for k, l in cells.items()}, 'ch': set(chobjs)}
    # constant trip count found late: unroll instead
    if trip and trip[0].isconst() and trip[2] == 'count' and trip[0].const() <= UNROLL and len(exits) == 1:
        del it.recs[nrec:]
        del it.problems[nprob:]
        r = unroll(it, fr, L, st0, ph0, max(0, trip[0].const()) + 1)
        if r is not None:
            return r
    if trip and trip[2] == 'search' and trip[7].isconst() and 0 <= trip[7].const() <= 12:
        # a search over a known small range: unroll with gated exits
        np_, nr_ = len(it.problems), len(it.recs)
        try:
            r = unroll(it, fr, L, st0.copy(), ph0, trip[7].const() + 1)
            del it.recs[nrec:nr_]
            del it.problems[nprob:np_]
            return r
        except Unsupported:
            del it.recs[nr_:]
            del it.problems[np_:]
    if trip is None or trip[2] == 'search':
        # no closed form: unroll as long as every exit test is decided outright
        np_, nr_ = len(it.problems), len(it.recs)
        r = unroll_decided(it, fr, L, st0.copy(), ph0, UNROLL)
        if r is not None:
            del it.recs[nrec:nr_]
            del it.problems[nprob:np_]
            return r
        del it.recs[nr_:]
        del it.problems[np_:]
    it.stats['loops_summarised'] += 1
    alllocs = list(locs.values()) + list(cells.values())
    for lc in alllocs:
        lc.hid = sorted(atom_ids(lc.start)) if lc.kind in ('H', 'U') else []
    hids = {}
    for lc in alllocs:
        for i in lc.hid:
            hids[i] = lc
    hset = set(hids)
    opaque = trip is None
    if opaque:
        it.stats['loops_opaque'] += 1
        Xc = V(E.atom('iters', (uid[0], str(hash_path(fr.path))), unk=True, name='iters_%s_%s' % (fn.short, L.header)))
        X.set_bound(E.A(list(Xc.atoms())[0]), ZERO, None, 30)
        Tu = Xc
        X.set_bound(t, ZERO, Xc - 1, depth + 1)
    else:
        Tu, Xc = trip[0], trip[1]
    # reductions: next = start + g with g free of generic values
    redmap = {}
    for lc in alllocs:
        if lc.kind not in ('H', 'U'):
            continue
        d = diff(lc.next, lc.start)
        if d is not None and not (E.deps(d) & hset) and not isinstance(force(lc.start), Ptr) \
                and not (isinstance(d, Poly) and lc.ty in ('i1', 'i8')):
            lc.red = ('sum', d)
        else:
            nx = force(lc.next)
            if isinstance(nx, Poly) and lc.ty in ('i1', 'i8') and len(lc.hid) == 1:
                s = nx.coeff(lc.hid[0])
                if s is not None:
                    a, b = s       # nx = a*H + b
                    if not (E.deps(a) & hset) and not (E.deps(b) & hset):
                        if a == ONE - b:
                            lc.red = ('any', b)
                        elif not b.t:
                            lc.red = ('all', a)
            if lc.red is None and not (vdeps(nx) & hset):
                lc.red = ('last', nx)
    # second chance: values that depend on reductions only through their prefix
    pre = {}
    for lc in alllocs:
        if lc.red and lc.hid:
            pv = atT(lc, tv, t)
            if pv is not None and len(lc.hid) == 1:
                pre[lc.hid[0]] = pv
    if pre:
        S0 = E.Subst({k: v for k, v in pre.items()})
        for lc in alllocs:
            if lc.kind in ('H', 'U') and lc.red is None:
                nx = force(lc.next)
                if (vdeps(nx) & hset) and (vdeps(nx) & hset) <= set(pre):
                    lc.red = ('last', sub(S0, nx))
                else:
                    d = diff(lc.next, lc.start)
                    if d is not None and (E.deps(d) & hset) <= set(pre) and not isinstance(force(lc.start), Ptr):
                        lc.red = ('sum', sub(S0, d))
                if lc.red and len(lc.hid) == 1:
                    pv = atT(lc, tv, t)
                    if pv is not None:
                        pre[lc.hid[0]] = pv
                        S0 = E.Subst(dict(pre))
    S_pre = E.Subst(pre) if pre else None

    def fin(lc, xx):
        if lc.kind == 'ind':
            return shift(lc.init, lc.step * xx)
        if lc.kind == 'inv':
            return lc.init
        v = atT(lc, xx, t)
        if v is not None:
            return v
        return unkval(it, uid, lc)
    rec = LoopRec()
    rec.fn, rec.header, rec.path = fn, L.header, fr.path
    rec.iv, rec.Tu, rec.X = t, Tu, Xc
    rec.entry, rec.start, rec.cont = st0, start, cs
    rec.locs = {l.key: l for l in alllocs}
    rec.exits = [(e[0], c, e[2], e[3]) for e, c in rel]
    rec.contcond = localise(cs.pc, total)
    rec.mode = 'opaque' if opaque else trip[2]
    rec.marks = marks
    rec.uid = uid
    rec.line = hdr.instrs[0].line if hdr.instrs else (hdr.term.line if hdr.term else None)
    it.recs.append(rec)
    # ---- assemble the post states
    out = []
    frame_full = ('loop', uid, t, Tu, Xc)
    exitconds = exit_conds(it, rel, trip, uid, t, hset)
    # chain suffixes of a complete iteration
    contsuf = {}
    for o, os1 in cs.mem.items():
        os0 = startmem.get(o)
        if os0 is os1:
            continue
        if os1.chain is None:
            continue
        if o in marks:
            contsuf[o] = (marks[o], suffix_any(os1.chain, marks[o]))
        elif os0 is None:
            contsuf[o] = (ROOT, suffix_any(os1.chain, ROOT))
    newheap = [o for o in cs.mem if o not in startmem and o.kind == 'heap']
    for (tg, pr, es, eph), ec in zip([r[0] for r in rel], exitconds):
        if not ec.t:
            continue
        finmap = {}
        for lc in alllocs:
            if len(lc.hid) == 1 and lc.kind in ('H', 'U'):
                f = fin(lc, Xc)
                if f is not None:
                    h = lc.hid[0]
                    f2 = f
                    if isinstance(force(lc.start), Ptr):
                        ff = force(f)
                        if isinstance(ff, Ptr) and len(ff.alts) == 1:
                            f2 = ff.alts[0][2]
                        else:
                            continue
                    finmap[h] = f2
        finmap = {k: force(v) for k, v in finmap.items()}
        finmap[t.id] = Xc
        S = E.Subst(finmap)
        ns = st0.copy()
        ns.pc = st0.pc * ec if not (len(rel) == 1) else st0.pc
        ns.occ = dict(st0.occ)
        latch_exit = True
        objs = set(contsuf) | set(o for o in es.mem if startmem.get(o) is not es.mem[o])
        for o in sorted(objs, key=lambda o: o.name):
            ose = es.mem.get(o)
            if o.kind == 'alloca' and o not in startmem:
                continue
            if o in contsuf or (ose is not None and ose.chain is not None):
                anc = marks.get(o, ROOT)
                if o not in marks and o in startmem:
                    # written only on the exit path
                    anc = startmem[o].as_chain()
                base = st0.mem[o].as_chain() if o in st0.mem else ROOT
                csuf = contsuf.get(o, (None, []))[1]
                esuf = suffix_any(ose.as_chain(), anc) if ose is not None else []
                node = base
                same = bool(csuf) and len(csuf) == len(esuf) and all(a is b for a, b in zip(csuf, esuf))
                fr_ = ('loop', uid, t, Tu + 1, Xc + 1) if same else frame_full
                if not (opaque and o is not TRACE):
                    for e in csuf:
                        node = Node(wrap(e, fr_, S_pre, hset), node)
                else:
                    # unknown number of iterations: contents unknown where written
                    for e in csuf:
                        node = Node(wrap(e, fr_, S_pre, hset), node)
                if not same:
                    for e in esuf:
                        node = Node(sube(S, e), node)
                w = ns.wos(o)
                w.chain = node
                w.cells = None
            elif ose is not None:
                w = ns.wos(o)
                os0 = startmem.get(o)
                c0 = os0.cells if os0 is not None and os0.cells is not None else {}
                for off, (sz, v) in ose.cells.items():
                    if c0.get(off) is ose.cells[off]:
                        continue
                    w.cells[off] = (sz, lsub(S, v))
        for (o, off), lc in cells.items():
            ose = es.mem.get(o)
            if ose is None or ose.chain is not None:
                continue
            w = ns.wos(o)
            if w.chain is not None:
                continue
            cur = ose.cells.get(off)
            if cur is None or cur[1] is lc.start:
                w.cells[off] = (lc.size, Lazy(lambda lc=lc: force(fin(lc, Xc))))
            else:
                w.cells[off] = (cur[0], lsub(S, cur[1]))
        nph = {k: sub(S, force(v)) for k, v in eph.items()}
        out.append((tg, pr, ns, nph))
    return out


def suffix_any(node, anc):
    r = suffix(node, anc)
    if r is None:
        # ancestor lost in a join that rebuilt the chain: take everything above the common part
        c = common(node, anc)
        r = suffix(node, c)
    return r


def wrap(e, fr, S, hset):
    v = e.val
    off = e.off
    frames = e.frames
    if S is not None:
        dd = set(E.deps(off))
        for f in frames:
            if f[0] == 'if':
                dd |= E.deps(f[1])
            else:
                dd |= E.deps(f[3])
        if dd & hset:
            off = S.poly(off)
            frames = tuple(('if', S.poly(f[1])) if f[0] == 'if' else ('loop', f[1], f[2], S.poly(f[3]), S.poly(f[4])) for f in frames)
        if isinstance(v, (Poly, D, Ptr)):
            if vdeps(v) & hset:
                v = Lazy(lambda v=v: sub(S, v))
        elif isinstance(v, Lazy):
            v = Lazy(lambda v=v: sub(S, force(v)))
        elif isinstance(v, Event):
            v = v.subst(S)
    r = Entry(e.kind, off, e.size, v, (fr,) + frames, e.line, e.fn)
    return r


def sube(S, e):
    v = e.val
    if isinstance(v, tuple):
        v = tuple(sub(S, x) for x in v)
    else:
        v = lsub(S, v) if not isinstance(v, Event) else v.subst(S)
    frames = tuple(('if', S.poly(f[1])) if f[0] == 'if' else ('loop', f[1], f[2], S.poly(f[3]), S.poly(f[4])) for f in e.frames)
    return Entry(e.kind, S.poly(e.off), e.size, v, frames, e.line, e.fn)


def lsub(S, v):
    return Lazy(lambda: sub(S, force(v)))


def invariant_poly(d):
    return not any(E.A(i).kind in ('ld', 'H', 'Hb', 'Hd') for i in E.deps(d))


def veq(a, b):
    a, b = force(a), force(b)
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a == b
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a == b
    return False


def ekey(e):
    return (e.kind == 'h', e.size, hash(e.off), tuple((f[0], hash(f[2].id) if f[0] == 'loop' else 0, hash(f[3]) if f[0] == 'loop' else 0) for f in e.frames if f[0] == 'loop'))


def cell_value(it, st, o, off, ty, size):
    os_ = st.mem.get(o)
    if os_ is None:
        if o.kind in ('alloca', 'heap'):
            return None
        return Lazy(lambda: it.init_value(o, C(off), ty))
    if os_.chain is not None:
        return None
    c = os_.cells.get(off)
    if c is None:
        return Lazy(lambda: it.init_value(o, C(off), ty))
    if c[0] != size:
        return None
    return c[1]


def find_trip(it, L, rel, contc, t, hids):
    """-> (Tu, X, mode[, g]) or None"""
    hset = set(hids)
    if not rel:
        return None
    if len(rel) == 1:
        c = rel[0][1]
        r = solve_trip(ONE - c, t)
        if r is not None and not (E.deps(r[0]) & hset) and not r[0].unk:
            return r[0], r[1], 'count'
    # several exits: the counted header exit plus breaks
    for k, (e, c) in enumerate(rel):
        if e[1] != L.header and len(rel) > 1 and k == 0:
            pass
        r = solve_trip(ONE - c, t)
        if r is None or (E.deps(r[0]) & hset) or r[0].unk:
            continue
        others = ZERO
        for j, (e2, c2) in enumerate(rel):
            if j != k:
                others = others + localise(c2, ONE - c)
        if len(rel) > 1 and ((E.deps(others) & hset) or others.unk):
            continue
        if len(rel) == 1:
            return r[0], r[1], 'count'
        Tu, Xc = r
        found = E.anyof(Xc, t, others)
        F = first(Xc, t, others)
        return (found * F + (ONE - found) * Tu, found * F + (ONE - found) * Xc, 'search', k, found, F, others, Xc)
    return None


def first(T, iv, cond):
    if cond.isconst():
        return ZERO
    ta = E.tau(T, E.deps(cond))
    c2 = E.subst(cond, {iv.id: V(ta)})
    a = E.atom('first', (T, V(ta), c2))
    return V(a)


def exit_conds(it, rel, trip, uid, t, hset):
    if len(rel) == 1:
        return [ONE]
    if trip is not None and trip[2] == 'search':
        k, found, F, others, Xc = trip[3:8]
        S = E.Subst({t.id: F})
        out = []
        cc = rel[k][1]
        for j, (e, c) in enumerate(rel):
            if j == k:
                out.append(ONE - found)
            else:
                if len(rel) == 2:
                    out.append(found)
                else:
                    out.append(found * S.poly(localise(c, ONE - cc)))
        return out
    out = []
    rest = ONE
    for j, (e, c) in enumerate(rel):
        if j == len(rel) - 1:
            out.append(rest)
        else:
            b = V(E.atom('exitsel', (uid[0], j, str(hash_path(uid[1]))), isbool=True, unk=True))
            out.append(rest * b)
            rest = rest * (ONE - b)
    return out


def atT(lc, xx, t):
    """value of a classified location at the start of iteration xx (Poly)"""
    if lc.kind == 'ind':
        return shift(lc.init, lc.step * xx)
    if lc.kind == 'inv':
        return lc.init
    r = lc.red
    if r is None:
        return None
    k, g = r
    init = force(lc.init)
    # a fresh bound variable for the prefix
    b = E.atom('pfx', (t.name, t.id))
    hi = xx
    X.set_bound(b, ZERO, hi - 1, 45)
    if k == 'sum':
        gg = E.subst(g, {t.id: V(b)})
        if isinstance(g, D):
            if isinstance(init, Poly):
                init = E.i2d(init)
            return E.add(init, E.dsum(hi, b, gg))
        return init + E.psum(hi, b, gg)
    if k == 'any':
        gg = E.subst(g, {t.id: V(b)})
        a = E.anyof(hi, b, gg)
        return init + (ONE - init) * a
    if k == 'all':
        gg = E.subst(g, {t.id: V(b)})
        a = E.anyof(hi, b, ONE - gg)
        return init * (ONE - a)
    if k == 'last':
        def f():
            v = sub(E.Subst({t.id: xx - 1}), g)
            z = E.eq0(xx)
            if z.isconst():
                return lc.init if z.const() else v
            return vite(z, init, v)
        return force(f())
    return None


def unkval(it, uid, lc):
    v = force(lc.init)
    args = (uid[0], str(lc.key), str(hash_path(uid[1])))
    if isinstance(v, Ptr):
        return Ptr(((ONE, OPAQUE, V(E.atom('lvp', args, unk=True))),))
    if isinstance(v, D) or lc.ty == 'double':
        return E.datom('lv', args, unk=True)
    return V(E.atom('lv', args, isbool=lc.ty in ('i1', 'i8'), unk=True))
