"""C24 (an instance answers from its own data only) and C25 (arguments are copied, never changed or kept)."""
import os
import expr as E
import effects
import globs
import interp as I
import libmodel
import model as M
import numval
import query as Q
from expr import C
from interp import ptr, force, Ptr
from model import AnchorError
from harness import check, parallel, REPO
from checks_grid import ENV, defsets, trace
from checks_flow import Flow, w_of
from checks_elem import nvoi
import checks_safe as S


class Fold:
    """collects the verdicts of the data-flow runs under another wording"""

    def __init__(self, R, why):
        self.R, self.why = R, why

    def __getattr__(self, n):
        return getattr(self.R, n)

    def bad(self, rule, where, what, want=None, got=None, case=''):
        self.R.bad(rule, where, what.replace('is indeterminate', 'depends on ' + self.why), 'a function of the instance and the arguments', got, case)


@check('C24', 'effect analysis over the call graph: every static or global object the library functions touch is classified by who writes it '
       'and what is written; calls whose result is not a function of their arguments (random numbers, clocks, environment) are listed; '
       'when there is one, every function is interpreted with those values indeterminate and no result may depend on them',
       'interprocedural effect analysis of static storage and library calls + information-flow data-flow', ENV, sizes=None)
def c24(R, tier):
    R.rule('no-shared-state', 'static storage reached by library functions is never written after start-up, or always with the same value')
    R.rule('no-hidden-input', 'no library function calls a source of outside values')
    R.rule('own-data', 'no result depends on shared state or an outside value')
    for defs in defsets(tier):
        src = M.Source.get(REPO, defs)
        G = globs.Globs(src.mod)
        src.mod._globs = G
        fns = globs.library(src.mod, REPO)
        if not [f for f in fns if f.short == 'homogenize']:
            raise AnchorError('no library functions found')
        names = {f.name for f in fns}
        why = []
        for f in fns:
            R.analysed[f.short] = R.analysed.get(f.short, 0) + 1
            mine = sorted(n for n, acc in G.acc.items() if any(g.name == f.name for k, g, i in acc))
            for n in mine:
                c, w = G.classify(n)
                if c in ('const', 'init', 'once', 'ext') or n.startswith('_ZGV'):
                    R.ok('no-shared-state')
                elif all(k == 'w' for k, g, i in G.acc[n]):
                    R.ok('no-shared-state')
                else:
                    why.append('static object %s' % demangled(n))
            for b, i in G.instrs(f):
                if i.op == 'call':
                    n = globs.callee(i)
                    if n is None:
                        continue
                    dn = libmodel_name(src.mod, n)
                    if libmodel.hidden(n, dn):
                        why.append('%s at %s' % (dn.split('(')[0], globs.where(f, i)))
                    else:
                        R.ok('no-hidden-input')
            R.ok('no-shared-state')
        if not why:
            R.note('%d functions: no writable static storage, no outside input' % len(fns))
            continue
        why = sorted(set(why))
        R.note('candidates: ' + '; '.join(why))
        I.TAINT = True
        numval.TAINTED.append(1)
        try:
            parallel(R, S.runs(tier), lambda R, c: taint(Fold(R, ' or '.join(why)), src, c))
        finally:
            I.TAINT = False
            numval.TAINTED.pop()
        open_ = [w for w in why if w.startswith('static') and G.constant(mangled(G, w))] if not R.nviol else []
        for w in open_:
            R.undecided('no-shared-state', w, 'filled lazily with values that never vary')


def taint(R, src, c):
    keep = S.Watch.undef

    def quiet(self, it, st, kind, v, line):
        pass
    S.Watch.undef = quiet
    try:
        S.execute(R, src, c[0], c[1], c[2], 'undef', 'own-data')
    finally:
        S.Watch.undef = keep


def demangled(n):
    import subprocess
    try:
        return subprocess.run(['c++filt', n], capture_output=True, text=True).stdout.strip() or n
    except Exception:
        return n


def mangled(G, w):
    for n in G.acc:
        if 'static object %s' % demangled(n) == w:
            return n
    return ''


def libmodel_name(mod, n):
    f = mod.funcs.get(n)
    if f is not None:
        return f.dname
    dn = getattr(mod, 'dnames', {}).get(n)
    return dn or demangled(n) if n.startswith('_Z') else n


# ------------------------------------------------------------------ C25
def ptr_cells(st):
    """(object, offset, pointer) for every pointer in memory that outlives the call"""
    for o, os_ in st.mem.items():
        if o.kind == 'alloca' or o is I.TRACE:
            continue
        for k, (sz, v) in (os_.cells or {}).items():
            if sz == 8:
                v = force(v)
                if isinstance(v, Ptr):
                    yield o, k, v
        n = os_.chain
        while n is not None and n.e is not None:
            if n.e.kind == 'w':
                v = force(n.e.val)
                if isinstance(v, Ptr):
                    yield o, n.e.off, v
            n = n.p


def kept(R, src, f, case, before, after, args):
    it = None
    for o in args:
        b, a = before.mem.get(o), after.mem.get(o)
        bc = dict(b.cells or {}) if b is not None else {}
        ac = dict(a.cells or {}) if a is not None else {}
        if a is not None and a.chain is not (b.chain if b is not None else None):
            n = a.chain
            w = None
            while n is not None and n.e is not None and (b is None or n is not b.chain):
                if n.e.kind == 'w' and not bc:
                    v, old = force(n.e.val), _it[0].init_value(o, n.e.off, {8: 'double', 4: 'i32', 1: 'i8'}.get(n.e.size, 'i8'))
                    if not isinstance(v, Ptr) and numval.separated(v, old, strict=True):
                        w = n.e
                n = n.p
            if w is not None:
                R.bad('unchanged', S.short_loc(w.line), 'argument %s is changed' % o.name, 'input data left alone', str(w.val)[:120], case)
            else:
                R.undecided('unchanged', w_of(src, f), 'argument %s is written by a loop (%s)' % (o.name, case))
            continue
        ch = [k for k in ac if k not in bc or not same(ac[k][1], bc[k][1])]
        ch = [k for k in ch if k in bc or not same(ac[k][1], None)]
        ch = [k for k in ch if not unchanged(o, k, ac[k])]
        if ch:
            R.bad('unchanged', w_of(src, f, after, o, ch[0]), 'argument %s is changed' % o.name, 'input data left alone', str(ac[ch[0]][1])[:120], case)
        else:
            R.ok('unchanged')
    hits = {}
    for o, k, p in ptr_cells(after):
        if o in args:
            continue
        for c, t, off in p.alts:
            if t in args:
                hits.setdefault(t, (o, k))
    for o in args:
        if o in hits:
            h, k = hits[o]
            if h.key == ('this',) and isinstance(k, int) and not read_later(src, k):
                R.undecided('not-kept', w_of(src, f, after, h, k), 'a pointer to argument %s is kept but not read' % o.name)
                continue
            R.bad('not-kept', w_of(src, f, after, h, k if isinstance(k, int) else 0), 'a pointer to argument %s is kept in %s' % (o.name, h.name),
                  'a copy', None, case)
        else:
            R.ok('not-kept')


def read_later(src, k):
    """some library function other than the constructor loads the member at byte k"""
    ef = effects.Effects(src)
    for f in globs.library(src.mod, src.repo):
        if f.short == 'micropp_t':
            continue
        addr = set()
        for b in f.order:
            for i in f.blocks[b].instrs:
                if i.op == 'gep' and isinstance(i.extra, tuple) and i.extra[0] == 'named' and i.extra[1].endswith('micropp_t'):
                    if ef.goff(i) == k:
                        addr.add(('r', i.dst))
                elif i.op == 'load' and i.args[0] in addr:
                    return True
    return False


_it = [None]


def unchanged(o, k, cell):
    sz, v = cell
    ty = {8: 'double', 4: 'i32', 1: 'i8'}.get(sz)
    if ty is None or _it[0] is None:
        return False
    return same(v, _it[0].init_value(o, C(k), ty))


def same(a, b):
    if a is None or b is None:
        return a is b
    try:
        return force(a) == force(b)
    except Exception:
        return False


@check('C25', 'abstract interpretation of the constructor, of the calls that take data and of the Fortran entry points; afterwards the '
       'argument arrays are compared with their contents before the call and memory that outlives the call is searched for pointers to them',
       'abstract interpretation with escape analysis of the arguments', ENV, sizes=None)
def c25(R, tier):
    R.rule('unchanged', 'input arrays hold the same values after the call')
    R.rule('not-kept', 'nothing that outlives the call points into a caller\'s array')
    for defs in defsets(tier):
        src = M.Source.get(REPO, defs)
        items = [('ctor', d, mt) for d in (2, 3) for mt in (0, 1)]
        items += [(w, d, 0) for d in (2, 3) for w in ('set_macro_strain', 'get_macro_stress', 'get_macro_ctan', 'get_nl_flag')]
        parallel(R, items, lambda R, c: c25_one(R, src, *c))


def c25_one(R, src, what, dim, mt):
    nv = nvoi(dim)
    case = '%s %dD' % (what, dim)
    if what == 'ctor':
        m = M.Inst(src, dim, mt, ctor=False)
        it = m.it
        _it[0] = it
        f = src.fn('micropp_t')
        before = {}
        run = it.call

        def spy(fn, args, st, path):
            if fn is f and 'st' not in before:
                before['st'] = st.copy()
            return run(fn, args, st, path)
        it.call = spy
        m.construct()
        it.call = run
        R.fn(m)
        args = [it.objs[(n,)] for n in ('size', 'micro_params', 'mat_types', 'params')]
        kept(R, src, f, 'constructor %dD, microstructure %d' % (dim, mt), before['st'], m.ctor_st, args)
        return
    F = Flow(src, dim, 2)
    it, m = F.it, F.m
    _it[0] = it
    f = src.fn(what)
    n = {'set_macro_strain': nv * 8, 'get_macro_stress': nv * 8, 'get_macro_ctan': nv * nv * 8, 'get_nl_flag': 4}[what]
    a = it.obj(('arg',), C(n), 'sym', 'arg', 'strain' if what[0] == 's' else 'result')
    st = F.st.copy()
    before = st.copy()
    rv, s2 = S.call(m, f, [ptr(m.this), E.sym('gp_id'), ptr(a)], st)
    R.fn(m)
    if what == 'set_macro_strain':
        kept(R, src, f, case, before, s2, [a])
    else:
        hits = [(o, k) for o, k, p in ptr_cells(s2) if o is not a and any(t is a for c, t, off in p.alts)]
        if hits:
            R.bad('not-kept', w_of(src, f), 'a pointer to the result array is kept in %s' % hits[0][0].name, 'a copy', None, case)
        else:
            R.ok('not-kept')
