"""C16 (every resource released exactly once) and C20 (the Fortran interface forwards to the last constructed instance)."""
import os, subprocess, tempfile
import expr as E
import ctx as X
import interp as I
import ir
import model as M
import query as Q
from expr import Poly, C, ZERO, ONE, V, D, D0, D1
from interp import ptr, force, Ptr
from model import NX, NY, NZ, AnchorError
from harness import check, parallel, REPO
from checks_grid import ENV, defsets, trace
from checks_flow import w_of
import checks_safe as S
from checks_elem import nvoi

METHODS = ('set_macro_strain', 'get_macro_stress', 'get_macro_ctan', 'get_nl_flag', 'homogenize', 'update_vars', 'output', 'write_info_files')


class Wrap:
    """the interface functions with the class replaced by contracts that record what reaches which instance"""

    def __init__(self, src, dim):
        self.src, self.dim = src, dim
        m = self.m = M.Inst(src, dim, 0, ctor=False)
        it = self.it = m.it
        st = self.st = m.st
        self.nv = nvoi(dim)
        gs = [n for n, g in src.mod.globals.items() if g[0] == 'ptr' and not g[2] and g[1] is not None and not n.startswith(('_ZSt', '__'))]
        self.g = []
        self.none = V(E.atom('noinst', (), isbool=True, name='no instance yet'))
        self.prev = it.obj(('instance',), C(4096), 'sym', 'heap', 'new@previous instance')
        used = set()
        for f in src.mod.funcs.values():
            if f.name.startswith('micropp_') and f.file and f.file.startswith(src.repo):
                used |= globals_of(f)
        for n in gs:
            if n in used:
                o = it.global_obj(n)
                self.g.append(o)
        if len(self.g) != 1:
            raise AnchorError('the interface does not keep its instance in one pointer')
        self.g = self.g[0]
        for n in METHODS:
            it.opaque[n] = self.method
        it.opaque['micropp_t'] = self.ctor
        it.opaque['~micropp_t'] = self.dtor
        it.opaque['gp_t'] = None
        it.opaque.pop('gp_t')
        self.own = None

    def hold(self, st, p):
        st.wos(self.g).cells = {0: (8, p)}

    def instance(self, args):
        p = I.asptr(force(args[0]))
        return p

    def ints(self, it, st, p, n):
        return [force(it.load(st, p.plus(C(4 * i)), 'i32')) for i in range(n)]

    def dbls(self, it, st, p, n):
        return [force(it.load(st, p.plus(C(8 * i)), 'double')) for i in range(n)]

    def ctor(self, it, st, fn, args, path, line):
        a = [force(x) for x in args]
        if len(a) != 7:
            raise AnchorError('unexpected signature of the constructor')
        v = [a[1]] + self.ints(it, st, a[2], self.dim) + [a[3]] + self.dbls(it, st, a[4], 5) + self.ints(it, st, a[5], 2)
        v += [x for m in range(2) for x in self.dbls(it, st, a[6].plus(C(80 * m)), 4)]
        self.mark(it, st, a[0], 2)
        st.event(I.Event('wcall', 'micropp_t', (a[0], tuple(v)), None, path, line, it.cur), line)

    def dtor(self, it, st, fn, args, path, line):
        self.mark(it, st, args[0], 3)

    def mark(self, it, st, p, k):
        if self.own:
            for c, o, off in I.asptr(force(p)).alts:
                if o is not None and o is not I.OPAQUE:
                    self.own.put(it, st, o, k, self.own.count(it, st, o, k) + c)

    def method(self, it, st, fn, args, path, line):
        n = fn.short
        a = [force(x) for x in args]
        this, rest = a[0], a[1:]
        rec = []
        outs = {'get_macro_stress': (self.nv, 'double'), 'get_macro_ctan': (self.nv ** 2, 'double'), 'get_nl_flag': (1, 'i32')}
        for x in rest:
            if isinstance(x, Poly):
                rec.append(x)
            elif n == 'set_macro_strain':
                rec += self.dbls(it, st, I.asptr(x), self.nv)
        st.event(I.Event('wcall', n, (this, tuple(rec)), None, path, line, it.cur), line)
        if n in outs:
            k, t = outs[n]
            p = I.asptr(rest[-1])
            for i in range(k):
                v = E.datom('result', (n, i) + tuple(rec)) if t == 'double' else V(E.atom('result', (n, i) + tuple(rec)))
                it.store(st, p.plus(C((8 if t == 'double' else 4) * i)), v, t, line)
        return None


def globals_of(f):
    out = set()

    def walk(x):
        if isinstance(x, (tuple, list)):
            if len(x) == 2 and x[0] in ('g', 'glob', 'global') and isinstance(x[1], str):
                out.add(x[1])
            for y in x:
                walk(y)
    for b in f.blocks.values():
        for i in b.instrs:
            walk(i.args)
            walk(i.extra)
    return out


# ------------------------------------------------------------------ C20
# interface function -> (member, arguments in member order); arguments: index of the interface parameter and how it is used
FWD = {
    'micropp_set_macro_strain_': ('set_macro_strain', (('int', 0), ('strain', 1)), None),
    'micropp_get_macro_stress_': ('get_macro_stress', (('int', 0),), (1, 'stress')),
    'micropp_get_macro_ctan_': ('get_macro_ctan', (('int', 0),), (1, 'ctan')),
    'micropp_get_non_linear_flag_': ('get_nl_flag', (('int', 0),), (1, 'flag')),
    'micropp_homogenize_': ('homogenize', (), None),
    'micropp_update_internal_variables_': ('update_vars', (), None),
    'micropp_output_': ('output', (('int', 0), ('int', 1)), None),
    'micropp_write_convergence_file_': ('write_info_files', (), None),
}


@check('C20', 'abstract interpretation of the extern "C" functions with the class replaced by contracts; the single call that reaches the '
       'instance, its dereferenced arguments and the memory of the caller afterwards are compared with the direct call',
       'abstract interpretation (call and data-flow contracts)', ENV + ['one thread uses the interface'], sizes=None)
def c20(R, tier):
    R.rule('forward', 'exactly one call of the corresponding member, on the instance constructed last')
    R.rule('arguments', 'the member receives the values the caller passed, each in its place')
    R.rule('results', 'the output arguments of the caller hold exactly what the member stored')
    R.rule('instance', 'construct leaves a new instance, built from the arguments of the call, as the one used from then on')
    for defs in defsets(tier):
        src = M.Source.get(REPO, defs)
        for dim in (2, 3):
            for n in FWD:
                c20_fwd(R, src, dim, n)
            c20_ctor(R, src, dim)


def c20_fwd(R, src, dim, name):
    f = src.fn(name)
    W = Wrap(src, dim)
    it = W.it
    member, spec, out = FWD[name]
    st = W.st.copy()
    W.hold(st, ptr(W.prev))
    args, want = [], []
    bufs = {}
    for i in range(len(f.params)):
        size = 288
        o = it.obj(('warg', i), C(size), 'sym', 'arg', f.params[i][1])
        bufs[i] = o
        args.append(ptr(o))
    for k, i in spec:
        if k == 'int':
            want.append(it.init_value(bufs[i], ZERO, 'i32'))
        else:
            want += [it.init_value(bufs[i], C(8 * v), 'double') for v in range(W.nv)]
    r = it.call(f, args, st, ('w',))
    if r is I.NORETURN:
        raise AnchorError('%s does not return' % name)
    s2 = r[1]
    R.fn(W.m)
    w = w_of(src, f)
    ev = [e for e in trace(s2) if e.val.kind == 'wcall']
    case = '%s, %dD instance' % (name, dim)
    if len(ev) != 1 or ev[0].val.name != member or ev[0].frames:
        if any(e.frames for e in ev):
            R.undecided('forward', w() if callable(w) else w, 'conditional calls: %s' % [e.val.name for e in ev])
        else:
            R.bad('forward', w() if callable(w) else w, 'calls %s instead of %s' % ([e.val.name for e in ev], member), member, [e.val.name for e in ev], case)
        return
    this, rec = ev[0].val.args
    R.eq('forward', w, force(this), ptr(W.prev), None, case, 'the call does not reach the current instance')
    p = I.asptr(force(W.it.load(s2, ptr(W.g), 'ptr')))
    R.eq('forward', w, p, ptr(W.prev), None, case, 'the current instance is replaced')
    if len(rec) != len(want):
        R.undecided('arguments', w() if callable(w) else w, 'argument list of %s not understood' % member)
    else:
        for i, (x, y) in enumerate(zip(rec, want)):
            R.eq('arguments', w, x, y, None, '%s argument value %d' % (case, i), 'value %d handed to %s is not that of the caller' % (i, member))
    if out:
        i, kind = out
        n = {'stress': W.nv, 'ctan': W.nv ** 2, 'flag': 1}[kind]
        t = 'i32' if kind == 'flag' else 'double'
        for k in range(n):
            a = (member, k) + tuple(want)
            v = E.datom('result', a) if t == 'double' else V(E.atom('result', a))
            R.eq('results', w, W.m.ld(s2, bufs[i], (8 if t == 'double' else 4) * k, t), v, None, '%s entry %d' % (case, k),
                 'entry %d of the result is not what %s stored' % (k, member))
        if n * (8 if t == 'double' else 4) < 288:
            k = C(n * (8 if t == 'double' else 4))
            R.eq('results', w, W.m.ld(s2, bufs[i], k, t), it.init_value(bufs[i], k, t), None, case, 'memory of the caller behind the result changes')
    R.sample('%s -> %s with %d values' % (name, member, len(rec)))


def run_construct(src, dim, own=False):
    f = src.fn('micropp_construct_')
    W = Wrap(src, dim)
    it = W.it
    st = W.st.copy()
    W.hold(st, Ptr(((W.none, None, ZERO), (ONE - W.none, W.prev, ZERO))))
    bufs = {}
    for i, (t, n, _) in enumerate(f.params):
        bufs[n] = it.obj(('warg', i), C(256), 'sym', 'arg', n)
    for n in ('dim', 'size', 'micro_type', 'micro_params', 'mat_types', 'params'):
        if n not in bufs and len(f.params) != 6:
            raise AnchorError('unexpected signature of micropp_construct_')
    o = [bufs[p[1]] for p in f.params]
    st.wos(o[0]).cells = {0: (4, C(dim))}
    if own:
        W.w = S.Watch(W.m, own, 'released-once', 'own')
        W.own = W.w.own
        for q in (W.prev,):
            W.own.cell(q, 0)
    r = it.call(f, [ptr(x) for x in o], st, ('w',))
    if r is I.NORETURN:
        raise AnchorError('micropp_construct_ does not return')
    return f, W, o, r[1]


def c20_ctor(R, src, dim):
    f, W, o, s2 = run_construct(src, dim)
    it = W.it
    R.fn(W.m)
    w = w_of(src, f)
    case = 'construct, %dD' % dim
    ev = [e for e in trace(s2) if e.val.kind == 'wcall']
    p = I.asptr(force(it.load(s2, ptr(W.g), 'ptr')))
    if len(ev) != 1 or ev[0].frames:
        old = [c for c, ob, off in p.alts if ob is W.prev or ob is None]
        if any(S.feasible(c) for c in old):
            R.bad('instance', w() if callable(w) else w, 'an older instance (or none) stays in use after construct', None, str(p)[:200], case)
            return
        R.undecided('instance', w() if callable(w) else w, 'not exactly one unconditional construction')
        if not ev:
            R.bad('instance', w() if callable(w) else w, 'no instance is constructed', None, None, case)
        return
    this, rec = ev[0].val.args
    want = [C(dim)] + [it.init_value(o[1], C(4 * i), 'i32') for i in range(dim)] + [it.init_value(o[2], ZERO, 'i32')]
    want += [it.init_value(o[3], C(8 * i), 'double') for i in range(5)] + [it.init_value(o[4], C(4 * i), 'i32') for i in range(2)]
    want += [it.init_value(o[5], C(80 * m + 8 * i), 'double') for m in range(2) for i in range(4)]
    for i, (x, y) in enumerate(zip(rec, want)):
        R.eq('arguments', w, x, y, None, '%s value %d' % (case, i), 'the instance is not built from the arguments of the call')
    t = I.asptr(force(this))
    R.eq('instance', w, p, t, None, case, 'the instance used afterwards is not the constructed one')
    if any(a[1] is W.prev or a[1] is None for a in p.alts):
        R.bad('instance', w() if callable(w) else w, 'an older instance stays in use after construct', None, str(p), case)
    else:
        R.ok('instance')


# ------------------------------------------------------------------ C16
@check('C16', 'abstract interpretation with ownership counts in ghost cells: every heap block a function allocates is released once, with '
       'the matching function, or kept exactly once by the instance; the destructor releases everything the instance holds once; no '
       'block is accessed after its release; compile-fail witnesses show that no shallow copy of an instance can be written',
       'ownership analysis (abstract interpretation) and compile-fail witnesses', ENV + ['allocation succeeds', 'no exception is thrown',
       'std::list and std::ofstream release what they own'], sizes=('3,3,3',))
def c16(R, tier):
    R.rule('released-once', 'allocated + held before = released + held afterwards, for every heap block and path; no use after release')
    R.rule('new-point', 'a new Gauss point holds no history')
    R.rule('no-shallow-copy', 'an instance that owns raw buffers cannot be copied or moved member by member')
    R.rule('reconstruct', 'construct destroys the previous instance exactly once and constructs the new one once')
    for defs in defsets(tier):
        src = M.Source.get(REPO, defs)
        c = [r for r in S.runs(tier) if r[0] != 'ctor' or r[2] in ((0, 1), (1, 1))]
        parallel(R, c + [('wrapper', 2, None), ('copy', 2, None), ('newpoint', 2, None), ('newpoint', 3, None)], lambda R, c: c16_one(R, src, c))
    src = M.Source.get(REPO, defsets(tier)[0])
    done = set(R.analysed)
    for f in src.mod.funcs.values():
        if f.file and f.file.startswith(src.repo) and allocates(f) and f.name not in done:
            R.undecided('released-once', '%s (%s)' % (src.loc(f), f.short), 'function allocates or releases and is not reached by the runs')


def allocates(f):
    return any(i.op == 'call' and i.extra and i.extra[0] in ('malloc', 'calloc', 'realloc', 'free', '_Znwm', '_Znam', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm')
               for b in f.blocks.values() for i in b.instrs)


def c16_one(R, src, c):
    what, dim, arg = c
    if what == 'wrapper':
        return c16_wrapper(R, src, dim)
    if what == 'copy':
        return c16_copy(R, src)
    if what == 'newpoint':
        return c16_new(R, src, dim)
    S.execute(R, src, what, dim, arg, 'own', 'released-once')


def c16_new(R, src, dim):
    F = S.Flow(src, dim, 2)
    m, it = F.m, F.it
    f = src.fn('set_macro_strain')
    o = it.obj(('arg',), C(48), 'sym', 'arg', 'strain')
    rv, s2 = S.call(m, f, [ptr(m.this), E.sym('gp_id'), ptr(o)], F.st.copy())
    R.fn(m)
    n = force(it.load(s2, ptr(m.this, C(m.off('gauss_list') + 16)), 'i64')) - 2
    w = w_of(src, f)
    for fl in ('int_vars_n', 'int_vars_k'):
        p = I.asptr(F.ld(s2, 2, fl, 0, 'ptr'))
        if p is None:
            R.undecided('new-point', w() if callable(w) else w, '%s of a new point is not resolved' % fl)
            continue
        bad = [(c, ob) for c, ob, off in p.alts if ob is not None and (c * n).t]
        if any(ob is I.OPAQUE for c, ob in bad):
            R.undecided('new-point', w() if callable(w) else w, '%s of a new point is not resolved' % fl)
        elif not bad:
            R.ok('new-point')
        elif any(S.feasible(c * n, False) for c, ob in bad):
            R.bad('new-point', w() if callable(w) else w, '%s of a new point is not null' % fl, 'null', str(p)[:200], '%dD' % dim)
        else:
            R.undecided('new-point', w() if callable(w) else w, '%s of a new point: %s' % (fl, str(p)[:200]))


def c16_wrapper(R, src, dim):
    f, W, o, s2 = run_construct(src, dim, R)
    it = W.it
    own = W.own
    it.accesshook = it.ownhook = None
    w = w_of(src, f)
    case = 'construct after construct'
    held = ONE - W.none
    for p in it.problems:
        if p[0] == 'viol':
            R.bad('reconstruct', S.short_loc(p[2]), p[1], None, p[3], case)
        elif p[0] == 'open':
            R.undecided('reconstruct', S.short_loc(p[2]), p[1])
    it.problems = []
    R.fn(W.m)
    R.eq('reconstruct', w, own.count(it, s2, W.prev, 1), held, None, case, 'the previous instance is not deleted exactly once')
    R.eq('reconstruct', w, own.count(it, s2, W.prev, 3), held, None, case, 'the destructor of the previous instance does not run exactly once')
    p = I.asptr(force(it.load(s2, ptr(W.g), 'ptr')))
    for c, ob, off in p.alts:
        if ob is None or ob is W.prev or ob is I.OPAQUE:
            continue
        R.eq('reconstruct', w, own.count(it, s2, ob, 2), own.count(it, s2, ob, 0), None, case, 'the new instance is not constructed exactly once')
        R.eq('reconstruct', w, own.count(it, s2, ob, 1), ZERO, None, case, 'the new instance is deleted')
    for ob in own.objs:
        if ob is W.prev:
            continue
        kept = sum((c for c, q, off in p.alts if q is ob), ZERO)
        R.eq('reconstruct', w, own.count(it, s2, ob, 1) + kept, own.count(it, s2, ob, 0), None, case, '%s is neither kept nor deleted' % ob.name)


WITNESS = {
    'copy constructor': ('std::is_copy_constructible<micropp_t>::value', 'micropp_t(micropp_t const&)'),
    'copy assignment': ('std::is_copy_assignable<micropp_t>::value', 'operator=(micropp_t const&)'),
    'move constructor': ('std::is_move_constructible<micropp_t>::value', 'micropp_t(micropp_t&&)'),
    'move assignment': ('std::is_move_assignable<micropp_t>::value', 'operator=(micropp_t&&)'),
}


def compiles(text):
    inc = os.path.join(REPO, 'include')
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'w.cpp')
        open(p, 'w').write(text)
        return subprocess.run([ir._tool(ir.CLANG, 'clang++-18', 'clang++'), '-std=gnu++11', '-fsyntax-only', '-w', '-I', inc, p],
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode == 0


def c16_copy(R, src):
    head = '#include <type_traits>\n#include "micro.hpp"\n'
    if not compiles(head + 'int x;\n'):
        raise AnchorError('micro.hpp does not compile on its own')
    raw = [n for n, (o, s, t) in src.members('micropp_t').items() if t.endswith('*')]
    dt = [f for f in src.mod.funcs.values() if f.dname.endswith('::~micropp_t()')]
    if not raw or not dt:
        R.note('the class has no raw pointer or no destructor: copies are not examined')
        R.ok('no-shallow-copy')
        return
    for n, (expr, sig) in WITNESS.items():
        if compiles(head + 'static_assert(!(%s), "");\n' % expr):
            R.ok('no-shallow-copy')
            continue
        user = [f for f in src.mod.funcs.values() if f.dname.endswith('::' + sig) and f.file and f.file.startswith(src.repo)]
        if user:
            R.undecided('no-shallow-copy', src.loc(user[0]), 'user-provided %s is not examined' % n)
        elif n.startswith('move') and [f for f in src.mod.funcs.values() if f.dname.endswith('::' + sig.replace('&&', ' const&')) and f.file and f.file.startswith(src.repo)]:
            R.undecided('no-shallow-copy', 'include/micro.hpp', '%s falls back to a user-provided copy' % n)
        else:
            R.bad('no-shallow-copy', 'include/micro.hpp (class micropp_t)', 'the compiler provides a member-wise %s, two instances would release %s' % (n, ', '.join(raw[:3])),
                  'the witness program does not compile', 'static_assert(!(%s)) fails' % expr, n)
