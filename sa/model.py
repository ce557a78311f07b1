"""Abstract instances of micropp_t: the state every analysis starts from, built by analysing the
constructor itself with symbolic grid sizes, lengths and material parameters."""
import os, sys, time
import ir
import expr as E
import ctx as X
import interp as I
import libmodel
import loops
from expr import Poly, C, ZERO, ONE, V, D
from interp import ptr, force, State, Obj, NULL

sys.setrecursionlimit(30000)
SIZES = None          # fixed grid sizes of a refinement run, else symbolic
if os.environ.get('VERIF_SIZES'):
    SIZES = tuple(int(x) for x in os.environ['VERIF_SIZES'].split(','))
    NX, NY, NZ = (C(x) for x in SIZES)
    loops.UNROLL = 1500
else:
    NX, NY, NZ = E.sym('nx'), E.sym('ny'), E.sym('nz')
    for _p in (NX, NY, NZ):
        X.set_min(_p, 2)
HX, HY, HZ = E.dsym('hx'), E.dsym('hy'), E.dsym('hz')


class AnchorError(Exception):
    """an analysed construct is gone: the check cannot give an answer"""


class Source:
    _cache = {}

    def __init__(self, repo, defines=()):
        self.repo = repo
        text, self.srcs = ir.compile_repo(repo, defines)
        self.mod = ir.Module(text)
        self.T = self.mod.T

    @classmethod
    def get(cls, repo='/repo', defines=()):
        k = (repo, tuple(defines))
        if k not in cls._cache:
            cls._cache[k] = cls(repo, defines)
        return cls._cache[k]

    def fns(self, short):
        return [f for f in self.mod.funcs.values() if f.short == short and f.file and f.file.startswith(self.repo)]

    def fn(self, short, nparams=None, must=True):
        l = self.fns(short)
        if nparams is not None:
            l = [f for f in l if len(f.params) == nparams]
        if not l:
            if must:
                raise AnchorError('function %s not found in the analysed sources' % short)
            return None
        # constructors have C1/C2 variants
        for f in l:
            if 'C2E' in f.name or 'D2E' in f.name:
                return f
        return l[0]

    def loc(self, fn, line=None):
        return '%s:%s' % (os.path.relpath(fn.file, self.repo) if fn.file else '?', fn.line if line is None else line)

    def members(self, c):
        m = self.mod.members(c)
        if not m:
            raise AnchorError('class %s not found' % c)
        return m


def opaque_tag(name):
    """handler: record the call as an event and do nothing else"""
    def h(it, st, fn, args, path, line):
        st.event(I.Event('call', name, tuple(force(a) for a in args), st.copy(), path, line, it.cur), line)
        return None
    return h


def phase(off, ty):
    """contents of elem_type: a phase number, 0 or 1 (established by C23)"""
    if ty == 'i32':
        return V(E.atom('etype', (off,), isbool=True))
    return None


class Inst:
    """one abstract micropp_t (configuration: dim, micro_type)"""

    def __init__(self, src, dim, mt=0, opaque=None, ctor=True, listn=None):
        self.src = src
        self.dim = dim
        self.mt = mt
        self.it = I.Interp(src.mod, opaque=dict(opaque or {}))
        self.mem = src.members('micropp_t')
        gm = src.members('gp_t')
        self.gm = gm
        libmodel.GPSIZE[0] = max(o + s for o, s, _ in gm.values()) + 0
        libmodel.GPSIZE[0] = (libmodel.GPSIZE[0] + 7) // 8 * 8
        sz = max(o + s for o, s, _ in self.mem.values())
        self.this = self.it.obj(('this',), C(sz), 'undef', 'arg', 'this')
        self.nz = ONE if dim == 2 else NZ
        self.nn = NX * NY * self.nz
        self.st = State()
        if ctor:
            self.construct()

    def construct(self):
        src, it = self.src, self.it
        f = src.fn('micropp_t')
        size = it.obj(('size',), C(12), 'sym', 'arg', 'size')
        mp = it.obj(('micro_params',), C(40), 'sym', 'arg', 'micro_params')
        mt = it.obj(('mat_types',), C(8), 'sym', 'arg', 'mat_types')
        pa = it.obj(('params',), C(160), 'sym', 'arg', 'params')
        st = self.st
        c = st.wos(size).cells
        c[0] = (4, NX)
        c[4] = (4, NY)
        c[8] = (4, NZ)
        c = st.wos(mp).cells
        c[0] = (8, HX * E.i2d(NX - 1))
        c[8] = (8, HY * E.i2d(NY - 1))
        c[16] = (8, HZ * E.i2d(NZ - 1))
        c[24] = (8, E.dsym('width'))
        c[32] = (8, E.dsym('inv_tol'))
        save = dict(it.opaque)
        it.opaque.setdefault('calc_ctan_lin', opaque_tag('calc_ctan_lin'))
        r = it.call(f, [ptr(self.this), C(self.dim), ptr(size), C(self.mt), ptr(mp), ptr(mt), ptr(pa)], st, ('ctor',))
        it.opaque = save
        if r is I.NORETURN:
            raise AnchorError('constructor does not return')
        self.st = r[1]
        self.ctor_st = self.st.copy()

    # ---- access helpers
    def off(self, name):
        if name not in self.mem:
            raise AnchorError('member %s of micropp_t not found' % name)
        return self.mem[name][0]

    def ty(self, name):
        t = self.mem[name][2]
        if t.endswith('*'):
            return 'ptr'
        return {'double': 'double', 'int': 'i32', 'bool': 'i8'}.get(t.split('[')[0], 'i32')

    def get(self, name, st=None, idx=0, ty=None):
        st = st or self.st
        ty = ty or self.ty(name)
        return self.it.load(st, ptr(self.this, C(self.off(name) + idx)), ty)

    def field(self, name, st=None):
        p = force(self.get(name, st))
        if not isinstance(p, I.Ptr) or len(p.alts) != 1 or p.alts[0][1] in (None, I.OPAQUE):
            raise AnchorError('member %s is not a unique buffer' % name)
        return p.alts[0][1]

    def ld(self, st, obj, off, ty='double'):
        if isinstance(off, int):
            off = C(off)
        return force(self.it.load(st, ptr(obj, off), ty))

    # ---- generic running instance: contents after an arbitrary history
    BUFS = ('u', 'du', 'b', 'vars_old', 'vars_new', 'elem_stress', 'elem_strain', 'elem_type')

    def generic(self, keep=(), matrix=None):
        """state of an instance after an arbitrary history: sizes, materials, geometry as constructed;
        all mutable buffers hold arbitrary values"""
        st = self.ctor_st.copy()
        it = self.it
        w = st.wos(self.this)
        self.buf = {}
        for n in self.BUFS:
            if n in keep:
                self.buf[n] = self.field(n, st)
                continue
            if n not in self.mem:
                raise AnchorError('member %s of micropp_t not found' % n)
            size = None
            try:
                size = self.field(n, self.ctor_st).size
            except AnchorError:
                pass
            o = it.obj(('buf', n), size, 'sym' if n != 'elem_type' else phase, 'ext', n)
            st.mem.pop(o, None)
            self.buf[n] = o
            w.cells[self.off(n)] = (8, ptr(o))
        oA = self.off('A')
        am = self.src.members('ell_matrix')
        self.am = am
        for n in ('cols', 'vals'):
            p = self.it.load(self.ctor_st, ptr(self.this, C(oA + am[n][0])), 'ptr')
            if len(p.alts) != 1 or p.alts[0][1] in (None, I.OPAQUE):
                raise AnchorError('A.%s is not a unique buffer' % n)
            self.buf['A.' + n] = p.alts[0][1]
        if 'A.vals' not in keep:
            o = it.obj(('buf', 'A.vals'), self.buf['A.vals'].size, 'sym', 'ext', 'A.vals')
            st.mem.pop(o, None)
            self.buf['A.vals'] = o
            w.cells[oA + am['vals'][0]] = (8, ptr(o))
        for i in range(36):
            if 'ctan_lin' in self.mem:
                w.cells[self.off('ctan_lin') + 8 * i] = (8, E.dsym('ctan_lin[%d]' % i))
        w.cells[self.off('inv_max')] = (8, E.dsym('inv_max'))
        w.cells[self.off('output_files_header')] = (1, E.sym('header', isbool=True))
        mm = self.src.members('material_t')
        sz = max(o + s for o, s, _ in mm.values())
        sz = (sz + 7) // 8 * 8
        self.mat = []
        for i in range(2):
            b = self.off('material_list') + i * sz
            d = {}
            for n in ('E', 'nu', 'k', 'mu', 'lambda', 'Ka', 'Sy'):
                d[n] = self.it.load(st, ptr(self.this, C(b + mm[n][0])), 'double')
            d['plasticity'] = E.sym('plast%d' % i, isbool=True)
            w.cells[b + mm['plasticity'][0]] = (1, d['plasticity'])
            w.cells[b + mm['damage'][0]] = (1, E.sym('damage%d' % i, isbool=True))
            self.mat.append(d)
        self.gn = E.sym('ngp')
        X.MINS.setdefault(list(self.gn.t)[0][0], 0)
        X.set_min(self.gn, 0)
        w.cells[self.off('gauss_list') + 16] = (8, self.gn)
        it.loopcache.clear()
        return st
