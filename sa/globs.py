"""Objects with static storage: who writes them, who lets their address escape, and which of them therefore have
contents known before any instance exists.  Flow-insensitive over the IR, interprocedural through pointer parameters."""
import os

PURE = {'sqrt', 'sqrtf', 'pow', 'powf', 'fabs', 'fabsf', 'exp', 'log', 'sin', 'cos', 'tan', 'abs', 'floor', 'ceil', 'fmax',
        'fmin', 'cbrt', 'hypot', 'atan', 'atan2', 'acos', 'asin', 'log10', 'strlen', 'round', 'llvm.fabs.f64', 'llvm.sqrt.f64',
        'llvm.fmuladd.f64', 'llvm.pow.f64', 'llvm.smax.i32', 'llvm.smin.i32', 'llvm.umax.i64', 'llvm.umin.i64', 'llvm.abs.i32',
        'llvm.maxnum.f64', 'llvm.minnum.f64', 'llvm.exp.f64', 'llvm.log.f64', 'llvm.floor.f64', 'llvm.ceil.f64'}
READONLY = {'strlen', 'printf', 'fprintf', 'puts', 'fputs', 'perror', 'fopen', 'atexit', '__cxa_atexit', 'strcmp', 'fwrite',
            'memcmp', '__assert_fail', 'system'}


def isinit(name):
    return name.startswith('__cxx_global_var_init') or name.startswith('_GLOBAL__')


def callee(ins):
    x = ins.extra
    return x[0] if isinstance(x, tuple) and isinstance(x[0], str) and x[0] != 'opaque' else None


def where(f, ins):
    ln = ins.line
    if isinstance(ln, tuple) and ln and ln[0]:
        return '%s:%s (%s)' % (os.path.basename(ln[0]), ln[1], f.short)
    return f.short


class Globs:
    def __init__(self, mod):
        self.mod = mod
        self.pmemo = {}
        self.acc = {}         # global -> list of (kind 'r'|'w'|'leak', function, instruction)
        self.guards = {}
        for n, g in mod.globals.items():
            if n.startswith('_ZGV'):
                self.guards['_Z' + n[4:]] = n
        for f in mod.funcs.values():
            self.scan(f)
        self.cls = {}

    # -------------------------------------------------------------- accesses
    def instrs(self, f):
        for b in f.order:
            blk = f.blocks[b]
            for i in blk.phis:
                yield b, i
            for i in blk.instrs:
                yield b, i
            if blk.term:
                yield b, blk.term

    def base(self, o):
        if o[0] == 'g':
            return o[1]
        if o[0] == 'cgep':
            for x in o[2]:
                if isinstance(x, tuple) and len(x) == 2:
                    return self.base(x[1])
        return None

    def flow(self, f, roots):
        """accesses through pointers derived from each root (a register or a global): yields (root, kind, instruction)"""
        val = {r: {r} for r in roots if isinstance(r, tuple)}

        def v(o):
            if not isinstance(o, tuple):
                return frozenset()
            if o[0] == 'r':
                return val.get(('r', o[1]), frozenset())
            b = self.base(o)
            return frozenset([('g', b)]) if b is not None else frozenset()
        out = set()
        ins = list(self.instrs(f))
        for _ in range(10):
            ch = False

            def setv(d, s):
                nonlocal ch
                if d is None or not s:
                    return
                cur = val.setdefault(('r', d), set())
                if not s <= cur:
                    cur |= s
                    ch = True
            for b, i in ins:
                if i.op == 'phi':
                    for x in i.args:
                        setv(i.dst, v(x[0]))
                elif i.op == 'gep':
                    setv(i.dst, v(i.args[0][1]))
                elif i.op in ('bitcast', 'addrspacecast', 'freeze', 'ptrtoint', 'inttoptr'):
                    setv(i.dst, v(i.args[0]))
                elif i.op == 'select':
                    setv(i.dst, v(i.args[1]) | v(i.args[2]))
                elif i.op == 'call' and callee(i) in ('llvm.threadlocal.address.p0',):
                    setv(i.dst, v(i.args[0][1]))
            if not ch:
                break
        for b, i in ins:
            if i.op == 'load':
                for r in v(i.args[0]):
                    out.add((r, 'r', i))
            elif i.op == 'store':
                for r in v(i.args[1]):
                    out.add((r, 'w', i))
                for r in v(i.args[0]):
                    out.add((r, 'leak', i))
            elif i.op == 'ret':
                for a in i.args:
                    for r in v(a):
                        out.add((r, 'leak', i))
            elif i.op == 'call':
                n = callee(i)
                for k, a in enumerate(i.args):
                    s = v(a[1])
                    if not s:
                        continue
                    for kind in self.argkinds(n, k):
                        for r in s:
                            out.add((r, kind, i))
            elif i.op == 'opaque':
                # cmpxchg, atomicrmw and the like on a global
                for n in self.mod.globals:
                    if '@' + n + ',' in str(i.extra) or '@' + n + ' ' in str(i.extra):
                        out.add((('g', n), 'w', i))
        return out

    def argkinds(self, n, k):
        if n is None:
            return ('leak',)
        if n.startswith('__cxa_guard') or n.startswith('llvm.threadlocal'):
            return ()
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove', 'strcpy', 'llvm.memset', 'memset') \
                or n.startswith('llvm.memset'):
            return ('w',) if k == 0 else ('r',)
        f = self.mod.funcs.get(n)
        if f is not None:
            return self.param(f, k)
        if n in READONLY or n in PURE:
            return ('r',)
        return ('leak',)

    def param(self, f, k):
        key = (f.name, k)
        if key not in self.pmemo:
            self.pmemo[key] = ()
            if k >= len(f.params):
                return ('leak',)
            for _ in range(3):
                r = ('r', f.params[k][1])
                old = self.pmemo[key]
                self.pmemo[key] = tuple(sorted({kd for rr, kd, i in self.flow(f, [r]) if rr == r}))
                if old == self.pmemo[key]:
                    break
        return self.pmemo[key]

    def scan(self, f):
        for r, k, i in self.flow(f, []):
            if r[0] == 'g' and r[1] in self.mod.globals:
                self.acc.setdefault(r[1], []).append((k, f, i))

    # -------------------------------------------------------------- classes
    def classify(self, name):
        """'const' contents fixed by the static initialiser, 'init' fixed before main, 'once' filled at the first
        call with a value that is always the same, 'first' filled at the first call from other values, 'leak' address
        escapes, 'mut' written by ordinary code, 'ext' defined elsewhere; with the accesses that decide it"""
        if name not in self.cls:
            self.cls[name] = self._classify(name)
        return self.cls[name]

    def _classify(self, name):
        g = self.mod.globals.get(name)
        if g is None:
            return 'ext', []
        ty, init, const, raw = g
        head = raw.split('global')[0] if 'global' in raw else raw
        if const:
            return 'const', []
        if 'external' in head:
            return 'ext', []
        tls = 'thread_local' in head
        acc = self.acc.get(name, [])
        ws = [(f, i) for k, f, i in acc if k == 'w' and not isinit(f.name)]
        lk = [(f, i) for k, f, i in acc if k == 'leak' and not isinit(f.name)]
        wi = [(f, i) for k, f, i in acc if k != 'r' and isinit(f.name)]
        if not ws and not lk and not tls:
            return ('init' if wi else 'const'), wi
        gd = self.guards.get(name)
        if gd and not tls and ws:
            fs = {f.name for f, i in ws}
            if len(fs) == 1:
                f = ws[0][0]
                reg = self.guarded(f, gd)
                if reg and all(i.blk in reg for f_, i in ws):
                    lk = [(f_, i) for f_, i in lk if i.blk not in reg or callee(i) not in ('__cxa_atexit',)]
                    if lk:
                        return 'leak', lk
                    d = self.varies(f, ws, reg)
                    if d == 'const':
                        return 'once', ws
                    return ('first' if d == 'varies' else 'firstq'), ws
        if ws:
            return 'mut', ws
        return 'leak', lk or ws

    def guarded(self, f, gd):
        """blocks executed only by the first call: those dominated by the branch taken when the guard is acquired"""
        for b in f.order:
            blk = f.blocks[b]
            acq = [i.dst for i in blk.instrs if i.op == 'call' and callee(i) == '__cxa_guard_acquire' and i.args
                   and self.base(i.args[0][1]) == gd]
            if not acq:
                continue
            t = blk.term
            if t is None or t.op != 'cbr':
                return None
            tgt = t.args[1]
            return {x for x in f.order if x in f.idom and f.dominates(tgt, x)} if len(f.blocks[tgt].preds) == 1 else None
        return None

    def varies(self, f, ws, reg):
        defs = {}
        for b, i in self.instrs(f):
            if i.dst is not None:
                defs[i.dst] = (b, i)
        params = {p[1] for p in f.params}
        seen = {}

        def val(o, depth=0):
            if not isinstance(o, tuple):
                return 'const'
            if o[0] == 'r':
                return reg_(o[1], depth)
            if o[0] in ('g', 'cgep'):
                return 'const'
            return 'const' if o[0] in ('i', 'd', 'null', 'zero') else 'unknown'

        def worst(xs):
            xs = list(xs)
            return 'varies' if 'varies' in xs else 'unknown' if 'unknown' in xs else 'const'

        def reg_(r, depth):
            if r in seen:
                return seen[r]
            if r in params:
                return 'varies'
            if r not in defs or depth > 200:
                return 'unknown'
            seen[r] = 'const'
            b, i = defs[r]
            if i.op == 'phi':
                res = worst(val(x[0], depth + 1) for x in i.args)
            elif i.op == 'load':
                a = i.args[0]
                s = self.base(a) if a[0] != 'r' else self.rootglob(defs, a[1])
                if s is not None:
                    res = val(a, depth + 1)
                    c = 'const' if s == f.name else self.classify(s)[0] if s not in (ws_name,) else 'const'
                    if c not in ('const', 'init', 'once'):
                        res = worst([res, 'varies' if c == 'mut' else 'unknown'])
                else:
                    # through a pointer that is not static storage
                    res = 'varies' if self.rootparam(defs, a, params) else 'unknown'
            elif i.op == 'call':
                n = callee(i)
                res = worst(val(a[1], depth + 1) for a in i.args)
                if not (n in PURE or (n in self.mod.funcs and self.purefn(self.mod.funcs[n]))):
                    res = worst([res, 'unknown'])
            elif i.op == 'gep':
                res = worst(val(a[1], depth + 1) for a in i.args)
            elif i.op in ('alloca', 'opaque'):
                res = 'unknown'
            else:
                res = worst(val(a, depth + 1) for a in i.args if isinstance(a, tuple))
            seen[r] = res
            return res
        ws_name = None
        res = []
        for f_, i in ws:
            if i.op == 'store':
                res.append(val(i.args[0]))
                res.append(val(i.args[1]) if i.args[1][0] == 'r' else 'const')
            elif i.op == 'call':
                res += [val(a[1]) for a in i.args]
                n = callee(i)
                if not (n and n.startswith('llvm.mem')):
                    res.append('unknown')
        # which stores happen must not vary either
        for b in reg:
            t = f.blocks[b].term
            if t is not None and t.op == 'cbr':
                res.append(val(t.args[0]))
        return worst(res)

    def rootglob(self, defs, r, d=0):
        if r not in defs or d > 50:
            return None
        i = defs[r][1]
        if i.op == 'gep':
            a = i.args[0][1]
            return self.rootglob(defs, a[1], d + 1) if a[0] == 'r' else self.base(a)
        return None

    def rootparam(self, defs, a, params, d=0):
        if not isinstance(a, tuple) or a[0] != 'r' or d > 50:
            return False
        if a[1] in params:
            return True
        if a[1] not in defs:
            return False
        i = defs[a[1]][1]
        if i.op == 'gep':
            return self.rootparam(defs, i.args[0][1], params, d + 1)
        if i.op == 'load':
            return self.rootparam(defs, i.args[0], params, d + 1)
        return False

    def purefn(self, f, depth=0):
        if depth > 6:
            return False
        al = {i.dst for b, i in self.instrs(f) if i.op == 'alloca'}
        defs = {i.dst: (b, i) for b, i in self.instrs(f) if i.dst is not None}

        def local(o):
            while isinstance(o, tuple) and o[0] == 'r':
                if o[1] in al:
                    return True
                if o[1] not in defs or defs[o[1]][1].op != 'gep':
                    return False
                o = defs[o[1]][1].args[0][1]
            b = self.base(o)
            return b is not None and self.classify(b)[0] in ('const', 'init')
        for b, i in self.instrs(f):
            if i.op == 'load' and not local(i.args[0]):
                return False
            if i.op == 'store' and not (isinstance(i.args[1], tuple) and i.args[1][0] == 'r' and local(i.args[1])):
                return False
            if i.op == 'opaque':
                return False
            if i.op == 'call':
                n = callee(i)
                if n in PURE:
                    continue
                if n and n.startswith('llvm.mem') and local(i.args[0][1]):
                    continue
                g = self.mod.funcs.get(n)
                if g is None or not self.purefn(g, depth + 1):
                    return False
        return True

    def constant(self, name):
        """every store outside the start-up code writes a value that never varies"""
        ws = [(f, i) for k, f, i in self.acc.get(name, []) if k == 'w' and not isinit(f.name)]
        if any(k == 'leak' for k, f, i in self.acc.get(name, [])):
            return False
        byf = {}
        for f, i in ws:
            byf.setdefault(f.name, (f, []))[1].append((f, i))
        return all(self.varies(f, l, ()) == 'const' for f, l in byf.values())

    def literal(self, name):
        """the one literal ordinary code stores into a scalar, if that is all it does"""
        vs = set()
        for k, f, i in self.acc.get(name, []):
            if k == 'leak':
                return None
            if k == 'w' and not isinit(f.name):
                if i.op != 'store' or i.args[1][0] != 'g' or i.args[0][0] not in ('i', 'd'):
                    return None
                vs.add(i.args[0])
        return vs.pop() if len(vs) == 1 else None

    def users(self, fns):
        """{static object: class} for the objects ordinary code writes that these functions read"""
        names = {f.name for f in fns}
        out = {}
        for n, acc in self.acc.items():
            if any(f.name in names for k, f, i in acc):
                c = self.classify(n)[0]
                if c in ('mut', 'leak', 'first', 'firstq') and not n.startswith('_ZGV'):
                    out[n] = c
        return out


def library(mod, repo):
    """functions of the library proper: those of the repository except the language interface"""
    return [f for f in mod.funcs.values() if f.file and f.file.startswith(repo) and not isinit(f.name)
            and not (f.name.startswith('micropp_') and f.name.endswith('_'))]
