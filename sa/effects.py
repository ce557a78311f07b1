"""Flow-insensitive, context-sensitive effect analysis: which members and buffers of the instance a function may write.
Regions are propagated over SSA values (members, buffers reached by loading a member pointer, the matrix, parameters bound
at each call, local variables, heap cells); every store and memory intrinsic is charged to the regions of its pointer."""
import os


class Effects:
    def __init__(self, src):
        self.src = src
        self.mod = src.mod
        self.mem = src.members('micropp_t')
        self.am = src.members('ell_matrix')
        self.memo = {}
        self.fns = set()
        self.stores = 0

    def member(self, off):
        """name of the member (A.x for the matrix) at a byte offset, None if unknown"""
        if off is None:
            return None
        for n, (o, s, t) in self.mem.items():
            if o <= off < o + s:
                if n == 'A':
                    for n2, (o2, s2, t2) in self.am.items():
                        if o2 <= off - o < o2 + s2:
                            return 'A.' + n2
                return n
        return None

    def of(self, short):
        """effects of a member function on its instance: {region name: 'file:line (function)'}"""
        f = self.src.fn(short)
        b = [frozenset()] * len(f.params)
        if f.params and f.params[0][0] == 'ptr':
            b[0] = frozenset([('this', 0)])
        for i, p in enumerate(f.params):
            if i and p[0] == 'ptr':
                b[i] = frozenset([('param', i)])
        return self.run(f, tuple(b))[0]

    def name(self, r):
        if r[0] == 'this':
            m = self.member(r[1])
            return 'this.' + (m or '?')
        if r[0] == 'buf':
            return r[1]
        if r[0] == 'glob':
            return 'global ' + r[1]
        if r[0] == 'param':
            return 'argument %d' % r[1]
        if r[0] == 'top':
            return '?'
        return None

    def run(self, f, binds):
        k = (f.name, binds)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = ({}, frozenset())
        for _ in range(6):
            old = self.memo[k]
            self.memo[k] = self.one(f, binds)
            if old == self.memo[k]:
                break
        return self.memo[k]

    def one(self, f, binds):
        self.fns.add(f.short)
        val = {}
        cont = {}
        for p, b in zip(f.params, binds):
            val[p[1]] = b
        eff = {}
        ret = [frozenset()]

        def v(o):
            if o[0] == 'r':
                return val.get(o[1], frozenset())
            if o[0] == 'g':
                return frozenset([('glob', o[1])])
            if o[0] == 'cgep':
                return frozenset([('glob', str(o[1]))])
            return frozenset()

        def charge(regs, line, where=None):
            for r in regs:
                n = self.name(r)
                if n:
                    eff.setdefault(n, where or ('%s:%s (%s)' % (os.path.basename(line[0]), line[1], f.short) if line else f.short))

        def setv(d, r):
            if d is None:
                return False
            o = val.get(d, frozenset())
            n = o | r
            if len(n) > 24:
                n = frozenset([('top',)])
            if n != o:
                val[d] = n
                return True
            return False

        changed = True
        rounds = 0
        while changed and rounds < 12:
            changed = False
            rounds += 1
            for bn in f.order:
                blk = f.blocks[bn]
                for ph in blk.phis:
                    r = frozenset()
                    for a in ph.args:
                        x = a[0] if isinstance(a[0], tuple) else a
                        r |= v(x)
                    changed |= setv(ph.dst, r)
                for ins in list(blk.instrs) + ([blk.term] if blk.term else []):
                    op = ins.op
                    if op == 'alloca':
                        changed |= setv(ins.dst, frozenset([('alloca', f.name, ins.dst)]))
                    elif op == 'gep':
                        base = v(ins.args[0][1])
                        off = self.goff(ins)
                        out = set()
                        for r in base:
                            if r[0] == 'this':
                                out.add(('this', None if off is None or r[1] is None else r[1] + off))
                            else:
                                out.add(r)
                        changed |= setv(ins.dst, frozenset(out))
                    elif op in ('bitcast', 'addrspacecast', 'freeze', 'inttoptr', 'ptrtoint'):
                        changed |= setv(ins.dst, v(ins.args[0]))
                    elif op == 'select':
                        changed |= setv(ins.dst, v(ins.args[1]) | v(ins.args[2]))
                    elif op == 'load':
                        if ins.ty != 'ptr':
                            continue
                        out = set()
                        for r in v(ins.args[0]):
                            if r[0] == 'this':
                                m = self.member(r[1])
                                out.add(('buf', m) if m else ('top',))
                            elif r[0] == 'alloca':
                                out |= cont.get(r, set())
                            else:
                                out.add(('top',))
                        changed |= setv(ins.dst, frozenset(out))
                    elif op == 'store':
                        if rounds == 1:
                            self.stores += 1
                        regs = v(ins.args[1])
                        charge(regs, ins.line)
                        pv = v(ins.args[0])
                        if pv:
                            for r in regs:
                                if r[0] == 'alloca':
                                    c = cont.setdefault(r, set())
                                    if not pv <= c:
                                        c |= pv
                                        changed = True
                    elif op in ('call', 'invoke'):
                        changed |= self.docall(f, ins, v, charge, setv, eff)
                    elif op == 'ret' and ins.args:
                        a = ins.args[0]
                        ret[0] = ret[0] | v(a[1] if isinstance(a[0], str) and isinstance(a[1], tuple) else a)
        return eff, ret[0]

    def docall(self, f, ins, v, charge, setv, eff):
        callee = ins.extra[0] if isinstance(ins.extra, tuple) else ins.extra
        name = callee[1] if isinstance(callee, tuple) else callee
        args = [a[1] for a in ins.args]
        ch = False
        if not isinstance(name, str):
            return False
        g = self.mod.funcs.get(name)
        if g is not None and g.file and g.file.startswith(self.src.repo):
            bs = []
            for i, p in enumerate(g.params):
                bs.append(v(args[i]) if i < len(args) and p[0] == 'ptr' else frozenset())
            e, r = self.run(g, tuple(bs))
            for n, w in e.items():
                # effects on the callee's own unbound parameters were bound here
                eff.setdefault(n, w)
            return setv(ins.dst, r)
        if name.startswith('llvm.mem'):
            charge(v(args[0]), ins.line)
            return False
        if name in ('memset', 'memcpy', 'memmove', 'strcpy'):
            charge(v(args[0]), ins.line)
            return setv(ins.dst, v(args[0]))
        if name in ('malloc', 'calloc', '_Znwm', '_Znam'):
            return setv(ins.dst, frozenset([('heap', f.name, ins.dst)]))
        if name in ('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'realloc'):
            charge(v(args[0]), ins.line)
            return False
        return ch

    def goff(self, ins):
        """constant byte offset of a gep (up to the first variable index)"""
        T = self.src.T
        t = ins.extra
        off = 0
        idx = [a[1] for a in ins.args[1:]]
        for n, i in enumerate(idx):
            if i[0] != 'i':
                return off      # stays inside the array reached so far
            if n == 0:
                off += i[1] * T.size_align(t)[0]
                continue
            if t[0] == 'arr':
                t = t[2]
                off += i[1] * T.size_align(t)[0]
            else:
                offs, fs = T.layout(t)[0], T.fields(t)
                off += offs[i[1]]
                t = fs[i[1]]
        return off
