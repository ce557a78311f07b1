"""Front end: compile /repo's sources to LLVM IR (never executed) and parse the
textual IR into functions, blocks, instructions, natural loops and debug data."""
import os, re, struct, subprocess, sys, tempfile, shutil
from fractions import Fraction

CLANG = '/usr/bin/clang++-18'
OPT = '/usr/bin/opt-18'
LINK = '/usr/bin/llvm-link-18'
CXXFILT = 'c++filt'


ORDER = re.compile(r'\s+(syncscope\("[^"]*"\)\s+)?(unordered|monotonic|acquire|release|seq_cst)\s*$')


class FrontEndError(Exception):
    pass


def _tool(*names):
    for n in names:
        if os.path.isabs(n):
            if os.path.exists(n):
                return n
        else:
            p = shutil.which(n)
            if p:
                return p
    raise FrontEndError('tool missing: %s' % (names,))


def compile_repo(repo='/repo', defines=(), extra=()):
    """Return IR text of the whole library (src/*.cpp linked), simplified by
    semantics-preserving passes only (mem2reg/SROA, loop-simplify, LCSSA)."""
    clang = _tool(CLANG, 'clang++-18', 'clang++')
    opt = _tool(OPT, 'opt-18', 'opt')
    link = _tool(LINK, 'llvm-link-18', 'llvm-link')
    srcdir = os.path.join(repo, 'src')
    srcs = []
    if os.path.isdir(srcdir):
        for f in sorted(os.listdir(srcdir)):
            if f.endswith('.cpp'):
                srcs.append(os.path.join(srcdir, f))
    srcs.sort()
    if not srcs:
        raise FrontEndError('no sources under %s' % srcdir)
    tmp = tempfile.mkdtemp(prefix='mpp_sa_')
    try:
        procs = []
        outs = []
        for i, s in enumerate(srcs):
            o = os.path.join(tmp, 'u%d.ll' % i)
            outs.append(o)
            cmd = [clang, '-std=gnu++11', '-O0', '-Xclang', '-disable-O0-optnone', '-g',
                   '-fno-discard-value-names', '-I' + os.path.join(repo, 'include'),
                   '-I' + srcdir, '-S', '-emit-llvm', '-w']
            cmd += ['-D' + d for d in defines]
            cmd += list(extra) + [s, '-o', o]
            procs.append((s, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
        for s, p in procs:
            _o, e = p.communicate()
            if p.returncode:
                raise FrontEndError('clang failed on %s:\n%s' % (s, e.decode(errors='replace')[:2000]))
        allll = os.path.join(tmp, 'all.ll')
        r = subprocess.run([link, '-S'] + outs + ['-o', allll], capture_output=True)
        if r.returncode:
            raise FrontEndError('llvm-link failed: ' + r.stderr.decode(errors='replace')[:2000])
        oll = os.path.join(tmp, 'o.ll')
        passes = 'function(lowerinvoke,lower-expect,simplifycfg,sroa,lowerswitch,mergereturn,loop-simplify,lcssa)'
        r = subprocess.run([opt, '-S', '-passes=' + passes, allll, '-o', oll], capture_output=True)
        if r.returncode:
            raise FrontEndError('opt failed: ' + r.stderr.decode(errors='replace')[:2000])
        return open(oll).read(), srcs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- types
class Types:
    def __init__(self):
        self.structs = {}
        self._lay = {}

    def parse(self, s):
        """parse a type at start of s; return (type, rest)."""
        s = s.lstrip()
        if s.startswith('['):
            m = re.match(r'\[\s*(\d+)\s+x\s+', s)
            t, rest = self.parse(s[m.end():])
            rest = rest.lstrip()
            assert rest[0] == ']', rest[:40]
            return ('arr', int(m.group(1)), t), rest[1:]
        if s.startswith('<{'):
            f, rest = self._fields(s[2:])
            rest = rest.lstrip()
            return ('pstruct', tuple(f)), rest[2:]
        if s.startswith('<'):
            m = re.match(r'<\s*(\d+)\s+x\s+', s)
            t, rest = self.parse(s[m.end():])
            return ('vec', int(m.group(1)), t), rest.lstrip()[1:]
        if s.startswith('{'):
            f, rest = self._fields(s[1:])
            rest = rest.lstrip()
            return ('lit', tuple(f)), rest[1:]
        if s.startswith('%'):
            m = re.match(r'%("[^"]*"|[\w.$-]+)', s)
            return ('named', m.group(1).strip('"')), s[m.end():]
        m = re.match(r'[a-z]+\d*(?:_[a-z0-9]+)?', s)
        if not m:
            raise FrontEndError('type? ' + s[:80])
        t = m.group(0)
        rest = s[m.end():]
        # function type "i32 (...)"
        return t, rest

    def _fields(self, s):
        out = []
        s = s.lstrip()
        if s.startswith('}'):
            return out, s
        while True:
            t, s = self.parse(s)
            out.append(t)
            s = s.lstrip()
            if s.startswith(','):
                s = s[1:]
                continue
            return out, s

    def size_align(self, t):
        if isinstance(t, str):
            if t == 'ptr':
                return 8, 8
            if t == 'double':
                return 8, 8
            if t == 'float':
                return 4, 4
            if t == 'x86_fp80':
                return 16, 16
            if t[0] == 'i':
                b = int(t[1:])
                n = 1
                while n * 8 < b:
                    n *= 2
                return n, min(n, 16)
            if t == 'opaque':
                return 0, 1
            raise FrontEndError('size of ' + t)
        k = t[0]
        if k == 'arr' or k == 'vec':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 'named':
            l = self.layout(t)
            return l[1], l[2]
        l = self.layout(t)
        return l[1], l[2]

    def layout(self, t):
        if t in self._lay:
            return self._lay[t]
        packed = False
        if t[0] == 'named':
            b = self.structs.get(t[1])
            if b is None or b == 'opaque':
                r = ([], 0, 1)
                self._lay[t] = r
                return r
            r = self.layout(b)
            self._lay[t] = r
            return r
        packed = t[0] == 'pstruct'
        offs = []
        off = 0
        al = 1
        for f in t[1]:
            s, a = self.size_align(f)
            if packed:
                a = 1
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
            al = max(al, a)
        off = (off + al - 1) // al * al
        r = (offs, off, al)
        self._lay[t] = r
        return r

    def fields(self, t):
        if t[0] == 'named':
            b = self.structs.get(t[1])
            return self.fields(b)
        return t[1]


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'args', 'extra', 'line', 'text', 'blk')

    def __init__(self, op, dst, ty, args, extra=None):
        self.op, self.dst, self.ty, self.args, self.extra = op, dst, ty, args, extra
        self.line = None
        self.text = None
        self.blk = None

    def __repr__(self):
        return '<%s %s %s %s>' % (self.dst, self.op, self.args, self.extra)


class Block:
    __slots__ = ('name', 'instrs', 'phis', 'term', 'succs', 'preds', 'idx')

    def __init__(self, name):
        self.name = name
        self.instrs = []
        self.phis = []
        self.term = None
        self.succs = []
        self.preds = []


class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = set([header])
        self.latches = []
        self.parent = None
        self.children = []

    def __repr__(self):
        return '<Loop %s %d>' % (self.header, len(self.blocks))


class Function:
    def __init__(self, name):
        self.name = name
        self.dname = name
        self.params = []   # (type, name, attrs)
        self.ret = None
        self.blocks = {}
        self.order = []
        self.entry = None
        self.file = None
        self.line = None

    def analyze(self):
        for b in self.order:
            blk = self.blocks[b]
            blk.succs = list(dict.fromkeys(blk.succs))
            for s in blk.succs:
                self.blocks[s].preds.append(b)
        # reverse postorder
        seen = set()
        post = []
        st = [(self.entry, iter(self.blocks[self.entry].succs))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.blocks[s].succs)))
                    break
            else:
                post.append(b)
                st.pop()
        self.rpo = post[::-1]
        self.rpoidx = {b: i for i, b in enumerate(self.rpo)}
        # dominators
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.blocks[b].preds if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    n = self._inter(idom, n, p, self.rpoidx)
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom = idom
        # loops
        self.loops = {}
        for b in self.rpo:
            for s in self.blocks[b].succs:
                if self.dominates(s, b):
                    l = self.loops.setdefault(s, Loop(s))
                    l.latches.append(b)
                    st2 = [b]
                    while st2:
                        x = st2.pop()
                        if x not in l.blocks:
                            l.blocks.add(x)
                            st2 += [p for p in self.blocks[x].preds if p in self.rpoidx]
        self.inner = {}
        for h in sorted(self.loops, key=lambda h: -len(self.loops[h].blocks)):
            for b in self.loops[h].blocks:
                p = self.inner.get(b)
                if b == h:
                    self.loops[h].parent = p
                    if p is not None:
                        p.children.append(self.loops[h])
                self.inner[b] = self.loops[h]
        # post dominators (ignoring blocks that cannot reach a return)
        rets = [b for b in self.rpo if self.blocks[b].term.op == 'ret']
        reach = set(rets)
        st2 = list(rets)
        while st2:
            x = st2.pop()
            for p in self.blocks[x].preds:
                if p not in reach and p in self.rpoidx:
                    reach.add(p)
                    st2.append(p)
        self.can_ret = reach
        EXIT = '<exit>'
        preds = {}
        nodes = [b for b in self.rpo if b in reach]
        succ = {b: [s for s in self.blocks[b].succs if s in reach] for b in nodes}
        for r in rets:
            succ[r] = [EXIT]
        # order for reverse graph
        rp = {}
        for b in succ:
            for s in succ[b]:
                rp.setdefault(s, []).append(b)
        seen = {EXIT}
        post = []
        st = [(EXIT, iter(rp.get(EXIT, [])))]
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(rp.get(s, []))))
                    break
            else:
                post.append(b)
                st.pop()
        order = post[::-1]
        oi = {b: i for i, b in enumerate(order)}
        ip = {EXIT: EXIT}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ss = [s for s in succ[b] if s in ip]
                if not ss:
                    continue
                n = ss[0]
                for s in ss[1:]:
                    n = self._inter(ip, n, s, oi)
                if ip.get(b) != n:
                    ip[b] = n
                    ch = True
        self.ipdom = ip

    @staticmethod
    def _inter(idom, a, b, idx):
        while a != b:
            while idx[a] > idx[b]:
                a = idom[a]
            while idx[b] > idx[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            n = self.idom.get(b)
            if n is None or n == b:
                return False
            b = n


_STR = re.compile(r'"(?:[^"\\]|\\.)*"')


def split_top(s):
    out = []
    depth = 0
    cur = []
    inq = False
    for ch in s:
        if inq:
            cur.append(ch)
            if ch == '"':
                inq = False
            continue
        if ch == '"':
            inq = True
            cur.append(ch)
            continue
        if ch in '([{<':
            depth += 1
        elif ch in ')]}>':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(''.join(cur).strip())
            cur = []
        else:
            cur.append(ch)
    x = ''.join(cur).strip()
    if x:
        out.append(x)
    return out


ATTRS = set('''noundef nonnull zeroext signext inreg byval noalias nocapture readonly writeonly
readnone immarg returned nofree dead_on_unwind writable swiftself nest inbounds nuw nsw exact fast nnan
ninf nsz arcp contract afn reassoc disjoint nneg volatile'''.split())


class Module:
    def __init__(self, text):
        self.T = Types()
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.md = {}
        self.locs = {}
        self.by_dname = {}
        self._parse(text)

    # -- operand parsing
    def val(self, s, ty):
        s = s.strip()
        if s.startswith('%'):
            return ('r', s[1:].strip('"'))
        if s.startswith('@'):
            return ('g', s[1:].strip('"'))
        if s in ('true', 'false'):
            return ('i', 1 if s == 'true' else 0)
        if s == 'null':
            return ('null',)
        if s in ('undef', 'poison'):
            return ('undef',)
        if s == 'zeroinitializer':
            return ('zero',)
        if ty in ('double', 'float'):
            if s.startswith('0x'):
                return ('d', struct.unpack('>d', int(s[2:], 16).to_bytes(8, 'big'))[0])
            return ('d', float(s))
        if re.match(r'-?\d+$', s):
            return ('i', int(s))
        m = re.match(r'getelementptr\s*(?:inbounds\s*)?\((.*)\)$', s, re.S)
        if m:
            parts = split_top(m.group(1))
            t, _ = self.T.parse(parts[0])
            ops = [self.tyval(p) for p in parts[1:]]
            return ('cgep', t, ops)
        return ('opq', s)

    def tyval(self, s):
        """'double noundef %x' -> (type, val)"""
        t, rest = self.T.parse(s)
        rest = rest.strip()
        while True:
            m = re.match(r'([a-z_]+)(\([^()]*(?:\([^()]*\))?[^()]*\))?(\s+|$)', rest)
            if m and (m.group(1) in ATTRS or m.group(2) or m.group(1) in ('align',)):
                if m.group(1) in ('getelementptr', 'inttoptr', 'bitcast', 'true', 'false', 'null', 'undef', 'poison'):
                    break
                if m.group(1) == 'align' and not m.group(2):
                    m2 = re.match(r'align\s+\d+\s*', rest)
                    rest = rest[m2.end():]
                    continue
                rest = rest[m.end():]
                continue
            break
        return t, self.val(rest, t)

    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        mdre = re.compile(r'^!(\d+) = (?:distinct )?(.*)$')
        while i < n:
            ln = lines[i]
            if ln.startswith('%'):
                m = re.match(r'%("[^"]*"|[\w.$-]+) = type (.*)$', ln)
                if m:
                    nm = m.group(1).strip('"')
                    body = m.group(2)
                    if body.startswith('opaque'):
                        self.T.structs[nm] = 'opaque'
                    else:
                        self.T.structs[nm] = self.T.parse(body)[0]
            elif ln.startswith('!'):
                m = mdre.match(ln)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
            elif ln.startswith('@'):
                self._global(ln)
            elif ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[\w.$-]+)\(', ln)
                if m:
                    self.decls[m.group(1).strip('"')] = ln
            elif ln.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._func(ln, lines[i + 1:j])
                i = j
            i += 1
        for f in self.funcs.values():
            for b in f.order:
                for ins in self.blocks_instrs(f, b):
                    if ins.line is not None:
                        ins.line = self._loc(ins.line)
            f.analyze()
        self._demangle()

    def blocks_instrs(self, f, b):
        blk = f.blocks[b]
        return blk.phis + blk.instrs + ([blk.term] if blk.term else [])

    def _loc(self, mdid):
        if mdid in self.locs:
            return self.locs[mdid]
        s = self.md.get(mdid, '')
        m = re.match(r'!DILocation\(line: (\d+)(?:, column: \d+)?, scope: !(\d+)', s)
        r = None
        if m:
            r = (self._scope_file(int(m.group(2))), int(m.group(1)))
        self.locs[mdid] = r
        return r

    def _scope_file(self, mdid):
        for _ in range(50):
            s = self.md.get(mdid, '')
            m = re.search(r'file: !(\d+)', s)
            if m:
                fs = self.md.get(int(m.group(1)), '')
                m2 = re.search(r'filename: "([^"]*)"(?:, directory: "([^"]*)")?', fs)
                if m2:
                    p = m2.group(1)
                    if not os.path.isabs(p) and m2.group(2):
                        p = os.path.join(m2.group(2), p)
                    return os.path.normpath(p)
            m = re.search(r'scope: !(\d+)', s)
            if not m:
                return None
            mdid = int(m.group(1))
        return None

    def _global(self, ln):
        m = re.match(r'@("[^"]*"|[\w.$-]+) = (.*)$', ln)
        if not m:
            return
        nm = m.group(1).strip('"')
        rest = m.group(2)
        m2 = re.search(r'\b(global|constant)\b\s+', rest)
        if not m2:
            self.globals[nm] = (None, None, False, rest)
            return
        const = m2.group(1) == 'constant'
        ext = 'external' in rest[:m2.start()]
        body = rest[m2.end():]
        try:
            t, r2 = self.T.parse(body)
        except Exception:
            self.globals[nm] = (None, None, const, rest)
            return
        init = None
        if not ext:
            try:
                init, _ = self._const(t, r2.strip())
            except Exception:
                init = None
        self.globals[nm] = (t, init, const, rest)

    def _const(self, t, s):
        s = s.lstrip()
        if s.startswith('zeroinitializer'):
            return ('zero',), s[len('zeroinitializer'):]
        if s.startswith('c"'):
            m = re.match(r'c"((?:[^"\\]|\\[0-9A-Fa-f]{2})*)"', s)
            raw = re.sub(rb'\\([0-9A-Fa-f]{2})', lambda k: bytes([int(k.group(1), 16)]), m.group(1).encode('latin1'))
            return ('str', raw), s[m.end():]
        if s.startswith('['):
            s = s[1:]
            out = []
            while True:
                s = s.lstrip()
                if s.startswith(']'):
                    return ('agg', out), s[1:]
                if s.startswith(','):
                    s = s[1:]
                    continue
                et, s = self.T.parse(s)
                v, s = self._const(et, s)
                out.append((et, v))
        if s.startswith('{') or s.startswith('<{'):
            s = s[1:] if s[0] == '{' else s[2:]
            out = []
            while True:
                s = s.lstrip()
                if s.startswith('}'):
                    s = s[1:]
                    if s.startswith('>'):
                        s = s[1:]
                    return ('agg', out), s
                if s.startswith(','):
                    s = s[1:]
                    continue
                et, s = self.T.parse(s)
                v, s = self._const(et, s)
                out.append((et, v))
        m = re.match(r'(@"[^"]*"|[^\s,\]\}]+)', s)
        return self.val(m.group(1), t), s[m.end():]

    def _func(self, head, body):
        m = re.match(r'define (.*?)@("[^"]*"|[\w.$-]+)\((.*)$', head)
        f = Function(m.group(2).strip('"'))
        # params
        rest = m.group(3)
        depth = 1
        k = 0
        while depth:
            if rest[k] == '(':
                depth += 1
            elif rest[k] == ')':
                depth -= 1
            k += 1
        ps = rest[:k - 1]
        tail = rest[k:]
        rt = m.group(1).split()
        f.ret = 'void'
        for w in rt:
            if w in ('void', 'ptr', 'double', 'i1', 'i8', 'i32', 'i64', 'float', 'i16'):
                f.ret = w
        for p in split_top(ps):
            if p == '...':
                continue
            t, v = self.tyval(p)
            f.params.append((t, v[1] if v[0] == 'r' else None, p))
        mm = re.search(r'!dbg !(\d+)', tail)
        if mm:
            s = self.md.get(int(mm.group(1)))
            f.dbg = int(mm.group(1))
        else:
            f.dbg = None
        cur = None
        i = 0
        while i < len(body):
            ln = body[i]
            if not ln.strip():
                i += 1
                continue
            m = re.match(r'^("[^"]*"|[\w.$-]+):', ln)
            if m:
                cur = Block(m.group(1).strip('"'))
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                if f.entry is None:
                    f.entry = cur.name
                i += 1
                continue
            if cur is None:
                cur = Block('entry')
                f.blocks['entry'] = cur
                f.order.append('entry')
                f.entry = 'entry'
            s = ln.strip()
            if s.startswith('switch') or (s.startswith('br') is False and ' landingpad' in s):
                while not s.rstrip().endswith(']') and s.startswith('switch') and ']' not in s:
                    i += 1
                    s += ' ' + body[i].strip()
            self._instr(f, cur, s)
            i += 1
        self.funcs[f.name] = f

    def _instr(self, f, blk, s):
        line = None
        m = re.search(r', !dbg !(\d+)', s)
        if m:
            line = int(m.group(1))
        # strip metadata suffixes
        s0 = re.sub(r'(, ![\w.]+ !\d+)+\s*$', '', s)
        s0 = re.sub(r'\s*,?\s*!srcloc.*$', '', s0)
        dst = None
        m = re.match(r'%("[^"]*"|[\w.$-]+) = (.*)$', s0)
        body = s0
        if m:
            dst = m.group(1).strip('"')
            body = m.group(2)
        op = body.split(None, 1)[0]
        ins = None
        T = self.T
        if op in ('tail', 'musttail', 'notail', 'call'):
            if '@llvm.dbg.' in body or '@llvm.lifetime' in body or '@llvm.experimental.noalias' in body:
                return
            b = re.sub(r'^(tail |musttail |notail )?call ', '', body)
            # callee
            k = self._callee_pos(b)
            if k is None:
                ins = Instr('call', dst, None, [], ('opaque', b))
            else:
                name, argstart, pre = k
                depth = 1
                j = argstart
                inq = False
                while depth:
                    c = b[j]
                    if inq:
                        if c == '"':
                            inq = False
                    elif c == '"':
                        inq = True
                    elif c == '(':
                        depth += 1
                    elif c == ')':
                        depth -= 1
                    j += 1
                args = []
                for a in split_top(b[argstart:j - 1]):
                    if a.startswith('metadata'):
                        continue
                    args.append(self.tyval(a))
                rt = 'void'
                for w in pre.split():
                    if re.match(r'^(void|ptr|double|float|i\d+)$', w):
                        rt = w
                        break
                sret = any('sret(' in a for a in split_top(b[argstart:j - 1])[:1])
                ins = Instr('call', dst, rt, args, (name, sret))
        elif op == 'br':
            m = re.match(r'br label %("[^"]*"|[\w.$-]+)', body)
            if m:
                t = m.group(1).strip('"')
                ins = Instr('br', None, None, [t])
                blk.succs = [t]
            else:
                m = re.match(r'br i1 (.*?), label %("[^"]*"|[\w.$-]+), label %("[^"]*"|[\w.$-]+)', body)
                a, b2 = m.group(2).strip('"'), m.group(3).strip('"')
                ins = Instr('cbr', None, None, [self.val(m.group(1), 'i1'), a, b2])
                blk.succs = [a, b2]
            blk.term = ins
        elif op == 'ret':
            if body.strip() == 'ret void':
                ins = Instr('ret', None, 'void', [])
            else:
                t, v = self.tyval(body[4:])
                ins = Instr('ret', None, t, [v])
            blk.term = ins
        elif op == 'unreachable':
            ins = Instr('unreachable', None, None, [])
            blk.term = ins
        elif op == 'switch':
            m = re.match(r'switch (\S+) (\S+), label %("[^"]*"|[\w.$-]+)\s*\[(.*)\]', body)
            t = m.group(1)
            cases = re.findall(r'\S+ (-?\d+), label %("[^"]*"|[\w.$-]+)', m.group(4))
            ins = Instr('switch', None, t, [self.val(m.group(2), t), m.group(3).strip('"'),
                                             [(int(a), b.strip('"')) for a, b in cases]])
            blk.succs = [ins.args[1]] + [b for _, b in ins.args[2]]
            blk.term = ins
        elif op == 'phi':
            t, rest = T.parse(body[4:])
            inc = re.findall(r'\[ (.*?), %("[^"]*"|[\w.$-]+) \]', rest)
            ins = Instr('phi', dst, t, [(self.val(v, t), b.strip('"')) for v, b in inc])
            ins.line = line
            ins.blk = blk.name
            blk.phis.append(ins)
            return
        elif op == 'getelementptr':
            b = body[len('getelementptr'):].strip()
            b = re.sub(r'^(inbounds |nuw |nusw )*', '', b)
            parts = split_top(b)
            t, _ = T.parse(parts[0])
            ins = Instr('gep', dst, 'ptr', [self.tyval(p) for p in parts[1:]], t)
        elif op == 'load':
            b = re.sub(r'^load (volatile |atomic )?', '', body)
            parts = split_top(b)
            t, _ = T.parse(parts[0])
            ins = Instr('load', dst, t, [self.tyval(ORDER.sub('', parts[1]))[1]])
        elif op == 'store':
            b = re.sub(r'^store (volatile |atomic )?', '', body)
            parts = split_top(b)
            t, v = self.tyval(parts[0])
            ins = Instr('store', None, t, [v, self.tyval(ORDER.sub('', parts[1]))[1]])
        elif op == 'alloca':
            b = re.sub(r'^alloca (inalloca )?', '', body)
            parts = split_top(b)
            t, _ = T.parse(parts[0])
            cnt = ('i', 1)
            for p in parts[1:]:
                if not p.startswith('align') and not p.startswith('addrspace'):
                    cnt = self.tyval(p)[1]
            ins = Instr('alloca', dst, t, [cnt])
        elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                    'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            b = body[len(op):].strip()
            while True:
                m = re.match(r'(nuw|nsw|exact|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|disjoint) ', b)
                if not m:
                    break
                b = b[m.end():]
            parts = split_top(b)
            t, v1 = self.tyval(parts[0])
            ins = Instr(op, dst, t, [v1, self.val(parts[1], t)])
        elif op == 'fneg':
            b = body[4:].strip()
            while True:
                m = re.match(r'(fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) ', b)
                if not m:
                    break
                b = b[m.end():]
            t, v = self.tyval(b)
            ins = Instr('fneg', dst, t, [v])
        elif op in ('icmp', 'fcmp'):
            b = body[4:].strip()
            while True:
                m = re.match(r'(fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|samesign) ', b)
                if not m:
                    break
                b = b[m.end():]
            pred, b = b.split(None, 1)
            parts = split_top(b)
            t, v1 = self.tyval(parts[0])
            ins = Instr(op, dst, t, [v1, self.val(parts[1], t)], pred)
        elif op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast',
                    'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze'):
            b = body[len(op):].strip()
            b = re.sub(r'^(nneg |nuw |nsw )+', '', b)
            if op == 'freeze':
                t, v = self.tyval(b)
                ins = Instr('freeze', dst, t, [v], t)
            else:
                a, t2 = b.rsplit(' to ', 1)
                t, v = self.tyval(a)
                ins = Instr(op, dst, t, [v], T.parse(t2)[0])
        elif op == 'select':
            b = body[6:].strip()
            b = re.sub(r'^((fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )+', '', b)
            parts = split_top(b)
            c = self.tyval(parts[0])[1]
            t, v1 = self.tyval(parts[1])
            v2 = self.tyval(parts[2])[1]
            ins = Instr('select', dst, t, [c, v1, v2])
        elif op == 'extractvalue':
            parts = split_top(body[len('extractvalue'):])
            t, v = self.tyval(parts[0])
            ins = Instr('extractvalue', dst, t, [v], [int(x) for x in parts[1:]])
        else:
            ins = Instr('opaque', dst, None, [], body)
            if op in ('resume', 'invoke', 'indirectbr', 'callbr'):
                ins = Instr('unreachable', None, None, [])
                blk.term = ins
        ins.line = line
        ins.blk = blk.name
        ins.text = body
        if ins is not blk.term:
            blk.instrs.append(ins)

    @staticmethod
    def _callee_pos(b):
        # find @name( at depth 0 outside attribute parens
        m = re.search(r'@("[^"]*"|[\w.$-]+)\(', b)
        m2 = re.search(r'(?<![\w.])%("[^"]*"|[\w.$-]+)\(', b)
        if m:
            return m.group(1).strip('"'), m.end(), b[:m.start()]
        return None

    def _demangle(self):
        names = list(self.funcs) + list(self.decls)
        names = sorted(set(names))
        try:
            r = subprocess.run([CXXFILT], input='\n'.join(names), capture_output=True, text=True, check=True)
            d = r.stdout.split('\n')
        except Exception:
            clangfilt = '/usr/bin/llvm-cxxfilt-18'
            r = subprocess.run([clangfilt], input='\n'.join(names), capture_output=True, text=True, check=True)
            d = r.stdout.split('\n')
        self.dn = dict(zip(names, d))
        for n, f in self.funcs.items():
            f.dname = self.dn[n]
            self.by_dname.setdefault(f.dname, f)
            f.qname = re.sub(r'\(.*$', '', f.dname)
            f.short = re.sub(r'<.*$', '', f.qname).split('::')[-1].split(' ')[-1]
        # file/line for functions
        for f in self.funcs.values():
            if f.dbg is not None:
                s = self.md.get(f.dbg, '')
                m = re.search(r'line: (\d+)', s)
                f.line = int(m.group(1)) if m else None
                f.file = self._scope_file(f.dbg)

    # -- struct member names from debug info
    def members(self, cname):
        """dict member -> (offset bytes, size bytes, base type string) of struct/class cname."""
        tdef = set()
        for k, s in self.md.items():
            if 'DW_TAG_typedef' in s and ('name: "%s"' % cname) in s:
                m = re.search(r'baseType: !(\d+)', s)
                if m:
                    tdef.add(int(m.group(1)))
        for k, s in self.md.items():
            if (s.startswith('!DICompositeType(') or s.startswith('distinct !DICompositeType(')) \
                    and (('name: "%s"' % cname) in s or k in tdef) and 'elements:' in s:
                m = re.search(r'elements: !(\d+)', s)
                if not m:
                    continue
                els = re.findall(r'!(\d+)', self.md.get(int(m.group(1)), ''))
                out = {}
                for e in els:
                    es = self.md.get(int(e), '')
                    if es.startswith('!DIDerivedType(tag: DW_TAG_member'):
                        if 'DIFlagStaticMember' in es:
                            continue
                        nm = re.search(r'name: "([^"]*)"', es)
                        off = re.search(r'offset: (\d+)', es)
                        sz = re.search(r'size: (\d+)', es)
                        bt = re.search(r'baseType: !(\d+)', es)
                        if nm:
                            out[nm.group(1)] = (int(off.group(1)) // 8 if off else 0,
                                                int(sz.group(1)) // 8 if sz else 0,
                                                self._tname(int(bt.group(1))) if bt else '?')
                if out:
                    return out
        return {}

    def _tname(self, i):
        s = self.md.get(i, '')
        m = re.search(r'name: "([^"]*)"', s)
        if s.startswith('!DIBasicType') and m:
            return m.group(1)
        if 'DW_TAG_pointer_type' in s or 'DW_TAG_reference_type' in s:
            b = re.search(r'baseType: !(\d+)', s)
            return (self._tname(int(b.group(1))) if b else 'void') + '*'
        if 'DW_TAG_const_type' in s or 'DW_TAG_volatile_type' in s:
            b = re.search(r'baseType: !(\d+)', s)
            return self._tname(int(b.group(1))) if b else 'void'
        if 'DW_TAG_typedef' in s:
            b = re.search(r'baseType: !(\d+)', s)
            return self._tname(int(b.group(1))) if b else '?'
        if 'DW_TAG_array_type' in s:
            b = re.search(r'baseType: !(\d+)', s)
            cnts = re.search(r'elements: !(\d+)', s)
            d = ''
            if cnts:
                for e in re.findall(r'!(\d+)', self.md.get(int(cnts.group(1)), '')):
                    c = re.search(r'count: (\d+)', self.md.get(int(e), ''))
                    d += '[%s]' % (c.group(1) if c else '?')
            return (self._tname(int(b.group(1))) if b else '?') + d
        return m.group(1) if m else '?'


if __name__ == '__main__':
    import time
    t = time.time()
    txt, srcs = compile_repo()
    print('compile', time.time() - t)
    t = time.time()
    M = Module(txt)
    print('parse', time.time() - t, len(M.funcs), srcs)
    import collections
    c = collections.Counter()
    for f in M.funcs.values():
        for b in f.order:
            for ins in M.blocks_instrs(f, b):
                c[ins.op] += 1
                if ins.op == 'opaque' or (ins.op == 'call' and ins.extra[0] == 'opaque'):
                    print(f.dname, ins)
    print(c)
    print(M.members('micropp_t'))
    print(M.members('gp_t'))
    print(M.members('material_t'), M.members('ell_matrix'))
    for f in M.funcs.values():
        for h, l in f.loops.items():
            if l.parent is None and 'ell_set_bc_2D' in f.dname:
                print(f.dname, l, l.children)
