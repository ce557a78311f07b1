"""C21 (VTU output), C22 (log files) and C23 (grid and phases)."""
import re
from fractions import Fraction
import expr as E
import ctx as X
import interp as I
import libmodel
import model as M
import query as Q
from expr import Poly, C, ZERO, ONE, V, D, D0, D1
from interp import ptr, force, Ptr
from model import NX, NY, NZ, HX, HY, HZ, AnchorError
from harness import check, parallel, REPO
from checks_grid import ENV, defsets, trace
from checks_flow import w_of, Flow, ptrs_of
from checks_elem import nvoi
import checks_safe as S


class Unclear(Exception):
    """the text written by the code has a form the analysis does not understand"""


# ------------------------------------------------------------------ what is written to which file
class File:
    def __init__(self, name, mode, line):
        self.name, self.mode, self.line, self.items = name, mode, line, []


def pobj(p):
    p = I.asptr(force(p))
    if p is None or len(p.alts) != 1 or p.alts[0][1] in (None, I.OPAQUE):
        return None
    return p.alts[0][1]


def strings(it, strs, a):
    """pieces of a string argument: a C string, a std::string, or a number"""
    a = force(a)
    if isinstance(a, (Poly, D)):
        return [('v', a)]
    s = libmodel.cstr(it, a)
    if s is not None:
        return [('t', s)]
    return strs.get(pobj(a))


def files(it, events):
    """the files opened by the traced calls, in order, with everything written to each: [(frames, 't'|'v', content, line)]"""
    out, cur, strs, ss = [], {}, {}, {}
    for e in events:
        v = e.val
        k = v.kind
        if k in ('open', 'str', 'string', 'ssnew', 'filenew') and e.frames:
            if k in ('string', 'ssnew', 'filenew'):
                if k == 'string':
                    strs.pop(pobj(v.args[0]) if v.args else None, None)
                continue
            raise Unclear('a file is opened conditionally or in a loop (line %s)' % (v.line,))
        if k == 'ssnew':
            ss[pobj(v.args[0])] = []
        elif k == 'str':
            strs[pobj(v.args[0])] = list(ss[pobj(v.args[1])]) if ss.get(pobj(v.args[1])) is not None else None
        elif k == 'string':
            a = v.args
            nm = v.name.rstrip('<')
            if nm in ('basic_string', 'operator=', 'assign') and len(a) >= 2:
                strs[pobj(a[0])] = strings(it, strs, a[1])
            elif nm == 'basic_string' and len(a) == 1:
                strs[pobj(a[0])] = []
            elif nm == 'to_string' and len(a) == 2:
                strs[pobj(a[0])] = [('v', force(a[1]))]
            elif nm in ('operator+=', 'append') and len(a) == 2:
                x, y = strs.get(pobj(a[0])), strings(it, strs, a[1])
                strs[pobj(a[0])] = x + y if x is not None and y is not None else None
            elif nm == 'operator+' and len(a) == 3:
                x, y = strings(it, strs, a[1]), strings(it, strs, a[2])
                strs[pobj(a[0])] = x + y if x is not None and y is not None else None
            elif a and not nm.startswith('~') and nm not in ('c_str', 'size', 'length', 'empty', 'data'):
                strs.pop(pobj(a[0]), None)
        elif k == 'open':
            o = pobj(v.args[0])
            n = v.args[1]
            if isinstance(n, tuple):
                n = [strs[q] for q in strs if 'Ptr[<%s>+0]' % q.name == n[1]]
                n = n[-1] if n else None
            else:
                n = [('t', n)]
            f = File(merge(n) if n is not None else None, v.args[2] if len(v.args) > 2 else None, v.line)
            out.append(f)
            cur[o] = f
        elif k == 'close':
            if e.frames:
                raise Unclear('a file is closed conditionally')
            cur.pop(pobj(v.args[0]), None)
        elif k == 'out':
            o = pobj(v.args[0])
            if v.name == 'fmt':
                continue
            if o in ss:
                if ss[o] is not None:
                    ss[o] = ss[o] + [('t' if v.name == 'str' else 'v', v.args[1])] if not e.frames and v.name in ('str', 'val') else None
                continue
            if o in cur:
                if v.name == 'string':
                    n = [strs[q] for q in strs if 'Ptr[<%s>+0]' % q.name == v.args[1][1]]
                    if e.frames or not n or n[-1] is None:
                        raise Unclear('a string of unknown contents is written (line %s)' % (v.line,))
                    for kk, x in n[-1]:
                        cur[o].items.append((e.frames, kk, x, v.line))
                elif v.name == 'str':
                    if v.args[1] == '?':
                        raise Unclear('text of unknown contents is written (line %s)' % (v.line,))
                    cur[o].items.append((e.frames, 't', v.args[1], v.line))
                elif v.name == 'val':
                    cur[o].items.append((e.frames, 'v', v.args[1], v.line))
                else:
                    raise Unclear('unformatted output')
        elif k in ('print', 'fopen', 'ext', 'wildstore'):
            raise Unclear('output through %s' % (v.name or k))
    return out


def merge(pieces):
    out = []
    for k, x in pieces:
        if k == 't' and out and out[-1][0] == 't':
            out[-1] = ('t', out[-1][1] + x)
        else:
            out.append((k, x))
    return out


def tree(items, d=0):
    """nested loop structure of a sequence of (frames, kind, value, line)"""
    out, i = [], 0
    while i < len(items):
        fr = items[i][0]
        if len(fr) == d:
            out.append(items[i][1:])
            i += 1
            continue
        f = fr[d]
        j = i
        while j < len(items) and len(items[j][0]) > d and items[j][0][d] == f:
            j += 1
        body = tree(items[i:j], d + 1)
        if f[0] == 'if':
            if f[1] == ONE:
                out += body
            elif f[1] != ZERO:
                raise Unclear('text written under a condition (%s)' % str(f[1])[:120])
        else:
            if not (f[3] == f[4]):
                raise Unclear('text written by a loop with several exits')
            out.append(('loop', f[2], f[3], body))
        i = j
    return out


class Tok:
    def __init__(self, parts, line):
        self.parts, self.line = parts, line

    def value(self):
        """the number, or None when it is not one"""
        if len(self.parts) == 1 and self.parts[0][0] == 'v':
            return self.parts[0][1]
        if all(k == 't' for k, _ in self.parts):
            s = ''.join(x for _, x in self.parts)
            try:
                return D_const(s)
            except ValueError:
                return None
        return None

    def text(self):
        return ''.join(str(x) for _, x in self.parts)

    def clear(self):
        """certainly not a number: two values, or a value and letters, run together"""
        return not any(k == 'v' and getattr(x, 'unk', False) for k, x in self.parts)


def D_const(s):
    f = Fraction(s)
    return E.dconst(f) if hasattr(E, 'dconst') else E.dfloat(float(f))


WS = ' \t\r\n'


def tokens(nodes):
    """token sequence of a tree: Tok | ('loop', atom, count, tokens); glue: set of problems (values run together)"""
    glue = []

    def walk(ns):
        out, cur, line = [], [], [None]
        lead = [None]          # whether the sequence begins with a separator
        openend = [False]

        def flush():
            if cur:
                out.append(Tok(list(cur), line[0]))
                del cur[:]
        started = False
        first_glued = False
        for n in ns:
            if n[0] == 't':
                if not n[1]:
                    continue
                parts = re.split('([ \t\r\n]+)', n[1])
                for p in parts:
                    if not p:
                        continue
                    if p[0] in WS:
                        flush()
                        openend[0] = False
                        if not started:
                            started = True
                    else:
                        if not started:
                            first_glued = True
                            started = True
                        if openend[0] == 'loop':
                            glue.append(n[2])
                        cur.append(('t', p))
                        line[0] = n[2]
                        openend[0] = True
            elif n[0] == 'v':
                if not started:
                    first_glued = True
                    started = True
                if openend[0] == 'loop':
                    glue.append(n[2])
                cur.append(('v', force(n[1])))
                line[0] = n[2]
                openend[0] = True
            else:
                body, bfirst, blast = walk(n[3])
                if not body:
                    if not n[3]:
                        continue
                    flush()
                    openend[0] = False
                    started = True
                    continue
                if bfirst and openend[0]:
                    glue.append(line[0])
                flush()
                if bfirst and blast and not (n[2] == ONE):
                    glue.append(body[0].line if isinstance(body[0], Tok) else None)
                if not started:
                    first_glued = bfirst
                    started = True
                out.append(('loop', n[1], n[2], body))
                openend[0] = 'loop' if blast else False
        last = bool(openend[0])
        flush()
        return out, first_glued, last
    out, _, _ = walk(nodes)
    return out, glue


def length(toks):
    n = ZERO
    for t in toks:
        n = n + (ONE if isinstance(t, Tok) else t[2] * length(t[3]))
    return n


def place(toks, pos=ZERO):
    """(position, token) of every token, positions as polynomials in the loop counters"""
    for t in toks:
        if isinstance(t, Tok):
            yield pos, t
            pos = pos + 1
        else:
            L = length(t[3])
            if t[1] in [E.A(i) for i in L.atoms()]:
                raise Unclear('the amount of text depends on the loop counter')
            for x in place(t[3], pos + V(t[1]) * L):
                yield x
            pos = pos + t[2] * L


def split(p, n):
    """p = n*q + r with 0 <= r < n constant"""
    q, r = {}, {}
    for k, c in p.t.items():
        if c % n == 0:
            q[k] = c // n
        else:
            r[k] = c
    rr = Poly(r)
    if rr.isconst():
        c = rr.const()
        return Poly(q) + C(c // n), c % n
    a, b = E.pdiv(p, C(n)), E.prem(p, C(n))
    if b.isconst():
        return a, b.const()
    raise Unclear('component of a value depends on the position')


def coords(n, sizes):
    """grid indices of the linear number n"""
    out = []
    for s in sizes[:-1]:
        out.append(E.prem(n, s))
        n = E.pdiv(n, s)
    return out + [n]


# ------------------------------------------------------------------ XML
def xml(f):
    """[(tag, attributes, path, content nodes)] of the elements of a file; attribute values are piece lists"""
    nodes = tree(f.items)
    txt, refs = [], []
    for n in nodes:
        if n[0] == 't':
            txt.append(n[1].replace('\x01', '?'))
        else:
            if n[0] == 'loop' and '<' in str_of(n[3]):
                raise Unclear('tags written inside a loop')
            txt.append('\x01%d\x02' % len(refs))
            refs.append(n)
    s = ''.join(txt)
    els, stack, problems = [], [], []
    pos = 0
    for m in re.finditer(r'<(/?)([?\w!]+)((?:[^<>"]|"[^"]*")*?)(/?)>', s):
        name = m.group(2)
        if name[0] in '?!':
            continue
        line = None
        if m.group(1):
            if not stack or stack[-1]['tag'] != name:
                problems.append('</%s> does not close %s' % (name, '<%s>' % stack[-1]['tag'] if stack else 'anything'))
                while stack and stack[-1]['tag'] != name:
                    stack.pop()
                if not stack:
                    continue
            e = stack.pop()
            e['content'] = s[e['end']:m.start()]
        else:
            at = {}
            for a in re.finditer(r'(\w+)\s*=\s*"([^"]*)"', m.group(3)):
                at[a.group(1)] = a.group(2)
            e = {'tag': name, 'at': at, 'path': tuple(x['tag'] for x in stack), 'end': m.end(), 'content': ''}
            els.append(e)
            if not m.group(4):
                stack.append(e)
    if stack:
        problems.append('<%s> is never closed' % stack[-1]['tag'])
    if not els:
        problems.append('no element is written')

    def nodes_of(t):
        out = []
        for p in re.split('(\x01\\d+\x02)', t):
            if p.startswith('\x01'):
                out.append(refs[int(p[1:-1])])
            elif p:
                out.append(('t', p, None))
        return out
    for e in els:
        e['nodes'] = nodes_of(e['content'])
        e['at'] = {k: nodes_of(v) for k, v in e['at'].items()}
    return els, problems


def str_of(ns):
    return ''.join(n[1] if n[0] == 't' else str_of(n[3]) if n[0] == 'loop' else '' for n in ns)


def attr(e, k):
    """value of an attribute: text, or a Poly"""
    ns = e['at'].get(k)
    if ns is None:
        return None
    if all(n[0] == 't' for n in ns):
        return ''.join(n[1] for n in ns)
    if len(ns) == 1 and ns[0][0] == 'v':
        return force(ns[0][1])
    raise Unclear('attribute %s' % k)


def number(v):
    if isinstance(v, str):
        try:
            return C(int(v))
        except ValueError:
            return None
    return v


# ------------------------------------------------------------------ C21
VTUENV = ENV + ['the file can be created', 'numbers are written with the default precision of six digits']


@check('C21', 'abstract interpretation of write_vtu with every write to the file stream recorded together with the loops it runs in; the '
       'recorded text is parsed as XML and every number of every array, at its position as a polynomial in the loop counters, is '
       'compared with the reference; output is interpreted with the solver replaced by contracts',
       'abstract interpretation with an effect trace (formal text of the output), data-flow contracts', VTUENV, sizes=('3,3,3', '3,4,2'))
def c21(R, tier):
    R.rule('file', 'one file, named micropp_<gauss point>_<time step>.vtu, truncated first')
    R.rule('structure', 'tags are balanced and the required arrays are present, with their declared component counts')
    R.rule('length', 'every array holds exactly one tuple per point or cell')
    R.rule('separated', 'numbers are separated by white space')
    R.rule('values', 'every number is the reference value at its position')
    R.rule('flow', 'output solves for the strain and committed history of the requested point, then evaluates the fields, then writes')
    R.rule('frame', 'output changes no Gauss point')
    for defs in defsets(tier):
        src = M.Source.get(REPO, defs)
        parallel(R, [('vtu', 2), ('vtu', 3), ('flow', 2), ('flow', 3)], lambda R, c: (c21_vtu if c[0] == 'vtu' else c21_flow)(R, src, c[1]))


def written(R, m, f, args, st, rule):
    n0 = len(trace(st))
    r = m.it.call(f, args, st, ('w',))
    if r is I.NORETURN:
        raise AnchorError('%s does not return' % f.short)
    R.fn(m)
    return files(m.it, trace(r[1])[n0:]), r[1]


def c21_vtu(R, src, dim):
    m = M.Inst(src, dim, 0)
    it = m.it
    st = m.generic()
    f = src.fn('write_vtu')
    T, G = E.sym('tstep'), E.sym('gpid')
    w = '%s (%s)' % (src.loc(f), f.short)
    try:
        fs, s2 = written(R, m, f, [ptr(m.this), T, G], st, 'file')
        vtu(R, src, m, dim, fs, w, f, T, G)
    except Unclear as e:
        R.undecided('values', w, str(e))


def vtu(R, src, m, dim, fs, w, f, T, G):
    it = m.it
    case = '%dD' % dim
    if len(fs) != 1:
        if not fs:
            R.bad('file', w, 'no file is opened', None, None, case)
            return
        raise Unclear('%d files are opened' % len(fs))
    F = fs[0]
    if F.name is None:
        R.undecided('file', w, 'file name not resolved')
    else:
        want = [('t', 'micropp_'), ('v', G), ('t', '_'), ('v', T), ('t', '.vtu')]
        if len(F.name) == 5 and all(a[0] == b[0] and (a[1] == b[1]) for a, b in zip(F.name, want)):
            R.ok('file')
        else:
            R.bad('file', w, 'wrong file name', want, F.name, case)
    md = force(F.mode) if F.mode is not None else C(16)
    if isinstance(md, Poly) and md.isconst():
        if md.const() & 3:
            R.bad('file', w, 'the file is not truncated', None, md, case)
        else:
            R.ok('file')
    els, problems = xml(F)
    for p in problems:
        R.bad('structure', w, 'malformed file: %s' % p, None, None, case)
    if problems:
        return
    R.ok('structure')
    nz = ONE if dim == 2 else NZ
    ne = (NX - 1) * (NY - 1) * (ONE if dim == 2 else NZ - 1)
    nn = NX * NY * nz
    nv = nvoi(dim)
    npe = 4 if dim == 2 else 8
    pc = [e for e in els if e['tag'] == 'Piece']
    if len(pc) != 1:
        R.bad('structure', w, '%d Piece elements' % len(pc), 1, len(pc), case)
        return
    for k, n in (('NumberOfPoints', nn), ('NumberOfCells', ne)):
        v = number(attr(pc[0], k))
        if v is None:
            R.bad('structure', w, 'attribute %s is missing' % k, n, None, case)
        else:
            R.eq('structure', w, v, n, None, case, '%s is wrong' % k)
    root = [e for e in els if not e['path']]
    if len(root) != 1 or root[0]['tag'] != 'VTKFile' or attr(root[0], 'type') != 'UnstructuredGrid' or \
            pc[0]['path'] != ('VTKFile', 'UnstructuredGrid'):
        R.bad('structure', w, 'not an UnstructuredGrid file', None, [e['tag'] for e in root], case)
    buf = m.buf

    def ini(o, off, ty='double'):
        return it.init_value(buf[o], off, ty)

    def node(n):
        i = coords(n, [NX, NY] if dim == 2 else [NX, NY, NZ])
        return i + [ZERO] * (3 - dim)

    def vec(o):
        return lambda n, c: ini(o, (n * dim + c) * 8) if c < dim else D0

    def conn(e, c):
        x = coords(e, [NX - 1, NY - 1] if dim == 2 else [NX - 1, NY - 1, NZ - 1])
        x = x + [ZERO] * (3 - dim)
        d = ((0, 0), (1, 0), (1, 1), (0, 1))[c % 4]
        return (x[2] + c // 4) * NX * NY + (x[1] + d[1]) * NX + x[0] + d[0]

    def hist(e, g, v):
        return ini('vars_old', (e * 56 + g * 7 + v) * 8)

    def plast(e, c):
        if dim == 2:
            return D0
        s = D0
        for g in range(8):
            a = [hist(e, g, v) for v in range(6)]
            s = s + E.sqrt(sum2(a))
        return s / E.dfloat(8.0)

    def sum2(a):
        r = D0
        for i, x in enumerate(a):
            r = r + x * x * E.dfloat(1.0 if i < 3 else 2.0)
        return r

    def hard(e, c):
        if dim == 2:
            return D0
        s = D0
        for g in range(8):
            s = s + hist(e, g, 6)
        return s / E.dfloat(8.0)
    arrays = {
        ('Points', None): (nn, 3, 'Float', lambda n, c: E.i2d(node(n)[c]) * (HX, HY, HZ)[c]),
        ('Cells', 'connectivity'): (ne, npe, 'Int', conn),
        ('Cells', 'offsets'): (ne, 1, 'Int', lambda e, c: (e + 1) * npe),
        ('Cells', 'types'): (ne, 1, 'Int', lambda e, c: C(9 if dim == 2 else 12)),
        ('PointData', 'displ'): (nn, 3, 'Float', vec('u')),
        ('PointData', 'b'): (nn, 3, 'Float', vec('b')),
        ('CellData', 'strain'): (ne, nv, 'Float', lambda e, c: ini('elem_strain', (e * nv + c) * 8)),
        ('CellData', 'stress'): (ne, nv, 'Float', lambda e, c: ini('elem_stress', (e * nv + c) * 8)),
        ('CellData', 'elem_type'): (ne, 1, 'Int', lambda e, c: ini('elem_type', e * 4, 'i32')),
        ('CellData', 'plasticity'): (ne, 1, 'Float', plast),
        ('CellData', 'hardening'): (ne, 1, 'Float', hard),
    }
    for (sec, name), (N, nc, ty, want) in arrays.items():
        l = [e for e in els if e['tag'] == 'DataArray' and e['path'][-1:] == (sec,) and (name is None or attr(e, 'Name') == name)]
        if len(l) != 1 or 'Piece' not in l[0]['path']:
            R.bad('structure', w, 'array %s occurs %d times in %s' % (name or 'of coordinates', len(l), sec), 1, len(l), case)
            continue
        e = l[0]
        t = attr(e, 'type') or ''
        if attr(e, 'format') != 'ascii' or not isinstance(t, str) or not (t.startswith(ty) or (ty == 'Int' and t.startswith('UInt')) or
                                                                          (ty == 'Int' and sec == 'CellData')):
            R.bad('structure', w, 'array %s is declared as %s %s' % (name, t, attr(e, 'format')), ty, t, case)
        k = number(attr(e, 'NumberOfComponents')) if 'NumberOfComponents' in e['at'] else ONE
        R.eq('structure', w, k, ONE if sec == 'Cells' else C(nc), None, case, 'array %s declares a wrong number of components' % name)
        ar = '%s %s' % (case, name or 'Points')
        toks, glue = tokens(e['nodes'])
        if glue:
            R.bad('separated', w, 'numbers of array %s run together' % (name or 'Points'), None, None, ar)
            continue
        R.ok('separated')
        L = length(toks)
        R.eq('length', w, L, N * nc, None, ar, 'array %s holds a wrong number of values' % (name or 'Points'))
        for p, t in place(toks):
            loc = '%s:%s (%s)' % (t.line[0].split('/repo/')[-1], t.line[1], f.short) if t.line else w
            v = t.value()
            if v is None:
                if len(t.parts) > 1 or t.parts[0][0] == 't':
                    R.bad('separated', loc, 'array %s: "%s" is not a number' % (name, t.text()[:60]), None, t.text()[:60], ar)
                else:
                    R.undecided('values', loc, 'token not understood')
                continue
            n, c = split(p, nc)
            u = want(n, c)
            if isinstance(u, D) and isinstance(v, Poly):
                v = E.i2d(v)
            if isinstance(u, Poly) and isinstance(v, D):
                u = E.i2d(u)
            R.eq('values', loc, v, u, None, '%s component %d' % (ar, c), 'array %s: wrong value' % (name or 'Points'), softok=True)
    R.sample('%s: %d XML elements, arrays %s' % (case, len(els), [k[1] or 'Position' for k in arrays]))


def c21_flow(R, src, dim):
    n = 2
    F = Flow(src, dim, n)
    m, it = F.m, F.it
    f = src.fn('output')
    w = w_of(src, f)
    gh = it.obj(('ghost2',), C(256), 'sym', 'arg', 'ghost2')
    nv = F.nv
    st = F.st.copy()
    for o in (0, 4, 8, 12):
        it.store(st, ptr(gh, C(o)), ZERO, 'i32')
    nstrain = [0]

    def displ(it, st, fn, args, path, line):
        it.store(st, ptr(gh, C(4)), ZERO, 'i32', line)
        it.store(st, ptr(gh, C(8)), ZERO, 'i32', line)
        return F.h_displ(it, st, fn, args, path, line)

    def newton(it, st, fn, args, path, line):
        r = F.h_newton(it, st, fn, args, path, line)
        it.store(st, ptr(gh, C(8)), ZERO, 'i32', line)
        it.store(st, ptr(gh, C(4)), ONE, 'i32', line)
        it.store(st, ptr(gh, C(24)), F.vo(it, st), 'double', line)
        return r

    def fields(it, st, fn, args, path, line):
        it.store(st, ptr(gh, C(8)), it.load(st, ptr(gh, C(4)), 'i32'), 'i32', line)
        for v in range(nv):
            it.store(st, ptr(gh, C(64 + 8 * v)), it.load(st, ptr(F.ghost, C(8 * v)), 'double'), 'double', line)
        it.store(st, ptr(gh, C(32)), F.vo(it, st), 'double', line)
        return None

    def vtu_(it, st, fn, args, path, line):
        c = force(it.load(st, ptr(gh, C(0)), 'i32'))
        it.store(st, ptr(gh, C(0)), c + 1, 'i32', line)
        it.store(st, ptr(gh, C(12)), it.load(st, ptr(gh, C(8)), 'i32'), 'i32', line)
        a = [force(x) for x in args if isinstance(force(x), Poly)]
        if len(a) != 2:
            raise AnchorError('unexpected signature of write_vtu')
        it.store(st, ptr(gh, C(16)), a[0], 'i32', line)
        it.store(st, ptr(gh, C(20)), a[1], 'i32', line)
        it.store(st, ptr(gh, C(40)), F.vo(it, st), 'double', line)
        for v in range(nv):
            it.store(st, ptr(gh, C(128 + 8 * v)), it.load(st, ptr(F.ghost, C(8 * v)), 'double'), 'double', line)
        return None
    it.opaque.update(set_displ=displ, newton_raphson=newton, calc_fields=fields, write_vtu=vtu_)
    T, G = E.sym('tstep'), E.sym('gpid')
    rv, s2 = S.call(m, f, [ptr(m.this), T, G], st)
    R.fn(m)
    ids = [it.init_value(F.g, C(F.off(k, 'id')), 'i32') for k in range(n)]
    hit = [E.eq0(ids[k] - G) for k in range(n)]
    free = ONE
    cnt = force(it.load(s2, ptr(gh, C(0)), 'i32'))
    any_ = ONE - (ONE - hit[0]) * (ONE - hit[1])
    R.eq('flow', w, cnt, any_, None, '%dD, number of files written' % dim, 'output does not write exactly one file for a known point and none otherwise', softok=True)
    sel = [('first point', {Q._id(hit[0]): ONE}, 0), ('second point', {Q._id(hit[0]): ZERO, Q._id(hit[1]): ONE}, 1)]
    for nm, mp, k in sel:
        def Z(v):
            return I.resimp(I.sub(E.Subst(mp), force(v)))
        case = '%dD, %s' % (dim, nm)
        g = ONE
        for i, c in mp.items():
            g = g * (V(E.A(i)) if c == ONE else ONE - V(E.A(i)))
        R.guard = g
        R.eq('flow', w, Z(it.load(s2, ptr(gh, C(12)), 'i32')), ONE, None, case, 'fields are not evaluated for the solved state')
        R.eq('flow', w, Z(it.load(s2, ptr(gh, C(16)), 'i32')), T, None, case, 'wrong time step handed on')
        R.eq('flow', w, Z(it.load(s2, ptr(gh, C(20)), 'i32')), G, None, case, 'wrong Gauss point number handed on')
        for o, what in ((24, 'solve'), (32, 'evaluation of the fields'), (40, 'writing')):
            R.eq('flow', w, Z(it.load(s2, ptr(gh, C(o)), 'double')), Z(F.committed(k)), None, case,
                 'the %s does not use the committed history of the point' % what)
        eps = F.strain(k)
        for v in range(nv):
            for o in (64, 128):
                R.eq('flow', w, Z(it.load(s2, ptr(gh, C(o + 8 * v)), 'double')), eps[v], None, case, 'the strain is not that of the requested point')
        R.guard = None
    # frame: the points stay as they were
    for k in range(n):
        for fl, cnt_, ty, sz in (('id', 1, 'i32', 4), ('nr_its', 7, 'i32', 4), ('macro_strain', 6, 'double', 8), ('macro_stress', 6, 'double', 8),
                                 ('macro_ctan', 36, 'double', 8), ('nr_err', 7, 'double', 8), ('inv_max', 1, 'double', 8),
                                 ('int_vars_n', 1, 'ptr', 8), ('int_vars_k', 1, 'ptr', 8)):
            for i in range(cnt_):
                R.eq('frame', w, F.ld(s2, k, fl, sz * i, ty), F.ld(F.st, k, fl, sz * i, ty), None, '%dD point %d %s[%d]' % (dim, k, fl, i),
                     'output changes %s of a point' % fl)
        for nm, h in (('committed', F.hn), ('trial', F.hk)):
            R.eq('frame', w, m.ld(s2, h[k], F.ix * 8), it.init_value(h[k], F.ix * 8, 'double'), None, '%dD point %d' % (dim, k),
                 'output changes the %s history' % nm)
    R.eq('frame', w, force(it.load(s2, ptr(m.this, C(m.off('gauss_list') + 16)), 'i64')), C(n), None, '%dD' % dim, 'output changes the list of points')


# ------------------------------------------------------------------ C22
@check('C22', 'abstract interpretation of write_info_files (and of the file handling of the constructor) with every write recorded; the '
       'token sequence of every file is compared with the reference for lists of points in all combinations of the history state',
       'abstract interpretation with an effect trace (formal text of the output)', VTUENV, sizes=('3,3,3',))
def c22(R, tier):
    R.rule('files', 'each call appends to the three log files; the constructor empties them')
    R.rule('header', 'comment lines are written by the first call only, and list the point numbers')
    R.rule('row', 'each call adds exactly one line with one group per Gauss point, in list order')
    R.rule('values', 'every number is the reference value')
    R.rule('materials', 'micropp_materials.dat holds E, nu, Sy, Ka of each phase, one line per phase')
    R.rule('frame', 'writing the files changes nothing but the header mark')
    for defs in defsets(tier):
        src = M.Source.get(REPO, defs)
        cs = [(dim, n, hd, nulls) for dim in (2, 3) for n, nulls in ((0, ()), (1, (0,)), (2, (0, 1)), (3, (1, 0, 1))) for hd in (0, 1)]
        parallel(R, cs + [('ctor', 2), ('ctor', 3)], lambda R, c: c22_ctor(R, src, c[1]) if c[0] == 'ctor' else c22_one(R, src, *c))


def lines_of(toks):
    return toks


def info(F, name, hd, nulls):
    """reference token list of a file: ('v', value) | ('t', text) | ('rep', count, f)"""
    st, n = F.st, F.n
    row = []
    for k in range(n):
        if name == 'micropp_convergence.dat':
            row.append(('v', C(0 if nulls[k] else 1)))
            row.append(('v', F.ld(st, k, 'inv_max')))
            for i in range(1 + F.nv):
                row.append(('v', F.ld(st, k, 'nr_its', 4 * i, 'i32')))
                row.append(('v', F.ld(st, k, 'nr_err', 8 * i)))
        elif name == 'micropp_eps_sig_ctan.dat':
            for fl, c in (('macro_strain', 6), ('macro_stress', 6), ('macro_ctan', 36)):
                for i in range(c):
                    row.append(('v', F.ld(st, k, fl, 8 * i)))
        else:
            row.append(('rep', F.num, (lambda k: lambda i: D0 if nulls[k] else F.it.init_value(F.hn[k], i * 8, 'double'))(k)))
        row.append(('t', '|'))
    return row


def c22_one(R, src, dim, n, hd, nulls):
    F = Flow(src, dim, n)
    m, it = F.m, F.it
    st = F.st.copy()
    w0 = st.wos(m.this)
    w0.cells[m.off('output_files_header')] = (1, C(hd))
    mp = {Q._id(F.null[k]): C(nulls[k]) for k in range(n)}
    on, ok = F.gm['int_vars_n'][0], F.gm['int_vars_k'][0]
    for k in range(n):
        for o, h in ((on, F.hn), (ok, F.hk)):
            it.store(st, ptr(F.g, C(k * F.GS + o)), I.NULL if nulls[k] else ptr(h[k]), 'ptr')
    F.st = st
    st0 = st.copy()
    f = src.fn('write_info_files')
    w = '%s (%s)' % (src.loc(f), f.short)
    case = '%dD, %d points, %s' % (dim, n, 'later call' if hd else 'first call')
    try:
        fs, s2 = written(R, m, f, [ptr(m.this)], st.copy(), 'files')
        content = {}
        for x in fs:
            if x.name is None or len(x.name) != 1 or x.name[0][0] != 't':
                raise Unclear('file name not resolved')
            nm = x.name[0][1]
            md = force(x.mode) if x.mode is not None else C(16)
            if not (isinstance(md, Poly) and md.isconst()):
                raise Unclear('open mode not resolved')
            if not md.const() & 1:
                if nm in NAMES:
                    R.bad('files', w, '%s is not opened for appending' % nm, None, md, case)
                content[nm] = []
            content.setdefault(nm, [])
            content[nm] += x.items
        for nm in NAMES:
            if nm not in content:
                R.bad('files', w, '%s is not written' % nm, None, sorted(content), case)
                continue
            R.ok('files')
            c22_file(R, F, nm, content[nm], hd, nulls, w, case)
        h = force(it.load(s2, ptr(m.this, C(m.off('output_files_header'))), 'i8'))
        R.eq('header', w, h, ONE, None, case, 'the header mark is not set')
        for k in range(n):
            for fl, cnt_, ty, sz in (('id', 1, 'i32', 4), ('nr_its', 7, 'i32', 4), ('macro_strain', 6, 'double', 8), ('macro_stress', 6, 'double', 8),
                                     ('macro_ctan', 36, 'double', 8), ('nr_err', 7, 'double', 8), ('inv_max', 1, 'double', 8),
                                     ('int_vars_n', 1, 'ptr', 8), ('int_vars_k', 1, 'ptr', 8)):
                for i in range(cnt_):
                    R.eq('frame', w, F.ld(s2, k, fl, sz * i, ty), F.ld(st0, k, fl, sz * i, ty), None, '%s %s[%d] of point %d' % (case, fl, i, k),
                         'writing changes %s of a point' % fl)
    except Unclear as e:
        R.undecided('values', w, '%s: %s' % (case, e))


NAMES = ('micropp_convergence.dat', 'micropp_eps_sig_ctan.dat', 'micropp_int_vars_n.dat')


def rows(nodes):
    """lines of a text: list of node lists; a newline inside a loop is not resolved"""
    out = [[]]
    for n in nodes:
        if n[0] == 't':
            ps = n[1].split('\n')
            for i, p in enumerate(ps):
                if i:
                    out.append([])
                if p:
                    out[-1].append(('t', p) + tuple(n[2:]))
        else:
            if n[0] == 'loop' and '\n' in str_of(n[3]):
                raise Unclear('line breaks inside a loop')
            out[-1].append(n)
    return out


def c22_file(R, F, name, items, hd, nulls, w, case):
    ls = rows(tree(items))
    tail = ls.pop()
    case = '%s, %s' % (case, name)
    if tail and any(n[0] != 't' or n[1].strip() for n in tail):
        R.bad('row', w, '%s: the row is not terminated by a line break' % name, None, None, case)
        return
    head = [l for l in ls if l and l[0][0] == 't' and l[0][1].lstrip().startswith('#')]
    data = [l for l in ls if l not in head and any(n[0] != 't' or n[1].strip() for n in l)]
    empty = [l for l in ls if l not in head and l not in data]
    if head and hd:
        R.bad('header', w, '%s: a comment line is written again by a later call' % name, None, None, case)
    if not hd and name != NAMES[2]:
        ids = [F.ld(F.st, k, 'id', 0, 'i32') for k in range(F.n)]
        good = False
        for l in head:
            t, _ = tokens(l)
            vals = [x.parts[0][1] for x in t if isinstance(x, Tok) and len(x.parts) == 1 and x.parts[0][0] == 'v']
            if vals == ids:
                good = True
        if not head:
            R.bad('header', w, '%s: the first call writes no header' % name, None, None, case)
        elif good:
            R.ok('header')
        else:
            R.bad('header', w, '%s: no comment line lists the point numbers' % name, ids, str(head)[:200], case)
    if F.n and len(data) != 1:
        R.bad('row', w, '%s: a call adds %d lines of data' % (name, len(data)), 1, len(data), case)
        return
    if F.n == 0:
        if data:
            R.bad('row', w, '%s: data without points' % name, None, str(data)[:200], case)
        else:
            R.ok('row')
        return
    R.ok('row')
    if head and ls.index(data[0]) < max(ls.index(h) for h in head):
        R.bad('header', w, '%s: a comment line follows the data' % name, None, None, case)
    toks, glue = tokens(data[0])
    if glue:
        R.bad('values', w, '%s: numbers run together' % name, None, None, case)
        return
    row = info(F, name, hd, nulls)
    need = ZERO
    for x in row:
        need = need + (x[1] if x[0] == 'rep' else ONE)
    if not R.eq('row', w, length(toks), need, None, case, '%s: wrong number of entries in the row' % name):
        return
    # position of every reference entry
    starts, pos = [], ZERO
    for x in row:
        starts.append(pos)
        pos = pos + (x[1] if x[0] == 'rep' else ONE)
    for p, t in place(toks):
        j = None
        for i, x in enumerate(row):
            d = p - starts[i]
            n_ = x[1] if x[0] == 'rep' else ONE
            if X.pn(d) and X.pn(n_ - 1 - d):
                j = i
                break
        if j is None:
            R.undecided('values', w, '%s: position %s not resolved (%s)' % (name, p, case))
            continue
        x = row[j]
        if x[0] == 't':
            if t.text() != x[1]:
                R.bad('row', w, '%s: group separator missing' % name, x[1], t.text()[:80], case)
            continue
        want = x[1] if x[0] == 'v' else x[2](p - starts[j])
        v = t.value()
        if v is None:
            R.bad('values', w, '%s: "%s" is not a number' % (name, t.text()[:60]), want, t.text()[:60], case)
            continue
        if isinstance(want, D) and isinstance(v, Poly):
            v = E.i2d(v)
        if isinstance(want, Poly) and isinstance(v, D):
            want = E.i2d(want)
        loc = '%s:%s (%s)' % (t.line[0].split('/repo/')[-1], t.line[1], 'write_info_files') if t.line else w
        R.eq('values', loc, v, want, None, '%s entry %s' % (case, p), '%s: wrong value' % name)
    R.sample('%s: %s entries' % (case, need))


def c22_ctor(R, src, dim):
    m = M.Inst(src, dim, 0)
    it = m.it
    f = src.fn('micropp_t')
    w = '%s (%s)' % (src.loc(f), 'constructor')
    case = '%dD constructor' % dim
    R.fn(m)
    try:
        fs = files(it, trace(m.ctor_st))
        seen = {}
        for x in fs:
            if x.name is None or len(x.name) != 1 or x.name[0][0] != 't':
                raise Unclear('file name not resolved')
            md = force(x.mode) if x.mode is not None else C(16)
            if not (isinstance(md, Poly) and md.isconst()):
                raise Unclear('open mode not resolved')
            if md.const() & 3:
                seen.setdefault(x.name[0][1], [None]).extend(x.items)
            else:
                seen[x.name[0][1]] = list(x.items)
        for nm in NAMES:
            if seen.get(nm) == []:
                R.ok('files')
            else:
                R.bad('files', w, '%s is not left empty by the constructor' % nm, 'empty', str(seen.get(nm, 'untouched'))[:100], case)
        nm = 'micropp_materials.dat'
        if nm not in seen or None in seen[nm]:
            R.bad('materials', w, '%s is not written afresh' % nm, None, None, case)
            return
        ls = rows(tree(seen[nm]))
        ls = [l for l in ls if any(n[0] != 't' or n[1].strip() for n in l)]
        if len(ls) != 2:
            R.bad('materials', w, '%s holds %d lines for two phases' % (nm, len(ls)), 2, len(ls), case)
            return
        pa = it.obj(('params',), C(160), 'sym', 'arg', 'params')
        for i, l in enumerate(ls):
            toks, glue = tokens(l)
            vals = [t.value() if isinstance(t, Tok) else None for t in toks]
            if glue or len(vals) != 4 or any(v is None for v in vals):
                R.bad('materials', w, 'line %d of %s does not hold four numbers' % (i + 1, nm), 4, [t.text() if isinstance(t, Tok) else '...' for t in toks], case)
                continue
            for j, v in enumerate(vals):
                R.eq('materials', w, v, it.init_value(pa, C(80 * i + 8 * j), 'double'), None, '%s phase %d' % (case, i + 1), 'wrong parameter of phase %d' % (i + 1))
    except Unclear as e:
        R.undecided('files', w, '%s: %s' % (case, e))


# ------------------------------------------------------------------ C23
@check('C23', 'abstract interpretation of the constructor with symbolic sizes, lengths, width and material tables; the derived quantities and '
       'the phase stored for an arbitrary element are compared with the reference',
       'abstract interpretation (value numbering, array data-flow)', ENV + ['micro_type is 0 or 1, the documented values'])
def c23(R, tier):
    R.rule('grid', 'node spacings, counts and sizes are those of the requested grid over the cell lx x ly (x lz)')
    R.rule('phase', 'the phase of every element follows from the position of its centre')
    for defs in defsets(tier):
        src = M.Source.get(REPO, defs)
        parallel(R, [(dim, mt) for dim in (2, 3) for mt in (0, 1)], lambda R, c: c23_one(R, src, *c))


def c23_one(R, src, dim, mt):
    m = M.Inst(src, dim, mt)
    it = m.it
    st = m.ctor_st
    f = src.fn('micropp_t')
    w = '%s (%s)' % (src.loc(f), 'constructor')
    R.fn(m)
    case = '%dD micro_type %d' % (dim, mt)
    nz = ONE if dim == 2 else NZ
    ne = (NX - 1) * (NY - 1) * (ONE if dim == 2 else NZ - 1)
    lx, ly, lz = HX * E.i2d(NX - 1), HY * E.i2d(NY - 1), HZ * E.i2d(NZ - 1) if dim == 3 else D0
    ref = [('dim', C(dim)), ('nx', NX), ('ny', NY), ('nz', nz), ('nn', NX * NY * nz), ('npe', C(4 if dim == 2 else 8)), ('nvoi', C(nvoi(dim))),
           ('nelem', ne), ('micro_type', C(mt)), ('num_int_vars', ne * 56), ('lx', lx), ('ly', ly), ('dx', HX), ('dy', HY), ('width', E.dsym('width')),
           ('inv_tol', E.dsym('inv_tol'))]
    if dim == 3:
        ref += [('lz', lz), ('dz', HZ)]
    for n, v in ref:
        if n not in m.mem:
            R.undecided('grid', w, 'member %s not found' % n)
            continue
        R.eq('grid', w, m.get(n, st), v, None, '%s %s' % (case, n), 'member %s is wrong' % n)
    o = m.field('elem_type', st)
    half = E.dfloat(0.5)
    for e, mp in Q.generic_elems(dim):
        def fn(g, e=e):
            x = [(E.i2d(e[0]) + half) * HX, (E.i2d(e[1]) + half) * HY, (E.i2d(e[2]) + half) * HZ]
            num = e[0] + e[1] * (NX - 1) + (e[2] * (NX - 1) * (NY - 1) if dim == 3 else ZERO)
            wd = E.dsym('width')
            if mt == 0:
                s = D0
                for a, L in zip(range(dim), (lx, ly, lz)):
                    c = L * half - x[a]
                    s = s + c * c
                want = E.flt0(s - wd * wd)
            else:
                want = E.flt0(x[1] - wd)
            return m.ld(st, o, num * 4, 'i32'), want
        Q.decide(R, 'phase', w, fn, mp, '%s element (%s, %s, %s)' % (case, e[0], e[1], e[2]), 'wrong phase', softok=True)
    R.sample('%s: %d members, one arbitrary element' % (case, len(ref)))
