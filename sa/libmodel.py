"""Effect models of library functions (C library, iostreams, std::list<gp_t>)."""
import re
import expr as E
import ctx as X
import interp as I
from expr import Poly, C, ZERO, ONE, V, D
from interp import (Ptr, ptr, NULL, force, OS, Event, NORETURN, Opaque, OPAQUE, Obj, asptr, TRACE, Node, Entry, Lazy, vite)

BIG = V(E.atom('BIG', ('inst',), name='BIG'))
X.BIGS[list(BIG.atoms())[0]] = True

GPSIZE = [496]


def heap(it, st, size, zero, path, line, what):
    key = ('heap', path)
    n = st.occ.get(key, 0)
    st.occ[key] = n + 1
    o = it.obj(key + (n,), size, 'zero' if zero else 'undef', 'heap', '%s@%s:%s#%d' % (what, line[0].split('/')[-1] if line else '?', line[1] if line else 0, n), line)
    off = ZERO
    for k, (uid, t, Tu) in enumerate(it.loopstack):
        off = off + (BIG * V(t) if k == len(it.loopstack) - 1 else BIG * V(t) * (k + 2))
    if o not in st.mem:
        st.mem[o] = OS({}, None, st.tok)
    elif not it.loopstack:
        st.mem[o] = OS({}, None, st.tok)
    p = ptr(o, off)
    if it.ownhook:
        it.ownhook(it, st, 'alloc', what, p, line)
    st.event(Event('alloc', what, (p, size), None, path, line, it.cur), line)
    return p


def gplist(it, listptr):
    """array object modelling the elements of a std::list; key = address of the list object"""
    p = force(listptr)
    c, o, off = p.alts[0]
    key = ('list', o.key, off)
    g = it.objs.get(key)
    if g is None:
        g = it.obj(key, None, 'sym', 'list', 'gauss' if True else '')
        it.listhook(g, o, off) if hasattr(it, 'listhook') else None
    return g, o, off


def list_n(it, st, o, off):
    return it.load(st, ptr(o, off + 16), 'i64')


def elem_size(dn):
    return GPSIZE[0]


def call(it, st, name, dn, ins, args, path, fr):
    line = ins.line
    # ---- intrinsics
    if name.startswith('llvm.'):
        if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.donothing', 'llvm.experimental.noalias', 'llvm.va_')):
            return Opaque(name)
        if name.startswith(('llvm.fmuladd', 'llvm.fma')):
            return E.add(E.mul(it.dv(args[0]), it.dv(args[1])), it.dv(args[2]))
        if name.startswith('llvm.fabs'):
            return E.fabs(it.dv(args[0]))
        if name.startswith('llvm.sqrt'):
            return E.sqrt(it.dv(args[0]))
        if name.startswith('llvm.memset'):
            b = force(args[1])
            it.memset(st, force(args[0]), b.const() if isinstance(b, Poly) and b.isconst() else 1, it.iv(args[2]), line)
            return None
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            it.memcpy(st, force(args[0]), force(args[1]), it.iv(args[2]), line)
            return None
        if name.startswith(('llvm.trap', 'llvm.ubsantrap')):
            return NORETURN
        if name.startswith('llvm.abs'):
            x = it.iv(args[0])
            n = E.lt0(x)
            return E.pite(n, -x, x)
        if name.startswith(('llvm.smax', 'llvm.umax')):
            x, y = it.iv(args[0]), it.iv(args[1])
            return E.pite(E.lt0(x - y), y, x)
        if name.startswith(('llvm.smin', 'llvm.umin')):
            x, y = it.iv(args[0]), it.iv(args[1])
            return E.pite(E.lt0(x - y), x, y)
        if name.startswith(('llvm.maxnum', 'llvm.minnum')):
            x, y = it.dv(args[0]), it.dv(args[1])
            c = E.flt0(E.sub(x, y))
            return E.ite(c, y, x) if 'max' in name else E.ite(c, x, y)
        if name.startswith('llvm.pow'):
            return power(it, args)
        return opaque_call(it, st, name, dn, ins, args, path)
    # ---- C library
    if name == 'malloc':
        return heap(it, st, it.iv(args[0]), False, path, line, 'malloc')
    if name == 'calloc':
        return heap(it, st, it.iv(args[0]) * it.iv(args[1]), True, path, line, 'calloc')
    if name in ('_Znwm', '_Znam'):
        return heap(it, st, it.iv(args[0]), False, path, line, 'new' if name == '_Znwm' else 'new[]')
    if name == 'realloc':
        p = asptr(force(args[0]))
        np = heap(it, st, it.iv(args[1]), False, path, line, 'realloc')
        if p is not None and len(p.alts) == 1 and p.alts[0][1] is not None:
            o = p.alts[0][1]
            w = st.wos(np.alts[0][1])
            w.chain = Node(Entry('copy', np.alts[0][2], 1, (it.iv(args[1]), o, st.chain(o), p.alts[0][2]), (), line), w.as_chain())
            w.cells = None
            if it.ownhook:
                it.ownhook(it, st, 'free', 'realloc', p, line)
            st.event(Event('free', 'realloc', (p,), None, path, line, it.cur), line)
        return np
    if name in ('free', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm'):
        how = {'free': 'free', '_ZdlPv': 'delete', '_ZdlPvm': 'delete'}.get(name, 'delete[]')
        if it.ownhook:
            it.ownhook(it, st, 'free', how, force(args[0]), line)
        st.event(Event('free', how, (force(args[0]),), None, path, line, it.cur), line)
        return None
    if name in ('__assert_fail', 'abort', 'exit', '_exit', '_ZSt9terminatev', '__cxa_throw', '__clang_call_terminate', '_Unwind_Resume', '__cxa_rethrow'):
        st.event(Event('abort', name, (), None, path, line, it.cur), line)
        return NORETURN
    if name in ('sqrt', 'sqrtf') or dn.startswith('std::sqrt('):
        return E.sqrt(it.dv(args[0]))
    if name in ('fabs', 'fabsf') or dn.startswith(('std::fabs(', 'std::abs(double')):
        return E.fabs(it.dv(args[0]))
    if name == 'pow' or dn.startswith('std::pow'):
        return power(it, args)
    if name in ('hypot', 'fmax', 'fmin', 'exp', 'log', 'sin', 'cos', 'tan', 'floor', 'ceil', 'cbrt', 'fmod'):
        if name in ('fmax', 'fmin'):
            x, y = it.dv(args[0]), it.dv(args[1])
            c = E.flt0(E.sub(x, y))
            return E.ite(c, y, x) if name == 'fmax' else E.ite(c, x, y)
        if name == 'hypot':
            x, y = it.dv(args[0]), it.dv(args[1])
            return E.sqrt(E.add(E.mul(x, x), E.mul(y, y)))
        return E.fcall(name, [it.dv(a) for a in args])
    if name in ('memset',):
        b = force(args[1])
        it.memset(st, force(args[0]), b.const() if isinstance(b, Poly) and b.isconst() else 1, it.iv(args[2]), line)
        return args[0]
    if name in ('memcpy', 'memmove'):
        it.memcpy(st, force(args[0]), force(args[1]), it.iv(args[2]), line)
        return args[0]
    # ---- std::list
    if 'gp_t' in dn:
        r = list_call(it, st, name, dn, ins, args, path, fr)
        if r is not NotImplemented:
            return r
    # ---- std::max/min/fill/copy etc. with a body in the module: analyse the body
    fn = it.mod.funcs.get(name)
    if fn is not None and inlinable(dn):
        r = it.call(fn, args, st, path)
        if r is NORETURN:
            return NORETURN
        rv, st2 = r
        # graft resulting state into st (same identity expected by the caller)
        st.mem = st2.mem
        st.pc = st2.pc
        st.occ = st2.occ
        st.tok = object()
        return rv
    # ---- iostreams
    r = io_call(it, st, name, dn, ins, args, path, fr)
    if r is not NotImplemented:
        return r
    return opaque_call(it, st, name, dn, ins, args, path)


INLINE = re.compile(r'std::(__)?(max|min|swap|fill|fill_n|copy|copy_n|move|forward|abs|addressof|begin|end|__fill|__copy|__niter|__size|__iterator_category|__miter|__uninit|__advance|advance|next|prev|distance|__distance|isnan|isinf|isfinite|for_each|find_if|accumulate|inner_product|array|get|__array|unique_ptr|initializer_list|_Fill|any_of|all_of|none_of|transform|__find_if|__pred|tuple|_Head|_Tuple|default_delete|__uniq|function_ref|plus|__get_helper|numeric_limits|__equal|equal|sqrt|exp|pow|copy_backward|iota|vector|_Vector_base|_Vector_impl|_Vector_impl_data|allocator|allocator_traits|_Destroy|__uninitialized_\w*|uninitialized_\w*|_UninitDestroyGuard|_Construct|construct_at|destroy|__destroy\w*|__relocate\w*|is_constant_evaluated|__is_constant_evaluated|move_iterator|make_move_iterator|exchange|as_const)|__gnu_cxx::(__normal_iterator|__alloc_traits|new_allocator)|std::__new_allocator|__gnu_cxx::operator')


def inlinable(dn):
    if 'ostream' in dn or 'ios_base' in dn or 'stringstream' in dn or 'basic_string' in dn:
        return False
    # strip a leading return type of template functions
    return bool(INLINE.search(dn.split('(')[0])) or '__gnu_cxx::__ops' in dn.split('(')[0]


def power(it, args):
    x = it.dv(args[0])
    y = force(args[1])
    k = None
    if isinstance(y, Poly) and y.isconst():
        k = y.const()
    elif isinstance(y, D) and y.isconst() and y.const().denominator == 1:
        k = int(y.const())
    elif isinstance(y, D) and y.isconst() and y.const() * 2 == 1:
        return E.sqrt(x)
    if k is not None and 0 <= k <= 8:
        r = E.D1
        for _ in range(k):
            r = E.mul(r, x)
        return r
    return E.fcall('pow', [x, it.dv(y)])


def shortm(dn):
    """method name without template args and parameters"""
    s = dn
    i = s.rfind('operator')
    if i >= 0:
        m = re.match(r'operator\s*(\(\)|\[\]|->|[^\w\s(]+|new|delete|bool)', s[i:])
        if m:
            return 'operator' + m.group(1).strip()
    # remove template args
    out, d = [], 0
    for ch in s:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    s = ''.join(out)
    s = s.split('(')[0]
    return s.split('::')[-1].strip()


def list_call(it, st, name, dn, ins, args, path, fr):
    m = shortm(dn)
    isiter = '_List_iterator<' in dn.split('(')[0] or '_List_const_iterator<' in dn.split('(')[0]
    line = ins.line
    GS = GPSIZE[0]
    if isiter or (m in ('operator==', 'operator!=') and '_List_' in dn):
        if m in ('_List_iterator', '_List_const_iterator'):
            if len(args) >= 2:
                a = force(args[1])
                if '_List_iterator<gp_t> const&' in dn.split('(', 1)[1] or '_List_iterator<gp_t>&' in dn.split('(', 1)[1]:
                    a = it.load(st, a, 'ptr', line)
                it.store(st, args[0], a, 'ptr', line)
            else:
                it.store(st, args[0], NULL, 'ptr', line)
            return None
        if m in ('operator->', 'operator*'):
            return it.load(st, args[0], 'ptr', line)
        if m in ('operator++', 'operator--'):
            p = it.load(st, args[0], 'ptr', line)
            d = C(GS) if m == 'operator++' else C(-GS)
            it.store(st, args[0], p.plus(d), 'ptr', line)
            if len(args) > 1:
                return p
            return args[0]
        if m in ('operator==', 'operator!='):
            a = it.load(st, args[0], 'ptr', line)
            b = it.load(st, args[1], 'ptr', line)
            return it.icmp('eq' if m == 'operator==' else 'ne', a, b)
        if m == '_M_const_cast':
            return it.load(st, args[0], 'ptr', line)
    if 'list<gp_t' in dn or '_List_base<gp_t' in dn:
        if m in ('list', '_List_base', '_List_impl') or m.startswith('~'):
            p = force(args[0])
            if m == 'list' and len(args) == 1:
                it.store(st, p.plus(C(16)), ZERO, 'i64', line)
                st.event(Event('listnew', m, (p,), None, path, line, it.cur), line)
            elif m.startswith('~list'):
                st.event(Event('listfree', m, (p,), None, path, line, it.cur), line)
            return None
        g, o, off = gplist(it, args[0])
        if m in ('begin', 'cbegin'):
            return ptr(g, ZERO)
        if m in ('end', 'cend'):
            return ptr(g, list_n(it, st, o, off) * GS)
        if m == 'size':
            return list_n(it, st, o, off)
        if m == 'empty':
            return E.eq0(list_n(it, st, o, off))
        if m == 'front':
            return ptr(g, ZERO)
        if m == 'back':
            return ptr(g, (list_n(it, st, o, off) - 1) * GS)
        if m in ('push_back', 'emplace_back'):
            n = list_n(it, st, o, off)
            it.memcpy(st, ptr(g, n * GS), force(args[1]), C(GS), line)
            it.store(st, ptr(o, off + 16), n + 1, 'i64', line)
            st.event(Event('push', 'push_back', (ptr(g, n * GS), args[1]), st.copy(), path, line, it.cur), line)
            return ptr(g, n * GS)
        if m == 'clear':
            it.store(st, ptr(o, off + 16), ZERO, 'i64', line)
            st.event(Event('listop', m, tuple(args), None, path, line, it.cur), line)
            return None
        it.havoc(st, g, m)
        st.event(Event('listop', m, tuple(args), None, path, line, it.cur), line)
        return Opaque(m)
    return NotImplemented


def cstr(it, p):
    p = asptr(force(p))
    if p is None or len(p.alts) != 1:
        return None
    c, o, off = p.alts[0]
    if o is None or not isinstance(o.meta, (bytes, bytearray)):
        g = it.mod.globals.get(o.name) if o is not None else None
        if g and g[1] and g[1][0] == 'str':
            s = g[1][1]
        elif g and g[1] and g[1][0] == 'zero' and g[2] and g[0] and g[0][0] == 'arr' and g[0][2] == 'i8':
            s = b'\0'
        else:
            return None
    else:
        s = o.meta
    if not off.isconst():
        return None
    s = bytes(s)[off.const():]
    return s.split(b'\0')[0].decode('latin1')


def io_call(it, st, name, dn, ins, args, path, fr):
    line = ins.line
    m = shortm(dn)
    if 'basic_ostream' in dn or 'ostream' in dn or 'setw' in dn or '_Set' in dn or 'ios_base' in dn or 'basic_ios' in dn:
        if m == 'operator<<':
            what = None
            par = dn[dn.rfind('operator<<'):]
            ty = [t for t, v in ins.args]
            if 'char const*' in par:
                s = cstr(it, args[1])
                ev = ('str', s if s is not None else '?')
            elif 'basic_string<' in par.split('(', 1)[-1]:
                ev = ('string', _strobj(it, st, args[1]))
            elif '_Setw' in par or '_Setprecision' in par or 'ios_base' in par or '_Setfill' in par or '_Resetios' in par:
                ev = ('fmt', None)
            elif '(*)' in par:
                nm = None
                q = asptr(force(args[1]))
                if q is not None and q.alts[0][1] is not None:
                    nm = it.mod.dn.get(q.alts[0][1].name, q.alts[0][1].name)
                if nm and 'endl' in nm:
                    ev = ('str', '\n')
                else:
                    ev = ('fmt', nm)
            elif '(char)' in par or ', char)' in par:
                v = force(args[1])
                ev = ('str', chr(v.const())) if isinstance(v, Poly) and v.isconst() else ('val', v)
            else:
                v = force(args[1])
                ev = ('val', v)
                if it.undefhook and getattr(v, 'undef', False):
                    it.undefhook(it, st, 'output', v, line)
            st.event(Event('out', ev[0], (force(args[0]), ev[1]), None, path, line, it.cur), line)
            return args[0]
        if m in ('endl', 'flush', 'ends'):
            st.event(Event('out', 'str', (force(args[0]), '\n' if m == 'endl' else ''), None, path, line, it.cur), line)
            return args[0]
        if m in ('setw', 'setprecision', 'setfill', 'scientific', 'fixed', 'precision', 'width', 'setf', 'unsetf', 'flags', 'hexfloat', 'defaultfloat', 'fill'):
            return args[0] if args and isinstance(force(args[0]), Ptr) else Opaque(m)
        if m in ('put', 'write'):
            st.event(Event('out', 'raw', (force(args[0]),) + tuple(args[1:]), None, path, line, it.cur), line)
            return args[0]
        if m in ('flush', 'good', 'fail', 'is_open', 'bad', 'eof', 'operatorbool', 'operator!', 'clear', 'setstate'):
            if m == 'flush':
                return args[0]
            return V(E.atom('iostate', (m, str(line)), isbool=True))
    if 'fstream' in dn or 'filebuf' in dn:
        if m == 'open':
            s = cstr(it, args[1]) if 'char const*' in dn else None
            if s is None:
                s = _strobj(it, st, args[1])
            st.event(Event('open', str(s), (force(args[0]), s) + tuple(args[2:]), None, path, line, it.cur), line)
            return None
        if m == 'close':
            st.event(Event('close', '', (force(args[0]),), None, path, line, it.cur), line)
            return None
        if m in ('basic_ofstream', 'basic_fstream'):
            p = force(args[0])
            st.event(Event('filenew', '', (p,), None, path, line, it.cur), line)
            if len(args) >= 2 and ('char const*' in dn.split('(', 1)[1] or 'basic_string' in dn.split('(', 1)[1]):
                s = cstr(it, args[1]) if 'char const*' in dn.split('(', 1)[1] else None
                if s is None:
                    s = _strobj(it, st, args[1])
                st.event(Event('open', str(s), (p, s) + tuple(args[2:]), None, path, line, it.cur), line)
            return None
        if m.startswith('~'):
            st.event(Event('filefree', '', (force(args[0]),), None, path, line, it.cur), line)
            return None
        if m in ('is_open', 'good'):
            return V(E.atom('iostate', (m, str(line)), isbool=True))
    if 'stringstream' in dn or 'ostringstream' in dn:
        p = force(args[0])
        if m in ('basic_stringstream', 'basic_ostringstream'):
            st.event(Event('ssnew', '', (p,), None, path, line, it.cur), line)
            return None
        if m.startswith('~'):
            return None
        if m == 'str':
            ss = force(args[1]) if len(args) > 1 else None
            st.event(Event('str', '', (p, ss), None, path, line, it.cur), line)
            return p
    if 'basic_string<' in dn or 'to_string' in dn or 'std::allocator<char>' in dn or 'char_traits' in dn:
        st.event(Event('string', m, tuple(force(a) for a in args), None, path, line, it.cur), line)
        return args[0] if args else None
    if hidden(name, dn):
        n = st.occ.get(('hid', path), 0)
        st.occ[('hid', path)] = n + 1
        key = ('hidden ' + dn.split('(')[0], V(E.atom('site', (str(path)[:400], n))))
        kind, kw = ('undef', {'undef': True}) if I.TAINT else ('hidden', {'unk': True})
        if ins.ty == 'ptr':
            b = it._atom(kind, key, 'i1', **kw)
            return Ptr(((ONE - b, None, ZERO), (b, it.obj(('hid', key), None, 'sym', 'ext', key[0]), ZERO)))
        if isinstance(ins.ty, str) and ins.ty != 'void':
            return it._atom(kind, key, ins.ty, **kw)
    if name == '__cxa_guard_acquire':
        return ONE
    if name == '__cxa_guard_release':
        p = asptr(force(args[0]))
        for c, o, off in p.alts:
            if o is not None and o.meta != ('once',):
                it.store(st, p, C(1), 'i8', line)
        return None
    if name.startswith('__cxa_') or name in ('__gxx_personality_v0',):
        return Opaque(name)
    if name in ('printf', 'fprintf', 'puts', 'putchar', 'fputs', 'fflush', 'fputc', 'perror'):
        st.event(Event('print', name, tuple(args), None, path, line, it.cur), line)
        return C(0)
    if name in ('fopen',):
        st.event(Event('fopen', str(cstr(it, args[0])), tuple(args), None, path, line, it.cur), line)
        return ptr(it.obj(('FILE', path), None, 'sym', 'ext', 'FILE@%s' % (line,)))
    if name == 'fclose':
        st.event(Event('fclose', '', tuple(args), None, path, line, it.cur), line)
        return C(0)
    if name.startswith('_ZNSt8ios_base4Init'):
        return None
    return NotImplemented


HIDDEN = {'rand', 'random', 'drand48', 'lrand48', 'mrand48', 'rand_r', 'time', 'clock', 'getpid', 'getenv', 'secure_getenv',
          'omp_get_wtime', 'getrandom', 'pthread_self', 'omp_get_thread_num', 'omp_get_num_threads', 'omp_get_max_threads'}


def hidden(name, dn):
    """library calls whose result is not a function of their arguments"""
    return name in HIDDEN or dn.startswith('std::random_device::') or '_clock::now' in dn


def _strobj(it, st, a):
    p = asptr(force(a))
    return ('strobj', str(p))


def opaque_call(it, st, name, dn, ins, args, path):
    it.problems.append(('unmodelled call %s' % dn, ins.line))
    st.event(Event('ext', dn, tuple(force(a) for a in args), None, path, ins.line, it.cur), ins.line)
    for (t, _), a in zip(ins.args, args):
        a = force(a)
        if isinstance(a, Ptr):
            for c, o, off in a.alts:
                if o is not None and o is not OPAQUE and o.kind not in ('fn',) and not (isinstance(o.init, tuple)):
                    it.havoc(st, o, dn)
    ty = ins.ty
    if ty in (None, 'void'):
        return None
    return it._atom('ret', (dn, V(E.atom('site', (str(path), st.occ.get(('ext', path), 0))))), ty, unk=True) if isinstance(ty, str) else Opaque(dn)
