"""Contracts of the harness intrinsics, of LLVM intrinsics and of the external
(libc / libstdc++ runtime) functions that the code under contract calls."""
import re
import terms as t
from terms import T
import mem

TABLE = {}
PATTERNS = []
_uid = [0]


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def pattern(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


def _name(self, st, p):
    return self.cstr(st, p)


def _instub(self, st):
    return any(fr.fn.name.startswith('vcstub_') for fr in st.frames)


# ------------------------------------------------------------------ harness
@model('vc_any')
def vc_any(self, st, f, a, i):
    w = a[0]
    if type(w) is T:
        self._undec('vc_any width')
    _uid[0] += 1
    v = t.var('%s#%d' % (_name(self, st, a[1]), _uid[0]), w)
    if not _instub(self, st):
        st.inputs.append(('any', w, v, 0))
    return ('v', t.zext(v, w, 64) if w < 64 else v)


@model('vc_any_in')
def vc_any_in(self, st, f, a, i):
    lo, hi = a[0], a[1]
    _uid[0] += 1
    if type(lo) is int and type(hi) is int:
        if lo == hi:
            v = lo
            w = 8
        else:
            w = (hi - lo).bit_length()
            d = t.var('%s#%d' % (_name(self, st, a[2]), _uid[0]), w)
            if hi - lo != t.mask(w) and not self.assume(st, t.ule(w, d, hi - lo)):
                return ('s', [])
            v = t.add(64, t.zext(d, w, 64), lo)
    else:
        w = 64
        v = t.var('%s#%d' % (_name(self, st, a[2]), _uid[0]), 64)
        if not self.assume(st, t.and_(t.ule(64, lo, v), t.ule(64, v, hi))):
            return ('s', [])
    if not _instub(self, st):
        st.inputs.append(('any', w, v if w == 64 or type(v) is int else t.trunc(v, 64, w), lo if w == 64 else lo & t.mask(w)))
    return ('v', v)


@model('vc_buf')
def vc_buf(self, st, f, a, i):
    n = a[0]
    _uid[0] += 1
    arr = '%s#%d' % (_name(self, st, a[1]), _uid[0])
    if type(n) is int:
        p = self.newobj(st, n, 'input', arr, [t.sel(arr, k) for k in range(n)], True)
    else:
        if not self.assume(st, t.ule(64, n, 1 << 30)):
            return ('s', [])
        p = self.newobj(st, n, 'input', arr, ('arr', arr), True)
    if not _instub(self, st):
        st.inputs.append(('buf', arr, n))
    return ('v', p)


@model('vc_require')
def vc_require(self, st, f, a, i):
    if not self.assume(st, a[0]):
        return ('s', [])
    return None


@model('vc_ensure')
def vc_ensure(self, st, f, a, i):
    n = _name(self, st, a[1])
    if n.startswith('ind:'):
        # an induction step: when it fails the claim over histories is demoted to a bounded one
        nc = t.bnot(a[0]) if type(a[0]) is T else int(not a[0])
        if type(nc) is T:
            r, m = self.solver.check(st.pc, nc, hard=True)
        else:
            r = 'sat' if nc else 'unsat'
        if r != 'unsat':
            self.res.undecided.append('induction step not established: ' + n)
            return None
        o = self.res.obl.setdefault(n, [0, 0, 0, 0])
        o[1] += 1
        return None
    if not self.oblige(st, a[0], 'post:' + _name(self, st, a[1]), 'post', i[2]):
        return ('s', [])
    return None


@model('vc_cover')
def vc_cover(self, st, f, a, i):
    n = _name(self, st, a[0])
    if n not in self.res.covers or not self.res.covers[n]:
        m = st.model
        if m is None:
            r, m = self.solver.check(st.pc, None)
            st.model = m
        if m is not None:
            self.res.covers[n] = self.res.covers.get(n, 0) + 1
            if len(self.res.samples) < 40:
                s = self.stream(st, m)
                if s is not None:
                    self.res.samples.append((n, s.hex()))
    return None


@model('vc_fork')
def vc_fork(self, st, f, a, i):
    """enumerate the values of the argument"""
    out = []
    for s, k in self.concretize(st, a[0], 4096, 'vc_fork'):
        s.frames[-1].regs[i[1]] = k
        out.append(s)
    return ('s', out)


@model('vc_symbolic')
def vc_symbolic(self, st, f, a, i):
    return ('v', 1)


@model('vc_note')
def vc_note(self, st, f, a, i):
    return None


@model('vc_same_object')
def vc_same_object(self, st, f, a, i):
    return ('v', t.eq(64, t.lshr(64, a[0], 32), t.lshr(64, a[1], 32)))


@model('vc_readable')
def vc_readable(self, st, f, a, i):
    """1 iff [p, p+n) lies inside one live object"""
    p, n = a
    if type(p) is T:
        rs = self.concretize(st, t.lshr(64, p, 32), 16, 'vc_readable')
    else:
        rs = [(st, p >> 32)]
    out = []
    for s, oid in rs:
        o = s.mem.get(oid)
        if o is None or not o.alive:
            v = t.eq(64, n, 0)
        else:
            v = self.inb(t.sub(64, p, oid << 32), n, o.size)
        s.frames[-1].regs[i[1]] = v
        out.append(s)
    return ('s', out)


# ------------------------------------------------------------------ heap
def _alloc(self, st, n, what):
    if type(n) is T:
        lo, hi = t.rng(n)
        if not self.assume(st, t.ule(64, n, 1 << 30)):
            return None
    elif n > 1 << 20:
        self._undec('allocation of %d bytes' % n)
    return self.newobj(st, n, 'heap', what)


@model('_Znwm', '_Znam', 'malloc')
def op_new(self, st, f, a, i):
    p = _alloc(self, st, a[0], 'heap@%s:%d' % (f.fn.dm[:60], i[2]))
    if p is None:
        return ('s', [])
    return ('v', p)


@model('_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def op_new_nt(self, st, f, a, i):
    return op_new(self, st, f, a, i)


@model('_ZnwmSt11align_val_t')
def op_new_al(self, st, f, a, i):
    return op_new(self, st, f, a, i)


@model('calloc')
def calloc(self, st, f, a, i):
    n = t.mul(64, a[0], a[1])
    if type(n) is T:
        self._undec('calloc')
    return ('v', self.newobj(st, n, 'heap', 'calloc', [0] * n))


@model('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvRKSt9nothrow_t', '_ZdlPvmSt11align_val_t')
def op_delete(self, st, f, a, i):
    p = a[0]
    out = []
    for s, p in (self.concretize(st, p, 64, 'delete') if type(p) is T else [(st, p)]):
        if p == 0:
            out.append(s)
            continue
        o = s.mem.get(p >> 32)
        ok = o is not None and o.alive and o.kind == 'heap' and not (p & 0xffffffff)
        if not self.oblige(s, int(ok), 'memory-safe', 'memory', i[2], 'invalid or double free'):
            continue
        o = self.wobj(s, o)
        o.alive = False
        o.flat = []
        o.log = None
        o.size = 0
        out.append(s)
    return ('s', out)


# ------------------------------------------------------------------ mem*
@model('memcpy')
def m_memcpy(self, st, f, a, i):
    rs = self.copy(st, a[0], a[1], a[2], i[2])
    for s in rs:
        if i[1] >= 0:
            s.frames[-1].regs[i[1]] = a[0]
    return ('s', rs)


@model('memmove')
def m_memmove(self, st, f, a, i):
    return m_memcpy(self, st, f, a, i)


@pattern(r'llvm\.mem(cpy|move)\.')
def l_memcpy(self, st, f, a, i):
    return ('s', self.copy(st, a[0], a[1], a[2], i[2]))


def _memset(self, st, p, v, n, line):
    if type(n) is int and n == 0:
        return [st]
    out = []
    v = t.trunc(v, v.w, 8) if type(v) is T else v & 0xff
    for s, o, off in self.resolve(st, p, n, 'write', line):
        if o is None:
            out.append(s)
            continue
        if o.ro:
            self.oblige(s, 0, 'memory-safe', 'memory', line, 'write to read-only object ' + o.name)
            continue
        if type(n) is int and n <= 65536:
            self.storecells(s, s.mem[o.id], off, [v] * n)
        else:
            d = self.wobj(s, s.mem[o.id])
            if d.flat is not None and type(off) is int:
                done = False
                if t.rng(n)[1] <= 64:
                    for s3, k in self.concretize(s, n, 70, 'memset length'):
                        if k:
                            self.storecells(s3, s3.mem[o.id], off, [v] * k)
                        out.append(s3)
                    done = True
                if done:
                    continue
            if s.wlog is not None:
                s.wlog.append((d.id, off, n))
            d.to_log()
            d.log.append(('s', off, n, v))
        out.append(s)
    return out


@pattern(r'llvm\.memset\.')
def l_memset(self, st, f, a, i):
    v = a[1]
    return ('s', _memset(self, st, a[0], v, a[2], i[2]))


@model('memset')
def m_memset(self, st, f, a, i):
    rs = _memset(self, st, a[0], a[1], a[2], i[2])
    for s in rs:
        s.frames[-1].regs[i[1]] = a[0]
    return ('s', rs)


def _bytes(self, s, p, n, line):
    """[(state, [byte values])] for n concrete bytes at p"""
    out = []
    if n == 0:
        return [(s, [])]
    for s1, o, off in self.resolve(s, p, n, 'read', line):
        cells = self.readcells(s1, s1.mem[o.id], off, n)
        r = []
        for k, c in enumerate(cells):
            if c is None:
                c = self.load(s1, s1.mem[o.id], t.add(64, off, k), 1)
            else:
                c = mem.byte_val(c)
            r.append(c)
        out.append((s1, r))
    return out


def _cells(self, s, p, n, line):
    """[(state, [cells])] for n concrete bytes at p"""
    if n == 0:
        return [(s, [])]
    out = []
    for s1, o, off in self.resolve(s, p, n, 'read', line):
        cells = self.readcells(s1, s1.mem[o.id], off, n)
        for k, c in enumerate(cells):
            if c is None:
                cells[k] = self.load(s1, s1.mem[o.id], t.add(64, off, k), 1)
        out.append((s1, cells))
    return out


def _eqcells(x, y):
    """equality of two cell lists, joining runs of bytes of one value"""
    e = 1
    n = len(x)
    k = 0
    while k < n:
        m = 1
        for z in (x, y):
            if type(z[k]) is tuple and z[k][1] == 0:
                v = z[k][0]
                j = v.w // 8
                if k + j <= n and all(type(z[k + q]) is tuple and z[k + q][0] is v and z[k + q][1] == q for q in range(j)):
                    m = max(m, j)
        if m == 1:
            while k + m < n and m < 8 and type(x[k + m]) is not tuple and type(y[k + m]) is not tuple and type(x[k]) is not tuple and type(y[k]) is not tuple and (type(x[k]) is int and type(y[k]) is int):
                m += 1
        e = t.and_(e, t.eq(8 * m, mem.join_bytes(x[k:k + m]), mem.join_bytes(y[k:k + m])))
        if type(e) is int and not e:
            return 0
        k += m
    return e


def _compare(self, st, a, i, ordered):
    out = []
    n = a[2]
    if type(n) is T and t.rng(n)[1] > 256:
        # symbolic length: only decidable when the solver bounds it
        if not self.must(st, t.ule(64, n, 256)):
            return _longcompare(self, st, a, i, ordered)
    for s, k in self.concretize(st, n, 260, 'memcmp length'):
        for s1, x in _cells(self, s, a[0], k, i[2]):
            for s2, y in _cells(self, s1, a[1], k, i[2]):
                e = _eqcells(x, y)
                if ordered and type(e) is T:
                    r = 1
                    for p, q in reversed(list(zip(x, y))):
                        p, q = mem.byte_val(p), mem.byte_val(q)
                        r = t.ite(32, t.eq(8, p, q), r, t.ite(32, t.ult(8, p, q), t.mask(32), 1))
                    r = t.ite(32, e, 0, r)
                elif ordered and not e:
                    r = 1
                    for p, q in reversed(list(zip(x, y))):
                        p, q = mem.byte_val(p), mem.byte_val(q)
                        r = t.ite(32, t.eq(8, p, q), r, t.ite(32, t.ult(8, p, q), t.mask(32), 1))
                else:
                    r = t.ite(32, e, 0, 1)
                s2.frames[-1].regs[i[1]] = r
                out.append(s2)
    return ('s', out)


def _at(self, st, o, off, k, n):
    """byte at position k < n of the range"""
    if o is None:
        return 0
    p = st.clone()
    self.push(p, t.ult(64, k, n))
    und = mem._undef[0]
    v = self.load(p, p.mem[o.id], t.add(64, off, k), 1)
    if mem._undef[0] != und:
        self._undec('comparison of indeterminate bytes')
    return v


def _longcompare(self, st, a, i, ordered):
    """memory compared over a symbolic length: equal everywhere, or first different at an arbitrary position"""
    out = []
    n = a[2]
    for s1, o1, f1 in self.resolve(st, a[0], n, 'read', i[2]):
        for s2, o2, f2 in self.resolve(s1, a[1], n, 'read', i[2]):
            self.uid += 1
            k = t.var('k!%d' % self.uid, 64)
            x, y = _at(self, s2, o1, f1, k, n), _at(self, s2, o2, f2, k, n)
            e = t.eq(8, x, y)
            d = s2.clone()
            if e != 1:
                if self.assume(d, t.and_(t.ult(64, k, n), t.bnot(e))):
                    if type(e) is T:
                        self.uid += 1
                        j = t.var('k!%d' % self.uid, 64)
                        self.add_fact(d, j, k, t.substitute(e, {k: j}))
                    d.frames[-1].regs[i[1]] = t.ite(32, t.ult(8, x, y), t.mask(32), 1) if ordered else 1
                    out.append(d)
            if type(e) is int and e == 0:
                if not self.assume(s2, t.eq(64, n, 0)):
                    continue
            elif type(e) is T:
                self.add_fact(s2, k, n, e)
            s2.frames[-1].regs[i[1]] = 0
            out.append(s2)
    return ('s', out)


@model('memcmp')
def m_memcmp(self, st, f, a, i):
    return _compare(self, st, a, i, True)


@model('bcmp')
def m_bcmp(self, st, f, a, i):
    return _compare(self, st, a, i, False)


@model('strlen')
def m_strlen(self, st, f, a, i):
    out = []
    work = [(st, 0)]
    while work:
        s, k = work.pop()
        if k > 300:
            self._undec('strlen')
        for s1, o, off in self.resolve(s, t.add(64, a[0], k), 1, 'read', i[2]):
            c = self.load(s1, s1.mem[o.id], off, 1)
            x, y = self.fork(s1, t.eq(8, c, 0))
            if x is not None:
                x.frames[-1].regs[i[1]] = k
                out.append(x)
            if y is not None:
                work.append((y, k + 1))
    return ('s', out)


@model('memchr')
def m_memchr(self, st, f, a, i):
    out = []
    c = a[1]
    c = t.trunc(c, 32, 8) if type(c) is T else c & 0xff
    if type(a[2]) is T and t.rng(a[2])[1] > 256 and not self.must(st, t.ule(64, a[2], 256)):
        n = a[2]
        for s1, o, off in self.resolve(st, a[0], n, 'read', i[2]):
            self.uid += 1
            k = t.var('k!%d' % self.uid, 64)
            x = _at(self, s1, o, off, k, n)
            e = t.eq(8, x, c)
            d = s1.clone()
            if self.assume(d, t.and_(t.ult(64, k, n), e)):
                self.uid += 1
                j = t.var('k!%d' % self.uid, 64)
                self.add_fact(d, j, k, t.bnot(t.substitute(e, {k: j}) if type(e) is T else e))
                d.frames[-1].regs[i[1]] = t.add(64, a[0], k)
                out.append(d)
            if type(e) is T:
                self.add_fact(s1, k, n, t.bnot(e))
            elif e and not self.assume(s1, t.eq(64, n, 0)):
                continue
            s1.frames[-1].regs[i[1]] = 0
            out.append(s1)
        return ('s', out)
    for s, n in self.concretize(st, a[2], 260, 'memchr length'):
        for s1, x in _bytes(self, s, a[0], n, i[2]):
            cur = s1
            for k, b in enumerate(x):
                y, cur = self.fork(cur, t.eq(8, b, c))
                if y is not None:
                    y.frames[-1].regs[i[1]] = t.add(64, a[0], k)
                    out.append(y)
                if cur is None:
                    break
            if cur is not None:
                cur.frames[-1].regs[i[1]] = 0
                out.append(cur)
    return ('s', out)


# ------------------------------------------------------------------ abnormal termination
@model('abort', '_ZSt9terminatev', '__assert_fail', 'exit', '_exit', '__cxa_pure_virtual', '_ZSt13__glibcxx_assert_failPKciS0_S0_')
def m_abort(self, st, f, a, i):
    self.oblige(st, 0, 'no-abort', 'abort', i[2], 'abnormal termination')
    return ('s', [])


@pattern(r'_ZSt\d+__throw_|_ZSt\d+__glibcxx_assert_fail|__cxa_throw|__clang_call_terminate|__cxa_rethrow')
def m_throw(self, st, f, a, i):
    self.oblige(st, 0, 'no-exception', 'exception', i[2], 'exception thrown')
    return ('s', [])


@model('llvm.ubsantrap')
def m_ubsan(self, st, f, a, i):
    self.oblige(st, 0, 'no-undefined-behaviour', 'ub', i[2], 'undefined behaviour (sanitizer check %s)' % a[0])
    return ('s', [])


@model('llvm.trap')
def m_trap(self, st, f, a, i):
    self.oblige(st, 0, 'no-abort', 'abort', i[2], 'trap')
    return ('s', [])


# ------------------------------------------------------------------ runtime
@model('__cxa_guard_acquire')
def m_guard(self, st, f, a, i):
    p = a[0]
    o = st.mem[p >> 32]
    v = self.load(st, o, p & 0xffffffff, 1)
    return ('v', 0 if v else 1)


@model('__cxa_guard_release')
def m_guardr(self, st, f, a, i):
    p = a[0]
    self.storecells(st, st.mem[p >> 32], p & 0xffffffff, [1])
    return None


@model('__cxa_atexit', '__cxa_thread_atexit')
def m_atexit(self, st, f, a, i):
    return ('v', 0)


@model('_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev', '_ZNSt3_V214error_categoryD2Ev', '_ZNSt3_V214error_categoryD1Ev')
def m_nop(self, st, f, a, i):
    return None


@model('_ZNSt3_V216generic_categoryEv', '_ZNSt3_V215system_categoryEv')
def m_category(self, st, f, a, i):
    k = 'cat:' + i[3]['g']
    if k not in st.notes:
        st.notes[k] = self.newobj(st, 8, 'global', k, None, True)
    return ('v', st.notes[k])


@model('__errno_location')
def m_errno(self, st, f, a, i):
    if 'errno' not in st.notes:
        st.notes['errno'] = self.newobj(st, 4, 'global', 'errno')
    return ('v', st.notes['errno'])


@model('tolower')
def m_tolower(self, st, f, a, i):
    c = a[0]
    if not self.oblige(st, t.or_(t.ule(32, c, 255), t.eq(32, c, t.mask(32))), 'pre:tolower-argument', 'ub', i[2], 'argument of tolower outside unsigned char'):
        return ('s', [])
    up = t.and_(t.ule(32, 0x41, c), t.ule(32, c, 0x5a))
    return ('v', t.ite(32, up, t.add(32, c, 0x20), c))


@model('toupper')
def m_toupper(self, st, f, a, i):
    c = a[0]
    if not self.oblige(st, t.or_(t.ule(32, c, 255), t.eq(32, c, t.mask(32))), 'pre:toupper-argument', 'ub', i[2], 'argument of toupper outside unsigned char'):
        return ('s', [])
    up = t.and_(t.ule(32, 0x61, c), t.ule(32, c, 0x7a))
    return ('v', t.ite(32, up, t.sub(32, c, 0x20), c))


@pattern(r'is(alpha|digit|alnum|xdigit|space|upper|lower)$')
def m_ctype(self, st, f, a, i):
    c = a[0]
    n = i[3]['g']
    if not self.oblige(st, t.or_(t.ule(32, c, 255), t.eq(32, c, t.mask(32))), 'pre:ctype-argument', 'ub', i[2], 'argument of %s outside unsigned char' % n):
        return ('s', [])

    def r(x, y):
        return t.and_(t.ule(32, x, c), t.ule(32, c, y))
    up, lo, di = r(65, 90), r(97, 122), r(48, 57)
    v = {'isalpha': t.or_(up, lo), 'isdigit': di, 'isalnum': t.or_(di, t.or_(up, lo)), 'isupper': up, 'islower': lo,
         'isspace': t.or_(t.eq(32, c, 32), r(9, 13)),
         'isxdigit': t.or_(di, t.or_(r(65, 70), r(97, 102)))}[n]
    return ('v', t.ite(32, v, 1, 0))


@model('_ZSt11_Hash_bytesPKvmm')
def m_hashbytes(self, st, f, a, i):
    out = []
    for s, n in self.concretize(st, a[1], 260, 'hash length'):
        for s1, x in _bytes(self, s, a[0], n, i[2]):
            s1.frames[-1].regs[i[1]] = t.uf('Hash_bytes%d' % n, 64, tuple((8, b) for b in x) + ((64, a[2]),))
            out.append(s1)
    return ('s', out)


# ------------------------------------------------------------------ LLVM intrinsics
def _w(i):
    return i[5][0][1]


@pattern(r'llvm\.umin\.')
def l_umin(self, st, f, a, i):
    w = _w(i)
    return ('v', t.ite(w, t.ult(w, a[0], a[1]), a[0], a[1]))


@pattern(r'llvm\.umax\.')
def l_umax(self, st, f, a, i):
    w = _w(i)
    return ('v', t.ite(w, t.ult(w, a[0], a[1]), a[1], a[0]))


@pattern(r'llvm\.smin\.')
def l_smin(self, st, f, a, i):
    w = _w(i)
    return ('v', t.ite(w, t.slt(w, a[0], a[1]), a[0], a[1]))


@pattern(r'llvm\.smax\.')
def l_smax(self, st, f, a, i):
    w = _w(i)
    return ('v', t.ite(w, t.slt(w, a[0], a[1]), a[1], a[0]))


@pattern(r'llvm\.abs\.')
def l_abs(self, st, f, a, i):
    w = _w(i)
    return ('v', t.ite(w, t.slt(w, a[0], 0), t.sub(w, 0, a[0]), a[0]))


@pattern(r'llvm\.bswap\.')
def l_bswap(self, st, f, a, i):
    return ('v', t.bswap(_w(i), a[0]))


@pattern(r'llvm\.fsh[lr]\.')
def l_fsh(self, st, f, a, i):
    w = _w(i)
    if type(a[2]) is T:
        self._undec('funnel shift')
    k = a[2] % w
    if k == 0:
        return ('v', a[0] if 'fshl' in i[3]['g'] else a[1])
    if 'fshr' in i[3]['g']:
        k = w - k
    return ('v', t.bor(w, t.shl(w, a[0], k), t.lshr(w, a[1], w - k)))


@pattern(r'llvm\.[us](add|sub|mul)\.with\.overflow\.')
def l_ovf(self, st, f, a, i):
    w = _w(i)
    g = i[3]['g']
    sg = g[5] == 's'
    op = g[6:9]
    x, y = a
    if op == 'add':
        r = t.add(w, x, y)
        if sg:
            # overflow iff signs of x,y equal and differ from r
            o = t.extract(w - 1, w - 1, t.band(w, t.bxor(w, x, r), t.bxor(w, y, r)), w)
        else:
            o = t.ult(w, r, x)
    elif op == 'sub':
        r = t.sub(w, x, y)
        if sg:
            o = t.extract(w - 1, w - 1, t.band(w, t.bxor(w, x, y), t.bxor(w, x, r)), w)
        else:
            o = t.ult(w, x, y)
    else:
        r = t.mul(w, x, y)
        if type(y) is T and type(x) is not T:
            x, y = y, x
        if type(y) is int and type(x) is T:
            ys = t.tosigned(y, w) if sg else y
            if sg:
                if ys == 0:
                    o = 0
                else:
                    mn, mx = -(1 << (w - 1)), (1 << (w - 1)) - 1
                    if ys > 0:
                        lo, hi = -((-mn) // ys), mx // ys
                    elif ys == -1:
                        lo, hi = mn + 1, mx
                    else:
                        lo, hi = -(mx // -ys), (-mn) // -ys
                    o = t.bnot(t.and_(t.sle(w, lo & t.mask(w), x), t.sle(w, x, hi & t.mask(w))))
            else:
                o = 0 if ys == 0 else t.ult(w, t.mask(w) // ys, x)
        elif type(x) is int:
            p = (t.tosigned(x, w) * t.tosigned(y, w)) if sg else x * y
            o = int(not (-(1 << (w - 1)) <= p < (1 << (w - 1)))) if sg else int(p > t.mask(w))
        else:
            e = t.sext if sg else t.zext
            wide = t.mul(2 * w, e(x, w, 2 * w), e(y, w, 2 * w))
            o = t.bnot(t.eq(2 * w, wide, e(t.trunc(wide, 2 * w, w), w, 2 * w)))
    return ('v', [r, o])


@pattern(r'llvm\.usub\.sat\.')
def l_usubsat(self, st, f, a, i):
    w = _w(i)
    return ('v', t.ite(w, t.ult(w, a[0], a[1]), 0, t.sub(w, a[0], a[1])))


@pattern(r'llvm\.uadd\.sat\.')
def l_uaddsat(self, st, f, a, i):
    w = _w(i)
    r = t.add(w, a[0], a[1])
    return ('v', t.ite(w, t.ult(w, r, a[0]), t.mask(w), r))


@pattern(r'llvm\.ctpop\.')
def l_ctpop(self, st, f, a, i):
    w = _w(i)
    r = 0
    for k in range(w):
        r = t.add(w, r, t.zext(t.extract(k, k, a[0], w), 1, w) if type(a[0]) is T else (a[0] >> k) & 1)
    return ('v', r)


@pattern(r'llvm\.(ctlz|cttz)\.')
def l_ctz(self, st, f, a, i):
    w = _w(i)
    lead = 'ctlz' in i[3]['g']
    r = w
    for k in (range(w) if lead else reversed(range(w))):
        bit = t.extract(k, k, a[0], w) if type(a[0]) is T else (a[0] >> k) & 1
        r = t.ite(w, bit, (w - 1 - k) if lead else k, r)
    return ('v', r)


@pattern(r'llvm\.is\.constant\.')
def l_isconst(self, st, f, a, i):
    return ('v', 0)


@pattern(r'llvm\.expect\.')
def l_expect(self, st, f, a, i):
    return ('v', a[0])


@pattern(r'llvm\.objectsize\.')
def l_objsize(self, st, f, a, i):
    return ('v', t.mask(64))


@pattern(r'llvm\.threadlocal\.address')
def l_tls(self, st, f, a, i):
    return ('v', a[0])


@pattern(r'llvm\.(lifetime|assume|experimental|dbg|donothing|stacksave|stackrestore|invariant|launder|prefetch)')
def l_nop(self, st, f, a, i):
    if i[1] >= 0:
        return ('v', 0)
    return None
