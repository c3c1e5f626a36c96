"""Translation of terms to z3 and an incremental solver front end with back-end fallbacks."""
import os
import sys
import subprocess
import tempfile
import time
import z3
import terms as t
import intenc
from terms import T, Model

ctx = z3.main_ctx()
_fn = {}


def _func(name, dom, w):
    k = (name, tuple(dom), w)
    f = _fn.get(k)
    if f is None:
        f = _fn[k] = z3.Function(name, *[z3.BitVecSort(d) for d in dom], z3.BitVecSort(w))
    return f


def bv(x, w):
    return tr(x) if type(x) is T else z3.BitVecVal(x, w)


def boolean(x):
    if type(x) is not T:
        return z3.BoolVal(bool(x))
    trb(x)
    return x.bz


def tr(x):
    _conv(x)
    if x.z is None:
        x.z = z3.If(x.bz, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return x.z


def trb(x):
    _conv(x)
    if x.bz is None:
        x.bz = x.z == z3.BitVecVal(1, 1)
    return x.bz


def _conv(x):
    if x.z is not None or x.bz is not None:
        return
    stack = [x]
    while stack:
        y = stack[-1]
        if y.z is not None or y.bz is not None:
            stack.pop()
            continue
        pend = [c for c in t.children(y) if c.z is None and c.bz is None]
        if pend:
            stack.extend(pend)
            continue
        _conv1(y)
        stack.pop()


def _conv1(y):
    op, w, a = y.op, y.w, y.a
    if op == 'var':
        y.z = z3.BitVec(a[0], w)
    elif op == 'sel':
        y.z = _func(a[0], [64], 8)(bv(a[1], 64))
    elif op == 'uf':
        ps = a[1:]
        if not ps:
            y.z = z3.BitVec(a[0], w)
        else:
            y.z = _func(a[0], [p[0] for p in ps], w)(*[bv(p[1], p[0]) for p in ps])
    elif op == 'lin':
        r = None
        for c, v in a[1]:
            vz = bv(v, w)
            if c == 1:
                e = vz
            elif c == t.mask(w):
                r = -vz if r is None else r - vz
                continue
            else:
                e = vz * z3.BitVecVal(c, w)
            r = e if r is None else r + e
        if a[0]:
            r = r + z3.BitVecVal(a[0], w)
        y.z = r
    elif op == 'concat':
        ps = [bv(p, pw) for pw, p in reversed(a)]
        y.z = z3.Concat(*ps)
    elif op == 'extract':
        y.z = z3.Extract(a[0], a[1], bv(a[2], None))
    elif op == 'sext':
        y.z = z3.SignExt(w - a[0].w, bv(a[0], None))
    elif op == 'not':
        y.bz = z3.Not(trb(a[0]))
    elif op in ('eq', 'ult', 'ule', 'slt', 'sle'):
        p, q, n = a
        if n == 1 and op == 'eq':
            y.bz = boolean(p) == boolean(q)
            return
        p, q = bv(p, n), bv(q, n)
        y.bz = (p == q if op == 'eq' else z3.ULT(p, q) if op == 'ult' else z3.ULE(p, q) if op == 'ule'
                else p < q if op == 'slt' else p <= q)
    elif op == 'ite':
        if w == 1:
            y.bz = z3.If(boolean(a[0]), boolean(a[1]), boolean(a[2]))
        else:
            y.z = z3.If(boolean(a[0]), bv(a[1], w), bv(a[2], w))
    elif w == 1 and op in ('and', 'or', 'xor'):
        f = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op]
        y.bz = f(boolean(a[0]), boolean(a[1]))
    else:
        p, q = bv(a[0], w), bv(a[1], w)
        y.z = {'and': lambda: p & q, 'or': lambda: p | q, 'xor': lambda: p ^ q, 'mul': lambda: p * q,
               'udiv': lambda: z3.UDiv(p, q), 'urem': lambda: z3.URem(p, q), 'sdiv': lambda: p / q,
               'srem': lambda: z3.SRem(p, q), 'shl': lambda: p << q, 'lshr': lambda: z3.LShR(p, q),
               'ashr': lambda: p >> q}[op]()


def model_of(zm):
    m = Model()
    for d in zm.decls():
        n = d.name()
        if d.arity() == 0:
            v = zm[d]
            if z3.is_bv_value(v):
                m.vars[n] = v.as_long()
                m.ufs.setdefault(n, {})[()] = v.as_long()
        else:
            fi = zm[d]
            if not isinstance(fi, z3.FuncInterp):
                continue
            tab = {}
            for e in range(fi.num_entries()):
                en = fi.entry(e)
                tab[tuple(en.arg_value(i).as_long() for i in range(en.num_args()))] = en.value().as_long()
            ev = fi.else_value()
            if ev is not None and z3.is_bv_value(ev):
                m.dflt[n] = ev.as_long()
            m.arrs[n] = {k[0]: v for k, v in tab.items()}
            m.ufs[n] = tab
    return m


SLOW = os.environ.get('SLOWQ')


class Solver:
    def __init__(self, timeout_ms=20000):
        self.s = z3.Solver()
        self.stack = []
        self.timeout = timeout_ms
        self.queries = 0
        self.time = 0.0
        self.backends = {}
        self.cross = False
        self.cross_ok = 0
        self.cross_unknown = 0
        self.cross_bad = []

    def _sync(self, pc):
        st = self.stack
        i = 0
        n = min(len(st), len(pc))
        while i < n and st[i] is pc[i]:
            i += 1
        if len(st) > i:
            self.s.pop(len(st) - i)
            del st[i:]
        for c in pc[i:]:
            self.s.push()
            self.s.add(boolean(c))
            st.append(c)

    def check(self, pc, extra=None, timeout=None, want_model=True, hard=False):
        """-> ('unsat', None) | ('sat', Model) | ('unknown', None)"""
        t0 = time.time()
        self.queries += 1
        try:
            dv = intenc.has_div([extra] if extra is not None else pc) or (extra is not None and intenc.has_div(slice_pc(pc, extra)))
            if dv:
                try:
                    q = slice_pc(pc, extra) + ([extra] if extra is not None else [])
                    r, si = intenc.prove(q, 3000)
                    if r == z3.unsat:
                        self.backends['z3-lia'] = self.backends.get('z3-lia', 0) + 1
                        return 'unsat', None
                except z3.Z3Exception:
                    pass
            if intenc.has_nl([extra] if extra is not None else pc) or (extra is not None and intenc.has_nl(slice_pc(pc, extra))):
                q = slice_pc(pc, extra) + ([extra] if extra is not None else [])
                try:
                    if not dv and intenc.prove(q, 3000)[0] == z3.unsat:
                        self.backends['z3-lia'] = self.backends.get('z3-lia', 0) + 1
                        return 'unsat', None
                    un, m = intenc.find_model(list(pc) + ([extra] if extra is not None else []), 2000)
                    if un:
                        self.backends['z3-nia'] = self.backends.get('z3-nia', 0) + 1
                        return 'unsat', None
                    if m is not None:
                        return 'sat', m
                except z3.Z3Exception:
                    pass
            if hard and not dv and extra is not None and intenc.has_sums([extra]):
                try:
                    if intenc.prove(slice_pc(pc, extra) + [extra], 1000)[0] == z3.unsat:
                        self.backends['z3-lia'] = self.backends.get('z3-lia', 0) + 1
                        return 'unsat', None
                except z3.Z3Exception:
                    pass
            self._sync(pc)
            tm = timeout or (self.timeout if not hard else 4000)
            self.s.set('timeout', tm)
            self.s.push()
            if extra is not None:
                self.s.add(boolean(extra))
            r = self.s.check()
            m = None
            if r == z3.sat and want_model:
                m = model_of(self.s.model())
            self.s.pop()
            if r == z3.unsat:
                self.backends['z3-inc'] = self.backends.get('z3-inc', 0) + 1
                return 'unsat', None
            if r == z3.sat:
                return 'sat', m
            if not hard:
                return 'unknown', None
            return self._hard(pc, extra)
        finally:
            self.time += time.time() - t0
            if SLOW and time.time() - t0 > float(SLOW):
                sys.stderr.write('SLOW %.1f hard=%s\n  extra %s\n' % (time.time() - t0, hard, str(extra)[:3000]))
                for c in slice_pc(pc, extra):
                    sys.stderr.write('   pc %s\n' % str(c)[:1500])

    def _hard(self, pc, extra):
        # integer encoding, one-shot z3 with preprocessing, then cvc5
        cs = slice_pc(pc, extra)
        q = cs + ([extra] if extra is not None else [])
        if intenc.has_arith(q):
            try:
                r, si = intenc.prove(q, min(self.timeout, 8000))
                if r == z3.unsat:
                    self.backends['z3-lia'] = self.backends.get('z3-lia', 0) + 1
                    return 'unsat', None
                if r == z3.unknown:
                    txt = si.to_smt2()
                    if run_cvc5(txt, min(self.timeout, 8000), 'QF_LIA') == 'unsat':
                        self.backends['cvc5-lia'] = self.backends.get('cvc5-lia', 0) + 1
                        return 'unsat', None
            except z3.Z3Exception:
                pass
        s = z3.SolverFor('QF_UFBV')
        s.set('timeout', self.timeout)
        for c in cs:
            s.add(boolean(c))
        if extra is not None:
            s.add(boolean(extra))
        r = s.check()
        if r == z3.unsat:
            self.backends['z3-ufbv'] = self.backends.get('z3-ufbv', 0) + 1
            return 'unsat', None
        if r == z3.sat:
            if len(cs) == len(pc):
                return 'sat', model_of(s.model())
            s2 = z3.SolverFor('QF_UFBV')
            s2.set('timeout', self.timeout)
            for c in pc:
                s2.add(boolean(c))
            if extra is not None:
                s2.add(boolean(extra))
            r2 = s2.check()
            if r2 == z3.sat:
                return 'sat', model_of(s2.model())
            if r2 == z3.unsat:
                return 'unsat', None
        r = run_cvc5(s.to_smt2(), self.timeout)
        if r == 'unsat':
            self.backends['cvc5'] = self.backends.get('cvc5', 0) + 1
            return 'unsat', None
        return 'unknown', None

    def crosscheck(self, pc, extra):
        """second back end on an obligation that z3 discharged"""
        s = z3.Solver()
        for c in slice_pc(pc, extra):
            s.add(boolean(c))
        if extra is not None:
            s.add(boolean(extra))
        r = run_cvc5(s.to_smt2(), 3000)
        if r == 'unsat':
            self.cross_ok += 1
        elif r == 'sat':
            return False
        else:
            self.cross_unknown += 1
        return True


def slice_pc(pc, extra):
    """constraints that (transitively) share a variable with extra"""
    if extra is None or type(extra) is not T:
        return list(pc)
    vs = set(t.free_vars(extra))
    rest = list(pc)
    out = []
    changed = True
    while changed:
        changed = False
        nr = []
        for c in rest:
            fv = t.free_vars(c)
            if fv & vs or not fv:
                out.append(c)
                vs |= fv
                changed = True
            else:
                nr.append(c)
        rest = nr
    return out


def run_cvc5(smt2, timeout_ms, logic='QF_UFBV'):
    lines = [l for l in smt2.splitlines() if not l.startswith('(set-info')]
    txt = '(set-logic %s)\n' % logic + '\n'.join(lines) + '\n'
    if '(check-sat)' not in txt:
        txt += '(check-sat)\n'
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        fn = f.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, fn], capture_output=True, text=True,
                           timeout=timeout_ms / 1000 + 10)
        o = p.stdout.strip().splitlines()
        return o[0] if o and o[0] in ('sat', 'unsat') else 'unknown'
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(fn)
