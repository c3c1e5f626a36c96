"""Exact integer encoding of bit-vector terms (wrap-around made explicit with fresh
multiples of 2^w). Operators outside linear arithmetic become unconstrained values of
their range, so only 'unsat' answers are used."""
import z3
import terms as t
from terms import T


class Enc:
    def __init__(self, nl=False):
        self.nl = nl
        self.leaves = []
        self.side = []
        self.memo = {}
        self.n = 0
        self.approx = False

    def fresh(self, lo, hi, nm='k'):
        self.n += 1
        v = z3.Int('%s!%d' % (nm, self.n))
        self.side.append(z3.And(v >= lo, v <= hi))
        return v

    def divmod(self, x, c, maxx):
        q = self.fresh(0, maxx // c, 'q')
        r = self.fresh(0, c - 1, 'r')
        self.side.append(x == c * q + r)
        return q, r

    def i(self, x):
        if type(x) is not T:
            return z3.IntVal(x)
        r = self.memo.get(x)
        if r is None:
            r = self.memo[x] = self._i(x)
        return r

    def signed(self, x, w):
        v = self.i(x)
        if type(x) is not T:
            return z3.IntVal(t.tosigned(x, w))
        l, h = t.rng(x)
        if h < (1 << (w - 1)):
            return v
        return z3.If(v >= (1 << (w - 1)), v - (1 << w), v)

    def wrap(self, e, w, lo, hi):
        """e (integer in [lo, hi]) modulo 2^w"""
        if lo >= 0 and hi < (1 << w):
            return e
        k = self.fresh(lo >> w, hi >> w)
        v = self.fresh(0, (1 << w) - 1, 'w')
        self.side.append(v == e - (1 << w) * k)
        return v

    def _i(self, x):
        op, w, a = x.op, x.w, x.a
        M = (1 << w) - 1
        if w == 1 and op in ('eq', 'ult', 'ule', 'slt', 'sle', 'not', 'and', 'or', 'xor'):
            return z3.If(self.b(x), z3.IntVal(1), z3.IntVal(0))
        if op == 'lin':
            e = z3.IntVal(t.tosigned(a[0], w))
            lo = hi = t.tosigned(a[0], w)
            for c, v in a[1]:
                c = t.tosigned(c, w)
                l, h = t.rng(v)
                e = e + c * self.i(v)
                lo += min(c * l, c * h)
                hi += max(c * l, c * h)
            return self.wrap(e, w, lo, hi)
        if op == 'concat':
            e = None
            off = 0
            for pw, p in a:
                v = self.i(p) * (1 << off)
                e = v if e is None else e + v
                off += pw
            return e
        if op == 'extract':
            hi, lo, v = a
            n = hi - lo + 1
            mx = (1 << v.w) - 1
            q = self.i(v)
            if lo:
                q, _ = self.divmod(q, 1 << lo, mx)
            if hi < v.w - 1:
                _, q = self.divmod(q, 1 << n, mx >> lo)
            return q
        if op == 'sext':
            v = a[0]
            n = v.w
            iv = self.i(v)
            return z3.If(iv >= (1 << (n - 1)), iv + (1 << w) - (1 << n), iv)
        if op == 'ite':
            return z3.If(self.b(a[0]), self.i(a[1]), self.i(a[2]))
        if op in ('udiv', 'urem') and type(a[1]) is not T and a[1]:
            q, r = self.divmod(self.i(a[0]), a[1], M)
            self.memo[t.mk('udiv', w, a)] = q
            self.memo[t.mk('urem', w, a)] = r
            return q if op == 'udiv' else r
        if op in ('sdiv', 'srem') and type(a[1]) is not T and a[1] and t.tosigned(a[1], w) > 0:
            c = a[1]
            s = self.signed(a[0], w)
            ab = z3.If(s >= 0, s, -s)
            q, r = self.divmod(ab, c, 1 << (w - 1))
            qq = z3.If(s >= 0, q, z3.If(q == 0, z3.IntVal(0), (1 << w) - q))
            rr = z3.If(s >= 0, r, z3.If(r == 0, z3.IntVal(0), (1 << w) - r))
            self.memo[t.mk('sdiv', w, a)] = qq
            self.memo[t.mk('srem', w, a)] = rr
            return qq if op == 'sdiv' else rr
        if op == 'lshr' and type(a[1]) is not T:
            return self.divmod(self.i(a[0]), 1 << a[1], M)[0]
        if op == 'mul' and (type(a[0]) is not T or type(a[1]) is not T):
            c, v = (a[0], a[1]) if type(a[0]) is not T else (a[1], a[0])
            l, h = t.rng(v)
            return self.wrap(c * self.i(v), w, c * l, c * h)
        if op == 'and' and (type(a[0]) is not T or type(a[1]) is not T):
            c, v = (a[0], a[1]) if type(a[0]) is not T else (a[1], a[0])
            if c & (c + 1) == 0:
                return self.divmod(self.i(v), c + 1, M)[1]
        if op == 'mul' and self.nl:
            (l0, h0), (l1, h1) = t.rng(a[0]), t.rng(a[1])
            return self.wrap(self.i(a[0]) * self.i(a[1]), w, l0 * l1, h0 * h1)
        l, h = t.rng(x)
        if op not in ('var', 'sel', 'uf'):
            self.approx = True
        v = self.fresh(l, h, 'v')
        if self.nl:
            self.leaves.append((x, v))
        return v

    def b(self, x):
        if type(x) is not T:
            return z3.BoolVal(bool(x))
        op, a = x.op, x.a
        if op == 'not':
            return z3.Not(self.b(a[0]))
        if op in ('eq', 'ult', 'ule', 'slt', 'sle'):
            p, q, n = a
            if n == 1 and op == 'eq':
                return self.b(p) == self.b(q)
            if op in ('slt', 'sle'):
                p, q = self.signed(p, n), self.signed(q, n)
            else:
                p, q = self.i(p), self.i(q)
            return p == q if op == 'eq' else p < q if op in ('ult', 'slt') else p <= q
        if op == 'ite':
            return z3.If(self.b(a[0]), self.b(a[1]), self.b(a[2]))
        if op in ('and', 'or', 'xor'):
            f = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op]
            return f(self.b(a[0]), self.b(a[1]))
        return self.i(x) == 1


def has_arith(xs):
    """does the query contain division or wide multiplication worth an integer encoding"""
    seen = set()
    st = list(xs)
    while st:
        x = st.pop()
        if type(x) is not T or x in seen:
            continue
        seen.add(x)
        if x.op in ('udiv', 'urem', 'sdiv', 'srem'):
            return True
        if x.op == 'mul':
            return True
        if x.op == 'lin' and x.w >= 32:
            for c, _ in x.a[1]:
                s = abs(t.tosigned(c, x.w))
                if s & (s - 1):
                    return True
        st.extend(t.children(x))
    return False


def find_model(cs, timeout_ms):
    """a model of all of cs from the integer encoding with exact products, checked on the bit-vector terms; or None"""
    e = Enc(nl=True)
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    s.add(*[e.b(c) for c in cs])
    s.add(*e.side)
    r = s.check()
    if r != z3.sat:
        return r == z3.unsat, None
    zm = s.model()
    m = t.Model()
    for x, v in e.leaves:
        n = zm.eval(v, model_completion=True)
        if not z3.is_int_value(n):
            continue
        n = n.as_long()
        if x.op == 'var':
            m.vars[x.a[0]] = n
        elif x.op == 'sel' and type(x.a[1]) is not T:
            m.arrs.setdefault(x.a[0], {})[x.a[1]] = n
    for c in cs:
        if not m.ev(c):
            return False, None
    return False, m


def has_sums(xs):
    """a 32-bit or wider sum of two or more unknowns"""
    seen = set()
    st = list(xs)
    while st:
        y = st.pop()
        if type(y) is not T or y in seen:
            continue
        seen.add(y)
        if y.op == 'lin' and y.w >= 32 and len(y.a[1]) >= 2:
            return True
        st.extend(t.children(y))
    return False


_div = {}
_nl = {}


def has_nl(xs):
    """a product of two unknowns"""
    for x in xs:
        if type(x) is T:
            r = _nl.get(x)
            if r is None:
                seen = set()
                st = [x]
                r = False
                while st:
                    y = st.pop()
                    if type(y) is not T or y in seen:
                        continue
                    seen.add(y)
                    if y.op == 'mul' and type(y.a[0]) is T and type(y.a[1]) is T:
                        r = True
                        break
                    st.extend(t.children(y))
                _nl[x] = r
            if r:
                return True
    return False


def has_div(xs):
    for x in xs:
        if type(x) is T and _hasdiv(x):
            return True
    return False


def _hasdiv(x):
    r = _div.get(x)
    if r is not None:
        return r
    st = [x]
    while st:
        y = st[-1]
        if y in _div:
            st.pop()
            continue
        if y.op in ('udiv', 'urem', 'sdiv', 'srem'):
            _div[y] = True
            st.pop()
            continue
        ch = [c for c in t.children(y) if type(c) is T]
        pend = [c for c in ch if c not in _div]
        if pend:
            st.extend(pend)
            continue
        _div[y] = any(_div[c] for c in ch)
        st.pop()
    return _div[x]


def prove(cs, timeout_ms):
    e = Enc()
    fs = [e.b(c) for c in cs]
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    s.add(*fs)
    s.add(*e.side)
    return s.check(), s
