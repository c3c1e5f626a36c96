"""Hash-consed bit-vector terms with local simplification.

A value is a Python int (unsigned, already reduced modulo 2**w; the width is
known from context) or a T. Width-1 values double as booleans.
"""

class T:
    __slots__ = ('op', 'w', 'a', 'id', 'rng', 'z', 'bz', 'fv', '__weakref__')

    def __repr__(self):
        return show(self)

_table = {}
_next = [1]


def _key(x):
    return ('#', x.id) if type(x) is T else x


def mk(op, w, a):
    k = (op, w) + tuple([('#', x.id) if type(x) is T else (tuple(('#', y.id) if type(y) is T else y for y in x) if type(x) is tuple else x) for x in a])
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.w = w
        t.a = a
        t.id = _next[0]
        _next[0] += 1
        t.rng = None
        t.z = None
        t.bz = None
        t.fv = None
        _table[k] = t
    return t


def show(t, d=6):
    if type(t) is not T:
        return hex(t) if isinstance(t, int) else str(t)
    if d == 0:
        return '...'
    if t.op == 'var':
        return t.a[0]
    if t.op == 'lin':
        return '(' + ' + '.join(['%d*%s' % (c if c < (1 << (t.w - 1)) else c - (1 << t.w), show(x, d - 1)) for c, x in t.a[1]] + ([hex(t.a[0])] if t.a[0] else [])) + ')'
    if t.op == 'concat':
        return 'cat(' + ','.join('%s:%d' % (show(x, d - 1), w) for w, x in t.a) + ')'
    return t.op + '(' + ','.join(show(x, d - 1) for x in t.a) + ')'


def mask(w):
    return (1 << w) - 1


def var(name, w):
    return mk('var', w, (name,))


def sel(arr, idx):
    """byte idx (64 bit) of the array variable arr"""
    return mk('sel', 8, (arr, idx))


def uf(name, w, args):
    """uninterpreted function application; args is a tuple of (width, value)"""
    return mk('uf', w, (name,) + tuple(args))


EQUAL = []      # procedure that decides the equality of two terms
FOLDS = {}      # name -> (width, step, accumulator, index, parameters)


def fold(w, step, a, k, init, n):
    """F(n) where F(0) = init and F(i+1) = step[a := F(i), k := i]"""
    ws = var_widths(step)
    fv = sorted(x for x in ws if x not in (a.a[0], k.a[0]))
    A, K = var('fold!a%d' % w, w), var('fold!k', 64)
    ps = [var('fold!p%d.%d' % (i, ws[x]), ws[x]) for i, x in enumerate(fv)]
    m = {a: A, k: K}
    for x, p in zip(fv, ps):
        m[var(x, ws[x])] = p
    body = substitute(step, m) if type(step) is T else step
    key = (w, body, len(ps))
    name = FOLDS.get(key)
    if name is None and EQUAL and type(body) is T:
        # the same step written otherwise
        for key2, name2 in list(FOLDS.items()):
            if type(key2) is tuple and key2[0] == w and key2[2] == len(ps) and type(key2[1]) is T and EQUAL[0](body, key2[1]):
                name = FOLDS[key] = name2
                break
    if name is None:
        name = FOLDS[key] = 'fold%d.%d' % (len(FOLDS), w)
        FOLDS[name] = (w, body, A, K, ps)
    return mkfold(name, w, init, n, [(ws[x], var(x, ws[x])) for x in fv])


_INJ = {}


def fold_injective(name, params):
    """does the iterate determine its start? (every step is injective in the accumulator, by the rewrites of eq)"""
    key = (name, tuple(params))
    r = _INJ.get(key)
    if r is None:
        w = FOLDS[name][0]
        x, y, i = var('fold!x%d' % w, w), var('fold!y%d' % w, w), var('fold!K', 64)
        r = _INJ[key] = eq(w, foldstep(name, params, x, i), foldstep(name, params, y, i)) is eq(w, x, y)
    return r


def var_widths(x):
    out, seen, stack = {}, set(), [x]
    while stack:
        x = stack.pop()
        if type(x) is not T or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'var':
            out[x.a[0]] = x.w
        stack.extend(children(x))
    return out


def foldstep(name, params, x, i):
    w, body, A, K, ps = FOLDS[name]
    if type(body) is not T:
        return body
    m = {A: x, K: i}
    for p, (_, v) in zip(ps, params):
        m[p] = v
    return substitute(body, m)


def mkfold(name, w, init, n, params):
    if type(init) is T and init.op == 'uf' and init.a[0] in FOLDS and type(n) is T:
        # continuing an earlier iteration at the place where it stopped
        n0, w0 = init.a[2][1], init.w
        A, K = var('fold!A%d' % w, w), var('fold!K', 64)
        if w0 == w and foldstep(name, params, A, K) is foldstep(init.a[0], init.a[3:], A, add(64, K, n0)):
            return mkfold(init.a[0], w, init.a[1][1], add(64, n0, n), list(init.a[3:]))
    c = n if type(n) is int else n.a[0] if n.op == 'lin' else 0
    if 0 < c <= 64:
        rest = 0 if type(n) is int else sub(64, n, c)
        if type(rest) is int or rng(rest)[1] + c <= mask(64):
            x = mkfold(name, w, init, rest, params) if type(rest) is T else init
            for j in range(c):
                x = foldstep(name, params, x, add(64, rest, j))
            return x
    if type(n) is int and n == 0:
        return init
    return uf(name, w, ((w, init), (64, n)) + tuple(params))


# ---------------------------------------------------------------- ranges
def rng(t):
    if type(t) is not T:
        return (t, t)
    r = t.rng
    if r is None:
        r = t.rng = _rng(t)
    return r


def _rng(t):
    op, w = t.op, t.w
    m = mask(w)
    if op == 'concat':
        lo = hi = 0
        sh = 0
        for pw, p in t.a:
            l, h = rng(p)
            lo += l << sh
            hi += h << sh
            sh += pw
        return (lo, hi)
    if op == 'ite':
        a, b = rng(t.a[1]), rng(t.a[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if op == 'lin':
        lo = hi = t.a[0]
        half = 1 << (w - 1)
        if lo >= half:
            lo = hi = lo - (1 << w)
        for c, x in t.a[1]:
            l, h = rng(x)
            if c >= half:
                c -= 1 << w
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        if lo >= 0 and hi <= m:
            return (lo, hi)
        if hi < 0 and lo >= -(1 << w):
            return (lo + (1 << w), hi + (1 << w))
        return (0, m)
    if op == 'and':
        return (0, min(rng(t.a[0])[1], rng(t.a[1])[1]))
    if op in ('or', 'xor'):
        h = max(rng(t.a[0])[1], rng(t.a[1])[1])
        return (max(rng(t.a[0])[0], rng(t.a[1])[0]) if op == 'or' else 0, mask(h.bit_length()))
    if op == 'udiv':
        a, b = rng(t.a[0]), rng(t.a[1])
        if b[0] > 0:
            return (a[0] // b[1], a[1] // b[0])
        return (0, m)
    if op == 'urem':
        a, b = rng(t.a[0]), rng(t.a[1])
        if b[0] > 0:
            if a[1] < b[0]:
                return a
            return (0, min(a[1], b[1] - 1))
        return (0, m)
    if op == 'lshr':
        a, b = rng(t.a[0]), rng(t.a[1])
        return (a[0] >> min(b[1], w), a[1] >> min(b[0], w))
    if op == 'extract':
        hi, lo, x = t.a
        l, h = rng(x)
        l >>= lo
        h >>= lo
        if h <= m:
            return (l, h)
        return (0, m)
    if op == 'mul':
        a, b = rng(t.a[0]), rng(t.a[1])
        if a[1] * b[1] <= m:
            return (a[0] * b[0], a[1] * b[1])
    return (0, m)


# ---------------------------------------------------------------- linear sums
def lin_parts(w, x):
    if type(x) is not T:
        return x, ()
    if x.op == 'lin':
        return x.a[0], x.a[1]
    return 0, ((1, x),)


def mklin(w, const, d):
    const &= mask(w)
    items = [(c & mask(w), x) for x, c in d.items()]
    items = [(c, x) for c, x in items if c]
    if not items:
        return const
    items.sort(key=lambda p: p[1].id)
    if const == 0 and len(items) == 1 and items[0][0] == 1:
        return items[0][1]
    # recombine c*x where x = concat/whatever: keep as is
    if len(items) == 1 and const == 0:
        c, x = items[0]
        if c & (c - 1) == 0 and x.op == 'concat':
            return concat_pieces([(c.bit_length() - 1, 0)] + pieces_of(w, x), w)
    # width-1 linear terms are xor; never build them
    return mk('lin', w, (const, tuple(items)))


def add(w, x, y):
    if type(x) is not T and type(y) is not T:
        return (x + y) & mask(w)
    if type(y) is not T and y == 0:
        return x
    if type(x) is not T and x == 0:
        return y
    if w == 1:
        return bxor(1, x, y)
    cx, px = lin_parts(w, x)
    cy, py = lin_parts(w, y)
    d = {t: c for c, t in px}
    for c, t in py:
        d[t] = d.get(t, 0) + c
    return mklin(w, cx + cy, d)


def scale(w, k, x):
    k &= mask(w)
    if type(x) is not T:
        return (x * k) & mask(w)
    if k == 0:
        return 0
    if k == 1:
        return x
    if w == 1:
        return x
    c, p = lin_parts(w, x)
    return mklin(w, c * k, {t: cc * k for cc, t in p})


def sub(w, x, y):
    if type(x) is not T and type(y) is not T:
        return (x - y) & mask(w)
    if w == 1:
        return bxor(1, x, y)
    return add(w, x, scale(w, -1, y))


def mul(w, x, y):
    if type(x) is not T:
        return scale(w, x, y)
    if type(y) is not T:
        return scale(w, y, x)
    if x.id > y.id:
        x, y = y, x
    return mk('mul', w, (x, y))


# ---------------------------------------------------------------- concat / extract
def pieces_of(w, x):
    if type(x) is T and x.op == 'concat':
        return list(x.a)
    return [(w, x)]


def concat_pieces(ps, w):
    """ps: LSB first list of (width, value). Truncated to w bits."""
    out = []
    tot = 0
    for pw, p in ps:
        if pw == 0:
            continue
        if tot + pw > w:
            p = extract(w - tot - 1, 0, p, pw)
            pw = w - tot
            if pw <= 0:
                break
        if type(p) is T and p.op == 'concat':
            for q in p.a:
                _push(out, q[0], q[1])
        else:
            _push(out, pw, p)
        tot += pw
    assert tot == w, (tot, w)
    if len(out) == 1:
        return out[0][1]
    if len(out) == 2 and type(out[0][1]) is T and out[0][1].op == 'lin' and type(out[1][1]) is not T and out[1][1] == 0:
        r = _widen(out[0][1], w)
        if r is not None:
            return r
    if EXACT and w == 64 and 2 <= len(out) <= 3 and type(out[-1][1]) is not T and out[-1][1] == 0:
        # the low bits of a small loop counter are the counter
        sh = 0
        if len(out) == 3:
            if type(out[0][1]) is T or out[0][1] != 0:
                return mk('concat', w, tuple(out))
            sh = out[0][0]
        x = out[-2][1]
        if type(x) is T and x.op == 'extract' and x.a[1] == 0 and x.a[2] in EXACT and rng(x.a[2])[1] <= mask(x.w):
            return scale(w, 1 << sh, x.a[2])
    return mk('concat', w, tuple(out))


EXACT = {}      # loop counters with a known range


def _widen(x, w):
    """a sum that cannot overflow, as a sum of the wider terms"""
    n = x.w
    half = 1 << (n - 1)
    k = x.a[0] - (1 << n) if x.a[0] >= half else x.a[0]
    lo = hi = k
    its = []
    for c, y in x.a[1]:
        if c >= half:
            c -= 1 << n
        l, h = rng(y)
        lo += min(c * l, c * h)
        hi += max(c * l, c * h)
        its.append((c, y))
    if lo < 0 or hi > mask(n):
        return None
    r = k & mask(w)
    for c, y in its:
        r = add(w, r, scale(w, c, zext(y, n, w)))
    return r


def _push(out, pw, p):
    if out:
        lw, l = out[-1]
        if type(p) is not T and type(l) is not T:
            out[-1] = (lw + pw, l | (p << lw))
            return
        if type(p) is T and type(l) is T and p.op == 'extract':
            hi, lo, x = p.a
            if l.op == 'extract' and l.a[2] is x and l.a[0] + 1 == lo:
                out[-1] = (lw + pw, extract(hi, l.a[1], x, x.w))
                return
            if lo == lw and x.op in ('lin', 'mul') and extract(lo - 1, 0, x, x.w) is l:
                # the low part of a sum was simplified; put the sum together again
                r = extract(hi, 0, x, x.w)
                out.pop()
                for q in (r.a if type(r) is T and r.op == 'concat' else ((lw + pw, r),)):
                    out.append(q)
                return
        # sign extension pieces etc. are left alone
    out.append((pw, p))


def extract(hi, lo, x, w):
    n = hi - lo + 1
    if type(x) is not T:
        return (x >> lo) & mask(n)
    if n == w:
        return x
    op = x.op
    if op == 'concat':
        ps = []
        pos = 0
        for pw, p in x.a:
            a = max(lo, pos)
            b = min(hi, pos + pw - 1)
            if a <= b:
                ps.append((b - a + 1, extract(b - pos, a - pos, p, pw)))
            pos += pw
        return concat_pieces(ps, n)
    if op == 'extract':
        return extract(hi + x.a[1], lo + x.a[1], x.a[2], x.a[2].w)
    if op == 'ite':
        a, b = x.a[1], x.a[2]
        if type(a) is not T or type(b) is not T:
            return ite(n, x.a[0], extract(hi, lo, a, w), extract(hi, lo, b, w))
    if op in ('and', 'or', 'xor'):
        return {'and': band, 'or': bor, 'xor': bxor}[op](n, extract(hi, lo, x.a[0], w), extract(hi, lo, x.a[1], w))
    if op == 'sext':
        y = x.a[0]
        if hi < y.w:
            return extract(hi, lo, y, y.w)
        if lo == 0:
            return sext(y, y.w, n)
    if op == 'lin' and lo == 0 and n >= 8:
        r = x.a[0] & mask(n)
        for c, t in x.a[1]:
            r = add(n, r, scale(n, c, extract(n - 1, 0, t, w)))
        return r
    if op == 'lin':
        if hi < 8:
            # low bits that do not depend on the unknowns
            r = x.a[0]
            for c, t in x.a[1]:
                l = extract(hi, 0, t, w) if c & mask(hi + 1) else 0
                if type(l) is T:
                    break
                r += c * l
            else:
                return (r >> lo) & mask(n)
        if lo > 0 and n >= 8:
            # all unknowns are multiples of 2^lo: no carry from the low bits
            m = mask(lo)
            ps = []
            for c, t in x.a[1]:
                if c & m == 0:
                    ps.append((c >> lo, extract(n - 1, 0, t, w)))
                elif t.op == 'concat' and type(t.a[0][1]) is not T and t.a[0][0] >= lo and t.a[0][1] & m == 0:
                    ps.append((c, extract(hi, lo, t, w)))
                else:
                    break
            else:
                r = (x.a[0] >> lo) & mask(n)
                for c, t in ps:
                    r = add(n, r, scale(n, c, t))
                return r
    if op == 'mul' and lo == 0 and n >= 8:
        return mul(n, extract(n - 1, 0, x.a[0], w), extract(n - 1, 0, x.a[1], w))
    # high bits known zero?
    h = rng(x)[1].bit_length()
    if lo >= h:
        return 0
    if hi >= h and h > lo:
        return concat_pieces([(h - lo, mk('extract', h - lo, (h - 1, lo, x))), (hi - h + 1, 0)], n)
    return mk('extract', n, (hi, lo, x))


def trunc(x, w, n):
    return extract(n - 1, 0, x, w)


def zext(x, w, n):
    if type(x) is not T or n == w:
        return x
    return concat_pieces([(w, x), (n - w, 0)], n)


def sext(x, w, n):
    if n == w:
        return x
    if type(x) is not T:
        return x | (mask(n) ^ mask(w)) if x >> (w - 1) else x
    if rng(x)[1] < (1 << (w - 1)):
        return zext(x, w, n)
    if x.op == 'ite' and (type(x.a[1]) is not T or type(x.a[2]) is not T):
        return ite(n, x.a[0], sext(x.a[1], w, n), sext(x.a[2], w, n))
    if x.op == 'sext':
        return sext(x.a[0], x.a[0].w, n)
    if w == 1:
        return ite(n, x, mask(n), 0)
    return mk('sext', n, (x,))


# ---------------------------------------------------------------- bitwise
def _split_const(w, x, c, f1, f0):
    ps = []
    i = 0
    while i < w:
        b = (c >> i) & 1
        j = i
        while j < w and ((c >> j) & 1) == b:
            j += 1
        ps.append((j - i, (f1 if b else f0)(extract(j - 1, i, x, w), j - i)))
        i = j
    return concat_pieces(ps, w)


def _align(w, x, y):
    px, py = pieces_of(w, x), pieces_of(w, y)
    cuts = set()
    for ps in (px, py):
        pos = 0
        for pw, _ in ps:
            pos += pw
            cuts.add(pos)
    cuts = sorted(cuts)
    lo = 0
    for c in cuts:
        yield c - lo, extract(c - 1, lo, x, w), extract(c - 1, lo, y, w)
        lo = c


def band(w, x, y):
    if type(x) is not T:
        x, y = y, x
    if type(x) is not T:
        return x & y
    if type(y) is not T:
        if y == 0:
            return 0
        if y == mask(w):
            return x
        return _split_const(w, x, y, lambda v, n: v, lambda v, n: 0)
    if x is y:
        return x
    if w == 1:
        if bnot(x) is y:
            return 0
    if x.op == 'concat' or y.op == 'concat':
        return concat_pieces([(n, band(n, a, b)) for n, a, b in _align(w, x, y)], w)
    if x.id > y.id:
        x, y = y, x
    return mk('and', w, (x, y))


def bor(w, x, y):
    if type(x) is not T:
        x, y = y, x
    if type(x) is not T:
        return x | y
    if type(y) is not T:
        if y == 0:
            return x
        if y == mask(w):
            return y
        return _split_const(w, x, y, lambda v, n: mask(n), lambda v, n: v)
    if x is y:
        return x
    if w == 1:
        if bnot(x) is y:
            return 1
    if x.op == 'concat' or y.op == 'concat':
        return concat_pieces([(n, bor(n, a, b)) for n, a, b in _align(w, x, y)], w)
    if x.id > y.id:
        x, y = y, x
    return mk('or', w, (x, y))


def bxor(w, x, y):
    if type(x) is not T:
        x, y = y, x
    if type(x) is not T:
        return x ^ y
    if x is y:
        return 0
    if type(y) is not T:
        if y == 0:
            return x
        if w == 1:
            return bnot(x)
        if x.op == 'concat':
            return concat_pieces([(n, bxor(n, a, b)) for n, a, b in _align(w, x, y)], w)
        if x.op == 'xor' and type(x.a[1]) is not T:
            return bxor(w, x.a[0], x.a[1] ^ y)
        if y == mask(w):
            # ~x = -1 - x
            return sub(w, y, x)
        if y & 0xff == 0 or y >> (w - 8 if w > 8 else 0) == 0:
            return _split_const(w, x, y, lambda v, n: mk('xor', n, (v, mask(n))) if type(v) is T and n > 1 else bxor(n, v, mask(n)), lambda v, n: v)
        return mk('xor', w, (x, y))
    if x.op == 'concat' or y.op == 'concat':
        return concat_pieces([(n, bxor(n, a, b)) for n, a, b in _align(w, x, y)], w)
    if x.op == 'xor' and type(x.a[1]) is T:
        if x.a[0] is y:
            return x.a[1]
        if x.a[1] is y:
            return x.a[0]
    if y.op == 'xor' and type(y.a[1]) is T:
        if y.a[0] is x:
            return y.a[1]
        if y.a[1] is x:
            return y.a[0]
    if x.id > y.id:
        x, y = y, x
    return mk('xor', w, (x, y))


def bnot(x):
    """boolean not"""
    if type(x) is not T:
        return x ^ 1
    if x.op == 'not':
        return x.a[0]
    if x.op == 'ult':
        return mk('ule', 1, (x.a[1], x.a[0], x.a[2]))
    if x.op == 'ule':
        return mk('ult', 1, (x.a[1], x.a[0], x.a[2]))
    if x.op == 'slt':
        return mk('sle', 1, (x.a[1], x.a[0], x.a[2]))
    if x.op == 'sle':
        return mk('slt', 1, (x.a[1], x.a[0], x.a[2]))
    return mk('not', 1, (x,))


def shl(w, x, y):
    if type(y) is not T:
        if y >= w:
            return 0
        if y == 0:
            return x
        if type(x) is not T:
            return (x << y) & mask(w)
        if x.op == 'lin':
            return scale(w, 1 << y, x)
        if x.op in ('concat', 'extract', 'sel', 'ite') or rng(x)[1] << y > mask(w):
            return concat_pieces([(y, 0), (w - y, extract(w - y - 1, 0, x, w))], w)
        return scale(w, 1 << y, x)
    return mk('shl', w, (x, y))


def lshr(w, x, y):
    if type(y) is not T:
        if y >= w:
            return 0
        if y == 0:
            return x
        return concat_pieces([(w - y, extract(w - 1, y, x, w)), (y, 0)], w)
    return mk('lshr', w, (x, y))


def ashr(w, x, y):
    if type(y) is not T:
        y = min(y, w - 1)
        if y == 0:
            return x
        return sext(extract(w - 1, y, x, w), w - y, w)
    return mk('ashr', w, (x, y))


def tosigned(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def udiv(w, x, y):
    if type(y) is not T:
        if y == 0:
            return mask(w)
        if y == 1:
            return x
        if type(x) is not T:
            return x // y
        if y & (y - 1) == 0:
            return lshr(w, x, y.bit_length() - 1)
        l, h = rng(x)
        if h < y:
            return 0
        if x.op == 'lin':
            # (y*q + c) / y with no overflow
            if all(c % y == 0 for c, _ in x.a[1]) and x.a[0] % y == 0 and h - l <= mask(w) and _nowrap(x):
                return mklin(w, x.a[0] // y, {t: c // y for c, t in x.a[1]})
    return mk('udiv', w, (x, y))


def _nowrap(x):
    hi = x.a[0]
    for c, t in x.a[1]:
        hi += c * rng(t)[1]
    return hi <= mask(x.w)


def urem(w, x, y):
    if type(y) is not T:
        if y == 0:
            return x
        if type(x) is not T:
            return x % y
        if y & (y - 1) == 0:
            return band(w, x, y - 1)
        if rng(x)[1] < y:
            return x
    return mk('urem', w, (x, y))


def sdiv(w, x, y):
    if type(x) is not T and type(y) is not T:
        a, b = tosigned(x, w), tosigned(y, w)
        if b == 0:
            return mask(w) if a >= 0 else 1
        q = abs(a) // abs(b)
        return (q if (a < 0) == (b < 0) else -q) & mask(w)
    if type(y) is not T and y == 1:
        return x
    if type(y) is not T and tosigned(y, w) < -1 and y != 1 << (w - 1):
        return sub(w, 0, sdiv(w, x, sub(w, 0, y)))
    if type(y) is not T and tosigned(y, w) > 1 and rng(x)[1] < 1 << (w - 1):
        return udiv(w, x, y)
    return mk('sdiv', w, (x, y))


def srem(w, x, y):
    if type(x) is not T and type(y) is not T:
        a, b = tosigned(x, w), tosigned(y, w)
        if b == 0:
            return x
        r = abs(a) % abs(b)
        return (r if a >= 0 else -r) & mask(w)
    if type(y) is not T and tosigned(y, w) < -1 and y != 1 << (w - 1):
        return srem(w, x, sub(w, 0, y))
    if type(y) is not T and tosigned(y, w) > 1 and rng(x)[1] < 1 << (w - 1):
        return urem(w, x, y)
    return mk('srem', w, (x, y))


# ---------------------------------------------------------------- comparisons
def _cancel(x, y):
    """(a, b) when x = a ^ c and y = b ^ c"""
    if x.op != y.op:
        return None
    if x.op == 'not':
        return x.a[0], y.a[0]
    if x.op == 'lin':
        if len(x.a[1]) == len(y.a[1]) == 1 and x.a[0] == y.a[0] and x.a[1][0][0] == y.a[1][0][0] == mask(x.w):
            return x.a[1][0][1], y.a[1][0][1]
        return None
    if x.op != 'xor':
        return None
    for i in (0, 1):
        for j in (0, 1):
            if x.a[i] is y.a[j] or (type(x.a[i]) is int and type(y.a[j]) is int and x.a[i] == y.a[j]):
                return x.a[1 - i], y.a[1 - j]
    return None


def _whole(w, x):
    """the value all of whose parts these are, if there is one"""
    if type(x) is not T or x.op != 'concat':
        return x
    p = x.a[-1][1]
    if type(p) is not T or p.op != 'extract' or p.a[2].w != w or p.a[0] != w - 1:
        return x
    v = p.a[2]
    pos = 0
    for n, q in x.a:
        if extract(pos + n - 1, pos, v, w) is not q:
            # an extract of a part that was narrowed before
            if not (type(q) is T and q.op == 'extract' and q.a[1] == pos and extract(q.a[2].w - 1, 0, v, w) is q.a[2]):
                return x
        pos += n
    return v


def _unshift(w, x):
    """(v, r) when x = v ^ (v >> r), r >= w/2"""
    n, p = x.a[-1]
    if type(p) is not T or p.op != 'extract':
        return None
    r = n
    v = p.a[2]
    if v.w != w or p.a[0] != w - 1:
        return None
    if r * 2 < w:
        return None
    y = bxor(w, v, lshr(w, v, r))
    return (v, r) if y is x else None


def eq(w, x, y):
    if type(x) is not T:
        x, y = y, x
    if type(x) is not T:
        return int(x == y)
    if x is y:
        return 1
    if w == 1:
        if type(y) is not T:
            return x if y else bnot(x)
    lx, hx = rng(x)
    ly, hy = rng(y)
    if hx < ly or hy < lx:
        return 0
    if type(y) is not T:
        if x.op == 'concat':
            r = 1
            pos = 0
            for pw, p in x.a:
                r = and_(r, eq(pw, p, (y >> pos) & mask(pw)))
                if type(r) is not T and r == 0:
                    return 0
                pos += pw
            return r
        if x.op == 'ite':
            c, a, b = x.a
            if type(a) is not T or type(b) is not T:
                return or_(and_(c, eq(w, a, y)), and_(bnot(c), eq(w, b, y)))
        if x.op == 'sext':
            v = x.a[0]
            t = y & mask(v.w)
            if sext(t, v.w, w) != y:
                return 0
            return eq(v.w, v, t)
        if x.op == 'lin' and len(x.a[1]) == 1:
            c, t = x.a[1][0]
            if c == 1:
                return eq(w, t, (y - x.a[0]) & mask(w))
            if c == mask(w):
                return eq(w, t, (x.a[0] - y) & mask(w))
        if x.op == 'xor' and type(x.a[1]) is not T:
            return eq(w, x.a[0], x.a[1] ^ y)
        return mk('eq', 1, (x, y, w))
    if x.op == 'lin' or y.op == 'lin':
        d = sub(w, x, y)
        if type(d) is not T:
            return int(d == 0)
        if d.op != 'lin':
            return eq(w, d, 0)
        if len(d.a[1]) == 1 and d.a[1][0][0] in (1, mask(w)):
            return eq(w, d, 0)
        if len(d.a[1]) == 2 and d.a[1][0][0] & 1 and d.a[1][0][0] not in (1, mask(w)):
            # multiplication by an odd number is injective
            i = pow(d.a[1][0][0], -1, 1 << w)
            if d.a[1][1][0] * i & mask(w) == mask(w) and d.a[0] == 0:
                return eq(w, d.a[1][0][1], d.a[1][1][1])
        if len(d.a[1]) == 1 and d.a[1][0][0] & 1:
            return eq(w, d.a[1][0][1], -d.a[0] * pow(d.a[1][0][0], -1, 1 << w) & mask(w))
    if x.op == 'uf' and y.op == 'uf' and x.a[0] == y.a[0] and x.a[0] in FOLDS and x.a[2:] == y.a[2:] and fold_injective(x.a[0], x.a[3:]):
        return eq(w, x.a[1][1], y.a[1][1])
    if x.op == 'xor' and y.op == 'xor':
        c = _cancel(x, y)
        if c is not None:
            return eq(w, c[0], c[1])
    if x.op == 'concat' and y.op == 'concat':
        if w > 8:
            u, v = _unshift(w, x), _unshift(w, y)
            if u is not None and v is not None and u[1] == v[1]:
                # x ^ (x >> r) is injective
                return eq(w, u[0], v[0])
            al = list(_align(w, x, y))
            pa, pb, hit = [], [], False
            for n, a, b in al:
                c = _cancel(a, b) if type(a) is T and type(b) is T else None
                if c is not None:
                    a, b = c
                    hit = True
                pa.append((n, a))
                pb.append((n, b))
            if hit:
                return eq(w, _whole(w, concat_pieces(pa, w)), _whole(w, concat_pieces(pb, w)))
        r = 1
        for n, a, b in _align(w, x, y):
            r = and_(r, eq(n, a, b))
            if type(r) is not T and r == 0:
                return 0
        return r
    if x.op == 'concat' or y.op == 'concat':
        c, o = (x, y) if x.op == 'concat' else (y, x)
        if all(type(p) is not T for _, p in c.a[1:]):
            r = 1
            pos = 0
            for pw, p in c.a:
                r = and_(r, eq(pw, p, extract(pos + pw - 1, pos, o, w)))
                pos += pw
            return r
    if x.id > y.id:
        x, y = y, x
    return mk('eq', 1, (x, y, w))


def ne(w, x, y):
    return bnot(eq(w, x, y))


def ult(w, x, y):
    lx, hx = rng(x)
    ly, hy = rng(y)
    if hx < ly:
        return 1
    if lx >= hy:
        return 0
    if x is y:
        return 0
    if type(y) is not T and y == 1:
        return eq(w, x, 0)
    if type(x) is not T and x == 0:
        return bnot(eq(w, y, 0))
    if w == 1:
        return band(1, bnot(x), y)
    # drop common zero high bits
    n = max(hx.bit_length(), hy.bit_length())
    if n < w and n > 0 and ((type(x) is not T or x.op == 'concat') and (type(y) is not T or y.op == 'concat')):
        return ult(n, extract(n - 1, 0, x, w), extract(n - 1, 0, y, w))
    return mk('ult', 1, (x, y, w))


def ule(w, x, y):
    return bnot(ult(w, y, x))


def slt(w, x, y):
    if type(x) is not T and type(y) is not T:
        return int(tosigned(x, w) < tosigned(y, w))
    if x is y:
        return 0
    h = 1 << (w - 1)
    lx, hx = rng(x)
    ly, hy = rng(y)
    xs = 0 if hx < h else 1 if lx >= h else 2
    ys = 0 if hy < h else 1 if ly >= h else 2
    if xs == ys and xs != 2:
        return ult(w, x, y)
    if xs == 1 and ys == 0:
        return 1
    if xs == 0 and ys == 1:
        return 0
    if type(y) is not T and y == 0 and w > 1:
        return extract(w - 1, w - 1, x, w)
    if type(x) is not T and x == mask(w) and w > 1:
        return bnot(extract(w - 1, w - 1, y, w))
    return mk('slt', 1, (x, y, w))


def sle(w, x, y):
    return bnot(slt(w, y, x))


def and_(x, y):
    return band(1, x, y)


def or_(x, y):
    return bor(1, x, y)


def implies(x, y):
    return or_(bnot(x), y)


def ite(w, c, x, y):
    if type(c) is not T:
        return x if c else y
    if x is y or (type(x) is not T and type(y) is not T and x == y):
        return x
    if w == 1:
        if type(x) is not T:
            return or_(c, y) if x else and_(bnot(c), y)
        if type(y) is not T:
            return or_(bnot(c), x) if y else and_(c, x)
    if c.op == 'not':
        return ite(w, c.a[0], y, x)
    if type(x) is T and x.op == 'ite' and x.a[0] is c:
        return ite(w, c, x.a[1], y)
    if type(y) is T and y.op == 'ite' and y.a[0] is c:
        return ite(w, c, x, y.a[2])
    if (type(x) is T and x.op == 'concat') and (type(y) is T and y.op == 'concat'):
        if [p[0] for p in x.a] == [p[0] for p in y.a]:
            return concat_pieces([(p[0], ite(p[0], c, p[1], q[1])) for p, q in zip(x.a, y.a)], w)
    if type(x) is T and x.op == 'concat' and type(y) is not T or type(y) is T and y.op == 'concat' and type(x) is not T:
        return concat_pieces([(n, ite(n, c, a, b)) for n, a, b in _align(w, x, y)], w)
    return mk('ite', w, (c, x, y))


def bswap(w, x):
    n = w // 8
    return concat_pieces([(8, extract(8 * (n - i) - 1, 8 * (n - 1 - i), x, w)) for i in range(n)], w)


# ---------------------------------------------------------------- evaluation
def children(t):
    op = t.op
    if op == 'lin':
        return [x for _, x in t.a[1]]
    if op == 'concat':
        return [x for _, x in t.a if type(x) is T]
    if op == 'uf':
        return [x for _, x in t.a[1:] if type(x) is T]
    return [x for x in t.a if type(x) is T]


def free_vars(t):
    """frozenset of variable/array/uf names"""
    if type(t) is not T:
        return frozenset()
    if t.fv is not None:
        return t.fv
    stack = [t]
    while stack:
        x = stack[-1]
        if x.fv is not None:
            stack.pop()
            continue
        ch = [c for c in children(x) if c.fv is None]
        if ch:
            stack.extend(ch)
            continue
        s = frozenset()
        cs = children(x)
        if cs:
            s = cs[0].fv
            for c in cs[1:]:
                if c.fv is not s:
                    s = s | c.fv
        if x.op in ('var', 'sel'):
            s = s | {x.a[0]}
        elif x.op == 'uf':
            s = s | {x.a[0]}
        x.fv = s
        stack.pop()
    return t.fv


class Model:
    """vars: name->int; arrs: name->{idx:byte}; ufs: name->{args tuple: value}. Missing = 0."""
    __slots__ = ('vars', 'arrs', 'ufs', 'memo', 'dflt')

    def __init__(self, vars=None, arrs=None, ufs=None, dflt=None):
        self.vars = vars or {}
        self.arrs = arrs or {}
        self.ufs = ufs or {}
        self.dflt = dflt or {}
        self.memo = {}

    def ev(self, t):
        if type(t) is not T:
            return t
        memo = self.memo
        r = memo.get(t.id)
        if r is not None:
            return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            pend = [c for c in children(x) if c.id not in memo]
            if pend:
                stack.extend(pend)
                continue
            memo[x.id] = self._ev1(x)
            stack.pop()
        return memo[t.id]

    def _g(self, x):
        return self.memo[x.id] if type(x) is T else x

    def _ev1(self, t):
        op, w, a = t.op, t.w, t.a
        g = self._g
        m = mask(w)
        if op == 'var':
            return self.vars.get(a[0], 0) & m
        if op == 'sel':
            return self.arrs.get(a[0], {}).get(g(a[1]), self.dflt.get(a[0], 0))
        if op == 'uf':
            return self.ufs.get(a[0], {}).get(tuple(g(x) for _, x in a[1:]), self.dflt.get(a[0], 0))
        if op == 'lin':
            r = a[0]
            for c, x in a[1]:
                r += c * g(x)
            return r & m
        if op == 'concat':
            r = 0
            sh = 0
            for pw, p in a:
                r |= g(p) << sh
                sh += pw
            return r
        if op == 'extract':
            return (g(a[2]) >> a[1]) & m
        if op == 'ite':
            return g(a[1]) if g(a[0]) else g(a[2])
        if op == 'not':
            return g(a[0]) ^ 1
        if op == 'sext':
            return sext(g(a[0]), a[0].w, w)
        x = g(a[0])
        y = g(a[1])
        if op == 'and':
            return x & y
        if op == 'or':
            return x | y
        if op == 'xor':
            return x ^ y
        if op == 'mul':
            return (x * y) & m
        if op == 'eq':
            return int(x == y)
        if op == 'ult':
            return int(x < y)
        if op == 'ule':
            return int(x <= y)
        if op == 'slt':
            return int(tosigned(x, a[2]) < tosigned(y, a[2]))
        if op == 'sle':
            return int(tosigned(x, a[2]) <= tosigned(y, a[2]))
        return {'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem, 'shl': shl, 'lshr': lshr, 'ashr': ashr}[op](w, x, y)


def substitute(t, m):
    """m: dict T -> value (exact term replacement), rebuilt with simplification"""
    memo = {}

    def rec(x):
        if type(x) is not T:
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        else:
            r = rebuild(x, rec)
        memo[x.id] = r
        return r
    return rec(t)


def rebuild(x, rec):
    op, w, a = x.op, x.w, x.a
    if op == 'var':
        return x
    if op == 'sel':
        return sel(a[0], rec(a[1]))
    if op == 'uf':
        xs = tuple((pw, rec(p)) for pw, p in a[1:])
        if a[0] in FOLDS:
            return mkfold(a[0], w, xs[0][1], xs[1][1], list(xs[2:]))
        return uf(a[0], w, xs)
    if op == 'lin':
        r = a[0]
        for c, t in a[1]:
            r = add(w, r, scale(w, c, rec(t)))
        return r
    if op == 'concat':
        return concat_pieces([(pw, rec(p)) for pw, p in a], w)
    if op == 'extract':
        return extract(a[0], a[1], rec(a[2]), a[2].w)
    if op == 'ite':
        return ite(w, rec(a[0]), rec(a[1]), rec(a[2]))
    if op == 'not':
        return bnot(rec(a[0]))
    if op == 'sext':
        return sext(rec(a[0]), a[0].w, w)
    if op in ('eq', 'ult', 'ule', 'slt', 'sle'):
        f = {'eq': eq, 'ult': ult, 'ule': ule, 'slt': slt, 'sle': sle}[op]
        return f(a[2], rec(a[0]), rec(a[1]))
    f = {'and': band, 'or': bor, 'xor': bxor, 'mul': mul, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv,
         'srem': srem, 'shl': shl, 'lshr': lshr, 'ashr': ashr}[op]
    return f(w, rec(a[0]), rec(a[1]))
