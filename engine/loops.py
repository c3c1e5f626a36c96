"""Loops over a symbolic number of iterations, without unrolling.

Rule for counted loops. All loop-carried registers advance by a constant per iteration (p_i = s_i + c_i*k),
the header's exit condition determines the number N of iterations, and one iteration is executed for an
arbitrary k < N. When that iteration ends in exactly one way and writes either nothing or one cell that no
other iteration reads or writes (address linear in k with the cell size as stride), then after the loop
  - registers are s_i + c_i*N,
  - the written range holds, at cell k, the value the arbitrary iteration wrote,
  - every condition P(k) under which the iteration goes on holds for all k < N (kept as a universal fact that
    is instantiated wherever a byte at a matching position is mentioned).
  - a register that is not linear but computed in iteration k from its own value, k and unchanged memory (an accumulator)
    is the iterate F(N) with F(0) = start, F(k+1) = step(F(k), k), an uninterpreted function named by its step.
Other ways out of an iteration (early exits, allowed when nothing is written) become paths for an arbitrary k
with P(j) for all j < k. All obligations of the iteration are discharged for the arbitrary k, i.e. for all.
Loops that do not fit are unrolled as before.
"""
import terms as t
from terms import T

M64 = t.mask(64)


class Gen:
    __slots__ = ('header', 'body', 'out', 'depth')


def static_ok(fn, h):
    """-> (phis, header instructions, cond, continue-target-is-first) or None"""
    cache = fn.regions
    key = ('loop', h)
    if key in cache:
        return cache[key]
    cache[key] = None
    body = fn.loops[h][0]
    for b in body:
        if b != h and b in fn.headers:
            return no(('s', 1, fn.dm[:50], fn.loops[h][1]))
        for i in fn.blocks[b]:
            if i[0] not in OK:
                return no(('s', 2, fn.dm[:50], fn.loops[h][1]))
    blk = fn.blocks[h]
    br = blk[-1]
    if br[0] != 'br' or br[3] is None or (br[4] in body) == (br[5] in body):
        return no(('s', 3, fn.dm[:50], fn.loops[h][1]))
    for i in blk[:-1]:
        if i[0] not in PUREI:
            return no(('s', 4, fn.dm[:50], fn.loops[h][1]))
    defs = {}
    for b in body:
        for i in fn.blocks[b]:
            if type(i[1]) is int:
                defs[i[1]] = i
    phis = []
    guessed = set()
    for i in blk:
        if i[0] != 'phi':
            break
        if type(i[3]) is not int or i[3] > 64:
            return no(('s', 5, fn.dm[:50], fn.loops[h][1]))
        c = None
        fold = i[3] < 8
        for b, v in i[4]:
            if b not in body:
                continue
            n = getattr(v, 'n', None)
            d = defs.get(n)
            if d is not None and d[0] == 'phi' and n != i[1] and i[3] == 64:
                # joined with ways out of the loop: suppose the value of the way on
                for q, u in d[4]:
                    u = defs.get(getattr(u, 'n', None))
                    if u is not None and u[0] == 'phi':
                        for q2, u2 in u[4]:
                            u2 = defs.get(getattr(u2, 'n', None))
                            if u2 is not None and u2[0] in ('add', 'getelementptr'):
                                u = u2
                                break
                    if u is not None and u[0] in ('add', 'getelementptr'):
                        d = u
                        guessed.add(i[1])
                        break
            if fold or n is None:
                fold = True
                break
            if n == i[1]:
                k = 0
            elif d is None:
                fold = True
                break
            elif d[0] == 'getelementptr' and i[3] == 64 and getattr(d[3], 'n', None) == i[1] and not d[5]:
                k = d[4] & M64
            elif d[0] == 'add':
                x, y = d[5]
                if getattr(y, 'n', None) == i[1]:
                    x, y = y, x
                if getattr(x, 'n', None) != i[1] or type(y) is not int:
                    fold = True
                    break
                k = y & t.mask(i[3])
                if k >> (i[3] - 1):
                    k = (k - (1 << i[3])) & M64
            else:
                fold = True
                break
            if c is not None and c != k:
                fold = True
                break
            c = k
        phis.append((i[1], None if fold else c, i[3]))
    if all(c is None for r, c, w in phis):
        return no(('s', 6, fn.dm[:50], fn.loops[h][1]))
    r = cache[key] = (phis, len(phis), br[4] in body, guessed)
    return r


PUREI = {'phi', 'icmp', 'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'zext', 'sext', 'trunc', 'select', 'freeze', 'getelementptr', 'ptrtoint'}
OK = PUREI | {'br', 'switch', 'load', 'store', 'unreachable', 'bitcast', 'call'}


def narrow(x, k):
    """x of less than 64 bits as (c*k + rest) modulo 2^width"""
    w = x.w
    low = t.extract(w - 1, 0, k, 64)
    if x is low:
        return 1, 0
    if x.op == 'lin':
        for c, y in x.a[1]:
            if y is low:
                rest = t.sub(w, x, t.scale(w, c, y))
                return (None, None) if mentions(rest, k) else (c, rest)
    return None, None


def count(cont, k):
    """number of iterations from the condition to go on in iteration k; None if unknown"""
    e = t.bnot(cont)
    if type(e) is not T:
        return None
    if e.op == 'eq' and e.a[2] < 64 and e.a[2] >= 8:
        # a narrow counter reaches the bound modulo 2^w
        w = e.a[2]
        d = t.sub(w, e.a[0], e.a[1])
        c, rest = narrow(d, k) if type(d) is T else (None, None)
        if c == 1:
            return t.zext(t.sub(w, 0, rest), w, 64)
        if c == t.mask(w):
            return t.zext(rest, w, 64)
        return None
    if cont.op == 'ult' and type(cont.a[0]) is T:
        x, b, w = cont.a
        if w == 64 and x.op == 'concat' and len(x.a) == 2 and type(x.a[1][1]) is not T and x.a[1][1] == 0 and t.rng(b)[1] <= t.mask(x.a[0][0]):
            # compared after widening with a bound that the counter can reach
            w = x.a[0][0]
            x, b = x.a[0][1], t.trunc(b, 64, w)
        if 8 <= w < 64 and type(x) is T and not mentions(b, k):
            c, rest = narrow(x, k)
            if c == 1:
                return t.ite(64, t.ult(w, rest, b), t.zext(t.sub(w, b, rest), w, 64), 0)
    if e.op == 'eq':
        d = t.sub(64, e.a[0], e.a[1]) if e.a[2] == 64 else None
        if d is None:
            return None
        c, rest = lin_k(d, k)
        if c == 1:
            return t.sub(64, 0, rest)
        if c == M64:
            return rest
        if c is None or c == 0:
            return None
        neg = c >> 63
        m = ((1 << 64) - c) if neg else c
        if m & (m - 1) or m > 4096:
            return None
        return divide(rest if neg else t.sub(64, 0, rest), m)
    c = cont
    if c.op == 'slt' and c.a[0] == 0 and c.a[2] == 64:
        # counting down while positive
        ck, r = lin_k(c.a[1], k)
        if ck == M64 and t.rng(r)[1] < 1 << 63:
            return r
    if c.op == 'ult' and c.a[2] == 64:
        ck, a = lin_k(c.a[0], k)
        b = c.a[1]
        if ck == 1 and not mentions(b, k) and not mentions(a, k):
            return t.ite(64, t.ult(64, a, b), t.sub(64, b, a), 0)
    return None


def divide(r, m):
    """the smallest k with m*k == r modulo 2^64, for a power of two m; None unless r is a multiple of m"""
    if type(r) is T and r.op == 'lin':
        ps = [(c if c < (1 << 63) else c - (1 << 64), x) for c, x in r.a[1]]
        c0 = r.a[0] if r.a[0] < (1 << 63) else r.a[0] - (1 << 64)
        if c0 % m == 0 and all(c % m == 0 for c, x in ps):
            q = (c0 // m) & M64
            for c, x in ps:
                q = t.add(64, q, t.scale(64, (c // m) & M64, x))
            if type(q) is T and t.rng(q)[1] < (1 << 64) // m:
                return q
            return t.lshr(64, r, m.bit_length() - 1)
    if t.band(64, r, m - 1) == 0:
        return t.lshr(64, r, m.bit_length() - 1)
    return None


def mentions(x, k):
    return type(x) is T and k.a[0] in t.free_vars(x)


def lin_k(x, k):
    """x = c*k + rest"""
    if x is k:
        return 1, 0
    if type(x) is not T or not mentions(x, k):
        return 0, x
    if x.op == 'lin':
        for c, y in x.a[1]:
            if y is k:
                rest = t.sub(64, x, t.scale(64, c, k))
                return (None, None) if mentions(rest, k) else (c, rest)
    return None, None


import os
DBG = os.environ.get('LOOPDBG')


def same(x, y):
    return x is y or type(x) is not T and type(y) is not T and x == y


_bounds = {}


def bounded(ex, y, i):
    """the iterate y = F(i) with a constant start c stays at or below i + c when that is inductive: a fact about it"""
    name, c, n = y.a[0], y.a[1][1], i
    if y.w != 64 or type(c) is T or c >= 1 << 16:
        return 1
    k = (name, c)
    if k not in _bounds:
        w, body, A, K, ps = t.FOLDS[name]
        _bounds[k] = ex.solver.check([t.ult(64, K, 1 << 40), t.ule(64, A, t.add(64, K, c))], t.bnot(t.ule(64, body, t.add(64, K, c + 1))), timeout=3000)[0] == 'unsat'
    if not _bounds[k]:
        return 1
    return t.implies(t.ule(64, i, 1 << 40), t.ule(64, y, t.add(64, i, c)))


def no(why):
    if DBG:
        print('  loop rule: refused at', why)
    return None


def summarise(ex, st, f, h, lin=None, top=None, stage=0, steps=None, exact=False):
    """states after the loop, or None when the rule does not apply
    lin: memory words supposed to advance linearly, [(object, offset, value before, step)] (checked by induction)"""
    s = static_ok(f.fn, h)
    if s is None or f.gen is not None:
        return no(1)
    phis, nph, first, guessed = s
    if exact:
        phis = [(r, None if r in guessed else c, w) for r, c, w in phis]
        if all(c is None for r, c, w in phis):
            return no(33)
    fn = f.fn
    blk = fn.blocks[h]
    starts = []
    for ins in blk[:nph]:
        for b, v in ins[4]:
            if b == f.blk:
                starts.append((ins[1], ex.val(st, f, v, ins[3])))
                break
        else:
            return no(2)
    step = {r: c for r, c, w in phis}
    width = {r: w for r, c, w in phis}
    ex.uid += 1
    k = t.var('k!%d' % ex.uid, 64)
    small = any(c is not None and w < 64 for r, c, w in phis)
    if small and top is not None:
        # iterations are fewer than that; values of the counter that was not widened stay exact
        k.rng = (0, max(top - 1, 0))
        t.EXACT[k] = 1
    acc = {r: t.var('a!%d!%d' % (ex.uid, r), width[r]) for r, v in starts if step[r] is None} if steps is None else {}

    def at(r, v, i):
        w = width[r]
        return t.trunc(t.add(64, t.zext(v, w, 64), t.scale(64, step[r], i)), 64, w)
    def iterate(r, v, i):
        # value of an accumulator before iteration i
        a0, k0, x = steps[r]
        if not mentions(x, a0):
            return t.ite(width[r], t.eq(64, i, 0), v, t.substitute(x, {k0: t.sub(64, i, 1)}) if type(x) is T else x)
        y = t.fold(width[r], x, a0, k0, v, i)
        if type(y) is T and y.op == 'uf':
            ex.folded = True
        return y
    here = lambda r, v: acc[r] if r in acc else iterate(r, v, k) if step[r] is None else at(r, v, k)
    # the number of iterations
    regs = f.regs
    f.regs = dict(regs)
    for r, v in starts:
        f.regs[r] = here(r, v)
    for ins in blk[nph:-1]:
        ex.ops[ins[0]](st, f, ins)
    c = ex.val(st, f, blk[-1][3], 1)
    f.regs = regs
    if type(c) is not T:
        return no(3)
    N = count(c if first else t.bnot(c), k)
    if small and top is None and type(N) is T:
        return summarise(ex, st, f, h, lin, t.rng(N)[1], stage, exact=exact)
    if type(N) is not T or any(mentions(N, a) for a in acc.values()):
        return no(4)
    probe = st.clone()
    pf = probe.frames[-1]
    if acc and (t.rng(N)[1] <= 32 or ex.must(st, t.ule(64, N, 32))):
        return no(20)       # a few iterations: unroll
    # an arbitrary iteration
    lt = t.ult(64, k, N)
    ok, m = ex.feasible(probe, lt)
    if not ok:
        return no(5)
    if m is None:
        return no(6)
    for r, v in starts:
        pf.regs[r] = here(r, v)
    pf.prev = pf.blk
    pf.blk = h
    pf.ip = nph
    pf.visits[h] = 0
    base0 = len(probe.pc)
    ex.push(probe, lt)
    probe.model = m
    base = len(probe.pc)
    for r, v in starts if steps else ():
        if step[r] is None and type(pf.regs[r]) is T and pf.regs[r].op == 'uf':
            z = t.and_(t.or_(t.bnot(t.eq(64, k, 0)), t.eq(width[r], pf.regs[r], v)), bounded(ex, pf.regs[r], k))
            if type(z) is T:
                if not m.ev(z):
                    probe.model = None
                ex.push(probe, z)
    base = len(probe.pc)
    for oid, off, n, v, c in lin or ():
        ex.store(probe, probe.mem[oid], off, t.add(64, v, t.scale(64, c, k)) if c is not None else v, n, 0)
    import mem
    g = Gen()
    g.header, g.body, g.out, g.depth = h, fn.loops[h][0], [], len(probe.frames)
    pf.gen = g
    saved = (ex.work, ex.res, ex.rlog)
    marks = (mem._undef[0], ex.uid, probe.nobj)
    ex.work = [probe]
    ex.res = type(ex.res)()
    ex.rlog = []
    probe.wlog = []
    wlog = probe.wlog
    wasmem = {o: (x.flat is None, x.size) for o, x in probe.mem.items()}
    good = True
    try:
        turns = 0
        while ex.work and good:
            ex.runpath(ex.work.pop())
            turns += 1
            if turns > 60 or ex.res.failures or ex.res.undecided or ex.res.paths:
                good = False
    except ex.Undecided:
        good = False
    res, rlog = ex.res, ex.rlog
    ex.work, ex.res, ex.rlog = saved
    if not good or mem._undef[0] != marks[0] or ex.uid != marks[1]:
        return no(7)
    back = [s2 for s2, kind, _ in g.out if kind == 'back']
    exits = [(s2, to) for s2, kind, to in g.out if kind == 'exit']
    fresh = {n: a for s2, _, _ in g.out for n, a in s2.gaddr.items() if n not in st.gaddr}
    if fresh:
        # constants first mentioned in the loop: make them known before it
        for n in sorted(fresh, key=lambda n: fresh[n]):
            ex.gaddr(st, n)
        return summarise(ex, st, f, h, lin, top, stage, exact=exact)
    if not back or len(back) > 12:
        return no((8, len(back)))
    for s2, _, _ in g.out:
        for oid in range(marks[2], s2.nobj + 1):
            if oid in st.mem:
                continue
            o = s2.mem.get(oid)
            if o is not None and o.alive:
                return no((8, 'object'))
    wlog = [x for x in wlog if x[0] in st.mem]
    rlog = [x for x in rlog if x[0] in st.mem]
    if acc and wlog:
        return no(18)
    b = back[0]
    conds = []
    for s2 in back:
        x = 1
        for y in s2.pc[base:]:
            if y in s2.implied:
                continue
            if len(back) > 1 and any(mentions(y, a) for a in acc.values()):
                return no(34)
            x = t.and_(x, y)
        conds.append(x)
    if len(back) > 1 and wlog:
        return no((8, len(back)))

    def after_one(r):
        # value of register r after the iteration, whichever way it went
        vals = []
        for s2, c in zip(back, conds):
            bf = s2.frames[-1]
            for x in [x for ins in blk[:nph] if ins[1] == r for frm, x in ins[4] if frm == bf.blk]:
                x = ex.val(s2, bf, x, width[r])
                for y in vals:
                    if same(x, y[0]):
                        y[1] = t.or_(y[1], c)
                        break
                else:
                    vals.append([x, c])
        if not vals:
            return None
        x = vals[-1][0]
        for y, c in vals[:-1]:
            x = t.ite(width[r], c, y, x)
        return x
    if acc and exits:
        # once more, now with the accumulators as iterates of their steps
        new = {}
        for r in acc:
            x = after_one(r)
            if x is None or any(mentions(x, a) for q, a in acc.items() if q != r):
                return no(19)
            new[r] = acc[r], k, x
        return summarise(ex, st, f, h, lin, top, stage, new, exact)
    words = {}
    for oid, off, n in wlog:
        if type(n) is int and n and not mentions(off, k):
            words[oid, off, n] = 1
    if words and stage < 2:
        # words that are written in every iteration: suppose that they advance as in this one (first), or that they are
        # scratch, written before they are read
        hint = list(lin or ())
        for oid, off, n in words:
            if any((oid, off, n) == x[:3] for x in hint):
                continue
            if st.mem[oid].ro or n > 64:
                return no(21)
            c = None
            v = 0
            if n == 8:
                v = ex.load(st, st.mem[oid], off, n)
                c = t.sub(64, ex.load(b, b.mem[oid], off, n), v)
                if mem._undef[0] != marks[0]:
                    marks = (mem._undef[0],) + marks[1:]
                    c = None
            if type(c) is not int or stage:
                ex.uid += 1
                v = t.var('scratch!%d' % ex.uid, 8 * n)
                c = None
            if stage or c:
                hint.append((oid, off, n, v, c))
        for i, x in enumerate(hint):
            for y in hint[:i]:
                if x[0] == y[0]:
                    d = t.sub(64, x[1], y[1])
                    if type(d) is not int or d < y[2] or (1 << 64) - d < x[2]:
                        return no((24, x, y))
        return summarise(ex, st, f, h, hint, top, stage + 1, exact=exact)
    last = []
    for oid, off, n, v, c in lin or ():
        x = ex.load(b, b.mem[oid], off, n)
        if mem._undef[0] != marks[0]:
            return no(25)
        if c is not None:
            if x is not t.add(64, v, t.scale(64, c, t.add(64, k, 1))):
                return no(23)
            continue
        last.append(v)
        for s2, to in exits:
            y = ex.load(s2, s2.mem[oid], off, n)
            if mem._undef[0] != marks[0] or mentions(y, v):
                return no(26)
    for v in last:
        if any(mentions(x, v) for s2, _, _ in g.out for x in s2.pc[base:]):
            return no(27)
    if lin:
        known = {(oid, off, n) for oid, off, n, v, c in lin}
        wlog = [x for x in wlog if x not in known]
        if any(mentions(off, v) for oid, off, n in wlog for v in last):
            return no(28)
    new = {}
    for r in acc:
        new[r] = after_one(r)
        if new[r] is None or any(mentions(new[r], a) for q, a in acc.items() if q != r):
            return no(19)
    for r, v in starts:
        if step[r] is None:
            continue
        if not same(after_one(r), at(r, v, t.add(64, k, 1))):
            if r in guessed and not exact:
                return summarise(ex, st, f, h, None, None, 0, None, True)
            return no(9)
    writes = []
    if wlog:
        if exits:
            return no(9)
        groups = {}
        for oid, off, n in wlog:
            groups.setdefault(oid, []).append((off, n))
        for oid, ws in groups.items():
            S = None
            rel = []
            for off, n in ws:
                if type(n) is not int:
                    return no(10)
                ck, off0 = lin_k(off, k)
                if ck not in (1, 2, 4, 8, 16, 32) or S not in (None, ck):
                    return no((11, f.fn.dm[:60], t.show(off), n, ck, S))
                S = ck
                d = t.sub(64, off, ws[0][0])
                if type(d) is not int:
                    return no(16)
                rel.append((d - (1 << 64) if d >> 63 else d, n))
            lo = min(d for d, n in rel)
            if sorted({x for d, n in rel for x in range(d - lo, d - lo + n)}) != list(range(S)):
                return no(17)
            start = t.add(64, ws[0][0], lo & M64)
            off0 = lin_k(start, k)[1]
            o = b.mem[oid]
            for ro, roff, rn in rlog:
                if ro == oid:
                    d = t.sub(64, roff, start)
                    if type(d) is not int or type(rn) is not int or d + rn > S:
                        return no(12)
            cells = [ex.load(b, o, t.add(64, start, j), 1) for j in range(S)]
            if mem._undef[0] != marks[0]:
                return no(13)
            if st.mem[oid].ro:
                return no(15)
            if any(mentions(x, v) for x in cells for v in last):
                return no(29)
            writes.append((oid, off0, S, cells))
    after = {}
    for oid, off, n, v, c in lin or ():
        if c is None:
            x = ex.load(b, b.mem[oid], off, n)
            if mentions(x, v) or any(mentions(x, a) for a in acc.values()):
                return no((30, off, n, t.show(x), t.show(v)))
            after[oid, off, n] = t.substitute(x, {k: t.sub(64, N, 1)}) if type(x) is T else x
    if any(mentions(new[r], v) for r in new for v in last):
        return no(31)
    P = 0
    for c in conds if len(conds) > 1 else ():
        P = t.or_(P, c)
    if len(conds) == 1:
        P = 1
        for x in b.pc[base:]:
            if x not in b.implied and not any(mentions(x, a) for a in acc.values()):
                P = t.and_(P, x)
    # commit
    res.paths = 0
    saved[1].merge(res)
    saved[1].loops[fn.dm[:100] + ':%d' % fn.loops[h][1]] = 1
    out = []
    for oid, off0, n, cells in writes:
        o = ex.wobj(st, st.mem[oid])
        if st.wlog is not None:
            st.wlog.append((oid, off0, None))
        hi = t.rng(N)[1]
        if o.flat is not None and type(off0) is int and n == 1 and o.size <= 128:
            for j in range(o.size - off0):
                if j >= hi:
                    break
                w = t.ult(64, j, N)
                v = t.substitute(cells[0], {k: j}) if type(cells[0]) is T else cells[0]
                if type(w) is T:
                    old = o.flat[off0 + j]
                    old = mem.fresh_undef(8) if old is None else mem.byte_val(old)
                    v = t.ite(8, w, v, old)
                elif not w:
                    break
                o.flat[off0 + j] = v
        else:
            o.to_log()
            o.log.append(('g', off0, t.scale(64, n, N), (n, k, cells)))
    if type(P) is T and mentions(P, k):
        ex.add_fact(st, k, N, P)
    for oid, off, n, v, c in lin or ():
        if c is not None:
            ex.store(st, st.mem[oid], off, t.add(64, v, t.scale(64, c, N)), n, 0)
        elif ex.must(st, t.bnot(t.eq(64, N, 0))):
            ex.store(st, st.mem[oid], off, after[oid, off, n], n, 0)
        else:
            ex.store(st, st.mem[oid], off, mem.fresh_undef(8 * n), n, 0)
    if steps is None:
        steps = {r: (acc[r], k, new[r]) for r in acc}
    for r, v in starts:
        if step[r] is None:
            x = iterate(r, v, N)
            if type(x) is T and x.op == 'uf':
                z = t.and_(t.or_(t.bnot(t.eq(64, N, 0)), t.eq(width[r], x, v)), bounded(ex, x, N))
                if type(z) is T:
                    if st.model is not None and not st.model.ev(z):
                        st.model = None
                    ex.push(st, z)
            f.regs[r] = x
        else:
            f.regs[r] = at(r, v, N)
    frm = f.blk
    for s2, to in exits:
        sf = s2.frames[-1]
        sf.gen = None
        s2.wlog = st.wlog
        if type(P) is T and mentions(P, k):
            ex.add_fact(s2, k, k, P)
        if not lin:
            # is it the place where an earlier loop was left?
            for k2 in s2.exits:
                if ex.must(s2, t.eq(64, k, k2)):
                    m = {k: k2}
                    for r, x in sf.regs.items():
                        if mentions(x, k):
                            sf.regs[r] = t.substitute(x, m)
                    pc = s2.pc
                    s2.pc = pc[:base0]
                    for x in pc[base0:]:
                        y = t.substitute(x, m) if mentions(x, k) else x
                        if type(y) is T:
                            s2.pc.append(y)
                    s2.facts = tuple((a, k2 if n is k else n, p, g) for a, n, p, g in s2.facts)
                    break
            else:
                s2.exits += (k,)
        ex.enter_block(s2, sf, to)
        out.append(s2)
    f.prev = frm
    f.blk = h
    f.ip = nph
    f.visits[h] = ex.unroll
    out.append(st)
    return out
