"""VC generator: symbolic execution of LLVM IR (from irtool's JSON) against contracts.

Every path through a function under contract is turned into verification
conditions (postconditions, callee preconditions, memory safety, absence of
undefined behaviour / aborts). Loops are either unrolled until the solver shows
the next iteration infeasible (an unwinding obligation), or cut with inferred
inductive invariants (loops.py).
"""
import json
import os
import re
import sys
import time
import terms as t
from terms import T, Model
import mem
from mem import Obj, byte_val, split_bytes, join_bytes, fresh_undef
import smt

sys.setrecursionlimit(200000)


class Undecided(Exception):
    """the VC generator met something outside its reach"""


class PathEnd(Exception):
    pass


class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'prev', 'regs', 'ret', 'allocas', 'visits', 'cuts', 'gen')

    def __init__(self, fn):
        self.fn = fn
        self.blk = 0
        self.ip = 0
        self.prev = -1
        self.regs = {}
        self.ret = None
        self.allocas = []
        self.visits = {}
        self.cuts = None
        self.gen = None

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.blk = self.blk
        f.ip = self.ip
        f.prev = self.prev
        f.regs = dict(self.regs)
        f.ret = self.ret
        f.allocas = list(self.allocas)
        f.visits = dict(self.visits)
        f.cuts = self.cuts
        f.gen = self.gen
        return f


class State:
    __slots__ = ('frames', 'mem', 'pc', 'model', 'inputs', 'gaddr', 'nobj', 'steps', 'notes', 'guards', 'ghost', 'wlog', 'facts', 'seen', 'implied', 'exits')

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        for o in self.mem.values():
            o.cow = True
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.model = self.model
        s.inputs = list(self.inputs)
        s.gaddr = dict(self.gaddr)
        s.nobj = self.nobj
        s.steps = self.steps
        s.notes = dict(self.notes)
        s.guards = dict(self.guards)
        s.ghost = dict(self.ghost)
        s.wlog = self.wlog
        s.facts = self.facts
        s.seen = self.seen
        s.implied = self.implied
        s.exits = self.exits
        return s


PURE = {'phi', 'icmp', 'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'zext', 'sext', 'trunc', 'select', 'freeze', 'br', 'switch', 'getelementptr'}


class Fn:
    __slots__ = ('name', 'dm', 'ret', 'args', 'blocks', 'loops', 'headers', 'defined', 'body', 'regions')

    def __init__(self, name, d):
        self.name = name
        self.dm = d['dm']
        self.ret = d['ret']
        self.args = d['args']
        self.defined = 'blocks' in d
        self.blocks = None
        self.body = d
        self.loops = {}
        self.headers = set()
        self.regions = {}

    def succs(self, b):
        i = self.blocks[b][-1]
        if i[0] == 'br':
            return [i[4]] if i[3] is None else [i[4], i[5]]
        if i[0] == 'switch':
            return [i[5]] + [x for _, x in i[6]]
        return []

    def region(self, b):
        """(join, blocks in topological order) when every path from block b reaches join through
        blocks without memory access, calls or traps; else None"""
        if b in self.regions:
            return self.regions[b]
        reach = []
        seen = {b}
        todo = list(self.succs(b))
        while todo and len(seen) < 40:
            x = todo.pop(0)
            if x in seen:
                continue
            seen.add(x)
            reach.append(x)
            todo += self.succs(x)
        r = None
        for j in reach[:24]:
            if j in self.headers:
                continue
            order = []
            state = {}

            def visit(x):
                if x == j:
                    return True
                if x in state:
                    return state[x] == 2
                state[x] = 1
                if x in self.headers or x == b or len(state) > 24 or not all(i[0] in PURE for i in self.blocks[x]):
                    return False
                ss = self.succs(x)
                if not ss or not all([visit(y) for y in ss]):
                    return False
                state[x] = 2
                order.append(x)
                return True
            if all([visit(y) for y in self.succs(b)]) and (r is None or len(order) < len(r[1])):
                r = (j, order[::-1])
        self.regions[b] = r
        return r

    def prepare(self):
        if self.blocks is None:
            self.blocks = [[self._dec(i) for i in b] for b in self.body['blocks']]
            for l in self.body['loops']:
                self.loops[l['h']] = (frozenset(l['b']), l['line'])
            self.headers = set(self.loops)
            self.body = None

    def _dec(self, i):
        # operand strings "%n" -> ('r', n) tuples are slow; encode registers as negative-1 based class
        return [_decop(x) for x in i]


_sels = {}


def sels(x):
    """array reads in a term"""
    if type(x) is not T:
        return ()
    r = _sels.get(x.id)
    if r is None:
        out = {}
        seen = set()
        todo = [x]
        while todo:
            y = todo.pop()
            if y.id in seen:
                continue
            seen.add(y.id)
            if y.op == 'sel':
                out[y] = 1
            todo.extend(t.children(y))
        r = _sels[x.id] = tuple(out)
    return r


class Reg:
    __slots__ = ('n',)
    cache = {}

    def __init__(self, n):
        self.n = n


def _decop(x):
    if type(x) is str and x.startswith('%'):
        n = int(x[1:])
        r = Reg.cache.get(n)
        if r is None:
            r = Reg.cache[n] = Reg(n)
        return r
    if type(x) is list:
        return [_decop(y) for y in x]
    if type(x) is dict:
        return {k: _decop(v) for k, v in x.items()}
    return x


class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = {n: Fn(n, f) for n, f in d['functions'].items()}
        self.globals = d['globals']
        self.aliases = d['aliases']


class Failure:
    def __init__(self, label, kind, detail, stream, line, fn, pathlen):
        self.label = label
        self.kind = kind
        self.detail = detail
        self.stream = stream
        self.line = line
        self.fn = fn
        self.pathlen = pathlen

    def to_dict(self):
        return dict(label=self.label, kind=self.kind, detail=self.detail, stream=self.stream.hex() if self.stream is not None else None,
                    line=self.line, fn=self.fn)


class Result:
    def __init__(self):
        self.obl = {}         # label -> [discharged-trivially, by-solver, failed, unknown]
        self.failures = []
        self.undecided = []
        self.paths = 0
        self.covers = {}
        self.steps = 0
        self.entered = {}
        self.unwind = 0
        self.cuts = []
        self.externals = {}
        self.solver_time = 0.0
        self.queries = 0
        self.backends = {}
        self.wall = 0.0
        self.stubs = {}
        self.cross = [0, 0, []]
        self.samples = []
        self.loops = {}

    def merge(self, o):
        for k, v in o.obl.items():
            a = self.obl.setdefault(k, [0, 0, 0, 0])
            for i in range(4):
                a[i] += v[i]
        self.failures += o.failures
        self.undecided += o.undecided
        self.paths += o.paths
        for d, e in ((self.covers, o.covers), (self.entered, o.entered), (self.externals, o.externals), (self.backends, o.backends), (self.stubs, o.stubs), (self.loops, o.loops)):
            for k, v in e.items():
                d[k] = d.get(k, 0) + v
        self.steps += o.steps
        self.unwind += o.unwind
        self.cuts += [c for c in o.cuts if c not in self.cuts]
        self.solver_time += o.solver_time
        self.queries += o.queries
        self.cross[0] += o.cross[0]
        self.cross[1] += o.cross[1]
        self.cross[2] += o.cross[2]
        self.samples += o.samples


def wt(ty):
    return ty if type(ty) is int else None


class Executor:
    def __init__(self, module, opts=None):
        self.m = module
        o = opts or {}
        self.unroll = o.get('unroll', 600)
        self.deadline = time.time() + o.get('time', 200)
        self.maxpaths = o.get('paths', 200000)
        self.stubs = o.get('stubs', [])      # [(compiled regex, stub fn name)]
        self.cutspec = o.get('cuts', [])     # [(compiled regex)]
        self.cross = o.get('cross', 0)       # cross-check with second back end
        self.solver = smt.Solver(o.get('solver_ms', 20000))
        self.res = Result()
        self.work = []
        self.stubmap = {}
        self.maxfail = o.get('maxfail', 6)
        self.trace = o.get('trace', False)
        self.ifconv = o.get('ifconv', 1)
        self.affine = o.get('affine', 1)
        self.rlog = None
        self.Undecided = Undecided
        self.uid = 0
        self.folded = False
        t.EQUAL[:] = [lambda x, y: self.solver.check([], t.bnot(t.eq(x.w, x, y)) if x is not y else 0, timeout=3000)[0] == 'unsat']
        import models
        self.ext = models.TABLE
        self.extre = models.PATTERNS
        self.extcache = {}
        import loops
        self.loops = loops
        self.ops = {}
        for k in dir(self):
            if k.startswith('i_'):
                self.ops[k[2:]] = getattr(self, k)

    # ------------------------------------------------------------ state setup
    def initial(self, entry):
        st = State()
        st.frames = []
        st.mem = {}
        st.pc = []
        st.model = Model()
        st.inputs = []
        st.gaddr = {}
        st.nobj = 0x1000
        st.steps = 0
        st.notes = {}
        st.guards = {}
        st.ghost = {}
        st.wlog = None
        st.exits = ()
        st.implied = frozenset()    # elements of pc that follow from the ones before (kept in iterations only)
        st.facts = ()
        st.seen = frozenset()
        fn = self.fn(entry)
        f = Frame(fn)
        st.frames.append(f)
        # global constructors run first
        ctors = self.m.globals.get('llvm.global_ctors')
        if ctors:
            for off, n, v in reversed(ctors['init']):
                if type(v) is dict and 'g' in v and v['g'] in self.m.fns:
                    cf = self.fn(v['g'])
                    if cf.defined:
                        fr = Frame(cf)
                        fr.ret = None
                        st.frames.append(fr)
        return st

    def fn(self, name):
        f = self.m.fns.get(name)
        if f is None:
            raise Undecided('no function ' + name)
        if f.defined:
            f.prepare()
        return f

    # ------------------------------------------------------------ objects
    def newobj(self, st, size, kind, name, fill=None, ro=False):
        st.nobj += 1
        oid = st.nobj
        if type(size) is int and size > (1 << 20):
            raise Undecided('huge object %d %s' % (size, name))
        o = Obj(oid, size, kind, name, fill, ro)
        st.mem[oid] = o
        return oid << 32

    def gaddr(self, st, name):
        a = st.gaddr.get(name)
        if a is not None:
            return a
        al = self.m.aliases.get(name)
        if al is not None:
            a = self.cval(st, al)
            st.gaddr[name] = a
            return a
        if name in self.m.fns:
            a = self.newobj(st, 0, 'fn', name)
            st.gaddr[name] = a
            return a
        g = self.m.globals.get(name)
        if g is None:
            raise Undecided('no global ' + name)
        if g['ext']:
            a = self.newobj(st, 4096, 'global', name)
            st.gaddr[name] = a
            return a
        a = self.newobj(st, g['size'], 'global', name, [0] * g['size'], bool(g['const']))
        st.gaddr[name] = a
        o = st.mem[a >> 32]
        for off, n, v in g['init']:
            if type(v) is str and v.startswith('x'):
                b = bytes.fromhex(v[1:])
                o.flat[off:off + len(b)] = list(b)
            else:
                val = self.cval(st, v)
                st.mem[a >> 32].flat[off:off + n] = split_bytes(val if type(val) is not int else val & t.mask(8 * n), n)
        return a

    def cval(self, st, x):
        """constant operand"""
        if type(x) is int:
            return x
        if x is None:
            return fresh_undef(64)
        if type(x) is dict:
            if 'g' in x:
                return self.gaddr(st, x['g'])
            if 'add' in x:
                return t.add(64, self.cval(st, x['add'][0]), x['add'][1] & t.mask(64))
            if 'fp' in x:
                return x['fp']
            if 'ce' in x:
                a = [self.cval(st, y) for y in x['a']]
                w = x['w']
                if x['ce'] == 'sub':
                    return t.sub(w, a[0], a[1])
                if x['ce'] == 'add':
                    return t.add(w, a[0], a[1])
                if x['ce'] == 'trunc':
                    return a[0] & t.mask(w) if type(a[0]) is int else t.trunc(a[0], 64, w)
                if x['ce'] == 'icmp':
                    return self.cmp(x['p'], 64, a[0], a[1])
        if type(x) is list:
            return [self.cval(st, y) for y in x]
        raise Undecided('constant %r' % (x,))

    def val(self, st, f, x, w=64):
        """operand -> value of width w (int) or aggregate (w list)"""
        if type(x) is Reg:
            return f.regs[x.n]
        if type(x) is int:
            return x
        if x is None:
            return self.undef(w)
        if type(x) is list:
            return [self.val(st, f, y, w[i] if type(w) is list else 64) for i, y in enumerate(x)]
        return self.cval(st, x)

    def undef(self, w):
        if type(w) is list:
            return [self.undef(x) for x in w]
        if w == 'v':
            return None
        if type(w) is not int:
            raise Undecided('undef of %s' % w)
        return fresh_undef(w)

    # ------------------------------------------------------------ universal facts
    def add_fact(self, st, k, n, p):
        """for all k < n: p(k)"""
        trig = []
        for x in sels(p):
            if k.a[0] in t.free_vars(x):
                c, rest = self.loops.lin_k(x.a[1], k)
                if c == 1:
                    trig.append((x.a[0], rest))
        fact = (k, n, p, tuple(dict.fromkeys(trig)))
        st.facts = st.facts + (fact,)
        st.seen = frozenset(x for x in st.seen if type(x) is not T)
        for c in list(st.pc):
            self.match(st, c)

    def match(self, st, c):
        """instantiate the universal facts at the positions c mentions"""
        todo = [c]
        n = 0
        while todo:
            c = todo.pop()
            for x in sels(c):
                if x in st.seen:
                    continue
                st.seen = st.seen | {x}
                for fi, (k, N, p, trig) in enumerate(st.facts):
                    for arr, rest in trig:
                        if arr != x.a[0]:
                            continue
                        j = t.sub(64, x.a[1], rest)
                        if j is k or (fi, j if type(j) is int else j.id) in st.seen:
                            continue
                        st.seen = st.seen | {(fi, j if type(j) is int else j.id)}
                        n += 1
                        if n > 400:
                            return
                        q = t.implies(t.ult(64, j, N), t.substitute(p, {k: j}))
                        if type(q) is T:
                            if st.wlog is not None and q not in st.pc:
                                st.implied = st.implied | {q}
                            st.pc.append(q)
                            if st.model is not None and not st.model.ev(q):
                                st.model = None
                            todo.append(q)

    # ------------------------------------------------------------ path condition
    def assume(self, st, c):
        """add c; returns False if infeasible (checked)"""
        if type(c) is not T:
            return bool(c)
        if st.facts:
            self.match(st, c)
        if st.model is not None and st.model.ev(c):
            self.push(st, c)
            return True
        r, m = self.solver.check(st.pc, c, timeout=10000)
        if r == 'unsat':
            return False
        self.push(st, c)
        st.model = m
        return True

    def push(self, st, c):
        if type(c) is not T:
            return
        if st.facts:
            self.match(st, c)
        if c.op == 'and' and c.w == 1:
            self.push(st, c.a[0])
            self.push(st, c.a[1])
            return
        st.pc.append(c)

    def feasible(self, st, c):
        """(feasible?, model)"""
        if type(c) is not T:
            return bool(c), st.model
        if st.facts:
            self.match(st, c)
        if st.model is not None and st.model.ev(c):
            return True, st.model
        r, m = self.solver.check(st.pc, c, timeout=10000)
        if r == 'unsat':
            return False, None
        return True, m

    def must(self, st, c):
        """is c valid under the path condition (unknown counts as no)"""
        if type(c) is not T:
            return bool(c)
        if st.facts:
            self.match(st, c)
        if st.model is not None and not st.model.ev(c):
            return False
        r, m = self.solver.check(st.pc, t.bnot(c), timeout=10000)
        return r == 'unsat'

    def split(self, st, c):
        """(model or True where c may hold / None, same for not c)"""
        nc = t.bnot(c)
        if st.facts:
            self.match(st, c)
        if st.model is not None:
            if st.model.ev(c):
                ft, mt = True, st.model
                ff, mf = self.feasible(st, nc)
            else:
                ff, mf = True, st.model
                ft, mt = self.feasible(st, c)
        else:
            ft, mt = self.feasible(st, c)
            ff, mf = self.feasible(st, nc)
        return ft, mt, ff, mf

    def fork(self, st, c, sp=None):
        """split st on boolean c: returns (state where c, state where not c); either may be None.
        One of them reuses st."""
        if type(c) is not T:
            return (st, None) if c else (None, st)
        nc = t.bnot(c)
        ft, mt, ff, mf = sp or self.split(st, c)
        if ft and ff:
            s2 = st.clone()
            self.push(st, c)
            st.model = mt
            self.push(s2, nc)
            s2.model = mf
            return st, s2
        if ft:
            return st, None
        if ff:
            return None, st
        return None, None

    def convert(self, st, f, edges):
        """if-conversion: run the pure region behind the current branch once, with joined values.
        edges: [(target, condition)]; returns True when st stands at the join"""
        rg = f.fn.region(f.blk)
        if rg is None:
            return False
        join, order = rg
        start = f.blk
        inc = {}
        for to, c in edges:
            d = inc.setdefault(to, {})
            d[start] = t.or_(d[start], c) if start in d else c
        regs = f.regs

        def phis(b):
            out = []
            k = 0
            for ins in f.fn.blocks[b]:
                if ins[0] != 'phi':
                    break
                k += 1
                acc = None
                w = ins[3]
                for pb, v in ins[4]:
                    if pb not in inc[b]:
                        continue
                    v = self.val(st, f, v, w)
                    if acc is None:
                        acc = v
                    elif type(w) is not int or (w > 32 and acc is not v and acc != v):
                        return None, 0
                    else:
                        acc = self.sel(w, inc[b][pb], v, acc)
                if acc is None:
                    return None, 0
                out.append((ins[1], acc))
            return out, k
        for b in order:
            if b not in inc:
                continue
            bc = 0
            for c in inc[b].values():
                bc = t.or_(bc, c)
            ph, k = phis(b)
            if ph is None:
                return False
            for d, v in ph:
                regs[d] = v
            for ins in f.fn.blocks[b][k:]:
                if ins[0] == 'br':
                    if ins[3] is None:
                        es = [(ins[4], bc)]
                    else:
                        c = self.val(st, f, ins[3], 1)
                        if type(c) is not T:
                            es = [(ins[4] if c else ins[5], bc)]
                        else:
                            es = [(ins[4], t.and_(bc, c)), (ins[5], t.and_(bc, t.bnot(c)))]
                elif ins[0] == 'switch':
                    es = [(x, t.and_(bc, c)) for x, c in self.switch_edges(st, f, ins)]
                else:
                    self.ops[ins[0]](st, f, ins)
                    continue
                for to, c in es:
                    if type(c) is not T and not c:
                        continue
                    d = inc.setdefault(to, {})
                    d[b] = t.or_(d[b], c) if b in d else c
        ph, k = phis(join)
        if ph is None:
            return False
        f.prev = start
        f.blk = join
        f.ip = k
        for d, v in ph:
            regs[d] = v
        return True

    def switch_edges(self, st, f, i):
        v = self.val(st, f, i[3], i[4])
        if type(v) is not T:
            for c, b in i[6]:
                if c == v:
                    return [(b, 1)]
            return [(i[5], 1)]
        out = []
        rest = 1
        for c, b in i[6]:
            e = t.eq(i[4], v, c)
            out.append((b, e))
            rest = t.and_(rest, t.bnot(e))
        return out + [(i[5], rest)]

    # ------------------------------------------------------------ obligations
    def oblige(self, st, c, label, kind, line=0, detail=''):
        """prove c; on failure record it and continue under c. Returns False if the path dies."""
        o = self.res.obl.get(label)
        if o is None:
            o = self.res.obl[label] = [0, 0, 0, 0]
        if type(c) is not T:
            if c:
                o[0] += 1
                return True
            if st.model is None:
                # reached only if the path condition is satisfiable
                r, m = self.solver.check(st.pc, None, hard=True)
                if r == 'unsat':
                    o[1] += 1
                    return False
                if r != 'sat':
                    o[3] += 1
                    self.res.undecided.append('solver gave no answer for %s' % label)
                    return False
                st.model = m
            o[2] += 1
            self.fail(st, label, kind, detail, line, None)
            return False
        nc = t.bnot(c)
        if st.facts:
            self.match(st, c)
        if st.model is not None and st.model.ev(nc):
            r, m = 'sat', st.model
        else:
            r, m = self.solver.check(st.pc, nc, hard=True)
        if r == 'unsat':
            o[1] += 1
            if self.cross and (o[1] % self.cross) == 1 % self.cross:
                if not self.solver.crosscheck(st.pc, nc):
                    self.res.undecided.append('back ends disagree on ' + label)
            n = len(st.pc)
            old = set(st.pc) if st.wlog is not None else None
            self.push(st, c)
            if old is not None:
                st.implied = st.implied | {x for x in st.pc[n:] if x not in old}
            return True
        if r == 'sat':
            o[2] += 1
            self.fail(st, label, kind, detail, line, (nc, m))
        else:
            o[3] += 1
            self.res.undecided.append('solver gave no answer for %s' % label)
        return self.assume(st, c)

    def fail(self, st, label, kind, detail, line, cm):
        n = sum(1 for f in self.res.failures if f.label == label)
        if n >= self.maxfail:
            return
        if cm is None:
            m = st.model
            if m is None:
                r, m = self.solver.check(st.pc, None, timeout=20000)
                if r == 'unsat':
                    return
        else:
            m = cm[1]
        stream = self.stream(st, m) if m is not None else None
        f = st.frames[-1] if st.frames else None
        self.res.failures.append(Failure(label, kind, detail, stream, line, f.fn.dm if f else '', len(st.pc)))
        self.res.failures[-1].weak = bool(st.facts) or self.folded

    def stream(self, st, m):
        out = bytearray()
        for i in st.inputs:
            if i[0] == 'any':
                _, w, v, lo = i
                x = (m.ev(v) - m.ev(lo)) & t.mask(w)
                out += x.to_bytes((w + 7) // 8, 'little')
            else:
                _, arr, n = i
                cnt = m.ev(n)
                if cnt > 1 << 20:
                    return None
                a = m.arrs.get(arr, {})
                d = m.dflt.get(arr, 0)
                out += bytes(a.get(k, d) for k in range(cnt))
        return bytes(out)

    # ------------------------------------------------------------ memory access
    def resolve(self, st, p, n, what, line):
        """-> list of (state, obj, offset). Emits the bounds obligation for n bytes (int or T)."""
        if type(p) is not T:
            oid = p >> 32
            o = st.mem.get(oid)
            off = p & 0xffffffff
            if o is None or not o.alive:
                if type(n) is int and n == 0 or (type(n) is T and self.must(st, t.eq(64, n, 0))):
                    return [(st, None, 0)]
                d = 'null pointer' if p < 4096 else 'wild pointer' if o is None else 'object no longer alive: ' + o.name
                self.oblige(st, 0 if type(n) is int else t.eq(64, n, 0), self.mlabel(st), 'memory', line, '%s of %s through %s' % (what, _n(n), d))
                return []
            if type(o.size) is int and type(n) is int:
                if off + n <= o.size:
                    self.count_trivial(self.mlabel(st))
                    return [(st, o, off)]
                self.oblige(st, 0, self.mlabel(st), 'memory', line, '%s of %d bytes at offset %d of %s (%d bytes)' % (what, n, off, o.name, o.size))
                return []
            c = self.inb(off, n, o.size)
            if not self.oblige(st, c, self.mlabel(st), 'memory', line, '%s of %s bytes at offset %s of %s (%s bytes)' % (what, _n(n), off, o.name, t.show(o.size, 3))):
                return []
            return [(st, o, off)]
        if p.op == 'ite':
            a, b = self.fork(st, p.a[0])
            r = []
            if a is not None:
                r += self.resolve(a, p.a[1], n, what, line)
            if b is not None:
                r += self.resolve(b, p.a[2], n, what, line)
            return r
        if p.op == 'lin':
            base = None
            c = p.a[0]
            # the constant part is an object base plus a small signed displacement
            oid = ((c + (1 << 31)) & t.mask(64)) >> 32
            if oid in st.mem:
                base = oid
            else:
                for k, x in p.a[1]:
                    if k == 1 and x.op == 'ite' and (type(x.a[1]) is not T and x.a[1] >> 32 in st.mem or type(x.a[2]) is not T and x.a[2] >> 32 in st.mem):
                        a, b = self.fork(st, x.a[0])
                        r = []
                        if a is not None:
                            r += self.resolve(a, t.substitute(p, {x: x.a[1]}), n, what, line)
                        if b is not None:
                            r += self.resolve(b, t.substitute(p, {x: x.a[2]}), n, what, line)
                        return r
            if base is not None:
                o = st.mem[base]
                off = t.sub(64, p, base << 32)
                return self._res1(st, o, off, n, what, line)
        # general: find the object from a model
        if st.model is None:
            r, st.model = self.solver.check(st.pc, None)
        if st.model is None:
            raise Undecided('pointer of unknown provenance')
        v = st.model.ev(p)
        o = st.mem.get(v >> 32)
        if o is None:
            return self.resolve_wild(st, p, n, what, line)
        off = t.sub(64, p, o.id << 32)
        inb = self.inb(off, n, o.size)
        if self.must(st, inb):
            return self._res1(st, o, off, n, what, line)
        # split: this object / others
        here = t.ult(64, off, 1 << 32)
        a, b = self.fork(st, here)
        r = []
        if a is not None:
            r += self._res1(a, a.mem[o.id], off, n, what, line)
        if b is not None:
            r += self.resolve(b, p, n, what, line)
        return r

    def resolve_wild(self, st, p, n, what, line):
        self.oblige(st, t.eq(64, n, 0), self.mlabel(st), 'memory', line, '%s through a pointer to no object: %s' % (what, t.show(p, 4)))
        return []

    def inb(self, off, n, size):
        """off + n <= size without wrap"""
        if type(n) is int and type(size) is int:
            if n > size:
                return 0
            return t.ule(64, off, size - n)
        return t.and_(t.ule(64, off, size), t.ule(64, n, t.sub(64, size, off)))

    def _res1(self, st, o, off, n, what, line):
        if not o.alive:
            self.oblige(st, t.eq(64, n, 0), self.mlabel(st), 'memory', line, '%s of object no longer alive: %s' % (what, o.name))
            return []
        c = self.inb(off, n, o.size)
        if type(c) is T:
            if not self.oblige(st, c, self.mlabel(st), 'memory', line, '%s of %s bytes at offset %s of %s (%s bytes)' % (what, _n(n), t.show(off, 4), o.name, t.show(o.size, 3))):
                return []
        elif not c:
            self.oblige(st, 0, self.mlabel(st), 'memory', line, '%s of %s bytes at offset %s of %s (%s bytes)' % (what, _n(n), t.show(off, 4), o.name, t.show(o.size, 3)))
            return []
        else:
            self.count_trivial(self.mlabel(st))
        return [(st, o, off)]

    def mlabel(self, st):
        return 'memory-safe'

    def count_trivial(self, label):
        o = self.res.obl.get(label)
        if o is None:
            o = self.res.obl[label] = [0, 0, 0, 0]
        o[0] += 1

    def wobj(self, st, o):
        if o.cow:
            o = o.clone()
            st.mem[o.id] = o
        return o

    def load(self, st, o, off, n):
        """value of n bytes (int n); no bounds check"""
        if self.rlog is not None:
            self.rlog.append((o.id, off, n))
        if o.flat is not None:
            if type(off) is int:
                fl = o.flat
                if n == 1:
                    c = fl[off]
                    if c is not None:
                        return byte_val(c)
                cells = fl[off:off + n]
                if None in cells:
                    o = self.wobj(st, o)
                    if all(c is None for c in cells):
                        v = fresh_undef(8 * n)
                        o.flat[off:off + n] = split_bytes(v, n)
                        return v
                    for k in range(n):
                        if o.flat[off + k] is None:
                            o.flat[off + k] = fresh_undef(8)
                    cells = o.flat[off:off + n]
                return join_bytes(cells)
            # symbolic offset in a flat object
            cands = self.cands(st, off, o.size, n)
            r = None
            for k in reversed(cands):
                v = self.load(st, st.mem[o.id], k, n)
                r = v if r is None else t.ite(8 * n, t.eq(64, off, k), v, r)
            return r
        if n == 1:
            return self.logbyte(st, o, off, len(o.log))
        return t.concat_pieces([(8, self.logbyte(st, o, t.add(64, off, k), len(o.log))) for k in range(n)], 8 * n)

    def cands(self, st, off, size, n):
        step = 0
        if off.op == 'lin':
            import math
            for c, x in off.a[1]:
                step = math.gcd(step, c if c < (1 << 63) else (1 << 64) - c)
            start = off.a[0]
            step = step & -step if step else 1
            start %= step
        elif off.op == 'concat' and type(off.a[0][1]) is int:
            step = 1 << off.a[0][0]
            start = off.a[0][1]
        else:
            step, start = 1, 0
        lo, hi = t.rng(off)
        hi = min(hi, size - n)
        r = [k for k in range(start, size - n + 1, step) if lo <= k <= hi]
        if len(r) > 8:
            r2 = [k for k in r if len(r) > 64 or self.feasible(st, t.eq(64, off, k))[0]]
            r = r2 or r
        if len(r) > 2048:
            raise Undecided('symbolic offset into large object')
        return r

    def logbyte(self, st, o, a, upto):
        """byte at offset a considering log[:upto]"""
        i = upto - 1
        log = o.log
        while i >= 0:
            e = log[i]
            i -= 1
            d = t.sub(64, a, e[1])
            ln = e[2]
            c = t.ult(64, d, ln)
            if type(c) is T:
                if st.model is not None:
                    if st.model.ev(c):
                        if self.must(st, c):
                            c = 1
                    elif self.must(st, t.bnot(c)):
                        c = 0
            if type(c) is int:
                if not c:
                    continue
                return self.entrybyte(st, e, d)
            x = self.entrybyte(st, e, d)
            y = self.logbyte(st, o, a, i + 1)
            return t.ite(8, c, x, y)
        b = o.base
        if b[0] in ('arr', 'undef'):
            return t.sel(b[1], t.add(64, a, b[2]) if len(b) > 2 else a)
        if b[0] == 'zero':
            return 0
        if b[0] == 'flat':
            if type(a) is int:
                c = b[1][a] if a < len(b[1]) else 0
                return t.sel('undef!f%d' % o.id, a) if c is None else byte_val(c)
            r = 0
            for k in self.cands(st, a, len(b[1]), 1):
                c = b[1][k]
                c = t.sel('undef!f%d' % o.id, k) if c is None else byte_val(c)
                r = t.ite(8, t.eq(64, a, k), c, r)
            return r
        raise Undecided('base')

    def entrybyte(self, st, e, d):
        if e[0] == 'w':
            cells = e[3]
            if type(d) is int:
                return byte_val(cells[d])
            r = byte_val(cells[-1])
            for k in range(len(cells) - 2, -1, -1):
                r = t.ite(8, t.eq(64, d, k), byte_val(cells[k]), r)
            return r
        if e[0] == 's':
            return e[3]
        if e[0] == 'g':
            n, k, cells = e[3]
            if n == 1:
                return t.substitute(cells[0], {k: d})
            sh = n.bit_length() - 1
            q = t.lshr(64, d, sh)
            m = t.band(64, d, n - 1)
            r = t.substitute(cells[-1], {k: q})
            for j in range(n - 2, -1, -1):
                r = t.ite(8, t.eq(64, m, j), t.substitute(cells[j], {k: q}), r)
            return r
        # copy
        src, so = e[3], e[4]
        a = t.add(64, d, so)
        if src.flat is not None:
            if type(a) is int:
                c = src.flat[a]
                return t.sel('undef!f%d' % src.id, a) if c is None else byte_val(c)
            r = 0
            for k in self.cands(st, a, src.size, 1):
                c = src.flat[k]
                c = t.sel('undef!f%d' % src.id, k) if c is None else byte_val(c)
                r = t.ite(8, t.eq(64, a, k), c, r)
            return r
        return self.logbyte(st, src, a, len(src.log))

    def store(self, st, o, off, val, n, line):
        if o.ro:
            self.oblige(st, 0, self.mlabel(st), 'memory', line, 'write to read-only object ' + o.name)
            return False
        self.storecells(st, o, off, split_bytes(val, n))
        return True

    def storecells(self, st, o, off, cells):
        o = self.wobj(st, o)
        n = len(cells)
        if st.wlog is not None:
            st.wlog.append((o.id, off, n))
        if o.flat is not None:
            if type(off) is int:
                o.flat[off:off + n] = cells
                return
            # symbolic offset: small objects become ite cells, others a log
            cs = self.cands(st, off, o.size, n)
            if len(cs) * n <= 64:
                old = list(o.flat)
                for k in cs:
                    c = t.eq(64, off, k)
                    for j in range(n):
                        b = o.flat[k + j]
                        if b is None:
                            b = fresh_undef(8)
                        o.flat[k + j] = t.ite(8, c, byte_val(cells[j]), byte_val(b))
                return
            o.to_log()
        o.log.append(('w', off, n, cells))

    def copy(self, st, dst, src, n, line, mv=False):
        """memcpy/memmove; generator of resulting states"""
        out = []
        if type(n) is int and n == 0:
            return [st]
        for s1, so, soff in self.resolve(st, src, n, 'read', line):
            for s2, do, doff in self.resolve(s1, dst, n, 'write', line):
                if do is None or so is None:
                    out.append(s2)
                    continue
                so2 = s2.mem[so.id]
                if do.ro:
                    self.oblige(s2, 0, self.mlabel(s2), 'memory', line, 'write to read-only object ' + do.name)
                    continue
                nn = n
                if type(n) is T and do.flat is not None and type(doff) is int and type(do.size) is int and do.size <= 64:
                    # small destination: concretise the length
                    for s3, k in self.concretize(s2, n, 70, 'copy length'):
                        if k:
                            cells = self.readcells(s3, s3.mem[so.id], soff, k)
                            self.storecells(s3, s3.mem[do.id], doff, cells)
                        out.append(s3)
                    continue
                if type(nn) is int and nn <= 8192 and not (type(soff) is T and so2.flat is not None and nn > 64):
                    cells = self.readcells(s2, so2, soff, nn)
                    self.storecells(s2, s2.mem[do.id], doff, cells)
                else:
                    so2.cow = True
                    snap = so2
                    if self.rlog is not None:
                        self.rlog.append((so2.id, soff, None))
                    d = self.wobj(s2, s2.mem[do.id])
                    if d is snap:
                        d = snap.clone()
                        s2.mem[d.id] = d
                    if s2.wlog is not None:
                        s2.wlog.append((d.id, doff, nn))
                    d.to_log()
                    d.log.append(('c', doff, nn, snap, soff))
                out.append(s2)
        return out

    def readcells(self, st, o, off, n):
        if self.rlog is not None:
            self.rlog.append((o.id, off, n))
        if o.flat is not None and type(off) is int:
            return list(o.flat[off:off + n])
        r = []
        for k in range(n):
            r.append(self.load(st, o, t.add(64, off, k), 1))
        return r

    def concretize(self, st, v, limit, what):
        """fork over all feasible values of v"""
        if type(v) is not T:
            return [(st, v)]
        out = []
        cur = st
        while cur is not None:
            if len(out) > limit:
                raise Undecided('too many values for ' + what)
            if cur.model is None:
                r, cur.model = self.solver.check(cur.pc, None)
                if cur.model is None:
                    raise Undecided('no model while enumerating ' + what)
            k = cur.model.ev(v)
            a, b = self.fork(cur, t.eq(v.w, v, k))
            if a is not None:
                out.append((a, k))
            cur = b
        return out

    # ------------------------------------------------------------ main loop
    def run(self, entry, states=None, budget=None, maxstates=None):
        t0 = time.time()
        if states is None:
            self.work = [self.initial(entry)]
        else:
            self.work = list(states)
        stop = time.time() + budget if budget else None
        while self.work:
            if time.time() > self.deadline:
                self.res.undecided.append('time budget exhausted with %d pending paths' % len(self.work))
                break
            if self.res.paths > self.maxpaths:
                self.res.undecided.append('path budget exhausted')
                break
            if stop and time.time() > stop or maxstates and len(self.work) >= maxstates:
                break
            st = self.work.pop(0 if maxstates else -1)
            try:
                self.runpath(st)
            except Undecided as e:
                self.res.undecided.append(str(e) + ' in ' + ' < '.join(f.fn.dm[:80] for f in reversed(st.frames[-3:])))
            except RecursionError:
                self.res.undecided.append('recursion')
        self.res.wall += time.time() - t0
        self.res.solver_time = self.solver.time
        self.res.queries = self.solver.queries
        self.res.backends = dict(self.solver.backends)
        self.res.cross = [self.solver.cross_ok, self.solver.cross_unknown, self.solver.cross_bad]
        return self.res

    def runpath(self, st):
        """run st until it forks or ends; forks are pushed on the work list"""
        ops = self.ops
        n = 0
        while True:
            if not st.frames:
                self.res.paths += 1
                self.res.steps += st.steps
                return
            f = st.frames[-1]
            ins = f.fn.blocks[f.blk][f.ip]
            f.ip += 1
            st.steps += 1
            n += 1
            if n & 0x3ff == 0:
                if time.time() > self.deadline:
                    raise Undecided('time budget exhausted')
                if st.steps > 20000000:
                    raise Undecided('step budget exhausted')
            h = ops.get(ins[0])
            if h is None:
                raise Undecided('instruction ' + ins[0])
            if self.trace:
                print(f.fn.dm[:60], f.blk, ins, file=sys.stderr)
            r = h(st, f, ins)
            if r is None:
                continue
            # r: list of states to continue with
            if len(r) == 1 and r[0] is st:
                continue
            if not r:
                self.res.steps += st.steps
                return
            self.work.extend(reversed(r))
            return

    def jump(self, st, f, to):
        """transfer control; evaluates phis. Returns None to continue with st or a list of states."""
        fn = f.fn
        g = f.gen
        if g is not None and len(st.frames) == g.depth:
            if to == g.header:
                g.out.append((st, 'back', to))
                return []
            if to not in g.body:
                g.out.append((st, 'exit', to))
                return []
        if to in fn.headers:
            r = self.loop_header(st, f, to)
            if r is not None:
                return r
        self.enter_block(st, f, to)
        return None

    def enter_block(self, st, f, to):
        frm = f.blk
        f.prev = frm
        f.blk = to
        f.ip = 0
        blk = f.fn.blocks[to]
        if blk and blk[0][0] == 'phi':
            vals = []
            k = 0
            for ins in blk:
                if ins[0] != 'phi':
                    break
                k += 1
                for b, v in ins[4]:
                    if b == frm:
                        vals.append((ins[1], self.val(st, f, v, ins[3])))
                        break
                else:
                    raise Undecided('phi without edge')
            for d, v in vals:
                f.regs[d] = v
            f.ip = k

    def loop_header(self, st, f, to):
        body, line = f.fn.loops[to]
        back = f.blk in body
        if f.cuts is not None and to in f.cuts:
            return self.loops.at_header(self, st, f, to, back)
        if not back:
            f.visits[to] = 0
            if self.affine:
                return self.loops.summarise(self, st, f, to)
            return None
        f.visits[to] += 1
        if f.visits[to] > self.unroll:
            self.oblige_unwind(st, f, line)
            return []
        return None

    def oblige_unwind(self, st, f, line):
        self.res.unwind += 1
        raise Undecided('loop at %s line %d needs more than %d iterations' % (f.fn.dm[:80], line, self.unroll))

    # ------------------------------------------------------------ instructions
    def i_br(self, st, f, i):
        c = i[3]
        if c is None:
            return self.jump(st, f, i[4])
        c = self.val(st, f, c, 1)
        if type(c) is not T:
            return self.jump(st, f, i[4] if c else i[5])
        sp = self.split(st, c)
        if sp[0] and sp[2] and self.ifconv and self.convert(st, f, [(i[4], c), (i[5], t.bnot(c))]):
            return None
        a, b = self.fork(st, c, sp)
        if a is not None and b is not None:
            out = []
            for s, to in ((a, i[4]), (b, i[5])):
                r = self.jump(s, s.frames[-1], to)
                out += [s] if r is None else r
            return out
        if a is not None:
            return self.jump(a, a.frames[-1], i[4])
        if b is not None:
            return self.jump(b, b.frames[-1], i[5])
        return []

    def i_switch(self, st, f, i):
        v = self.val(st, f, i[3], i[4])
        if type(v) is not T:
            for c, b in i[6]:
                if c == v:
                    return self.jump(st, f, b)
            return self.jump(st, f, i[5])
        if self.ifconv and self.convert(st, f, self.switch_edges(st, f, i)):
            return None
        w = i[4]
        groups = {}
        for c, b in i[6]:
            e = t.eq(w, v, c)
            groups[b] = t.or_(groups[b], e) if b in groups else e
        out = []
        cur = st
        for b, c in groups.items():
            if cur is None:
                break
            if b == i[5]:
                continue
            x, cur = self.fork(cur, c)
            if x is not None:
                r = self.jump(x, x.frames[-1], b)
                out += [x] if r is None else r
        if cur is not None:
            r = self.jump(cur, cur.frames[-1], i[5])
            out += [cur] if r is None else r
        return out

    def i_ret(self, st, f, i):
        v = self.val(st, f, i[3][0], f.fn.ret) if i[3] else None
        for oid in f.allocas:
            o = st.mem.get(oid)
            if o is not None:
                o = self.wobj(st, o)
                o.alive = False
                o.flat = []
                o.log = None
                o.size = 0
        st.frames.pop()
        if st.frames:
            g = st.frames[-1]
            if f.ret is not None:
                g.regs[f.ret[0]] = v
                if len(f.ret) > 1 and f.ret[1] is not None:
                    return self.jump(st, g, f.ret[1])
            return None
        return None

    def i_unreachable(self, st, f, i):
        self.oblige(st, 0, 'no-undefined-behaviour', 'ub', i[2], 'unreachable code reached')
        return []

    def i_alloca(self, st, f, i):
        n = self.val(st, f, i[4], 64)
        if type(n) is T:
            raise Undecided('variable alloca')
        p = self.newobj(st, i[3] * n, 'stack', i[5])
        f.allocas.append(p >> 32)
        f.regs[i[1]] = p

    def i_load(self, st, f, i):
        p = self.val(st, f, i[5])
        ty, n = i[3], i[4]
        if type(p) is int:
            o = st.mem.get(p >> 32)
            if o is not None and o.alive and o.flat is not None and (p & 0xffffffff) + n <= o.size and type(ty) is int:
                self.count_trivial('memory-safe')
                v = self.load(st, o, p & 0xffffffff, n)
                f.regs[i[1]] = v if ty == 8 * n else t.trunc(v, 8 * n, ty)
                return None
        rs = self.resolve(st, p, n, 'read', i[2])
        if type(ty) is list:
            raise Undecided('aggregate load')
        if type(ty) is not int:
            raise Undecided('load of ' + str(ty))
        for s, o, off in rs:
            v = self.load(s, s.mem[o.id], off, n)
            s.frames[-1].regs[i[1]] = v if ty == 8 * n else t.trunc(v, 8 * n, ty)
        return [r[0] for r in rs]

    def i_store(self, st, f, i):
        p = self.val(st, f, i[6])
        ty, n = i[3], i[4]
        v = self.val(st, f, i[5], ty)
        if type(ty) is list:
            raise Undecided('aggregate store')
        if type(ty) is not int:
            raise Undecided('store of ' + str(ty))
        if ty != 8 * n:
            v = t.zext(v, ty, 8 * n)
        rs = self.resolve(st, p, n, 'write', i[2])
        out = []
        for s, o, off in rs:
            if self.store(s, s.mem[o.id], off, v, n, i[2]):
                out.append(s)
        return out

    def i_getelementptr(self, st, f, i):
        r = self.val(st, f, i[3])
        r = t.add(64, r, i[4] & t.mask(64))
        for x, w, sc in i[5]:
            v = self.val(st, f, x, w)
            if w < 64:
                v = t.sext(v, w, 64)
            r = t.add(64, r, t.scale(64, sc, v))
        f.regs[i[1]] = r

    def i_phi(self, st, f, i):
        raise Undecided('phi outside block head')

    def cmp(self, p, w, a, b):
        if p == 'eq':
            return t.eq(w, a, b)
        if p == 'ne':
            return t.bnot(t.eq(w, a, b))
        if p == 'ult':
            return t.ult(w, a, b)
        if p == 'ugt':
            return t.ult(w, b, a)
        if p == 'ule':
            return t.ule(w, a, b)
        if p == 'uge':
            return t.ule(w, b, a)
        if p == 'slt':
            return t.slt(w, a, b)
        if p == 'sgt':
            return t.slt(w, b, a)
        if p == 'sle':
            return t.sle(w, a, b)
        return t.sle(w, b, a)

    def i_icmp(self, st, f, i):
        w = i[4]
        if type(w) is not int:
            raise Undecided('vector compare')
        a = self.val(st, f, i[5][0], w)
        b = self.val(st, f, i[5][1], w)
        f.regs[i[1]] = self.cmp(i[3], w, a, b)

    def _bin(fn):
        def h(self, st, f, i):
            w = i[3]
            if type(w) is not int:
                raise Undecided('vector op')
            f.regs[i[1]] = fn(w, self.val(st, f, i[5][0], w), self.val(st, f, i[5][1], w))
        return h
    i_add = _bin(t.add)
    i_sub = _bin(t.sub)
    i_mul = _bin(t.mul)
    i_and = _bin(t.band)
    i_or = _bin(t.bor)
    i_xor = _bin(t.bxor)
    i_shl = _bin(t.shl)
    i_lshr = _bin(t.lshr)
    i_ashr = _bin(t.ashr)

    def _div(fn):
        def h(self, st, f, i):
            w = i[3]
            a = self.val(st, f, i[5][0], w)
            b = self.val(st, f, i[5][1], w)
            if not (type(b) is int and b):
                if not self.oblige(st, t.bnot(t.eq(w, b, 0)), 'no-undefined-behaviour', 'ub', i[2], 'division by zero'):
                    return []
            f.regs[i[1]] = fn(w, a, b)
        return h
    i_udiv = _div(t.udiv)
    i_urem = _div(t.urem)
    i_sdiv = _div(t.sdiv)
    i_srem = _div(t.srem)

    def i_zext(self, st, f, i):
        f.regs[i[1]] = t.zext(self.val(st, f, i[5][0], i[4]), i[4], i[3])

    def i_sext(self, st, f, i):
        f.regs[i[1]] = t.sext(self.val(st, f, i[5][0], i[4]), i[4], i[3])

    def i_trunc(self, st, f, i):
        f.regs[i[1]] = t.trunc(self.val(st, f, i[5][0], i[4]), i[4], i[3])

    def i_ptrtoint(self, st, f, i):
        v = self.val(st, f, i[5][0])
        f.regs[i[1]] = v if i[3] == 64 else t.trunc(v, 64, i[3])

    def i_inttoptr(self, st, f, i):
        v = self.val(st, f, i[5][0], i[4])
        f.regs[i[1]] = v if i[4] == 64 else t.zext(v, i[4], 64)

    def i_bitcast(self, st, f, i):
        f.regs[i[1]] = self.val(st, f, i[5][0])

    def i_freeze(self, st, f, i):
        f.regs[i[1]] = self.val(st, f, i[5][0], i[3])

    def i_select(self, st, f, i):
        c = self.val(st, f, i[5][0], 1)
        w = i[3]
        a = self.val(st, f, i[5][1], w)
        b = self.val(st, f, i[5][2], w)
        if type(c) is not T:
            f.regs[i[1]] = a if c else b
            return
        f.regs[i[1]] = self.sel(w, c, a, b)

    def sel(self, w, c, a, b):
        if type(w) is list:
            return [self.sel(w[k], c, a[k], b[k]) for k in range(len(w))]
        return t.ite(w, c, a, b)

    def i_extractvalue(self, st, f, i):
        v = self.val(st, f, i[3], i[5])
        for k in i[4]:
            v = v[k]
        f.regs[i[1]] = v

    def i_insertvalue(self, st, f, i):
        def ins(agg, idx, ty):
            agg = list(agg)
            if len(idx) == 1:
                agg[idx[0]] = x
            else:
                agg[idx[0]] = ins(agg[idx[0]], idx[1:], ty[idx[0]])
            return agg
        a = self.val(st, f, i[3], i[6])
        ty = i[6]
        for k in i[5]:
            ty = ty[k]
        x = self.val(st, f, i[4], ty)
        f.regs[i[1]] = ins(a, i[5], i[6])

    def i_atomicrmw(self, st, f, i):
        w = i[4]
        p = self.val(st, f, i[5][0])
        v = self.val(st, f, i[5][1], w)
        for s, o, off in self.resolve(st, p, w // 8, 'read', i[2]):
            old = self.load(s, s.mem[o.id], off, w // 8)
            new = {'add': t.add, 'sub': t.sub, 'or': t.bor, 'and': t.band}.get(i[3])
            nv = v if i[3] == 'xchg' else new(w, old, v)
            self.store(s, s.mem[o.id], off, nv, w // 8, i[2])
            s.frames[-1].regs[i[1]] = old
            return None if s is st else [s]
        return []

    def i_fence(self, st, f, i):
        return None

    def i_resume(self, st, f, i):
        raise Undecided('exception resume')

    # ------------------------------------------------------------ calls
    def i_invoke(self, st, f, i):
        return self.i_call(st, f, i)

    def i_call(self, st, f, i):
        callee = i[3]
        if type(callee) is dict and 'g' in callee:
            name = callee['g']
        else:
            p = self.val(st, f, callee)
            if type(p) is T:
                out = []
                for s, k in self.concretize(st, p, 64, 'call target'):
                    s.frames[-1].ip -= 1
                    ff = s.frames[-1]
                    ii = list(i)
                    ii[3] = k
                    ff.ip += 1
                    r = self.i_call(s, ff, ii)
                    out += [s] if r is None else r
                return out
            o = st.mem.get(p >> 32)
            if o is None or o.kind != 'fn' or p & 0xffffffff:
                self.oblige(st, 0, 'memory-safe', 'memory', i[2], 'call through a bad function pointer')
                return []
            name = o.name
        while name in self.m.aliases:
            name = self.m.aliases[name]['g']
        args = [self.val(st, f, a[0], a[1]) for a in i[5]]
        for k, a in enumerate(i[5]):
            if a[2]:  # byval copy
                q = self.newobj(st, a[2], 'stack', 'byval')
                f.allocas.append(q >> 32)
                ss = self.copy(st, q, args[k], a[2], i[2])
                if ss != [st]:
                    raise Undecided('byval fork')
                args[k] = q
        nxt = i[6] if i[0] == 'invoke' else None
        return self.call(st, f, name, args, i, nxt)

    def call(self, st, f, name, args, i, nxt):
        stub = self.stubfor(name)
        if stub is not None and not any(fr.fn.name == stub for fr in st.frames):
            self.res.stubs[self.m.fns[name].dm] = self.res.stubs.get(self.m.fns[name].dm, 0) + 1
            name = stub
        h = self.extmodel(name)
        if h is not None:
            r = h(self, st, f, args, i)
            # handlers return None (void, continue), ('v', value) or ('s', [states]) with regs already set
            if r is None:
                return self.jump(st, f, nxt) if nxt is not None else None
            if r[0] == 'v':
                f.regs[i[1]] = r[1]
                return self.jump(st, f, nxt) if nxt is not None else None
            if nxt is not None:
                out = []
                for s in r[1]:
                    x = self.jump(s, s.frames[-1], nxt)
                    out += [s] if x is None else x
                return out
            return r[1]
        fn = self.m.fns.get(name)
        if fn is None or not fn.defined:
            raise Undecided('call of external function ' + (fn.dm if fn else name))
        fn.prepare()
        if len(st.frames) > 300:
            raise Undecided('call depth')
        self.res.entered[fn.dm] = self.res.entered.get(fn.dm, 0) + 1
        g = Frame(fn)
        g.ret = (i[1], nxt)
        for (n, w, bv), a in zip(fn.args, args):
            g.regs[n] = a
        st.frames.append(g)
        return None

    def stubfor(self, name):
        if not self.stubs:
            return None
        r = self.stubmap.get(name, 0)
        if r == 0:
            r = None
            fn = self.m.fns.get(name)
            if fn is not None:
                for rx, s in self.stubs:
                    if rx.search(fn.dm):
                        r = s
                        break
            if r == name:
                r = None
            self.stubmap[name] = r
        return r

    def extmodel(self, name):
        h = self.extcache.get(name, 0)
        if h == 0:
            h = self.ext.get(name)
            if h is None:
                for rx, hh in self.extre:
                    if rx.match(name):
                        h = hh
                        break
            self.extcache[name] = h
        if h is not None and not name.startswith(('vc_', 'llvm.')):
            self.res.externals[name] = self.res.externals.get(name, 0) + 1
        return h

    def _undec(self, msg):
        raise Undecided(msg)

    def cstr(self, st, p):
        if type(p) is T:
            return '?'
        o = st.mem[p >> 32]
        off = p & 0xffffffff
        b = bytearray()
        while o.flat[off] != 0:
            b.append(o.flat[off])
            off += 1
        return b.decode('latin1')


def _n(n):
    return str(n) if type(n) is int else t.show(n, 3)
