"""Region based memory objects."""
import terms as t
from terms import T

MAXOBJ = 1 << 31


class Obj:
    __slots__ = ('id', 'size', 'kind', 'name', 'alive', 'ro', 'flat', 'base', 'log', 'cow')

    def __init__(self, id, size, kind, name, fill=None, ro=False):
        self.id = id
        self.size = size
        self.kind = kind
        self.name = name
        self.alive = True
        self.ro = ro
        self.cow = False
        self.log = None
        self.base = None
        if type(size) is T:
            self.flat = None
            self.base = fill or ('undef', 'undef!o%d' % id)
            self.log = []
        else:
            self.flat = [None] * size if fill is None else fill

    def clone(self):
        o = Obj.__new__(Obj)
        o.id = self.id
        o.size = self.size
        o.kind = self.kind
        o.name = self.name
        o.alive = self.alive
        o.ro = self.ro
        o.cow = False
        o.flat = list(self.flat) if self.flat is not None else None
        o.base = self.base
        o.log = list(self.log) if self.log is not None else None
        return o

    def to_log(self):
        if self.log is None:
            self.base = ('flat', tuple(self.flat))
            self.flat = None
            self.log = []

    def __repr__(self):
        return '<obj %x %s %s size=%s>' % (self.id, self.kind, self.name, t.show(self.size))


_undef = [0]


def fresh_undef(w):
    _undef[0] += 1
    return t.var('undef!%d' % _undef[0], w)


def byte_val(b):
    if type(b) is tuple:
        v, k = b
        return t.extract(8 * k + 7, 8 * k, v, v.w)
    return b


def split_bytes(val, n):
    """value of n bytes -> list of byte cells"""
    if type(val) is not T:
        return list(val.to_bytes(n, 'little'))
    if n == 1:
        return [val if val.w == 8 else t.zext(val, val.w, 8)]
    if val.w != 8 * n:
        val = t.zext(val, val.w, 8 * n)
        if type(val) is not T:
            return list(val.to_bytes(n, 'little'))
    if val.op == 'concat':
        return [t.extract(8 * k + 7, 8 * k, val, val.w) for k in range(n)]
    return [(val, k) for k in range(n)]


def join_bytes(cells):
    n = len(cells)
    c0 = cells[0]
    if type(c0) is tuple and c0[1] == 0:
        v = c0[0]
        if v.w == 8 * n:
            for k in range(1, n):
                c = cells[k]
                if type(c) is not tuple or c[0] is not v or c[1] != k:
                    break
            else:
                return v
    if all(type(c) is int for c in cells):
        return int.from_bytes(bytes(cells), 'little')
    if n == 1:
        return byte_val(c0)
    return t.concat_pieces([(8, byte_val(c)) for c in cells], 8 * n)
