"""Memory ranges: reads of named objects stay in their allowed intervals, writes in their bounds,
writes to local arrays (also of run time size) inside the array."""
from rules.common import *


class Safe:
    def __init__(self):
        self.read = {}       # root -> [(lo, hi)] bytes that may be read
        self.write = {}      # root -> [(lo, hi)] bytes that may be written
        self.locals = True
        self.kill = False
        self.words = {}      # root -> (lo, hi): value words, not to be taken apart into bytes
        self.found = []      # faults seen on any path

    @staticmethod
    def inside(L, lo, hi):
        """[lo, hi) is covered by the intervals"""
        for a, b in sorted(L):
            if a <= lo < b:
                lo = b
            if lo >= hi:
                return True
        return lo >= hi

    def size(self, i, Fx, write):
        if i.is_call:
            return Fx.get(i.ops[2])
        if i.op == 'store':
            o = i.ops[0]
            if o[0] == 'c':
                b = int(o[2])
            else:
                x = Fx.fn.inst(o)
                t = x.ty if x is not None and x.ty else None
                if t is None and o[0] == 'a':
                    t = Fx.fn.d.get('argty', {}).get(o[1]) if type(Fx.fn.d.get('argty')) is dict else None
                b = width(t) if t else 8
            return max(1, b // 8)
        return max(1, width(i.ty) // 8)

    def watch(self, i, Fx, ev):
        e = self.look(i, Fx, ev)
        f = faults(e)
        self.found += f
        return 'kill' if f and self.kill else e

    def look(self, i, Fx, ev):
        e = ()
        if i.op in ('udiv', 'sdiv', 'urem', 'srem'):
            return (('div0', i.where),) if Fx.get(i.ops[1]) == 0 else ()
        if i.op == 'alloca':
            c = Fx.get(i.ops[0])
            return (('vla', Fx.fn.mangled, i.id, c),)
        w, r = written_ptr(i), read_ptr(i)
        if w is not None:
            p = Fx.ptr(w)
            L = self.write.get(p[1])
            n = None
            if L is not None:
                n = self.size(i, Fx, True)
                if n is None or p[2] is None or n and not self.inside(L, p[2], p[2] + n):
                    e += (('bad-write', p[1], p[2], n, i.where),)
            elif self.locals and type(p[1]) is tuple and len(p[1]) == 2 and p[1][0] == 'v':
                a = Fx.fn.inst(('v', int(p[1][1]))) if str(p[1][1]).isdigit() else None
                if a is not None and a.op == 'alloca':
                    c = 1
                    if a.ops:
                        c = Fx.get(a.ops[0]) if a.ops[0][0] == 'c' else ([x[3] for x in ev if x[0] == 'vla' and x[1] == Fx.fn.mangled and x[2] == a.id] or [None])[-1]
                    n = self.size(i, Fx, True)
                    if p[2] is None or c is None or n is None:
                        e += (('wild', a.where, i.where),) if a.ops and a.ops[0][0] != 'c' or a.d.get('asz', 0) > 8 and not i.is_call and p[2] is None else ()
                    elif n and (p[2] < 0 or p[2] + n > c * a.d.get('asz', 0)):
                        e += (('bad-write', 'a local array of %d bytes' % (c * a.d.get('asz', 0)), p[2], n, i.where),)
        if r is not None:
            p = Fx.ptr(r)
            e += self.check(p, self.size(i, Fx, False), i.where) if p[1] in self.read else ()
        return e

    def check(self, p, n, where):
        if type(p) is not tuple:
            return (('bad-read', p, None, n, where),)
        L = self.read.get(p[1])
        if L is None or n == 0:
            return ()
        if n is None or p[2] is None or not self.inside(L, p[2], p[2] + n):
            return (('bad-read', p[1], p[2], n, where),)
        w = self.words.get(p[1])
        if w is not None and p[2] < w[1] and p[2] + n > w[0] and n < 4:
            return (('bad-read', p[1], p[2], n, where),)
        return ()


def width(t):
    if t == 'ptr':
        return 64
    if t in ('double',):
        return 64
    if t in ('float',):
        return 32
    return bits_of(t)


def faults(ev):
    return [e for e in ev if e[0] in ('bad-write', 'bad-read', 'wild', 'overflow', 'div0')]
