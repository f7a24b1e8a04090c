"""Abstract runs of functions that work on named objects: constant propagation over an
abstract heap with an event trace (locks, allocations, frees, calls, tracked accesses)."""
from rules.engine import *
from rules.common import *
from rules.heap import *
FREES = ('operator delete[]', 'operator delete', 'free')
NEWS = ('operator new[]', 'operator new')


class Obj:
    def __init__(self, ctx, maps=None, calls=None, watch=None, locks=None, keep=(), trylock=None, limit=200, zero=()):
        """calls: {qname prefix: function(i, args, Fx, ev) -> None | [(ret, events, {cell: value})]}
        watch(i, Fx, ev) -> tuple of events for loads/stores; locks: {cell: name}"""
        self.ctx, self.heap = ctx, Heap(maps or {})
        self.calls, self.watch, self.locks = calls or {}, watch, locks or {}
        self.keep = KEEPSTD + tuple(keep) + tuple(self.calls)
        self.trylock = trylock
        self.limit, self.zero = limit, zero

    def lockname(self, Fx, o):
        c = Fx.cell(o)
        if c in self.locks:
            return self.locks[c]
        return repr(c)

    def run(self, fn, args, mem, assume=None, cap=64, init=(), fields=None):
        def step(i, a, Fx):
            e = ()
            if i.is_call:
                c = i.callee
                if c == 'pthread_mutex_lock':
                    e = (('lock', self.lockname(Fx, i.ops[0]), i.where),)
                elif c == 'pthread_mutex_unlock':
                    e = (('unlock', self.lockname(Fx, i.ops[0]), i.where),)
            if self.watch and (i.op in ('load', 'store', 'atomicrmw', 'cmpxchg') or i.is_call or i.op in ('udiv', 'sdiv', 'urem', 'srem') or i.op == 'alloca' and i.ops and i.ops[0][0] != 'c'):
                w = self.watch(i, Fx, a)
                if w == 'kill':
                    return None
                e += tuple(w or ())
            return a + e if len(a) < self.limit else a

        def model(i, a, Fx):
            c = i.callee or ''
            for p, f in self.calls.items():
                if c == p or p.endswith('*') and c.startswith(p[:-1]):
                    r = f(i, tuple(Fx.val(o) for o in i.ops), Fx, a)
                    if r is not None:
                        return [(v, a + tuple(ev) if len(a) < max(self.limit, 5000) else a, up) for v, ev, up in r]
            if c in NEWS:
                n = len([x for x in a if x[0] == 'new'])
                return [(('p', 'new%d' % n, 0), a + (('new', 'new%d' % n, i.where, Fx.get(i.ops[0])),), {})]
            if c in FREES:
                v = Fx.val(i.ops[0])
                if v == 0:
                    return [(None, a, {})]
                return [(None, a + (('free', v[1] if type(v) is tuple and v[2] == 0 else repr(v), i.where),), {})]
            if c.startswith('llvm.threadlocal.address') or c.startswith('thread-local wrapper'):
                return [(('p', '#tls', 0), a, {})]
            if c == 'posix_memalign':
                k = Fx.cell(i.ops[0])
                n = len([x for x in a if x[0] == 'new'])
                return [(0, a + (('new', 'new%d' % n, i.where, Fx.get(i.ops[2])),), {k: ('p', 'new%d' % n, 0)})] if k else None
            if c in ('__cxa_throw', '__cxa_rethrow'):
                return []
            if c == 'pthread_mutex_trylock':
                if self.trylock:
                    return self.trylock(i, a, Fx, self.lockname(Fx, i.ops[0]))
                return [(0, a + (('lock', self.lockname(Fx, i.ops[0]), i.where),), {}), (16, a, {})]
            if c in ('pthread_mutex_lock', 'pthread_mutex_unlock'):
                return [(0, a, {})]
            if c == 'llvm.umul.with.overflow.i64':
                x, y = Fx.get(i.ops[0]), Fx.get(i.ops[1])
                return [(('agg', x * y & ((1 << 64) - 1), 0), a, {})] if x is not None and y is not None else None
            return self.heap.model(i, a, Fx)
        s = Sim(fn, step, init, objmem=True, args=args, mem=mem, assume=assume, model=model, keeppfx=self.keep, cap=cap, fields=fields, zero=self.zero)
        return s.exits
