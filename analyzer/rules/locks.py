"""Lockset analysis of one object ('self') shared by the rules about locking."""
from rules.common import *
from rules.engine import layout_off
LOCKF = {'pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_timedlock', 'pthread_mutex_unlock', 'pthread_mutex_init', 'pthread_mutex_destroy',
         'pthread_cond_wait', 'pthread_cond_timedwait', 'pthread_cond_signal', 'pthread_cond_broadcast', 'pthread_cond_init', 'pthread_cond_destroy'}
POSTIMPL = ('hogl::post_impl::begin_unlocked', 'hogl::post_impl::begin_locked', 'hogl::post_impl::finish_unlocked', 'hogl::post_impl::finish_locked',
            'hogl::post_impl::unlocked', 'hogl::post_impl::locked', 'hogl::tls::ring')
RDCALL = ('::c_str', '::data', '::size', '::length', '::find', '::begin', '::end', '::empty', '::str', '::count', '::cbegin', '::cend', '::lower_bound', '::at')


def selfargs(fn, extra=None):
    a = {}
    for n, x in enumerate(fn.args):
        if x[0] == 'this' or (extra and x[0] == extra):
            a[n] = ('p', 'self', 0)
    return a


class Locks:
    """walks a function with the set of held locks; on(i, held, Fx) sees every
    instruction; collects double locks, unbalanced returns and lock order"""

    def __init__(self, ctx, fn, cls, args, on=None, balanced=None, once=None, order=None, split=None, mem=None, assume=None, trylock=True, cap=3):
        self.ctx, self.fn, self.cls = ctx, fn, cls
        self.members = sorted((f[2] // 8, (f[3] + 7) // 8, f[0]) for f in ctx.layout[cls] if f[2] is not None and f[0] and not f[5])
        self.order = set()
        self.on = on
        self.acq = {}

        def step(i, a, Fx):
            if on is not None:
                r = on(i, a, Fx)
                if r is not None:
                    a = r
            if i.is_call and i.callee in LOCKF:
                c = i.callee
                if c in ('pthread_mutex_lock', 'pthread_mutex_timedlock'):
                    return self.acquire(i, a, self.name(Fx, i.ops[0]), once)
                if c == 'pthread_mutex_unlock':
                    n = self.name(Fx, i.ops[0])
                    if n not in a:
                        if balanced:
                            ctx.bad(balanced, i.where, '%s: unlocks %s which it does not hold' % (fn.qname, n))
                        return a
                    return a - {n}
                if c in CONDW:
                    n = self.name(Fx, i.ops[1])
                    if n not in a and balanced:
                        ctx.bad(balanced, i.where, '%s: waits on a condition without holding %s' % (fn.qname, n))
            if i.op == 'ret' and balanced:
                ctx.expect(not a, balanced, i.where, '%s: returns with %s held' % (fn.qname, ', '.join(sorted(a))), fn.qname)
            return a

        def spl(i):
            if i.is_call and i.callee == 'pthread_mutex_trylock' and trylock:
                n = self.tryname.get(i.id)
                if n is None:
                    n = self.tryname[i.id] = self.sname(i.ops[0])
                return [(0, lambda a: self.acquire(i, a, n, once, True)), (16, None)]
            return split(i) if split else None
        self.tryname = {}
        self.args = args
        self.sim = Sim(fn, step, frozenset(), objmem=True, args=args, split=spl, mem=mem, assume=assume, cap=cap)

    def acquire(self, i, a, n, once, trying=False):
        if once:
            self.ctx.expect(n not in a, once, i.where, '%s: locks %s twice' % (self.fn.qname, n), self.fn.qname)
        for h in a if not trying else ():
            if h != n:
                self.order.add((h, n))
                self.acq[(h, n)] = i.where
        return a | {n}

    def member(self, Fx, o):
        p = Fx.ptr(o)
        if p[1] != 'self' or p[2] is None:
            return None
        return self.at(p[2])

    def at(self, off):
        for o, s, n in self.members:
            if o <= off < o + max(s, 1):
                return n
        return None

    def name(self, Fx, o):
        m = self.member(Fx, o)
        if m is not None:
            return '%s::%s' % (self.cls, m)
        return self.sname(o)

    def sname(self, o):
        f = self.fn.addr(o).field
        return '%s::%s' % f if f else str(self.fn.addr(o).root)

    def accesses(self, i, Fx):
        """[(member, is_write)] of self touched by this instruction"""
        out = []
        if i.op == 'load':
            m = self.member(Fx, i.ops[0])
            if m:
                out.append((m, False))
        elif i.op == 'store':
            m = self.member(Fx, i.ops[1])
            if m:
                out.append((m, True))
        elif i.op in ('atomicrmw', 'cmpxchg'):
            m = self.member(Fx, i.ops[0])
            if m:
                out.append((m, True))
        elif i.is_call and i.callee not in LOCKF and not (i.callee or '').startswith(('llvm.dbg', 'llvm.lifetime')):
            c = i.callee or ''
            for n, o in enumerate(i.ops):
                if o and o[0] in ('v', 'a', 'e') and (o[0] != 'v' or self.fn.I.get(o[1]) is None or self.fn.I[o[1]].ty == 'ptr'):
                    m = self.member(Fx, o)
                    if m is None or (Fx.ptr(o)[2] == 0 and self.at(0) == m and m.startswith('_vptr')):
                        continue
                    rd = c.endswith(RDCALL) or c.startswith(('std::operator<<', 'std::operator+')) or (n == 1 and ('::basic_string' in c or c.startswith('llvm.mem')))
                    out.append((m, not rd))
        return out
