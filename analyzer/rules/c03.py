"""C03: ring lock typestate on the locked posting interfaces of shared rings."""
from rules.common import *
import rules.common as C
KIND = ('post_ring', 'push_ring', 'post_tls')
COUNTS = (0, 1, 3, 16)
SH = 9


def roots(ctx):
    R = writer_roots(COUNTS, kinds=KIND)
    R += [Root('reset', 'hogl::ringbuf::reset'), Root('ctor', 'hogl::ringbuf::ringbuf', ptypes=lambda p: len(p) > 2)]
    return R


def rids():
    L = [('%s_%d' % (k, n), n) for k in KIND for n in COUNTS] + [('capi_%d' % n, n) for n in (1, 2, 16)]
    return sorted(L, key=lambda x: -x[1]) + [(r, 0) for r in ('flush', 'flush_tls', 'chts', 'chts_tls', 'reset')]


def check(ctx):
    check_flags(ctx)
    ctx.rule('locked', 'shared ring: every access to sequence number, tail, drop count and record storage by a locked interface happens while the ring lock is held')
    ctx.rule('continuous', 'shared ring: the lock is not released between taking the slot / sequence number and publishing or discarding')
    ctx.rule('balanced', 'shared ring: the ring lock is taken at most once at a time and released exactly once before every return')
    ctx.rule('unshared', 'non-shared ring: the ring lock is never touched')
    ctx.rule('lock-init', 'the ring lock is initialised by the constructor as a plain (private) mutex')
    ctx.pmap(rids(), lambda j: [one(ctx, fn) for fn in ctx.fns(j[0])])
    for fn in ctx.fns('ctor'):
        n = [i for i in fn.calls('pthread_mutex_init') if fn.addr(i.ops[0]).field == (RB, '_mutex')]
        ctx.expect(n, 'lock-init', '%s:%d' % (fn.file, fn.line), 'the constructor does not initialise _mutex')


def mutex_of(fn, i):
    if i.is_call and i.callee in MUTEXOPS and i.ops:
        f = fn.addr(i.ops[0]).field
        if f == (RB, '_mutex'):
            return MUTEXOPS[i.callee]
    return None


MUTEXOPS = {'pthread_mutex_lock': 'lock', 'pthread_mutex_trylock': 'lock', 'pthread_mutex_timedlock': 'lock',
            'pthread_mutex_clocklock': 'lock', 'pthread_mutex_unlock': 'unlock'}


def one(ctx, fn):
    w = fn.qname
    ring = {}

    def prot(i):
        """(kind, what): kind r/w access to protected state"""
        if i.id in ring:
            return ring[i.id]
        v = None
        if i.op in ('load', 'store', 'atomicrmw'):
            f = fn.fieldof(i)
            if f in ((RB, '_seqnum'), (RB, '_dropcnt'), (RB, '_tail')):
                v = ('r' if i.op == 'load' else 'w', f[1])
        if v is None:
            p = written_ptr(i)
            if p is not None and in_ring(fn, p):
                v = ('w', 'record')
        ring[i.id] = v
        return v

    # state: (held, open slot, released with an open slot)
    def step(i, a, Fx):
        held, opn, brk = a
        k = mutex_of(fn, i)
        if k == 'lock':
            if held:
                ctx.bad('balanced', i.where, '%s: takes the ring lock while holding it' % w)
            return (1, opn, brk)
        if k == 'unlock':
            if not held:
                ctx.bad('balanced', i.where, '%s: releases the ring lock without holding it' % w)
            return (0, 0, brk or opn)
        if i.is_call and i.callee in CONDW and len(i.ops) > 1 and fn.addr(i.ops[1]).field == (RB, '_mutex'):
            return (held, 0, brk or opn)
        p = prot(i)
        if p:
            if not held:
                ctx.bad('locked', i.where, '%s: accesses %s of a shared ring without the ring lock' % (w, p[1]))
            elif brk:
                ctx.bad('continuous', i.where, '%s: accesses %s after the ring lock was released in the middle of a post' % (w, p[1]))
            else:
                ctx.ok('locked')
            if p[0] == 'w' and p[1] in ('_seqnum', 'record'):
                opn = 1
            elif p[0] == 'w':
                opn = 0
            return (held, opn, brk)
        if i.op == 'ret':
            ctx.expect(not held, 'balanced', i.where, '%s: returns with the ring lock held' % w, w)
            ctx.ok('continuous', w)
        return a
    for extra in (0, C.BLOCKING):
        for full in (False, True, None):
            m = ring_mem(1, 1 if full else 0, 3, C.SHARED | extra, SH)
            if full is None:
                m.pop('_head')
            s = Sim(fn, step, (0, 0, 0), cells=ring_cells, mem=m, cap=4, assume=trylock_ok)
            if not s.exits and not (full and (extra or 'flush' in w or 'change' in w)):
                ctx.bad('balanced', '%s:%d' % (fn.file, fn.line), '%s: never returns' % w)

    def step2(i, a, Fx):
        if mutex_of(fn, i):
            ctx.bad('unshared', i.where, '%s: uses the ring lock of a ring that is not shared' % w)
        return a
    for extra in (0, C.BLOCKING):
        m = ring_mem(1, 0, 3, extra, SH)
        m.pop('_head')
        Sim(fn, step2, 0, cells=ring_cells, mem=m, cap=4)
        ctx.ok('unshared', w)


def trylock_ok(fn, i):
    if mutex_of(fn, i) == 'lock':
        return 0
    return None
