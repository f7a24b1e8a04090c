"""C16: a partial or interrupted write never silently loses log data."""
from rules.io import *
from rules.c15 import setup, FD, FILEP, OWNER, final
CL = ('ostrbuf_fd', 'ostrbuf_file', 'ostrbuf_stdio', 'ostrbuf_tee')


def roots(ctx):
    d = 'hogldrv::'
    return [Root('put', d + 'ob_put'), Root('flush', d + 'ob_flush'), Root('flushd', d + 'ob_flush_data'), Root('failed', d + 'ob_failed'),
            Root('of_write', OF + '::write'), Root('of_writev', OF + '::writev')] + vroots()


def outcomes(maxintr, errs):
    """every possible result of one write of n bytes: partial counts, interruption, error, no progress"""
    def f(kind, fd, n, ev):
        R = [('n', k) for k in range(n, 0, -1)]
        if kind == 'stdio':
            # fwrite continues by itself; a short count comes with the error indicator
            return [('n', n), ('n', n // 2), ('n', 0)] if n else [('n', 0)]
        if n == 0:
            return [('n', 0)]
        if len([e for e in ev if e[0] == 'intr']) < maxintr:
            R.append(('intr',))
        if errs:
            R.append(('err', EIO))
            if not [e for e in ev if e[0] == 'out' and not e[3]]:
                R.append(('n', 0))
        return R
    return f


def prefix(a, b):
    return b[:len(a)] == a


def flushes(ctx, item):
    cls, size, op, n, errs = item
    io = IO(ctx, results=outcomes(2, errs))
    m, pre = setup(io, cls, 4, size)
    for k in range(n):
        m[('data', k)] = INITDATA + k
    args = {0: ('p', 'self', 0)}
    if op != 'flush':
        args[1], args[2] = ('p', 'data', 0), n
    fn = ctx.fn(op)
    exp = tuple(INITBUF + k for k in range(size)) + tuple(INITDATA + k for k in range(n))
    what = '%s: %s of %d buffered and %d new bytes' % (cls, op, size, n)
    io.maxwrite = 64
    ex = io.run(fn, args, m, cap=2000)
    for w in io.overruns:
        ctx.bad('order', w, '%s: a write of more bytes than there are' % what)
    for inst, ev, ret, mem in ex:
        left = final(io, mem, 'self')
        for sink, p in pre.items():
            own = OWNER[cls][sink]
            got = delivered(ev, sink)
            low = final(io, mem, own) if own != 'self' else ()
            failed = mem.get((own, io.off(OB, '_failed')))
            e2 = p + exp
            res = trail(ev, sink)
            if cls == 'ostrbuf_tee' and any(mem.get((o, io.off(OB, '_failed'))) for o in ('o0', 'o1')):
                ctx.expect(sink == FILEP or prefix(got, e2), 'order', where(ev, sink, fn), '%s (%s): sink %s got %s' % (what, res, sink, show(got)), what)
                ctx.expect(failed == 1 or got + (low or ()) + left == e2 or own == 'o1', 'complete', where(ev, sink, fn), '%s (%s): %s missing without an error' % (what, res, sink), what)
                continue
            if failed:
                ctx.expect(sink == FILEP or prefix(got, e2), 'order', where(ev, sink, fn), '%s (%s): sink %s got %s' % (what, res, sink, show(got)), what)
                hard = [e for e in ev if e[0] == 'err' and e[1] == sink or e[0] == 'out' and e[2] == sink and (not e[3] and e[5] or e[1] == 'stdio')]
                ctx.expect(bool(hard), 'retry', where(ev, sink, fn), '%s (%s): given up although every attempt made progress or was interrupted' % (what, res), what)
            elif left is None or low is None:
                ctx.bad('complete', fn.where, '%s: unknown buffer contents' % what)
            else:
                ctx.expect(got + low + left == e2, 'complete' if len(got) < len(e2) else 'order', where(ev, sink, fn), '%s (%s): sink %s got %s and no error was recorded' % (what, res, sink, show(got)), what)


def where(ev, sink, fn):
    w = [e[4] for e in ev if e[0] == 'out' and e[2] == sink]
    return w[-1] if w else fn.where


def trail(ev, sink):
    r = []
    for e in ev:
        if e[0] == 'out' and e[2] == sink:
            r.append('%d written' % len(e[3]))
        elif e[0] in ('intr', 'err') and e[1] == sink:
            r.append({'intr': 'interrupted', 'err': 'error'}[e[0]])
    return ', '.join(r)


def direct(ctx, item):
    shape, errs = item
    io = IO(ctx, results=outcomes(2 if sum(shape) < 5 else 1, errs))
    o = lambda n: ('self', io.off(OF, n))
    m = {o('_fd'): FD, o('_size'): 10, o('_max_size'): 1000, o('_rotate_pending'): 0, o('_killed'): 0}
    b = 0
    for j, n in enumerate(shape):
        m[('iov', 16 * j)], m[('iov', 16 * j + 8)] = ('p', 'd%d' % j, 0), n
        for k in range(n):
            m[('d%d' % j, k)] = INITDATA + b
            b += 1
    exp = tuple(INITDATA + k for k in range(b))
    for rid in ('of_writev', 'of_write'):
        if rid == 'of_write' and len(shape) != 1:
            continue
        fn = ctx.fn(rid)
        args = {0: ('p', 'self', 0), 1: ('p', 'iov' if rid == 'of_writev' else 'd0', 0), 2: len(shape) if rid == 'of_writev' else b}
        what = '%s of %s bytes' % (fn.qname, '+'.join(str(x) for x in shape))
        io.maxwrite = 64
        ex = io.run(fn, args, m, cap=2000)
        for w in io.overruns:
            ctx.bad('order', w, '%s: a write of more bytes than there are' % what)
        for inst, ev, ret, mem in ex:
            got = delivered(ev, FD)
            res = trail(ev, FD)
            if ret == (1 << 64) - 1:
                ctx.expect(prefix(got, exp), 'order', where(ev, FD, fn), '%s (%s): wrote %s' % (what, res, show(got)), what)
                ctx.expect(bool([e for e in ev if e[0] == 'err' or e[0] == 'out' and not e[3] and e[5]]), 'retry', where(ev, FD, fn), '%s (%s): reports an error although every attempt made progress or was interrupted' % (what, res), what)
            else:
                ctx.expect(got == exp and ret == b, 'complete', where(ev, FD, fn), '%s (%s): wrote %s and returned %s' % (what, res, show(got), ret), what)


def check(ctx):
    ctx.rule('complete', 'a flush or write that records no error has delivered every byte, whatever part of each attempt the system accepted')
    ctx.rule('order', 'bytes reach the sink in order and once, and a failed output has delivered a prefix')
    ctx.rule('retry', 'partial and interrupted attempts are continued; only an error or an attempt without progress ends the output')
    items = []
    for c in CL:
        for size, op, n in ((0, 'flushd', 3), (2, 'flush', 0), (2, 'flushd', 3), (1, 'flushd', 3), (3, 'put', 3), (4, 'flushd', 0)) + (((4, 'flushd', 4), (3, 'flushd', 1)) if ctx.tier != 'quick' else ()):
            for errs in (False, True):
                items.append((c, size, op, n, errs))
    ctx.pmap(items, lambda x: flushes(ctx, x))
    ctx.pmap([(s, e) for s in ((4,), (0,), (2, 3), (2, 0, 2), (0, 3), (1, 1, 1), (3, 0)) for e in (False, True)], lambda x: direct(ctx, x))
