"""C15: buffered output reaches the sink completely, once and in order."""
from rules.io import *
FD, FILEP = 9, 'F'
CHR = 77


def roots(ctx):
    d = 'hogldrv::'
    R = [Root('put', d + 'ob_put'), Root('chr', d + 'ob_push_back'), Root('flush', d + 'ob_flush'), Root('flushd', d + 'ob_flush_data'), Root('str', d + 'ob_push_str'),
         Root('cstr', d + 'ob_push_cstr'), Root('string', d + 'ob_push_string'), Root('failed', d + 'ob_failed'), Root('error', d + 'ob_error'),
         Root('ctor', OB + '::ostrbuf', ptypes=lambda p: not any('ostrbuf&' in x or 'ostrbuf &' in x for x in p[1:]))]
    for c in CLS:
        R.append(Root('ctor:' + c, 'hogl::%s::%s' % (c, c), ptypes=lambda p: not any('ostrbuf_' in x and '&' in x for x in p[1:])))
    return R + vroots()


def setup(io, cls, cap, size, failed=(0, 0)):
    """memory of an output buffer of the class and its sinks: [(sink, bytes buffered in front)]"""
    m = io.ob('self', cls, cap, size)
    pre = {}
    if cls == 'ostrbuf_fd':
        m[('self', io.off('hogl::' + cls, '_fd'))] = FD
        m[('self', io.off('hogl::' + cls, '_flags'))] = 0
        pre[FD] = ()
    elif cls == 'ostrbuf_stdio':
        m[('self', io.off('hogl::' + cls, '_file'))] = ('p', FILEP, 0)
        m[('self', io.off('hogl::' + cls, '_flags'))] = 0
        pre[FILEP] = ()
    elif cls == 'ostrbuf_file':
        m[('self', io.off('hogl::' + cls, '_of'))] = ('p', 'of', 0)
        o = lambda n: ('of', io.off(OF, n))
        m.update({o('_fd'): FD, o('_size'): 10, o('_max_size'): 1000, o('_rotate_pending'): 0, o('_killed'): 0})
        pre[FD] = ()
    elif cls == 'ostrbuf_tee':
        m.update(io.ob('o0', 'ostrbuf_fd', 2, 1, failed=failed[0]))
        m.update(io.ob('o1', 'ostrbuf_stdio', 2, 2, failed=failed[1]))
        m[('self', io.off('hogl::ostrbuf_tee', '_o0'))] = ('p', 'o0', 0)
        m[('self', io.off('hogl::ostrbuf_tee', '_o1'))] = ('p', 'o1', 0)
        m[('o0', io.off('hogl::ostrbuf_fd', '_fd'))] = FD
        m[('o1', io.off('hogl::ostrbuf_stdio', '_file'))] = ('p', FILEP, 0)
        m[('o0:buf', 0)], m[('o1:buf', 0)], m[('o1:buf', 1)] = 51, 61, 62
        pre[FD], pre[FILEP] = (51,), (61, 62)
    return m, pre


def final(io, mem, root):
    """bytes left in a buffer, None when unknown"""
    n = mem.get((root, io.off(OB, '_size')))
    p = mem.get((root, io.off(OB, '_data')))
    if type(n) is not int or n > 64:
        return None
    if n and type(p) is not tuple:
        return None
    return tuple(mem.get((p[1], p[2] + k), '?') for k in range(n))


OWNER = {'ostrbuf_fd': {FD: 'self'}, 'ostrbuf_stdio': {FILEP: 'self'}, 'ostrbuf_file': {FD: 'self'}, 'ostrbuf_tee': {FD: 'o0', FILEP: 'o1'}, 'ostrbuf_null': {}}


def ops(quick):
    L = [('flush', 0), ('chr', 1)]
    L += [('put', n) for n in (0, 1, 2, 3, 4, 5, (1 << 32) + 2)] + [('flushd', n) for n in (0, 1, 3)]
    L += [(k, n) for k in ('str', 'cstr', 'string') for n in (0, 1, 3)]
    return L


def one(ctx, item):
    cls, cap = item
    for size in range(cap + 1):
        for op, n in ops(ctx.tier == 'quick'):
            io = IO(ctx)
            io.S.names['data'] = tuple((chr(INITDATA + k), 1) for k in range(n)) if n < 64 else None
            m, pre = setup(io, cls, cap, size)
            io.bounds = {'self:buf': cap, 'o0:buf': 2, 'o1:buf': 2}
            for k in range(min(n, 64)):
                m[('data', k)] = INITDATA + k
            fn = ctx.fn(op)
            args = {0: ('p', 'self', 0)}
            new = tuple(INITDATA + k for k in range(n)) if n < 64 else (('range', 'data', 0, n),)
            if op == 'chr':
                args[1], new = CHR, (CHR,)
            elif op == 'string':
                m[('strobj', 0)] = io.S.ptr(io.S.names['data'])
                args[1] = ('p', 'strobj', 0)
                m.update({(io.S.root(io.S.names['data']), k): INITDATA + k for k in range(n)})
            elif op == 'cstr':
                args[1] = ('p', 'data', 0)
                m[('data', n)] = 0
            elif op != 'flush':
                args[1], args[2] = ('p', 'data', 0), n
            else:
                new = ()
            exp = tuple(INITBUF + k for k in range(size)) + new
            what = '%s: %s of %d bytes with %d of %d bytes buffered' % (cls, {'put': 'append', 'chr': 'append', 'str': 'append', 'cstr': 'append', 'string': 'append'}.get(op, 'flush'), len(new) if n < 64 else n, size, cap)
            ex = io.run(fn, args, m)
            ctx.expect(bool(ex), 'deliver', fn.where, what + ': does not return')
            for inst, ev, ret, mem in ex:
                ov = [e for e in ev if e[0] == 'overflow']
                ctx.expect(not ov, 'bound', ov[0][2] if ov else inst.where, '%s: writes outside the buffer' % what, what)
                ctx.expect(not [e for e in ev if e[0] == 'virt?'], 'deliver', fn.where, '%s: unresolved virtual call' % what)
                left = final(io, mem, 'self')
                isflush = op in ('flush', 'flushd')
                if isflush:
                    ctx.expect(left == (), 'empty', fn.where, '%s: the buffer is not empty afterwards' % what, what)
                if left is None:
                    ctx.bad('deliver', fn.where, '%s: unknown buffer contents' % what)
                    continue
                if cls == 'ostrbuf_null':
                    ctx.expect(mem.get(('self', io.off(OB, '_size')), 99) <= cap, 'bound', fn.where, '%s: more bytes than capacity' % what, what)
                    ctx.expect(left == exp[len(exp) - len(left):] if len(left) else True, 'deliver', fn.where, '%s: buffers %s' % (what, show(left)), what)
                    continue
                for sink, p in pre.items():
                    got = delivered(ev, sink)
                    if cls == 'ostrbuf_tee':
                        down = final(io, mem, OWNER[cls][sink])
                        e2 = p + exp
                        ok = down is not None and got + down + left == e2 and not (isflush and got and down)
                        if isflush and exp:
                            ok = ok and down == () and got == e2
                    else:
                        ok = got + left == exp and (not isflush or got == exp)
                    ctx.expect(ok, 'deliver', fn.where, '%s: expected %s in order, sink %s got %s, %s still buffered' % (what, show(exp), sink, show(got), show(left)), what)


def errors(ctx, item):
    cls, size, op, bad = item
    io = IO(ctx, results=lambda kind, fd, n, ev: [('err', 28)] if fd == bad else [('n', n)])
    m, pre = setup(io, cls, 4, size)
    for k in range(3):
        m[('data', k)] = INITDATA + k
    fn = ctx.fn(op)
    args = {0: ('p', 'self', 0)}
    n = 0
    if op != 'flush':
        args[1], args[2] = ('p', 'data', 0), 3
        n = 3
    what = '%s: flush of %d buffered and %d new bytes fails on %s' % (cls, size, n, bad)
    if size + n == 0 or (op == 'put' and n <= 4 - size):
        return
    for inst, ev, ret, mem in io.run(fn, args, m):
        m2 = dict(mem)
        fl = [r for _, _, r, _ in io.run(ctx.fn('failed'), {0: ('p', 'self', 0)}, {k: v for k, v in mem.items() if not (type(k[0]) is tuple and k[0][:1] == ('v',))})]
        ctx.expect(bool(fl) and all(x == 1 for x in fl), 'error', fn.where, '%s: the failure is not recorded (failed() gives %s)' % (what, fl), what)
        own = OWNER[cls][bad]
        ctx.expect(m2.get((own, io.off(OB, '_failed'))) == 1, 'error', fn.where, '%s: the failure is not recorded in %s' % (what, own), what)


def failed(ctx, item):
    """appending to a buffer whose sink has failed already"""
    cls, cap, f0, f1 = item
    for size in range(cap + 1):
        for op, n in ops(True):
            if n > 5 or op not in ('flush', 'chr', 'put', 'flushd', 'string'):
                continue
            io = IO(ctx)
            m, pre = setup(io, cls, cap, size, (f0, f1))
            io.bounds = {'self:buf': cap, 'o0:buf': 2, 'o1:buf': 2}
            if cls != 'ostrbuf_tee':
                m[('self', io.off(OB, '_failed'))] = 1
            data = tuple((chr(INITDATA + k), 1) for k in range(n))
            io.S.names['data'] = data
            m.update({('data', k): INITDATA + k for k in range(n)})
            fn = ctx.fn(op)
            args = {0: ('p', 'self', 0)}
            if op == 'chr':
                args[1] = CHR
            elif op == 'string':
                m[('strobj', 0)] = io.S.ptr(data)
                args[1] = ('p', 'strobj', 0)
                m.update({(io.S.root(data), k): INITDATA + k for k in range(n)})
            elif op != 'flush':
                args[1], args[2] = ('p', 'data', 0), n
            what = '%s that has failed: %s of %d bytes with %d of %d bytes buffered' % (cls, 'flush' if op[:5] == 'flush' else 'append', 1 if op == 'chr' else n, size, cap)
            ex = io.run(fn, args, m)
            # the null buffer throws then
            ctx.expect(bool(ex) or cls == 'ostrbuf_null', 'bound', fn.where, what + ': does not return')
            for inst, ev, ret, mem in ex:
                ov = [e for e in ev if e[0] == 'overflow']
                ctx.expect(not ov, 'bound', ov[0][2] if ov else inst.where, '%s: writes outside the buffer' % what, what)
                S = mem.get(('self', io.off(OB, '_size')))
                ctx.expect(type(S) is int and S <= cap, 'bound', fn.where, '%s: the buffer claims to hold %s bytes' % (what, S), what)


def teestate(ctx):
    for f0 in (0, 1):
        for f1 in (0, 1):
            io = IO(ctx)
            m, pre = setup(io, 'ostrbuf_tee', 4, 0, (f0, f1))
            r = {x[2] for x in io.run(ctx.fn('failed'), {0: ('p', 'self', 0)}, m)}
            ctx.expect(r == {f0 | f1}, 'teestate', ctx.fn('failed').where, 'tee of downstreams with failed = %d and %d reports %s' % (f0, f1, r), 'tee')
            if f0 | f1:
                r = {x[2] for x in io.run(ctx.fn('error'), {0: ('p', 'self', 0)}, m)}
                e = io.off(OB, '_error')
                good = {('p', o, e) for o, f in (('o0', f0), ('o1', f1)) if f}
                ctx.expect(len(r) == 1 and r <= good, 'teestate', ctx.fn('error').where, 'tee of downstreams with failed = %d and %d reports the error text of the wrong one' % (f0, f1), 'tee')


def ctors(ctx):
    o = lambda n: ('self', io.off(OB, n))
    big = (1 << 32) + 8
    # base constructor, also seen through every class
    names = [('ctor', 1)] + [('ctor:' + c, None) for c in CLS]
    for rid, pos in names:
        for fn in ctx.fns(rid):
            ints = [n for n, a in enumerate(fn.args) if n and a[1] in ('i64', 'i32')]
            capn = ints[-1] if ints else None
            for cap in (0, 1, 4096, 65536 + 16, 0x80000010, big):
                io = IO(ctx)
                args = {0: ('p', 'self', 0)}
                for n, a in enumerate(fn.args):
                    if n and a[1] == 'ptr':
                        args[n] = ('p', 'arg%d' % n, 0)
                    elif n:
                        args[n] = 0
                if capn is not None:
                    args[capn] = cap if fn.args[capn][1] == 'i64' else cap & 0xffffffff
                    if cap != args[capn]:
                        continue
                elif cap:
                    continue
                if rid == 'ctor:ostrbuf_fd':
                    args[1] = FD
                what = '%s with capacity %d' % (fn.qname, cap)
                for inst, ev, ret, mem in io.run(fn, args, {}):
                    C, D = mem.get(o('_capacity')), mem.get(o('_data'))
                    S = mem.get(o('_size'))
                    ctx.expect(S == 0, 'ctor', fn.where, '%s: starts with %s buffered bytes' % (what, S), what)
                    new = {e[1]: e[3] for e in ev if e[0] == 'new'}
                    if type(C) is not int:
                        ctx.bad('ctor', fn.where, '%s: capacity is not set' % what)
                        continue
                    have = new.get(D[1], 0) if type(D) is tuple else 0
                    ctx.expect(have is not None and C <= have, 'ctor', fn.where, '%s: capacity %s with a buffer of %s bytes' % (what, C, have), what)
                    if [e for e in ev if e[0] == 'nomem']:
                        ctx.expect(mem.get(o('_failed')) == 1, 'ctor', fn.where, '%s: failed allocation is not recorded' % what, what)


def check(ctx):
    ctx.rule('deliver', 'after an append or flush, what the sinks received plus what is still buffered is exactly the old contents followed by the new bytes')
    ctx.rule('empty', 'flush leaves the buffer empty')
    ctx.rule('bound', 'nothing is written outside the buffer')
    ctx.rule('error', 'a sink error during a flush is recorded as failure of the buffer')
    ctx.rule('teestate', 'a tee has failed iff one of its downstream buffers has, and reports that error')
    ctx.rule('ctor', 'the capacity never exceeds the allocated buffer and a new buffer is empty')
    ctx.pmap([(c, k) for c in CLS for k in (range(5) if ctx.tier != 'quick' else (0, 1, 2, 4))], lambda x: one(ctx, x))
    ctx.pmap([(c, s, op, bad) for c in CLS for bad in OWNER[c] for s in (0, 2, 4) for op in ('flush', 'flushd', 'put')], lambda x: errors(ctx, x))
    ctx.pmap([(c, k, f0, f1) for c in CLS for k in (0, 1, 2, 4) for f0 in (0, 1) for f1 in (0, 1) if f0 | f1 and (c == 'ostrbuf_tee' or f0 and not f1)], lambda x: failed(ctx, x))
    teestate(ctx)
    ctors(ctx)
