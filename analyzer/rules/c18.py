"""C18: a rotation request is never lost and the file output always shuts down."""
from rules.c17 import *
SZ = 3


def roots(ctx):
    P = lambda p: any('char' in x for x in p[1:])
    return [Root('helper', OF + '::thread_entry'), Root('ctor', OF + '::output_file', ptypes=P), Root('dtor', OF + '::~output_file'), Root('writev', OF + '::writev'), Root('write', OF + '::write'),
            Root('switch', OF + '::switch_name', ptypes=P)] + ofroots()


def helper(ctx, item):
    """every state the helper may find when it runs: pending and killed set or not, before or after it takes the mutex"""
    k0, p0, size = item
    io = Run(ctx, openfail=1, hdrfail=1, waits=2)
    io.havoc = io.helper_lock
    m = io.file(_size=size)
    m[('self', io.off(OF, PEND))], m[('self', io.off(OF, KILL))] = p0, k0
    fn = ctx.fn('helper')
    pre = (('kill',),) * k0 + (('req',),) * p0
    ex = io.run(fn, {0: ('p', 'self', 0)}, m, init=pre, cap=400)
    ctx.expect(bool(ex), 'ends', fn.where, 'the helper never ends although it is told to (killed = %d, rotation pending = %d at the start)' % (k0, p0))
    for inst, ev, ret, mem in ex:
        t = trace(ev)
        ctx.expect(('kill',) in ev, 'ends', inst.where, 'the helper ends while the output is alive (%s)' % t, t)
        ctx.expect(not held(ev), 'ends', inst.where, 'the helper ends holding %s' % held(ev), t)
        for x, e in enumerate(ev):
            if e[0] == 'wait':
                ctx.expect(e[1] == 0, 'wait', e[3], 'the helper goes to sleep without checking for shutdown under the mutex (%s)' % t, t)
                ctx.expect(e[2] == 0, 'wait', e[3], 'the helper goes to sleep with a rotation pending (%s)' % t, t)
                ctx.expect(RM in held(ev, x), 'wait', e[3], 'the helper waits without the mutex', t)
            if e[0] == 'set' and e[1] == 'pend' and e[2] == 0:
                rq = [y for y in range(x) if ev[y] == ('req',)]
                done = [y for y in range(rq[-1] if rq else x, x) if ev[y][0] in ('open', 'openfail')]
                rel = [y for y in range(x, len(ev)) if ev[y][0] == 'wait' or ev[y][0] == 'unlock' and ev[y][1] == RM]
                after = [y for y in range(x, rel[0] if rel else len(ev)) if ev[y][0] in ('open', 'openfail')]
                ctx.expect(not rq or bool(done) or bool(after), 'taken', e[3], 'a rotation request is cleared without an attempt to rotate (%s)' % t, t)
                ctx.expect(RM in held(ev, x), 'taken', e[3], 'the request is cleared without the mutex', t)
                lo = done[-1] if done and not after else x
                ctx.expect(not [y for y in range(lo, x) if ev[y][0] == 'unlock' and ev[y][1] == RM], 'taken', e[3], 'the mutex is released between the rotation and clearing the request (%s)' % t, t)
            if e[0] == 'set' and e[1] == 'kill':
                ctx.bad('ends', e[3], 'the helper changes the shutdown flag')
        # a failed attempt leaves the size so that the next write asks again
        if [e for e in ev if e[0] == 'openfail'] and not [e for e in ev if e[0] == 'set' and e[1] == 'fd']:
            fin = mem.get(('self', io.off(OF, '_size')))
            ctx.expect(fin == size, 'again', fn.where, 'after a failed rotation the size is %s instead of %s: the next write does not ask again' % (fin, size), t)


def flagged(ctx, rule, fn, ev, what, where):
    """a flag that was set is seen by a helper that goes to sleep under the mutex"""
    s = idx(ev, lambda e: e[0] == 'set' and e[1] in ('kill', 'pend') and e[2] not in (0, None))
    ok = False
    for x in s:
        for y in idx(ev, lambda e: e[0] == 'lock' and e[1] == RM):
            u = min([z for z in idx(ev, lambda e: e[0] == 'unlock' and e[1] == RM) if z > y], default=len(ev))
            g = [z for z in idx(ev, lambda e: e[0] == 'signal') if z > y and z > x]
            # a wakeup before the flag is set counts while the mutex is held: the sleeper runs after both
            if x < u and g or y < x < u and [z for z in idx(ev, lambda e: e[0] == 'signal') if y < z < u]:
                ok = True
    ctx.expect(ok, rule, where, what, fn.qname)
    return s


def requests(ctx):
    for rid in ('writev', 'write'):
        fn = ctx.fn(rid)
        for size, mx, pend in ((5, 1000, 0), (5, 8, 0), (5, 8, 1), (5, 7, 0), (8, 8, 0), (0, 1, 0), (5, 9, 0)):
            io = Run(ctx)
            io.results = lambda kind, fd, n, ev: [('n', n)]
            m = io.file(_size=size, _max_size=mx)
            m[('self', io.off(OF, PEND))] = pend
            for k in range(SZ):
                m[('d', k)] = 101 + k
            m[('iov', 0)], m[('iov', 8)] = ('p', 'd', 0), SZ
            args = {0: ('p', 'self', 0), 1: ('p', 'iov' if rid == 'writev' else 'd', 0), 2: 1 if rid == 'writev' else SZ}
            what = 'a write of %d bytes to a chunk of %d with limit %d' % (SZ, size, mx)
            for inst, ev, ret, mem in io.run(fn, args, m):
                ctx.expect(not held(ev), 'request', inst.where, '%s returns holding %s' % (what, held(ev)), what)
                n = mem.get(('self', io.off(OF, '_size')))
                ctx.expect(n == size + SZ, 'size', fn.where, '%s leaves the size at %s' % (what, n), what)
                P = mem.get(('self', io.off(OF, PEND)))
                got = [e for e in ev if e[0] == 'lock' and e[1] == RM]
                if pend:
                    ctx.expect(P == 1, 'request', fn.where, '%s withdraws a request' % what, what)
                elif size + SZ >= mx and got:
                    flagged(ctx, 'request', fn, ev, '%s does not wake the helper with the request set under its mutex' % what, fn.where)
                    ctx.expect(P == 1, 'request', fn.where, '%s does not request a rotation' % what, what)
                elif size + SZ >= mx and not [e for e in ev if e[0] == 'tried']:
                    ctx.bad('request', fn.where, '%s does not request a rotation' % what)
                if not pend and P == 1 and not got:
                    ctx.bad('request', fn.where, '%s sets the request while the helper holds its mutex: the helper may go to sleep without seeing it, and later writes do not wake it' % what)
                # the helper takes the write mutex while it holds the other one
                for x, e in enumerate(ev):
                    if e[0] == 'lock' and e[1] == RM and WM in held(ev, x):
                        ctx.expect(x > 0 and ev[x - 1] == ('tried',), 'request', e[2], 'a writer waits for the helper while it holds the write mutex', what)


def switch(ctx):
    for fn in ctx.fns('switch'):
        io = Run(ctx)
        io.S.names['fname'] = opaque('P') + lit('.#.') + opaque('X')
        m = io.file()
        ex = io.run(fn, {0: ('p', 'self', 0), 1: ('p', 'fname', 0)}, m, cap=200)
        ctx.expect(bool(ex), 'rename', fn.where, 'switching the name never returns')
        for inst, ev, ret, mem in ex:
            s = flagged(ctx, 'rename', fn, ev, 'a name switch does not wake the helper with the request set', fn.where)
            ctx.expect(mem.get(('self', io.off(OF, PEND))) == 1, 'rename', fn.where, 'a name switch does not request a rotation', fn.qname)
            ctx.expect(not held(ev), 'rename', inst.where, 'returns holding %s' % held(ev), fn.qname)
            pre = cellname(io, mem, ('self', io.off(OF, '_name_pref')))
            suf = cellname(io, mem, ('self', io.off(OF, '_name_sufx')))
            lnk = cellname(io, mem, ('self', io.off(OF, '_symlink')))
            exp = (opaque('P') + lit('.'), lit('.') + opaque('X'), opaque('P') + lit('.') + opaque('X'))
            for a, b, w in zip((pre, suf, lnk), exp, ('prefix', 'suffix', 'link')):
                if type(a) is tuple:
                    ctx.expect(a == b, 'rename', fn.where, 'after a switch to P.#.X the %s is %s' % (w, nm(a)), w)


def destroy(ctx):
    for fn in ctx.fns('dtor'):
        io = Run(ctx)
        io.results = lambda kind, fd, n, ev: [('n', n)]
        m = io.file(_size=5)
        m.update(io.ob('ob', 'ostrbuf_file', 8, 2))
        m[('ob', io.off('hogl::ostrbuf_file', '_of'))] = ('p', 'self', 0)
        ex = io.run(fn, {0: ('p', 'self', 0)}, m)
        ctx.expect(bool(ex), 'shutdown', fn.where, 'the destructor never returns')
        for inst, ev, ret, mem in ex:
            flagged(ctx, 'shutdown', fn, ev, 'the helper may sleep forever: the shutdown flag is not set before a wakeup under its mutex', fn.where)
            j = idx(ev, lambda e: e[0] == 'join')
            ctx.expect(len(j) == 1, 'shutdown', fn.where, 'the destructor does not wait for the helper exactly once', fn.qname)
            if len(j) != 1:
                continue
            k = idx(ev, lambda e: e[0] == 'set' and e[1] == 'kill' and e[2] == 1)
            g = idx(ev, lambda e: e[0] == 'signal')
            ctx.expect(bool(k) and k[0] < j[0] and any(x < j[0] for x in g), 'shutdown', ev[j[0]][1], 'the destructor waits for the helper before telling it to end', fn.qname)
            ctx.expect(not held(ev, j[0]), 'shutdown', ev[j[0]][1], 'the destructor waits for the helper holding %s' % held(ev, j[0]), fn.qname)
            for x, e in enumerate(ev):
                if x < j[0] and (e[0] == 'close' or e[0] == 'free'):
                    ctx.bad('shutdown', e[2], 'the destructor frees or closes something before the helper has ended')
                if x < j[0] and e[0] == 'set' and e[1] in ('fd', 'size'):
                    ctx.bad('shutdown', e[3], 'the destructor changes the current chunk before the helper has ended')


def create18(ctx, count):
    for fn in ctx.fns('ctor'):
        io = Run(ctx, openfail=1, hdrfail=0)
        io.results = lambda kind, fd, n, ev: [('n', n)]
        m = opts_mem(ctx, io, max_count=count)
        args = {n: ('p', x, 0) for n, x in enumerate(('self', 'fname', 'fmt', 'opts'))}
        io.S.names['fname'] = opaque('P') + lit('.#.') + opaque('X')
        m[('fmt', 0)] = io.vt['hogl::format_basic'][0]
        ex = io.run(fn, args, m, cap=200)
        ctx.expect(bool(ex), 'create', fn.where, 'with %d chunks the constructor never returns' % count, str(count))
        for inst, ev, ret, mem in ex:
            c = [e for e in ev if e[0] == 'create']
            ctx.expect(len(c) == 1 and c[0][2] == 'self', 'create', fn.where, 'the constructor starts %d helpers for this output' % len(c), str(count))
            if len(c) == 1:
                snap = dict(c[0][3])
                f = c[0][1]
                ctx.expect(type(f) is tuple and ctx.bym.get(f[1], {}).get('q') == OF + '::thread_entry', 'create', c[0][4], 'the helper runs a function that is not analysed', 'entry')
                ctx.expect(snap[KILL] == 0 and snap[PEND] in (0, 1) and snap['_fd'] == 20 and snap['_max_size'] == 1000 and snap['_max_count'] == count, 'create', c[0][4], 'the helper is started before the output is set up (%s)' % snap, str(count))
                x = ev.index(c[0])
                bad = [e for e in ev[x:] if e[0] == 'set' and e[1] in ('kill', 'pend', 'fd', 'index')]
                ctx.expect(not bad, 'create', bad[0][3] if bad else fn.where, 'the constructor changes %s after it started the helper' % (bad[0][1] if bad else ''), str(count))
            w = mem.get(('self', io.off(OF, '_index_width')))
            ctx.expect(type(w) is int and w <= 10 and 10 ** w >= min(count, 10 ** 10), 'create', fn.where, 'with %d chunks the index has %s digits' % (count, w), str(count))
        for i, ev, mem in io.throws:
            ok = [e for e in ev if e[0] == 'create']
            ctx.expect(not ok, 'undone', i.where, 'construction fails and leaves the helper running', fn.qname)
            op = [e[1] for e in ev if e[0] == 'open']
            cl = [e[1] for e in ev if e[0] == 'close']
            ctx.expect(sorted(op) == sorted(cl), 'undone', i.where, 'construction fails and leaves the chunk open or closes it twice', fn.qname)
        kinds = {('openfail' if [e for e in ev if e[0] == 'openfail'] else 'createfail') for _, ev, _ in io.throws}
        ctx.expect(kinds == {'openfail', 'createfail'}, 'undone', fn.where, 'a failure to open the chunk or to start the helper is not reported', fn.qname)


def check(ctx):
    ctx.rule('wait', 'the helper sleeps only with the mutex held and after it saw neither a request nor the shutdown flag since it took it')
    ctx.rule('taken', 'a request is cleared under the mutex and only after a rotation attempt that began after it')
    ctx.rule('again', 'a failed attempt leaves the size at its limit so that a later write asks again')
    ctx.rule('ends', 'the helper ends iff it was told to, whatever it was doing, and releases its locks')
    ctx.rule('request', 'a write that reaches the limit requests a rotation and wakes the helper, unless the helper is busy, and never waits for it')
    ctx.rule('size', 'every write adds what was written to the size of the chunk')
    ctx.rule('rename', 'a name switch sets the new names and requests a rotation')
    ctx.rule('shutdown', 'the destructor tells and wakes the helper under its mutex and waits for it before it takes anything apart')
    ctx.rule('create', 'the constructor returns for every chunk count and starts the helper last, with everything set up')
    ctx.rule('undone', 'construction that fails leaves neither a helper nor a descriptor behind and is reported')
    ctx.pmap([(k, p, s) for k in (0, 1) for p in (0, 1) for s in (1010,)], lambda x: helper(ctx, x))
    requests(ctx)
    switch(ctx)
    destroy(ctx)
    ctx.pmap([1, 2, 10, 11, 128, 1000000000, 1000000001, 4294967295], lambda x: create18(ctx, x))
