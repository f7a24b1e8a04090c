"""C17: file rotation loses nothing and the link always names a complete chunk."""
from rules.of import *
WM, RM = '_write_mutex', '_rotate_mutex'
OLD = 9
O_CREAT, O_TRUNC, O_ACC = 64, 512, 3


def roots(ctx):
    return [Root('helper', OF + '::thread_entry'), Root('ctor', OF + '::output_file', ptypes=lambda p: any('char' in x for x in p[1:])), Root('writev', OF + '::writev')] + ofroots()


def results(io, nfds):
    def f(kind, fd, n, ev):
        out = [('n', n)]
        if fd != OLD and len([e for e in ev if e[0] == 'err']) < nfds:
            out.append(('err', 28))
        return out
    return f


class Run(OS):
    """an OS that records changes of the current descriptor and size, and accesses to them"""

    def __init__(self, ctx, **kw):
        OS.__init__(self, ctx, watch=self.see, **kw)
        self.results = results(self, self.hdrfail)
        c = lambda n: ('self', self.off(OF, n))
        self.cells = {c('_fd'): 'fd', c('_size'): 'size', c(PEND): 'pend', c(KILL): 'kill', c('_name_index'): 'index'}
        self.o.locks.update({c(WM): WM, c(RM): RM})
        self.o.trylock = lambda i, a, Fx, name: [(0, a + (('tried',), ('lock', name, i.where)), {}), (16, a + (('tried',),), {})]

    def see(self, i, Fx, a):
        if i.op == 'store':
            n = self.cells.get(Fx.cell(i.ops[1]))
            if n:
                return (('set', n, Fx.get(i.ops[0]), i.where),)
        return ()

    def helper_lock(self, i, v, Fx, ev):
        """another thread may have asked for a rotation before the mutex is taken"""
        c = Fx.cell(i.ops[0])
        if self.cells and c == ('self', self.off(OF, RM)):
            P = ('self', self.off(OF, PEND))
            if type(Fx.mem.get(P)) is int and len([e for e in ev if e[0] == 'req']) < 2:
                return [(0, (), {}), (0, (('req',),), {P: 1})]
        return [(0, (), {})]


def trace(ev):
    k = [e for e in ev if e[0] in ('open', 'openfail', 'close', 'set', 'rename', 'symlink', 'hdr', 'ftr', 'wait')]
    return ', '.join('%s %s' % (e[0], nm(e[1]) if e[0] in ('rename', 'symlink') else e[1]) for e in k[:14])


def rotations(ctx, item):
    cfg, count, index = item
    io = Run(ctx, openfail=1, hdrfail=1, nomem=cfg == 'nomem', waits=2)
    io.havoc = io.helper_lock
    m = io.file(_name_index=index, _max_count=count)
    m[('self', io.off(OF, PEND))] = 1
    fn = ctx.fn('helper')
    arg = [n for n, a in enumerate(fn.args)][0]
    nx = []
    for inst, ev, ret, mem in io.run(fn, {arg: ('p', 'self', 0)}, m, init=(('req',),), cap=400):
        judge(ctx, io, fn, ev, mem, index, count)
    ctx.expect(bool(io.o), 'switch', fn.where, 'no path')


def judge(ctx, io, fn, ev, mem, index, count):
    cur, t = OLD, trace(ev)
    opens = idx(ev, lambda e: e[0] == 'open')
    cur_at = idx(ev, lambda e: e[0] == 'set' and e[1] == 'fd')
    link = opaque('LINK')
    swaps = [(k, ev[k][2]) for k in cur_at]
    closed = {}
    for k, e in enumerate(ev):
        if e[0] == 'close':
            closed.setdefault(e[1], []).append(k)
    # descriptors
    fds = [OLD] + [ev[k][1] for k in opens]
    now = mem.get(('self', io.off(OF, '_fd')))
    for fd in fds:
        n = len(closed.get(fd, []))
        w = ev[closed[fd][-1]][2] if n else fn.where
        ctx.expect(n == (0 if fd == now else 1), 'close', w, 'chunk descriptor %s is %s (%s)' % (fd, 'the current one but closed' if fd == now else 'closed %d times' % n, t), t)
    for fd in closed:
        ctx.expect(fd in fds, 'close', ev[closed[fd][0]][2], 'closes a descriptor that is not a chunk: %s (%s)' % (fd, t), t)
    good = []
    for k in opens:
        _, nfd, name, flags, mode, where = ev[k]
        errs = [e for e in ev if e[0] == 'err' and e[1] == nfd] or [e for e in ev[k:] if e[0] == 'nomem']
        mine = [j for j, v in swaps if v == nfd]
        outs = idx(ev, lambda e: e[0] == 'out' and e[2] == nfd and e[3])
        hdr = idx(ev, lambda e: e[0] == 'hdr' and e[2] == name)
        if flags is not None:
            ctx.expect(flags & O_CREAT and flags & O_TRUNC and flags & O_ACC, 'open', where, 'a new chunk is not created empty and writable (flags %#o)' % flags, 'open')
        ctx.expect(mode == 0o640, 'open', where, 'a new chunk does not get the configured permissions', 'open')
        hd = delivered(ev[:mine[0]] if mine else ev, nfd)
        if not mine:
            continue
        j = mine[0]
        good.append(nfd)
        where = ev[j][3]
        ctx.expect(len(mine) == 1, 'switch', where, 'the chunk becomes current %d times (%s)' % (len(mine), t), t)
        ctx.expect(hd == HDR, 'header', where, 'the new chunk becomes current holding %s instead of its header (%s)' % (show(hd), t), t)
        ctx.expect(bool(hdr) and all(ev[h][3] == 0 for h in hdr), 'header', where, 'the header of the new chunk is not written with its own name as a continuation chunk (%s)' % t, t)
        ctx.expect(not [e for e in ev[:j] if e[0] == 'err' and e[1] == nfd], 'header', where, 'the new chunk becomes current although writing its header failed (%s)' % t, t)
        nxt = min([x for x, v in swaps if x > j], default=len(ev))
        late = [x for x in outs if j < x < nxt]
        ctx.expect(not late, 'header', ev[late[0]][4] if late else where, 'the helper writes to the chunk after it became current (%s)' % t, t)
        # atomic switch
        ctx.expect(WM in held(ev, j), 'switch', where, 'the current chunk is replaced without holding the write mutex (%s)' % t, t)
        lo = max([x for x in idx(ev, lambda e: e[0] == 'lock' and e[1] == WM) if x < j], default=0)
        hi = min([x for x in idx(ev, lambda e: e[0] == 'unlock' and e[1] == WM) if x > j], default=len(ev))
        sz = [ev[x] for x in range(lo, hi) if ev[x][0] == 'set' and ev[x][1] == 'size']
        ctx.expect(bool(sz) and sz[-1][2] in (0, len(HDR)), 'switch', where, 'descriptor and size are not replaced together (%s)' % t, t)
        # old chunk
        prev = ([v for x, v in swaps if x < j] or [OLD])[-1]
        fo = idx(ev, lambda e: e[0] == 'out' and e[2] == prev and e[3])
        early = [x for x in fo if x < j and prev == OLD]
        ctx.expect(not early, 'footer', ev[early[0]][4] if early else where, 'the helper writes to the old chunk while writers still use it (%s)' % t, t)
        after = [x for x in fo if x > j]
        data = sum((ev[x][3] for x in after), ())
        nomem = [e for e in ev[j:] if e[0] == 'nomem' or e[0] == 'err' and e[1] == prev]
        ctx.expect(data == FTR or nomem and not data, 'footer', ev[after[0]][4] if after else where, 'the old chunk gets %s instead of its footer (%s)' % (show(data), t), t)
        cl = closed.get(prev, [])
        ctx.expect(bool(cl) and cl[0] > j and all(x < cl[0] for x in after), 'footer', ev[cl[0]][2] if cl else where, 'the old chunk is closed before the switch or before its footer is written (%s)' % t, t)
        ft = [e for e in ev[j:] if e[0] == 'ftr']
        ctx.expect(len(ft) >= 1 and (ft[0][2] == name or ft[0][2] is None), 'footer', where, 'the footer of the old chunk does not name the new one (%s)' % t, t)
        # link
        rn = [e for e in ev[k:] if e[0] == 'rename']
        hi2 = min([x for x in opens if x > k], default=len(ev))
        rn = [x for x in range(k, hi2) if ev[x][0] == 'rename']
        ctx.expect(len(rn) == 1, 'link', where, 'the link is replaced %d times after the switch to a new chunk (%s)' % (len(rn), t), t)
        for x in rn:
            sl = [y for y in range(k, x) if ev[y][0] == 'symlink']
            ctx.expect(bool(sl), 'link', ev[x][3], 'the renamed link was not created for this chunk (%s)' % t, t)
            ctx.expect(outs and outs[0] < (sl[-1] if sl else x), 'link', ev[x][3], 'the link names the new chunk before its header is written (%s)' % t, t)
            if sl:
                s = ev[sl[-1]]
                ctx.expect(s[1] == name, 'link', s[3], 'the link points to %s, the chunk is %s (%s)' % (nm(s[1]), nm(name), t), t)
                ctx.expect(s[2] == ev[x][1], 'link', s[3], 'the renamed link is not the one just created (%s)' % t, t)
    # the public link is only ever replaced by rename
    for e in ev:
        if e[0] == 'rename':
            ctx.expect(e[2] == link, 'link', e[3], 'renames the new link to %s instead of the public name' % nm(e[2]), 'link')
            ctx.expect(e[1] != link, 'link', e[3], 'renames the public link away', 'link')
        elif e[0] == 'remove':
            ctx.expect(e[1] != link, 'link', e[2], 'removes the public link before the new one is in place (%s)' % t, t)
        elif e[0] == 'symlink':
            ctx.expect(e[2] != link, 'link', e[3], 'creates the public link in place (%s)' % t, t)
    if not good:
        ctx.expect(not [e for e in ev if e[0] in ('rename', 'symlink')], 'link', fn.where, 'the link is changed although no new chunk became current (%s)' % t, t)
        ctx.expect(now == OLD and not [e for e in ev if e[0] == 'set' and e[1] in ('fd', 'size')], 'failed', fn.where, 'a failed rotation does not leave the old chunk and size in place (%s)' % t, t)
        ctx.expect(not [e for e in ev if e[0] == 'out' and e[2] == OLD], 'failed', fn.where, 'a failed rotation writes to the old chunk (%s)' % t, t)
    # numbering
    n = len(idx(ev, lambda e: e[0] in ('open', 'openfail')))
    fin = mem.get(('self', io.off(OF, '_name_index')))
    if n == 1 and good:
        ctx.expect(fin == (index + 1) % max(count, 1), 'number', fn.where, 'chunk %d of %d is followed by chunk %s' % (index, count, fin), '%d/%d' % (index, count))


def create(ctx):
    fn = ctx.fns('ctor')[0]
    for fn in ctx.fns('ctor'):
        io = Run(ctx, openfail=1, hdrfail=0)
        io.results = lambda kind, fd, n, ev: [('n', n)]
        opts = opts_mem(ctx, io)
        args = {n: ('p', x, 0) for n, x in enumerate(('self', 'fname', 'fmt', 'opts'))}
        io.S.names['fname'] = opaque('P') + lit('.#.') + opaque('X')
        opts[('fmt', 0)] = io.vt['hogl::format_basic'][0]
        opts.update({('fname', 0): 127})
        ex = io.run(fn, args, opts, cap=200)
        ctx.expect(bool(ex), 'first', fn.where, 'the constructor never succeeds')
        for inst, ev, ret, mem in ex:
            t = trace(ev)
            op = [e for e in ev if e[0] == 'open']
            ctx.expect(len(op) == 1, 'first', fn.where, 'the constructor opens %d chunks' % len(op))
            if len(op) != 1:
                continue
            k = ev.index(op[0])
            ctx.expect(mem.get(('self', io.off(OF, '_fd'))) == op[0][1], 'first', op[0][5], 'the opened chunk does not become the current one', t)
            if op[0][3] is not None:
                ctx.expect(op[0][3] & O_CREAT and op[0][3] & O_TRUNC and op[0][3] & O_ACC, 'open', op[0][5], 'the first chunk is not created empty and writable', 'open')
            ctx.expect(op[0][4] == 0o640, 'open', op[0][5], 'the first chunk does not get the configured permissions', 'open')
            rn = idx(ev, lambda e: e[0] == 'rename')
            sl = idx(ev, lambda e: e[0] == 'symlink')
            link = cellname(io, mem, ('self', io.off(OF, '_symlink')))
            ctx.expect(len(rn) == 1 and rn[0] > k and len(sl) == 1, 'link', fn.where, 'the link is not set up once after the first chunk was opened (%s)' % t, t)
            if len(rn) == 1 and len(sl) == 1:
                ctx.expect(ev[sl[0]][1] == op[0][2], 'link', ev[sl[0]][3], 'the link points to %s, the chunk is %s' % (nm(ev[sl[0]][1]), nm(op[0][2])), t)
                ctx.expect(ev[sl[0]][2] == ev[rn[0]][1] and ev[rn[0]][2] == link and ev[sl[0]][2] != link and sl[0] < rn[0], 'link', ev[rn[0]][3], 'the link is not replaced by renaming a complete one (%s)' % t, t)
            for e in ev:
                if e[0] == 'remove':
                    ctx.expect(e[1] != link, 'link', e[2], 'removes the public link before the new one is in place', t)


STARTS = [('log.#.txt', 16, None, 0), ('log.#.txt', 16, 'log.00.txt', 1), ('log.#.txt', 16, 'log.03.txt', 4), ('log.#.txt', 16, 'log.14.txt', 15), ('log.#.txt', 16, 'log.15.txt', 0),
          ('log.#.txt', 16, 'log.16.txt', None), ('log.#.txt', 16, 'log.99.txt', None), ('log.#.txt', 16, 'other.03.txt', None), ('log.#.txt', 16, 'log.03.bak', None), ('log.#.txt', 1, 'log.0.txt', 0),
          ('log.#.txt', 1, None, 0), ('log', 16, 'log.07', 8), ('log', 16, 'log.15', 0), ('log', 10, 'log.9', 0), ('log', 10, 'log.8', 9), ('log', 11, 'log.09', 10), ('log#', 128, 'log126', 127),
          ('a/b-#', 1000, 'a/b-998', 999), ('a/b-#', 1001, 'a/b-0999', 1000), ('log.#.txt', 100000, 'log.65535.txt', 65536), ('log.#.txt', 2000000000, 'log.0070000000.txt', 70000001),
          ('log.#0', 128, 'log.0100', 11), ('log.#0', 128, 'log.1000', 101), ('log#1', 128, 'log1111', 112), ('log#11', 128, 'log11111', 112), ('log.#.1', 16, 'log.11.1', 12), ('x#x', 16, 'x05x', 6),
          ('12#34', 200, '12134' + '34', 135), ('log.#.txt.1', 16, 'log.03.txt.1', 4)]


def starts(ctx, item):
    """the number of the first chunk"""
    fname, count, target, want = item
    from rules.c28 import strto
    for fn in ctx.fns('ctor'):
        def readlink(i, v, Fx, ev):
            p = v[1] if type(v[1]) is tuple else Fx.ptr(i.ops[1])
            if type(v[2]) is not int or p[2] is None:
                return None
            if target is None:
                return [(M1, (), {('#errno', 0): 2}), (M1, (), {('#errno', 0): 22})]
            n = min(v[2], len(target))
            return [(n, (('readlink', self_name(io, Fx, i)),), {(p[1], p[2] + k): ord(target[k]) for k in range(n)})]
        calls = {'readlink': readlink}
        for n in ('strtoul', 'strtoull', '__isoc23_strtoul', '__isoc23_strtoull', 'std::strtoul', 'std::strtoull'):
            calls[n] = strto(False)
        for n in ('strtol', 'strtoll', '__isoc23_strtol', '__isoc23_strtoll', 'std::strtol', 'std::strtoll', 'atol', 'atoi'):
            calls[n] = strto(True)
        io = Run(ctx, openfail=0, hdrfail=0, createfail=False, calls=calls)
        io.results = lambda kind, fd, n, ev: [('n', n)]
        opts = opts_mem(ctx, io, max_count=count)
        args = {n: ('p', x, 0) for n, x in enumerate(('self', 'fname', 'fmt', 'opts'))}
        io.S.names['fname'] = lit(fname)
        opts[('fmt', 0)] = io.vt['hogl::format_basic'][0]
        opts.update({('fname', k): ord(c) for k, c in enumerate(fname + '\0')})
        what = '%s with %d chunks, the link names %s' % (fname, count, target or 'nothing')
        ex = io.run(fn, args, opts, cap=2000)
        ctx.expect(bool(ex), 'start', fn.where, '%s: the output is not created' % what)
        for inst, ev, ret, mem in ex:
            got = mem.get(('self', io.off(OF, '_name_index')))
            if type(got) is not int:
                continue        # not understood
            if want is not None:
                ctx.expect(got == want, 'start', fn.where, '%s: starts with chunk %s instead of %d' % (what, got, want), what)
            else:
                ctx.expect(got < count, 'start', fn.where, '%s: starts with chunk %s' % (what, got), what)


def self_name(io, Fx, i):
    return io.name(Fx, i.ops[0])


def cellname(io, mem, c):
    v = mem.get(c)
    s = io.S.byroot(v[1]) if type(v) is tuple else None
    return s if s is not None else '#cs:%s:%s' % c


def opts_mem(ctx, io, **kw):
    d = {'perms': 0o640, 'max_size': 1000, 'max_count': 16, 'buffer_capacity': 64, 'schedparam': 0}
    d.update(kw)
    m = {}
    for n, v in d.items():
        m[('opts', layout_off(ctx, OF + '::options', n))] = v
    return m


def writers(ctx):
    """the descriptor a writer uses is read and used within one critical section"""
    fn = ctx.fn('writev')
    io = Run(ctx)
    uses = []

    def see(i, Fx, a):
        if i.op == 'load' and Fx.cell(i.ops[0]) == ('self', io.off(OF, '_fd')):
            return (('readfd', i.where),)
        return Run.see(io, i, Fx, a)
    io.userwatch = see
    io.results = lambda kind, fd, n, ev: [('n', n), ('n', 1)] if n > 1 else [('n', n)]
    m = io.file(_size=5)
    for k in range(3):
        m[('d', k)] = 101 + k
    m[('iov', 0)], m[('iov', 8)] = ('p', 'd', 0), 3
    for inst, ev, ret, mem in io.run(fn, {0: ('p', 'self', 0), 1: ('p', 'iov', 0), 2: 1}, m):
        rd = idx(ev, lambda e: e[0] == 'readfd')
        ou = idx(ev, lambda e: e[0] == 'out')
        ctx.expect(bool(rd) and bool(ou), 'writer', fn.where, 'write does not reach the current chunk')
        for x in ou:
            r = [y for y in rd if y < x]
            lk = [y for y in range(r[-1] if r else 0, x) if ev[y][0] in ('unlock', 'lock') and ev[y][1] == WM]
            ctx.expect(WM in held(ev, x) and bool(r) and WM in held(ev, r[-1]) and not lk, 'writer', ev[x][4], 'a write uses a descriptor that may have been replaced meanwhile', fn.qname)
        un = [y for y in range(ou[0], ou[-1]) if ev[y][0] == 'unlock' and ev[y][1] == WM] if ou else []
        ctx.expect(not un, 'writer', ev[un[0]][2] if un else fn.where, 'the parts of one write may be split over two chunks', fn.qname)


def check(ctx):
    ctx.rule('header', 'a chunk becomes current only after its header was written to it completely, and the helper never writes to it afterwards')
    ctx.rule('switch', 'descriptor and size are replaced together under the write mutex')
    ctx.rule('footer', 'the old chunk gets its footer after the switch and is closed after that')
    ctx.rule('close', 'every chunk descriptor is closed exactly once, the current one never')
    ctx.rule('failed', 'a rotation that cannot open or prepare the new chunk leaves the old one in use')
    ctx.rule('link', 'the public link is only replaced by renaming a link to an opened chunk with a header onto it')
    ctx.rule('open', 'chunks are created empty, writable and with the configured permissions')
    ctx.rule('writer', 'writers use the descriptor within the critical section in which they read it')
    ctx.rule('first', 'the constructor opens one chunk and makes it the current one')
    ctx.rule('number', 'chunk numbers count up and wrap at the configured maximum')
    ctx.rule('start', 'an output that is opened again continues with the chunk after the one its link names, and always with a number below the maximum')
    ctx.pmap([(c, n, x) for c, n, x in (('ok', 16, 3), ('ok', 16, 15), ('ok', 2, 0), ('ok', 2, 1), ('ok', 1, 0), ('nomem', 16, 3))], lambda x: rotations(ctx, x))
    create(ctx)
    ctx.pmap(STARTS, lambda x: starts(ctx, x))
    writers(ctx)
