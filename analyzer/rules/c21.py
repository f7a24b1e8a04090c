"""C21: the raw log reader never writes outside its buffers on any input."""
from rules.rawin import *
from rules.safe import *
from rules.io import *
BASE = {'ts': 0x1122334455667788, 'seq': 0x000a0b0c0d0e0f10, 'ring': 'ring', 'area': 'theArea', 'sect': 'S1'}


def roots(ctx):
    return rawroots() + [Root('rdread', RD + '::read'), Root('rdctor', RD + '::file_rdbuf', ptypes=lambda p: len(p) > 3), Root('rdvalid', RD + '::valid', optional=True)] + vroots((RD + '::reset', RD + '::valid', RD + '::fail', RD + '::error', RD + '::count'))


def check(ctx):
    ctx.rule('buffers', 'the parser owns a record buffer of at least one record and the requested size')
    ctx.rule('inside', 'every read from the stream goes to memory that has room for it, whatever lengths the stream gives')
    ctx.rule('stops', 'after a failed read nothing more is read for that record')
    ctx.rule('whole', 'a record is handed out only when it was read completely and fits; everything else is an error')
    ctx.rule('record', 'the record handed out has exactly the fields of the stream, each argument in bytes of its own')
    ctx.rule('rdbuf', 'the buffered reader copies exactly the bytes it received, in order, into the given memory, and starts in a defined state')
    sizes = [0, 1, 159, 160, 161, 200, 256, 300, 512, 4096, 70000, 10 << 20, (1 << 32) - 1]
    jobs = []
    for s in sizes:
        for ver in (0, 1):
            jobs.append((one, s, ver, [('UINT64', 5), ('INT32', 0x80000000)]))
            real = max(s, ctx.sizes['hogl::record'])
            room = real - layout_off(ctx, 'hogl::record', 'argval') - 128
            thorough = ctx.tier == 'thorough'
            L = sorted({x for b in (room, room - 1, room - 2, room + 1, room + 2, 0, 1, 2, 3, 255, 256, 65535, 1 << 16, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, (1 << 32) - 2) for x in (b,) if x >= 0})
            for k in STRK + BLOBK:
                w = 16 if k in STRK or ver == 0 else 32
                for x in L:
                    if x < 1 << w:
                        jobs.append((one, s, ver, [(k, x)]))
                        jobs.append((one, s, ver, [('UINT64', 1)] * 15 + [(k, x)]))
                        for k2 in STRK + BLOBK if thorough else ('CSTR', 'RAW'):
                            left = room - x - (1 if k in STRK else 0)
                            for y in (0, 1, left - 2, left - 1, left, left + 1, 65535):
                                if 0 <= y < 1 << 16:
                                    jobs.append((one, s, ver, [(k, x), ('INT32', 7), (k2, y)]))
    for s in (256, 300, 4096):
        for n in (0, 1, 3, 5, 6, 7, 8, 12, 20):
            for k in STRK + BLOBK:
                jobs.append((one, s, 1, [(k, n)] * 16))
            jobs.append((one, s, 1, [((STRK + BLOBK)[j % 4], n) for j in range(16)]))
    full = [('CSTR', b'abc'), ('UINT32', 1), ('GSTR', b'de'), ('INT64', 2), ('RAW', b'xyz'), ('DOUBLE', 3), ('XDUMP', b'headDATA'), ('POINTER', 4), ('INT32', 5), ('UINT64', 6), ('CSTR', b''), ('RAW', b'')]
    jobs.append((one, 4096, 1, full))
    enc = encode(ctx, dict(BASE, args=full))
    for n in range(len(enc)):
        jobs.append((cut, enc[:n]))
    for nm in ('', 'x', 'n' * 127, 'n' * 128, 'n' * 129, 'n' * 254, 'n' * 255, 'a\x01b', 'q\xffr', 'with\0nul'):
        for f in ('ring', 'area', 'sect'):
            jobs.append((names, f, nm))
    # other argument kinds
    for t in range(16):
        for p in (0, 1, 15):
            jobs.append((kind, t, p))
    jobs += [(reader,), (start,)]
    for s in sizes:
        P = Parser(ctx, 1, s)
        n = P.recsize
        ctx.expect(n is not None and n >= max(s, ctx.sizes['hogl::record']), 'buffers', P.where, 'a parser for records of %d bytes has a record buffer of %s bytes' % (s, n), 'maximum record size %d' % s)
    ctx.pmap([jobs[k::48] for k in range(48)], lambda J: [j[0](ctx, *j[1:]) for j in J])


def judge(ctx, P, what, rec, must, ex, either=False):
    """must: True a record, False an error, None either"""
    fn = ctx.fns('next')[0]
    for w, t in P.bad[:1]:
        ctx.bad('inside', w, '%s: %s' % (what, t))
    if P.bad:
        return
    ctx.ok('inside', what)
    ctx.expect(ex, 'whole', fn.where, '%s: the parser does not return' % what)
    for inst, ev, ret, m in ex:
        R = [e for e in ev if e[0] == 'read']
        f = [k for k, e in enumerate(R) if not e[2]]
        ctx.expect(not f or f[0] == len(R) - 1, 'stops', fn.where, '%s: reading goes on after a failed read' % what, what)
        if ret == 0:
            ctx.expect(must is not True, 'whole', inst.where, '%s: a record that fits is refused' % what, what)
            first = len(R) == 1 and f
            ctx.expect(first or m.get(P.failed) not in (0, None), 'whole', inst.where, '%s: refused without an error' % what)
            continue
        ctx.expect(type(ret) is tuple, 'whole', inst.where, '%s: returns %s' % (what, ret))
        ctx.expect(must is not False and not f, 'whole', inst.where, '%s: a record is handed out although %s' % (what, 'a read failed' if f else 'it does not fit'), what)
        if must is False or f or rec is None:
            continue
        e = compare(P, ctx, rec, ret, m)
        ctx.expect(e is None, 'record', inst.where, '%s: %s' % (what, e), what)


def label(args):
    return ' '.join('%s%s' % (k, '(%d)' % (v if type(v) is int else len(v)) if k in STRK + BLOBK else '') for k, v in args)


def one(ctx, size, ver, args):
    P = Parser(ctx, ver, size)
    if P.recsize is None:
        return
    rec = dict(BASE, args=args)
    need = 0
    slack = 0
    for k, v in args:
        if k in STRK + BLOBK:
            need += (v if type(v) is int else len(v)) + (1 if k in STRK else 0)
            slack += 16
    room = P.recsize - P.rec[1] - P.av - 128
    must = False if need > room else True if need + slack <= room else None
    data, k = [], [j for j, (kd, v) in enumerate(args) if kd in STRK + BLOBK and type(v) is int]
    s = encode_filled(ctx, rec, ver)
    ex = P.run(s, endless=True)
    judge(ctx, P, 'a record with %s, record size %d, version %d' % (label(args), size, ver), rec, must, ex)


def encode_filled(ctx, rec, ver):
    """declared lengths are followed by filler; long data is left to the endless tail"""
    out = encode(ctx, dict(rec, args=[]), ver)[:-8]
    out += le(sum(arg_type(ctx, k) << 4 * j for j, (k, v) in enumerate(rec['args'])), 8)
    big = False
    for k, v in rec['args']:
        if big:
            break
        if k in STRK + BLOBK and type(v) is int:
            w = 2 if k in STRK or ver == 0 else 4
            out += le(v, w)
            if v > 3 * NCELL:
                out = Sparse(out, v)
                big = True
                rest = rec['args'][rec['args'].index((k, v)) + 1:]
                tail = encode(ctx, dict(BASE, args=rest), ver)
                head = encode(ctx, dict(BASE, args=[]), ver)
                t2 = []
                for k2, v2 in rest:
                    t2 += le(v2, 2 if k2 in STRK or k2 in BLOBK and ver == 0 else 4 if k2 in BLOBK or k2 in W32 else 8)
                    if k2 in STRK + BLOBK and type(v2) is int:
                        t2 += [65] * min(v2, 3 * NCELL)
                out.tail = t2
            else:
                out += [65] * v
        else:
            out += encode(ctx, dict(BASE, args=[(k, v)]), ver)[len(encode(ctx, dict(BASE, args=[]), ver)):]
    return out


class Sparse:
    """a stream with a long run of filler"""

    def __init__(self, head, n):
        self.head, self.n, self.tail = head, n, []

    def __len__(self):
        return len(self.head) + self.n + len(self.tail)

    def __getitem__(self, k):
        if k < len(self.head):
            return self.head[k]
        k -= len(self.head)
        return 65 if k < self.n else self.tail[k - self.n]


def cut(ctx, stream):
    P = Parser(ctx, 1, 4096)
    judge(ctx, P, 'a stream that ends after %d bytes' % len(stream), None, False, P.run(stream))


def names(ctx, f, nm):
    P = Parser(ctx, 1, 512)
    rec = dict(BASE, args=[('UINT32', 9)])
    rec[f] = nm
    judge(ctx, P, 'a %s name of %d characters' % (f, len(nm)), rec if '\0' not in nm else None, None, P.run(encode(ctx, rec)))


def kind(ctx, t, p):
    """every kind code, known or not, at the first, second and last position"""
    P = Parser(ctx, 1, 512)
    base = encode(ctx, dict(BASE, args=[]))[:-8]
    s = base + le((sum(arg_type(ctx, 'UINT32') << 4 * j for j in range(p)) | t << 4 * p), 8) + [1, 0, 0, 0] * p
    judge(ctx, P, 'argument kind %d at position %d' % (t, p), None, None, P.run(s + le(0xfffffffe, 8), endless=True))


# -- buffered reader ----------------------------------------------------------
def reader(ctx):
    fn = ctx.fns('rdread')[0]
    o = lambda n: ('rd', layout_off(ctx, RD, n))
    tail = dict(ctx.enums.get('hogl::file_rdbuf::flags', []))
    for cap in (1, 3, 4, 8):
        for head, size in [(0, 0)] + [(h, s) for h in range(cap) for s in range(1, cap - h + 1)]:
            for n in (0, 1, 2, 3, 4, 5, 7, 9):
                for res in ((cap,) * 12, (1,) * 12, (max(1, cap - 1), 0), (0,), (-1,), (1, -1)):
                    for null in (False, True):
                        for fl in {0, tail.get('TAILF', 0)}:
                            run_read(ctx, fn, o, cap, head, size, n, res, null, fl)


def run_read(ctx, fn, o, cap, head, size, n, res, null, fl):
    S = Safe()
    S.write['buf'] = [(0, cap)]
    S.read['buf'] = [(0, cap)]
    S.write['dst'] = [(0, n)]
    bad = []

    def read(i, v, Fx, ev):
        p, c = v[1] if type(v[1]) is tuple else Fx.ptr(i.ops[1]), v[2]
        if v[0] == 9:                       # the notification descriptor
            lim = None
            a = Fx.fn.inst(('v', int(p[1][1]))) if type(p[1]) is tuple and str(p[1][1]).isdigit() else None
            lim = a.d.get('asz', 0) * Fx.get(a.ops[0]) if a is not None and a.ops else None
            if lim is None or type(c) is not int or p[2] is None or p[2] + c > lim:
                bad.append((i.where, 'a notification is read into too little memory'))
            return [((1 << 64) - 1, (('err',),), {})]
        if type(p) is not tuple or p[1] != 'buf' or p[2] is None or type(c) is not int or p[2] + c > cap:
            bad.append((i.where, 'reads %s bytes into a buffer of %d' % (c, cap)))
            return []
        k = len([e for e in ev if e[0] in ('in', 'end', 'err0')])
        r = res[k] if k < len(res) else 0
        if r < 0:
            return [((1 << 64) - 1, (('err0',),), {})]
        r = min(r, c)
        pos = size + sum(e[1] for e in ev if e[0] == 'in')
        return [(r, (('in', r) if r else ('end',),), {('buf', p[2] + q): 100 + pos + q for q in range(r)})]
    m = {o('_data'): ('p', 'buf', 0), o('_capacity'): cap, o('_head'): head, o('_size'): size, o('_count'): 0, o('_flags'): fl, o('_fd'): 7, o('_ifd'): 9 if fl else (1 << 32) - 1, o('_errno'): 0}
    for q in range(cap):
        m[('buf', q)] = 5000 + q
    for q in range(size):
        m[('buf', head + q)] = 100 + q
    dst = 0 if null else ('p', 'dst', 0)
    ex = Obj(ctx, calls={'read': read}, watch=S.watch).run(fn, {0: ('p', 'rd', 0), 1: dst, 2: n}, m, cap=64)
    what = 'reading %d bytes%s with %d of %d buffered' % (n, ' to skip' if null else '', size, cap)
    if S.found or bad:
        w, t = bad[0] if bad else (S.found[0][-1], '%s outside its memory' % ('writes' if S.found[0][0] == 'bad-write' else 'reads'))
        ctx.bad('rdbuf', w, '%s: %s' % (what, t))
        return
    ctx.expect(ex, 'rdbuf', fn.where, '%s: does not return' % what)
    for inst, ev, ret, mm in ex:
        have = size + sum(e[1] for e in ev if e[0] == 'in')
        if type(ret) is int and ret & 1:
            got = [mm.get(('dst', q)) for q in range(n)] if not null else [100 + q for q in range(n)]
            ctx.expect(have >= n and got == [100 + q for q in range(n)], 'rdbuf', inst.where, '%s: succeeds with %s' % (what, 'too few bytes' if have < n else 'other bytes'), what)
            ctx.expect(mm.get(o('_count')) == n, 'rdbuf', inst.where, '%s: counts %s bytes' % (what, mm.get(o('_count'))))
            # the rest stays for the next read
            if have > n:
                h = mm.get(o('_head'))
                rest = [mm.get(('buf', h + q)) for q in range(have - n)] if type(h) is int else None
                ctx.expect(mm.get(o('_size')) == have - n and rest == [100 + n + q for q in range(have - n)], 'rdbuf', inst.where, '%s: what remains buffered is wrong' % what)
        else:
            ctx.expect(ret is not None and have < n and any(e[0] in ('end', 'err', 'err0') for e in ev), 'rdbuf', inst.where, '%s: fails although the bytes are there' % what, what)


def start(ctx):
    """whatever fails during construction, a reader that counts as valid reads nothing but what it received"""
    ct, rd = ctx.fns('rdctor'), ctx.fns('rdread')
    ctx.anchor(len(ct) == 1, 'constructor of the buffered reader')
    tail = dict(ctx.enums.get('hogl::file_rdbuf::flags', []))
    o = lambda n: ('rd', layout_off(ctx, RD, n))
    two = lambda name, good: (lambda i, v, Fx, ev: [(good, ((name, True) + tuple(x for x in v if type(x) is int),), {}), ((1 << 32) - 1, ((name, False),), {})])
    for fl in {0, tail.get('TAILF', 0)}:
        for cap in (16, 4096):
            def malloc(i, v, Fx, ev):
                return [(('p', 'buf', 0), (('new', 'buf', i.where, v[0]),), {}), (0, (('nomem',),), {})]
            both = lambda i, v, Fx, ev: [(0, (), {}), (1, (), {})]
            const = lambda v_: (lambda i, v, Fx, ev: [(v_, (), {})])
            io = IO(ctx, calls={'malloc': malloc, 'open': two('open', 7), 'inotify_init': two('inotify', 9), 'inotify_init1': two('inotify', 9), 'std::operator!=': both, 'std::operator==': both, 'fileno': const(0),
                                'std::basic_string::c_str': const(('p', '#name', 0)), 'std::basic_string::data': const(('p', '#name', 0)), '__errno_location': lambda i, v, Fx, ev: [(('p', '#errno', 0), (), {('#errno', 0): 24})],
                                'lseek': const(0), 'lseek64': const(0), 'inotify_add_watch': const(1)}, strs=False)
            m0 = dict(io.vmem)
            ex = io.o.run(ct[0], {0: ('p', 'rd', 0), 2: fl, 3: cap}, m0)
            ctx.expect(ex, 'rdbuf', ct[0].where, 'the constructor of the reader does not return')
            for inst, ev, ret, m in ex:
                v = valid(ctx, m)
                fails = [{'open': 'the file cannot be opened', 'inotify': 'no notification descriptor is left'}[e[0]] for e in ev if e[0] in ('open', 'inotify') and not e[1]] + ['memory is short' for e in ev if e[0] == 'nomem']
                what = 'a reader %s' % ('constructed when %s' % ' and '.join(fails) if fails else 'without failures')
                if not fails:
                    ctx.expect(v is True, 'rdbuf', inst.where, what + ' is not valid', what)
                if v is False:
                    ctx.ok('rdbuf', what)
                    continue
                S = Safe()
                S.read['buf'] = [(0, cap)]
                S.write['dst'] = [(0, 4)]
                bad = []

                def read(i, w, Fx, e):
                    p = w[1]
                    if type(p) is not tuple or type(w[2]) is not int or p[1] == 'buf' and w[2] > cap:
                        bad.append(i.where)
                        return []
                    return [((1 << 64) - 1, (), {})] if p[1] != 'buf' else [(2, (('in',),), {('buf', 0): 1, ('buf', 1): 2}) if not [x for x in e if x[0] == 'in'] else (0, (), {})]
                mm = dict(m)
                def look(i, Fx, e):
                    r = read_ptr(i)
                    if r is not None and i.is_call and not [x for x in e if x[0] == 'in']:
                        n = Fx.get(i.ops[2])
                        if n != 0:
                            bad.append(i.where)
                            return 'kill'
                    return S.watch(i, Fx, e)
                Obj(ctx, calls={'read': read}, watch=look).run(rd[0], {0: ('p', 'rd', 0), 1: ('p', 'dst', 0), 2: 4}, mm, cap=16)
                ctx.expect(not bad and not S.found, 'rdbuf', inst.where, '%s counts as valid, but its state is undefined' % what, what)


def valid(ctx, m):
    f = ctx.fns('rdvalid') if 'rdvalid' in ctx.rootspec else []
    if not f:
        return None
    r = Obj(ctx).run(f[0], {0: ('p', 'rd', 0)}, m)
    L = {x[2] & 1 if type(x[2]) is int else None for x in r}
    return {0: False, 1: True}.get(L.pop()) if len(L) == 1 else None
