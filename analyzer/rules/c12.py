"""C12: record arguments never overflow the record buffer."""
from rules.engine import layout_off
from rules.common import *
from rules.safe import *
from rules.obj import Obj
from rules.c04 import ring_obj, ring_assume, E0
from rules.c14 import arg_type, xhead
from rules.ringctor import ring_ctor
VALS = {'UINT32': 0x11223344, 'INT32': 0xfffffffe, 'UINT64': 0x8000000000000001, 'INT64': (1 << 64) - 3, 'POINTER': 0x7f0000001000, 'DOUBLE': 0x3ff8000000000000, 'GSTR': 0x7f0000002000}
BIG = (1 << 32) - 1
PUSH = ('push_ring', 'push_unlocked_ring', 'post_tls')


def roots(ctx):
    return writer_roots((1, 2, 3, 16), PUSH, (), False) + [Root('ctor', RB + '::ringbuf', ptypes=lambda p: len(p) > 2 and 'ringbuf &' not in ' '.join(p[1:]))]


class Src:
    """memory of the posted arguments"""

    def __init__(self, ctx, args, at=None):
        """at: argument number -> (root, offset) of its hogl::arg"""
        self.ctx, self.args = ctx, args
        at = at or (lambda k: ('a%d' % k, 0))
        self.mem, self.tok = {}, []
        self.opaque = False             # the data is not known byte by byte
        self.safe = Safe()
        o = lambda c, n: layout_off(ctx, c, n)
        for k, (kind, v) in enumerate(args):
            r, b = at(k)
            t = arg_type(ctx, kind)
            self.mem[(r, b + o('hogl::arg', 'type'))] = t
            if kind in VALS:
                self.mem[(r, b + o('hogl::arg', 'val'))] = VALS[kind] if v is None else v
            else:
                s = 'src%d' % k
                for j in range(min(v, 700)):
                    self.mem[(s, j)] = self.byte(k, j)
                self.safe.read[s] = [(0, v + (1 if kind == 'CSTR' else 0))]
                if kind == 'CSTR' and v <= 700:
                    self.mem[(s, v)] = 0
                p = ('p', s, 0) if v else 0
                if kind == 'XDUMP':
                    x = 'xd%d' % k
                    f = o('hogl::arg_xdump', 'fmt')
                    for j, hb in enumerate(self.head(k)):
                        self.mem[(x, f + j)] = hb
                    self.mem[(x, o('hogl::arg_xdump', 'ptr'))] = p
                    self.mem[(x, o('hogl::arg_xdump', 'len'))] = v
                    self.safe.read[x] = [(0, ctx.sizes['hogl::arg_xdump'])]
                    self.mem[(r, b + o('hogl::arg', 'val'))] = ('p', x, 0)
                else:
                    self.mem[(r, b + o('hogl::arg', 'val'))] = p
                    self.mem[(r, b + o('hogl::arg', 'len'))] = v

    @staticmethod
    def byte(k, j):
        return 1 + (k * 37 + j * 11) % 61          # never '>' or 0

    def head(self, k):
        return xhead(self.ctx, ord('u'), 2, 1, 16, 44 + k)


def strlen(i, v, Fx, ev):
    p = v[0]
    if type(p) is tuple and type(p[1]) is tuple and p[1][0] == 's' and type(p[1][1]) is str and p[2] is not None:
        return [(len(p[1][1]) - p[2], (), {})]
    if type(p) is tuple and type(p[1]) is str and p[2] is not None:
        n = p[2]
        while type(Fx.mem.get((p[1], n))) is int:
            if Fx.mem[(p[1], n)] == 0:
                return [(n - p[2], (), {})]
            n += 1
    return None


def run(ctx, fn, args, shift, params=None, at=None):
    """(exits, Src, slot offset, tailroom, offset of the values)"""
    S = Src(ctx, args, at)
    m, off = ring_obj(ctx, 1, 3, 3, 0)
    size, av = 1 << shift, layout_off(ctx, REC, 'argval')
    m[('ring0', off['_rec_shift'])] = shift
    tail = size - av
    m[('ring0', off['_rec_tailroom'])] = tail
    m.update(S.mem)
    from rules.c11 import area_obj
    m.update(area_obj(ctx, [(1 << 64) - 1] * 2))
    slot = size
    # an old record in the slot
    m[('recs0', slot + layout_off(ctx, REC, 'seqnum'))] = 0
    m[('recs0', slot + layout_off(ctx, REC, 'argtype'))] = (1 << 64) - 1
    for k in range(16):
        m[('recs0', slot + av + 8 * k)], m[('recs0', slot + av + 8 * k + 4)] = 3 + 0xfff0, 0xfffe
    S.safe.write['recs0'] = [(slot, slot + size)]
    if params is not None:
        o = Obj(ctx, calls={'strlen': strlen}, watch=S.safe.watch)
        return o.run(fn, params, m, assume=ring_assume, cap=64), S, slot, tail, av
    a, n, s5 = {}, 0, False
    for j, p in enumerate(fn.ptypes[1:]):
        if 'ringbuf' in p:
            a[j] = ('p', 'ring0', 0)
        elif 'area' in p:
            a[j] = ('p', 'area0', 0)
        elif 'hogl::arg' in p or p.endswith('::A'):
            a[j] = ('p', 'a%d' % n, 0)
            n += 1
        elif not s5:
            a[j], s5 = 5, True
    ctx.anchor(n == len(args), 'argument parameters of ' + fn.qname)
    o = Obj(ctx, watch=S.safe.watch)
    ex = o.run(fn, a, m, assume=ring_assume, cap=64)
    return ex, S, slot, tail, av


def check(ctx):
    ctx.rule('geometry', 'a ring of every option gives each record a slot that holds its header and the room it promises, inside the allocation')
    ctx.rule('inside', 'no argument of any size is written outside the slot of its record, or read beyond its source')
    ctx.rule('region', 'every stored offset and length describes bytes of the buffer that hold that argument\'s data, terminated for strings, apart from the value words and other arguments')
    ctx.rule('fits', 'an argument that fits is stored completely; one that does not is a truncated prefix or empty')
    ctx.rule('values', 'every argument kind and value is stored at its own position')
    geometry(ctx)
    jobs = []
    for k in PUSH:
        for n in (1, 2, 3, 16):
            jobs += [(k, n, c, sh) for c, sh in cases(n, ctx.tier == 'thorough') if k == 'push_ring' or n != 2 or ctx.tier == 'thorough' or hash_(c) % 5 == 0]
    fl = {(k, n): ctx.fns('%s_%d' % (k, n)) for k in PUSH for n in (1, 2, 3, 16)}

    def job(J):
        for k, n, c, sh in J:
            for fn in fl[(k, n)]:
                one(ctx, fn, c, sh)
    ctx.pmap([jobs[k::48] for k in range(48)], job)


def hash_(c):
    return sum((j + 3) * (len(a[0]) + (a[1] or 0)) for j, a in enumerate(c))


def lens(room, kind):
    h = 4 if kind == 'XDUMP' else 1 if kind == 'CSTR' else 0
    L = {0, 1, 2, 3, 4, 5, room - h - 4, room - h - 1, room - h, room - h + 1, room - h + 2, room - 1, room, room + 1, room + 3, room + 300, 256 + 2, (1 << 16) + 3, (1 << 31) + 2, BIG, BIG - 3}
    return sorted(x for x in L if 0 <= x <= BIG)


def cases(n, thorough):
    """(arguments, log2 of the record size)"""
    out = []
    av = 32
    D = ('CSTR', 'RAW', 'XDUMP')
    for sh in (8, 9) if n < 3 else (8,):
        room = (1 << sh) - av - 8 * n
        if n == 1:
            out += [([(k, None)], sh) for k in VALS]
            out += [([(k, x)], sh) for k in D for x in lens(room, k)]
        elif n == 2:
            out += [([(a, None), (b, None)], sh) for a in VALS for b in VALS]
            for k in D:
                for x in lens(room, k):
                    used = min(x + (4 if k == 'XDUMP' else 1 if k == 'CSTR' else 0), room)
                    for k2 in D:
                        for y in lens(room - used, k2):
                            if thorough or sh == 8:
                                out.append(([(k, x), (k2, y)], sh))
                    out += [([('UINT32', None), (k, x)], sh), ([(k, x), ('INT64', None)], sh)]
        elif n == 3:
            for k in D:
                for x in (0, 1, room // 2, room - 6, room - 1, room, room + 5):
                    for v in ('UINT64', 'INT32'):
                        out.append(([(k, x), (v, None), (k, 3)], sh))
                        out.append(([(v, None), (k, x), ('CSTR', 4)], sh))
                    for k2 in D:
                        out.append(([(k, x), (k2, 2), ('CSTR', 1)], sh))
                        out.append(([(k, x), (k2, room), ('XDUMP', 1)], sh))
        else:
            V = list(VALS)
            out.append(([(V[j % len(V)], None) for j in range(16)], sh))
            out.append(([(V[(j + 3) % len(V)], None) for j in range(16)], sh))
            for k in D:
                for x in (0, 1, 2, 4, 5, 6, 7, 11, 12, room - 1, room, 400):
                    out.append(([(k, x)] * 16, sh))
                    out.append(([(k, x) if j % 2 else (V[j % len(V)], None) for j in range(16)], sh))
            for x in range(0, 14):
                out.append(([(D[(j + x) % 3], (x + 3 * j) % 13) for j in range(16)], sh))
            for d in range(-6, 3):
                out.append(([('CSTR', 5)] * 2 + [('RAW', room - 12 + d)] + [('UINT32', None)] + [('CSTR', 3), ('RAW', 2), ('XDUMP', 1), ('CSTR', 0)] * 3, sh))
    return out


def desc(args):
    return ' '.join(k if v is None else '%s(%d)' % (k, v) for k, v in args)


def one(ctx, fn, args, sh, **kw):
    ex, S, slot, tail, av = run(ctx, fn, args, sh, **kw)
    return stored(ctx, fn, args, sh, ex, S, slot, tail, av)


def stored(ctx, fn, args, sh, ex, S, slot, tail, av, R=('inside', 'region', 'fits', 'values')):
    what = '%s with %s in a record of %d bytes' % (fn.qname.split('::')[-1], desc(args), 1 << sh)
    rec = lambda o: ('recs0', slot + o)
    n = len(args)
    where = fn.where
    f = S.safe.found
    ctx.expect(not f, R[0], f[0][-1] if f else where, '%s: %s' % (what, 'writes at %s' % (f[0][2] - slot if type(f[0][2]) is int and f[0][1] == 'recs0' else f[0][1:3],) + ' which is outside the record' if f and f[0][0] != 'bad-read' else 'reads beyond the argument (%s bytes %s..)' % (f[0][1], f[0][2]) if f else ''), desc(args) if n == 1 else None)
    if f:
        return
    ctx.expect(bool(ex), R[0], where, '%s: does not return' % what)
    for inst, ev, ret, m in ex:
        g = lambda o: m.get(rec(o))
        types = g(layout_off(ctx, REC, 'argtype'))
        want = sum(arg_type(ctx, k) << 4 * j for j, (k, v) in enumerate(args))
        ctx.expect(types == want, R[3], inst.where, '%s: argument kinds are stored as %s instead of %x' % (what, '%x' % types if type(types) is int else types, want))
        used = []
        free = tail - 8 * n
        for j, (k, v) in enumerate(args):
            c = av + 8 * j
            if k in VALS:
                w = 0xffffffff if k in ('UINT32', 'INT32') else (1 << 64) - 1
                x = g(c)
                ctx.expect(type(x) is int and x & w == (VALS[k] if v is None else v) & w, R[3], inst.where, '%s: the value of argument %d is stored as %s' % (what, j, x))
                continue
            o, l = g(c), g(c + 4)
            if type(o) is not int or type(l) is not int:
                ctx.bad(R[1], inst.where, '%s: offset and length of argument %d are not stored' % (what, j))
                continue
            o, l = o & 0xffffffff, l & 0xffffffff
            head = S.head(j) if k == 'XDUMP' else []
            total = v + len(head)
            full = total <= free if k != 'CSTR' else v + 1 <= free
            if l == 0 and not (k == 'CSTR' and o and v == 0):
                ok = total == 0 or k == 'CSTR' and (v == 0 or free <= 1) or not full and (k != 'CSTR' or free <= 1)
                ctx.expect(ok, R[2], inst.where, '%s: argument %d is stored empty although %d bytes are free' % (what, j, free))
                if o:
                    size = 1 if k == 'CSTR' else 0
                    if size and g(av + o) == 0 and 8 * n <= o < tail:
                        used.append((o, o + 1))
                        free -= 1
                continue
            size = l + (1 if k == 'CSTR' else 0)
            inside = 8 * n <= o and o + size <= tail and not any(a < o + size and o < b for a, b in used)
            ctx.expect(inside, R[1], inst.where, '%s: argument %d is described as bytes %d..%d, which %s' % (what, j, o, o + size, 'belong to something else' if o + size <= tail else 'are outside the buffer of %d bytes' % tail))
            used.append((o, o + size))
            src = head + [S.byte(j, q) for q in range(min(v, 700))]
            got = [g(av + o + q) for q in range(min(l, 700))]
            got = [x & 255 if type(x) is int else x for x in got]
            exp = src[:l]
            if l == total:
                good = got == exp
            elif k == 'CSTR':
                a = max(0, l - 3)
                good = got[:a] == exp[:a] and all(x == y or x == ord('>') for x, y in zip(got[a:], exp[a:]))
            else:
                good = got == exp
            if k == 'CSTR':
                ctx.expect(g(av + o + l) == 0, R[1], inst.where, '%s: string %d is not null-terminated' % (what, j))
            good = good or S.opaque
            ctx.expect(good and l <= total, R[1], inst.where, '%s: the bytes stored for argument %d are not its data' % (what, j))
            ctx.expect(l == total or not full, R[2], inst.where, '%s: argument %d is cut to %d of %d bytes although %d bytes are free' % (what, j, l, total, free))
            ctx.expect(k != 'CSTR' or l == total or l >= free - 8, R[2], inst.where, '%s: argument %d is cut to %d bytes although %d bytes are free' % (what, j, l, free))
            free -= size


def geometry(ctx):
    fn = ctx.fn('ctor')
    rs, av = ctx.sizes[REC], layout_off(ctx, REC, 'argval')
    for tr in (0, 1, 7, 79, 80, 127, 128, 129, 160, 223, 224, 225, 255, 256, 352, 353, 480, 481, 1000, 4096, 65536, (1 << 20) + 1):
        for cap in (1, 2, 3, 64, 100, 1024, 1025):
            good = 0
            for inst, g, al in ring_ctor(ctx, fn, tr, cap):
                c, sh, t = g('_capacity'), g('_rec_shift'), g('_rec_tailroom')
                good += 1
                d = 'record tailroom %d, capacity %d' % (tr, cap)
                ok = None not in (c, sh, t) and type(al) is int
                ctx.expect(ok and (c + 1) & c == 0 and c + 1 >= min(cap, 1 << 20) and al >= c + 1 << sh, 'geometry', inst.where, '%s: a ring of %s slots of %s bytes in %s allocated bytes' % (d, c + 1 if ok else c, 1 << sh if ok else sh, al), d if cap == 3 else None)
                ctx.expect(ok and 1 << sh >= rs and av + t <= 1 << sh and t >= 8 * 16 and t >= tr, 'geometry', inst.where,
                           '%s: slots of %s bytes have room for %s bytes after a header of %d' % (d, 1 << sh if ok else sh, t, av))
            ctx.anchor(good > 0, 'ring constructor allocates the records')
