"""C20: core dump recovery shows every record and follows only what it validated."""
from rules.common import *
from rules.engine import layout_off
from rules.obj import Obj
from rules.conts import Conts
from rules.safe import width
from sim import constcell
from rules.c14 import arg_type
RE, CD = 'hogl::recovery_engine', 'hogl::coredump'
M64 = 1 << 64
STR, BLOB = ('CSTR',), ('XDUMP', 'RAW')
NOP = lambda i, v, Fx, ev: [(None, (), {})]


def roots(ctx):
    return [Root('ctor', RE + '::recovery_engine', ptypes=lambda p: len(p) > 3), Root('records', RE + '::dump_records'), Root('outbufs', RE + '::dump_outbufs'), Root('less', RE + '::record_sorter::operator()'),
            Root('load', CD + '::load_section'), Root('coalesce', CD + '::coalesce_and_load_sections'), Root('secless', CD + '::section_sorter::operator()'),
            Root('remap', CD + '::remap'), Root('special', 'hogl::record::special', ptypes=lambda p: len(p) > 2, optional=True)]


def check(ctx):
    ctx.rule('shown', 'every published record of every recognised ring is shown exactly once, with its ring, in the order of the timestamps')
    ctx.rule('strings', 'every argument at every position is handed on as posted, string arguments translated into the image')
    ctx.rule('follow', 'nothing found in the dump is followed before it was checked to be inside of a section, a record or a table')
    ctx.rule('missing', 'what is outside of the image or not terminated is shown as missing')
    ctx.rule('names', 'records are shown with the ring, area and section names of the dump')
    ctx.rule('ends', 'recovery comes to an end for every content of the dump')
    ctx.rule('special', 'special records are shown in the area of special records, within its sections and without arguments')
    ctx.rule('remap', 'an address is translated only if the whole object lies inside one section')
    ctx.rule('loaded', 'a section counts as loaded only if all of its content was read, and a failure is never forgotten')
    ctx.rule('buffers', 'buffered output is shown up to its size, within the buffer')
    J = [(remaps,), (loads,), (coalesce,)]
    # fill states
    for sh in (8, 9):
        for cap in (1, 3, 7):
            for h in range(cap + 1):
                for t in range(cap + 1):
                    for al in (0, 1):
                        if sh == 8 or h == t:
                            J.append((fill, sh, cap, h, t, al))
    for seqs in ([(5, 3, 9), (4, 4, 4), (1, 9, 2)], [(1, 2, 3), (1, 2, 3), (1, 2, 3)], [(7,), (), (7, 7)], [(0, M64 - 1, 1), (M64 - 1, 1 << 63, (1 << 63) - 1), (2, 1, 0)], [(3, 2, 1)], [(), (), ()], [(0, 0, 0), (0,), (1, 0)]):
        for place in ('together', 'apart', 'edges', 'fakes'):
            J.append((rings, seqs, place))
    # arguments
    kinds = ['UINT32', 'INT32', 'UINT64', 'INT64', 'POINTER', 'DOUBLE', 'GSTR', 'CSTR', 'XDUMP', 'RAW']
    for k in kinds:
        for p in range(16):
            for form in forms(k):
                J.append((args, [('INT32', 7)] * p + [(k, form)]))
        J.append((args, [(k, forms(k)[0])] * 16))
    for n in (2, 16):
        J.append((args, [(kinds[j % 10], forms(kinds[j % 10])[0]) for j in range(n)]))
        J.append((args, [(kinds[(3 * j + 6) % 10], forms(kinds[(3 * j + 6) % 10])[-1]) for j in range(n)]))
    for tail in ('GSTR', 'CSTR', 'RAW'):
        J.append((args, [('NONE', 0), (tail, forms(tail)[0])]))
    for sec in (0, 5, 0xfff, 6):
        for t in (0, 1, 2, 3, 5, 1 << 32, M64 - 1):
            J.append((special, t))
    J += [(structure,) + s for s in structures(ctx)]
    J += [(areas,) + a for a in areacases()]
    J += [(outs,) + o for o in outcases()]
    J += [(order,)]
    ctx.pmap([J[k::32] for k in range(32)], lambda X: [j[0](ctx, *j[1:]) for j in X])


class World:
    """a core image with three sections, one of them at the top of the address space"""
    LOW, MID, TOP = 0x10000, 0x7f0000000000, M64 - 0x2000

    def __init__(self, ctx):
        self.ctx = ctx
        self.secs = [(self.LOW, 0x8000, 'im0'), (self.MID, 0x4000, 'im1'), (self.TOP, 0x1000, 'im2')]
        self.m, self.rings, self.areas, self.outs = {}, [], [], []
        self.faults = []
        self.names = {}
        L = lambda c, n: layout_off(ctx, c, n)
        self.L = L
        co = L(CD, 'sections')
        self.core = ('core', co)
        self.cells = {('eng', L(RE, '_records')): 2, ('eng', L(RE, '_areas')): 2, ('eng', L(RE, '_timesources')): 2, ('eng', L(RE, '_outbufs')): 2}
        self.ct = Conts(self.cells, self.less)

    def at(self, vma):
        for v, n, r in self.secs:
            if v <= vma < v + n:
                return (r, vma - v)
        return None

    def host(self, vma):
        c = self.at(vma)
        return ('p',) + c if c else 0

    def put(self, vma, v):
        if self.at(vma):
            self.m[self.at(vma)] = v

    def text(self, vma, s):
        for k, c in enumerate(s):
            self.put(vma + k, ord(c))
        self.put(vma + len(s), 0)
        self.names[vma] = s
        return vma

    def obj(self, vma, cls, **kw):
        for k, v in kw.items():
            self.put(vma + self.L(cls, k), v)

    def ring(self, vma, top, recs, cap, shift=8, head=None, tail=None, name=None, ts=0, **kw):
        """recs: {slot: (timestamp, area, section, args)}"""
        R = 'hogl::ringbuf'
        d = dict(_name=name, _rec_top=top, _rec_shift=shift, _rec_tailroom=(1 << shift) - 32, _capacity=cap, _head=head, _tail=tail, _seqnum=1000, _dropcnt=0, _prio=0, _flags=0, _timesource=ts)
        d.update(kw)
        if self.at(vma):
            self.obj(vma, R, **d)
        self.rings.append(vma)
        for k, r in recs.items():
            self.rec(top + (k << shift), *r)

    def rec(self, vma, ts, area, sect, args, argtype=None):
        R = 'hogl::record'
        if not self.at(vma):
            return
        self.obj(vma, R, timestamp=ts, seqnum=77 | sect << 52, area=area)
        self.put(vma + self.L(R, 'argtype'), sum(arg_type(self.ctx, k) << 4 * j for j, (k, v) in enumerate(args)) if argtype is None else argtype)
        for j, (k, v) in enumerate(args):
            a = vma + self.L(R, 'argval') + 8 * j
            if k in STR + BLOB:
                self.put(a, v[0])
                self.put(a + 4, v[1])
                if v[2] is not None and v[0] + v[1] < 4096 and self.at(vma + self.L(R, 'argval') + v[0] + v[1]):
                    self.put(vma + self.L(R, 'argval') + v[0] + v[1], v[2])
            else:
                self.put(a, v)

    def area(self, vma, name, table, sects, bits=None, size=None, magic=True):
        self.obj(vma, 'hogl::area', _name=name, _section=table)
        b = vma + self.L('hogl::area', '_bitmap')
        n = len(sects) if size is None else size
        self.obj(b, 'hogl::bitmap', _data=bits, _size=n)
        for k, s in enumerate(sects):
            if self.at(table + 8 * k):
                self.put(table + 8 * k, s)
        if magic:
            self.areas.append(vma)

    def less(self, k, a, b, mem):
        f = 'less'
        m = dict(mem)
        if k == Conts.key(('p',) + self.core):
            m[('#k', 0)], m[('#k', 8)] = a[0], b[0]
            x, y = a[0], b[0]
            f = 'secless'
        else:
            for c in range(2):
                m[('#k', 8 * c)], m[('#k', 64 + 8 * c)] = a[c], b[c]
            x, y = ('p', '#k', 0), ('p', '#k', 64)
        r = Obj(self.ctx, watch=self.watch).run(self.ctx.fns(f)[0], {0: ('p', '#less', 0), 1: x, 2: y}, m)
        return r[0][2] & 1 if len(r) == 1 and type(r[0][2]) is int else None

    # ---- models
    def memmem(self, i, v, Fx, ev):
        p, n, k, kn = v[0], v[1], v[2], v[3]
        if type(p) is not tuple or type(n) is not int or type(k) is not tuple or p[2] is None:
            return None
        self.inside(i, p, n)
        L = self.rings if 'ring_magic' in str(k[1]) else self.outs if 'output_magic' in str(k[1]) else self.areas
        L = sorted(c[1] for c in map(self.at, L) if c and c[0] == p[1] and p[2] <= c[1] and c[1] + kn <= p[2] + n)
        return [(('p', p[1], L[0]) if L else 0, (), {})]

    def memcmp(self, i, v, Fx, ev):
        p, k = v[0], v[1]
        if type(p) is tuple and p[1] not in [s[2] for s in self.secs]:
            p, k = k, p
        if type(p) is not tuple or p[2] is None or type(k) is not tuple:
            return None
        if type(v[2]) is int:
            self.inside(i, p, v[2])
        L = self.areas if 'area_magic' in str(k[1]) else self.rings if 'ring_magic' in str(k[1]) else self.outs
        return [(0 if (p[1], p[2]) in [self.at(a) for a in L] else 1, (), {})]

    def inside(self, i, p, n):
        for v, z, r in self.secs:
            if p[1] == r and not (p[2] is not None and 0 <= p[2] and p[2] + n <= z):
                self.faults.append((i.where, 'looks at %s of a section of %d bytes' % ('unknown bytes' if p[2] is None else 'bytes %d..%d' % (p[2], p[2] + n), z)))

    def memchr(self, i, v, Fx, ev):
        p, c, n = v
        if type(p) is not tuple or type(c) is not int or type(n) is not int or p[2] is None:
            return None
        self.inside(i, p, n)
        return [(self.scan(Fx.mem, p, c & 255, n) or 0, (), {})]

    def strnlen(self, i, v, Fx, ev):
        p, n = v[0], v[1] if len(v) > 1 else None
        if type(p) is not tuple or p[2] is None:
            return None
        if type(n) is int:
            self.inside(i, p, n)
            e = self.scan(Fx.mem, p, 0, n)
            return [(e[2] - p[2] if e else n, (), {})]
        e = self.scan(Fx.mem, p, 0, 1 << 20)
        if e is None or not self.at_host(e):
            if p[1] in [s[2] for s in self.secs]:
                self.faults.append((i.where, 'follows a string that is not terminated inside of its section'))
                return []
            return None
        return [(e[2] - p[2], (), {})]

    def at_host(self, p):
        return all(p[1] != r or 0 <= p[2] < n for v, n, r in self.secs)

    def scan(self, mem, p, c, n):
        b = [o for (r, o), x in mem.items() if r == p[1] and type(o) is int and p[2] <= o < p[2] + n and type(x) is int and x & 255 == c]
        return ('p', p[1], min(b)) if b else None

    def watch(self, i, Fx, ev):
        if i.op not in ('load', 'store'):
            return ()
        o = i.ops[1 if i.op == 'store' else 0]
        n = 8
        if i.op == 'load' and width(i.ty):
            n = max(1, width(i.ty) // 8)
        elif i.op == 'store':
            x = i.ops[0]
            t = Fx.fn.inst(x)
            n = max(1, (int(x[2]) if x[0] == 'c' else width(t.ty) if t is not None and t.ty and width(t.ty) else 64) // 8)
        b = o
        while True:
            d = Fx.fn.inst(b)
            if d is None or d.op not in ('gep', 'bitcast') or type(Fx.env.get(b[1]) if b[0] == 'v' else None) is tuple:
                break
            b = d.ops[0]
        x = Fx.val(b)
        if type(x) is int:
            self.faults.append((i.where, 'follows the address %#x without translating it' % x))
            return 'kill'
        p = Fx.ptr(o)
        for v, z, r in self.secs:
            if p[1] == r and not (p[2] is not None and 0 <= p[2] and p[2] + n <= z):
                self.faults.append((i.where, '%s %s of a section of %d bytes' % ('writes' if i.op == 'store' else 'reads', 'an unknown byte' if p[2] is None else 'byte %d' % p[2], z)))
                return 'kill'
        return ()

    def indirect(self, i, v, Fx, ev):
        if len(v) == 3 and v[0] == ('p', 'fmt', 0) and type(v[2]) is tuple and v[2][2] is not None:
            D = lambda n: Fx.mem.get((v[2][1], v[2][2] + self.L('hogl::format::data', n)))
            return [(None, (('fmt', D('ring_name'), D('record'), i.where),), {})]
        return [(None, (), {})]

    def calls(self):
        c = {'memmem': self.memmem, 'memcmp': self.memcmp, 'bcmp': self.memcmp, 'memchr': self.memchr, 'strlen': self.strnlen, 'strnlen': self.strnlen, '': self.indirect,
             'fmt::*': NOP, 'fflush': NOP, 'llvm.type.test': lambda i, v, Fx, ev: [(1, (), {})], 'llvm.assume': NOP, 'fclose': NOP, 'strncat': NOP, 'strncpy': NOP, 'std::*': self.ct.model,
             'malloc': lambda i, v, Fx, ev: [(('p', 'new%d' % len([e for e in ev if e[0] == 'new']), 0), (('new', 'malloc', i.where, v[0]),), {})],
             'fwrite': lambda i, v, Fx, ev: [(v[2] if len(v) > 2 else None, (('write', v[0], v[1], v[2], i.where),), {})]}
        return c

    def mem(self, flags=0):
        m = dict(self.m)
        ss = []
        for k, (v, n, r) in enumerate(self.secs):
            for f, x in (('vma', v), ('addr', ('p', r, 0)), ('size', n), ('abfd', ('p', 'bfd0', 0))):
                m[('sec%d' % k, self.L(CD + '::section', f))] = x
            ss.append((('p', 'sec%d' % k, 0),))
        m.update(self.ct.put(('p',) + self.core, sorted(ss, key=lambda s: [x[0] for x in self.secs][int(s[0][1][3:])])))
        m[('core', self.L(CD, 'failed'))] = 0
        for k, g in self.ctx.globals.items():
            I = g.get('init') or ()
            if I and I[0] == 'agg' and all(x[0] in ('s', 'null') for x in I[1:]):
                for n, x in enumerate(I[1:]):
                    m[(('g', k), 8 * n)] = ('p', ('s', x[1]), 0) if x[0] == 's' else 0
            if 'special_area' in k:
                m[(('g', k), self.L('hogl::area', '_bitmap') + self.L('hogl::bitmap', '_size'))] = 3
                m[(('g', k), self.L('hogl::area', '_section'))] = ('p', ('g', '#special'), 0)
        return m

    def run(self, flags=0):
        """(memory after recovery, formatted records) or None"""
        ctx = self.ctx
        self.faults = []
        o = Obj(ctx, calls=self.calls(), watch=self.watch, limit=100000, zero=[x[2] for x in self.secs])
        try:
            r = o.run(ctx.fns('ctor')[0], {0: ('p', 'eng', 0), 1: ('p', 'core', 0), 2: ('p', 'fmt', 0), 3: flags}, self.mem(flags), cap=100000)
        except SimLimit:
            return 'endless'
        if len(r) != 1:
            return None
        self.first = r[0][3]
        try:
            q = o.run(ctx.fns('records')[0], {0: ('p', 'eng', 0)}, self.first, cap=100000)
        except SimLimit:
            return 'endless'
        if len(q) != 1:
            return None
        self.obj_ = o
        return q[0][3], [e for e in q[0][1] if e[0] == 'fmt']


def go(ctx, w, what, flags=0):
    """runs recovery and reports everything that holds for any dump; None if there is nothing to compare"""
    fn = ctx.fns('ctor')[0]
    r = w.run(flags)
    for wh, t in w.faults[:1]:
        ctx.bad('follow', wh, '%s: recovery %s' % (what, t))
    if w.faults:
        return None
    ctx.ok('follow', what)
    ctx.expect(r != 'endless', 'ends', fn.where, '%s: recovery does not come to an end' % what, what)
    if r == 'endless':
        return None
    ctx.expect(r is not None, 'ends', fn.where, '%s: recovery has no definite outcome' % what)
    if r is None:
        return None
    mem, shown = r
    # what is handed to the formatter is safe to follow
    for e in shown:
        rn, rec = e[1], e[2]
        t = unsafe(ctx, w, mem, rn, rec)
        ctx.expect(t is None, 'follow', e[3], '%s: a record is formatted whose %s' % (what, t), what)
        if t:
            return None
    return mem, shown


def cstr(w, mem, p):
    """text of a host string, None if it is not terminated inside of its section"""
    if type(p) is not tuple or p[2] is None:
        return None
    if type(p[1]) is tuple and p[1][0] == 's':
        return p[1][1][p[2]:]
    s = [x for x in w.secs if x[2] == p[1]]
    if not s:
        return None
    e = w.scan(mem, p, 0, s[0][1] - p[2]) if 0 <= p[2] < s[0][1] else None
    return None if e is None else ''.join(chr(mem.get((p[1], k), 63) & 255) for k in range(p[2], e[2]))


def unsafe(ctx, w, mem, rn, rec):
    if cstr(w, mem, rn) is None:
        return 'ring name is not a string of the image'
    s = [x for x in w.secs if type(rec) is tuple and x[2] == rec[1]]
    if not s or rec[2] is None:
        return 'address is not inside of the image'
    R = lambda n: mem.get((rec[1], rec[2] + w.L('hogl::record', n)))
    a = R('area')
    if a not in (0, None) and not special_area(a):
        if type(a) is not tuple:
            return 'area is not an address of the image'
        nm, tb, bits, size = areaof(w, mem, a)
        if cstr(w, mem, nm) is None:
            return 'area name is not a string of the image'
        sc = R('seqnum') >> 52 & 4095
        if type(size) is not int:
            return 'area has no number of sections'
        for k in {sc} if sc < size else ():
            if cstr(w, mem, sect(mem, tb, k)) is None:
                return 'section name is not a string of the image'
    at = R('argtype')
    if type(at) is not int:
        return 'argument kinds are unknown'
    room = w.room
    for j in range(16):
        t = at >> 4 * j & 15
        c = (rec[1], rec[2] + w.L('hogl::record', 'argval') + 8 * j)
        x = mem.get(c)
        if t == arg_type(ctx, 'GSTR'):
            if x != 0 and cstr(w, mem, x) is None:
                return 'argument %d is not a string of the image (%s)' % (j, '%#x' % x if type(x) is int else x)
        elif t in [arg_type(ctx, k) for k in STR + BLOB]:
            n = mem.get((c[0], c[1] + 4))
            if type(n) is not int or type(x) is not int:
                return 'argument %d has no offset and length' % j
            x, n = x & 0xffffffff, n & 0xffffffff
            z = n + (1 if n and t == arg_type(ctx, 'CSTR') else 0)
            if x > room or z > room - x:
                return 'argument %d reaches out of the record (%d bytes at %d of %d)' % (j, z, x, room)
            if n and t == arg_type(ctx, 'CSTR') and mem.get((rec[1], rec[2] + w.L('hogl::record', 'argval') + x + n)) != 0:
                return 'argument %d is a string without terminator' % j
    return None


def special_area(a):
    return type(a) is tuple and 'special_area' in str(a[1])


def areaof(w, mem, a):
    A = lambda n: mem.get((a[1], a[2] + w.L('hogl::area', n)))
    b = a[2] + w.L('hogl::area', '_bitmap')
    return A('_name'), A('_section'), mem.get((a[1], b + w.L('hogl::bitmap', '_data'))), mem.get((a[1], b + w.L('hogl::bitmap', '_size')))


def sect(mem, tb, k):
    if type(tb) is not tuple or tb[2] is None:
        return None
    c = (tb[1], tb[2] + 8 * k)
    if c in mem:
        return mem[c]
    return constcell(c, 64)


def base(ctx, room=None):
    """a world with one area, one timesource and some strings"""
    w = World(ctx)
    w.room = (256 if room is None else room) - w.L('hogl::record', 'argval')
    w.text(w.MID + 0x10, 'area1')
    w.text(w.MID + 0x20, 's0')
    w.text(w.MID + 0x30, 's1')
    w.text(w.MID + 0x40, 'gstr')
    w.text(w.MID + 0x50, 'ringA')
    w.text(w.MID + 0x60, 'ringB')
    w.text(w.MID + 0x70, 'ringC')
    w.text(w.MID + 0x80, 'tsrc')
    w.area(w.MID + 0x100, w.MID + 0x10, w.MID + 0x200, [w.MID + 0x20, w.MID + 0x30], bits=w.MID + 0x300)
    w.put(w.MID + 0x300, 3)
    w.obj(w.MID + 0x400, 'hogl::timesource', _name=w.MID + 0x80, _callback=0x1234)
    return w


def fill(ctx, sh, cap, h, t, al):
    w = base(ctx, 1 << sh)
    recs = {k: (100 + k * 7 % 5, w.MID + 0x100, k & 1, [('GSTR', w.MID + 0x40), ('INT32', k)]) for k in range(cap + 1)}
    top = w.LOW + 0x1000
    w.ring(w.LOW + 0x100, top, recs, cap, sh, h, t, w.MID + 0x50, w.MID + 0x400)
    what = 'ring of %d slots of %d bytes with head %d and tail %d%s' % (cap + 1, 1 << sh, h, t, ', all records' if al else '')
    r = go(ctx, w, what, al)
    if r is None:
        return
    mem, shown = r
    pub, k = [], (h + 1) & cap
    while k != t:
        pub.append(k)
        k = (k + 1) & cap
    fn = ctx.fns('records')[0]
    got = [(e[2][2] - (top - w.LOW)) >> sh if e[2][1] == 'im0' else None for e in shown]
    bad = [k for k in pub if k not in got]
    ctx.expect(not bad, 'shown', fn.where, '%s: the record of slot %s is not shown' % (what, bad[0] if bad else ''), what)
    ctx.expect(len(set(got)) == len(got), 'shown', fn.where, '%s: a record is shown twice' % what)
    ctx.expect(al or len(got) == len(pub), 'shown', fn.where, '%s: a record that was consumed is shown' % what)
    ts = [100 + k * 7 % 5 for k in got if k is not None]
    ctx.expect(ts == sorted(ts), 'shown', fn.where, '%s: records are not in the order of their timestamps' % what)
    sane(ctx, w, mem, shown, what)


def sane(ctx, w, mem, shown, what, ring='ringA'):
    fn = ctx.fns('records')[0]
    for e in shown:
        ctx.expect(ring is None or cstr(w, mem, e[1]) == ring, 'names', fn.where, '%s: a record is shown with ring %s' % (what, cstr(w, mem, e[1])), what)
        a = mem.get((e[2][1], e[2][2] + w.L('hogl::record', 'area')))
        ok = type(a) is tuple and (a[1], a[2]) == w.at(w.MID + 0x100)
        if ok:
            nm, tb, bits, size = areaof(w, mem, a)
            ok = cstr(w, mem, nm) == 'area1' and size == 2 and [cstr(w, mem, sect(mem, tb, k)) for k in (0, 1)] == ['s0', 's1']
        ctx.expect(ok, 'names', fn.where, '%s: a record is shown without its area and section names' % what)


def rings(ctx, seqs, place):
    w = base(ctx)
    z = ctx.sizes['hogl::ringbuf']
    pos = {'together': [0x100, 0x100 + z, 0x100 + 2 * z], 'apart': [0x100, 0x800, w.MID - w.LOW + 0x1000], 'edges': [0, 0x8000 - z, w.MID - w.LOW + 0x4000 - z], 'fakes': [0x120, 0x230, 0x480]}[place]
    tops = [0x1000, 0x2000, 0x3000]
    nm = [0x50, 0x60, 0x70]
    if place == 'fakes':
        # rings that are none
        w.rings += [w.LOW + 0x18, w.LOW + 0x7ff0, w.LOW + 0x119, w.LOW + 0x218, w.MID + 0x3fe0, w.TOP + 0xff0]
        for a in w.rings:
            for k in range(0, z, 4):
                if w.at(a + k):
                    w.m.setdefault(w.at(a + k), 0)
        w.ring(w.LOW + 0x600, 0x55, {}, 3, 8, 3, 0, w.MID + 0x50)
    want = []
    for k, s in enumerate(seqs):
        recs = {j: (x, w.MID + 0x100, j & 1, [('GSTR', w.MID + 0x40)]) for j, x in enumerate(s)}
        w.ring(w.LOW + pos[k], w.LOW + tops[k], recs, 7, 8, 7, len(s), w.MID + nm[k], w.MID + 0x400)
        want += [(x, tops[k] + 256 * j, 'ring' + 'ABC'[k]) for j, x in enumerate(s)]
    what = '%d rings with timestamps %s, %s' % (len(seqs), ' '.join(str(list(s)) for s in seqs), place)
    r = go(ctx, w, what)
    if r is None:
        return
    mem, shown = r
    fn = ctx.fns('records')[0]
    got = [(mem.get((e[2][1], e[2][2] + w.L('hogl::record', 'timestamp'))), e[2][2], cstr(w, mem, e[1])) for e in shown]
    lost = [x for x in want if x not in got]
    ctx.expect(not lost, 'shown', fn.where, '%s: the record of %s with timestamp %s is not shown' % ((what, lost[0][2], lost[0][0]) if lost else (what, '', '')), what)
    ctx.expect(sorted(got) == sorted(want), 'shown', fn.where, '%s: %d records are shown instead of %d' % (what, len(got), len(want)), what)
    ts = [x[0] for x in got]
    ctx.expect(ts == sorted(ts), 'shown', fn.where, '%s: records are not in the order of their timestamps' % what, what)
    sane(ctx, w, mem, shown, what, None)


def order(ctx):
    """the comparison is a strict order of the timestamps"""
    w = base(ctx)
    fn = ctx.fns('less')[0]
    V = [0, 1, 5, (1 << 31), (1 << 32), (1 << 32) + 1, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, M64 - 1]
    for x in V:
        for y in V:
            m = {('ra', w.L('hogl::record', 'timestamp')): x, ('rb', w.L('hogl::record', 'timestamp')): y}
            m.update({('ra', w.L('hogl::record', 'seqnum')): 9, ('rb', w.L('hogl::record', 'seqnum')): 9})
            r = w.less('#c:eng', (('p', 'rx', 0), ('p', 'ra', 0)), (('p', 'ry', 0), ('p', 'rb', 0)), m)
            if x != y:
                ctx.expect(r == int(x < y), 'shown', fn.where, 'records with timestamps %d and %d are ordered wrongly' % (x, y), 'order of %d and %d' % (x, y))


def forms(k):
    """values of an argument; the expected outcome follows from `want`"""
    w = World
    if k == 'GSTR':
        return [w.MID + 0x40, 0, w.MID + 0x41, w.LOW + 0x8000, w.LOW + 0x7fff, w.MID - 1, w.MID + 0x3ff0, M64 - 1, M64 - 0x1001, w.TOP + 0x1000, 1, w.MID + 0x44, w.TOP + 0xf00]
    if k == 'CSTR':
        R = 256 - 32
        return [(128, 5, 0), (0, 0, None), (R - 6, 5, 0), (R - 5, 5, None), (R - 6, 6, None), (R, 0, None), (R + 1, 0, None), (R, 1, None), (128, 5, 65), (M32 - 1, 2, None), (128, M32, None), (M32 - 3, 4, None), (128, M32 - 127, None), (R - 1, 1, None), (R - 2, 1, 0), (128, 1, 0), (140, M32 - 1, None)]
    if k in BLOB:
        R = 256 - 32
        return [(128, 5, None), (0, 0, None), (R - 5, 5, None), (R - 4, 5, None), (R, 0, None), (R + 1, 0, None), (R, 1, None), (M32 - 1, 2, None), (128, M32, None), (M32 - 3, 4, None), (128, M32 - 127, None), (0, R, None), (0, R + 1, None)]
    return [VALUES[k]]


M32 = (1 << 32) - 1
VALUES = {'UINT32': 0xfffffff0, 'INT32': 0x80000001, 'UINT64': M64 - 4, 'INT64': 1 << 63 | 5, 'POINTER': World.MID + 0x40, 'DOUBLE': 0xc008000000000001, 'NONE': 0}


def args(ctx, al):
    w = base(ctx)
    w.text(w.TOP + 0xf00, 'top')
    top = w.LOW + 0x1000
    # strings that end with the section
    w.put(w.LOW + 0x7fff, 0)
    for k in (0, 1, 2):
        w.rec(top + 256 * k, 50 + k, w.MID + 0x100, 1, al if k == 1 else [('GSTR', w.MID + 0x40)])
    w.ring(w.LOW + 0x100, top, {}, 3, 8, 3, 3, w.MID + 0x50, 0)
    before = dict(w.m)
    what = 'record with ' + (' '.join('%s(%s)' % (k, ','.join('%#x' % x for x in v if x is not None) if type(v) is tuple else '%#x' % v) for k, v in al[-3:]) + (' at position %d' % (len(al) - 1) if len(al) > 3 else ''))
    r = go(ctx, w, what)
    if r is None:
        return
    mem, shown = r
    fn = ctx.fns('ctor')[0]
    ctx.expect(len(shown) == 3, 'shown', fn.where, '%s: %d of 3 records are shown' % (what, len(shown)), what)
    sane(ctx, w, mem, shown, what)
    o = w.at(top + 256)
    c = o[1] + w.L('hogl::record', 'argval')
    at = mem.get((o[0], o[1] + w.L('hogl::record', 'argtype')))
    ctx.expect(at == before[w.at(top + 256 + w.L('hogl::record', 'argtype'))], 'strings', fn.where, '%s: the argument kinds are changed to %s' % (what, at), what)
    for j, (k, v) in enumerate(al):
        x = mem.get((o[0], c + 8 * j))
        if k == 'GSTR':
            h = w.at(v)
            s = cstr(w, before, ('p',) + h) if h else None
            if s is None:
                ctx.expect(x == 0, 'missing', fn.where, '%s: the string at %#x, which is not in the image, is handed on as %s' % (what, v, x), what)
            else:
                ctx.expect(x == ('p',) + h, 'strings', fn.where, '%s: the string at %#x is handed on as %s instead of its place in the image' % (what, v, x), what)
        elif k in STR + BLOB:
            n = mem.get((o[0], c + 8 * j + 4))
            end = v[0] + v[1] + (1 if k in STR and v[1] else 0)
            good = end <= w.room and (k in BLOB or not v[1] or before.get(w.at(top + 256 + 32 + v[0] + v[1])) == 0)
            # shared bytes: another argument may have put its terminator there
            if good:
                ctx.expect(x == v[0] and n == v[1] or v[1] == 0 and n == 0, 'strings', fn.where, '%s: data of %d bytes at %d is handed on as %s bytes at %s' % (what, v[1], v[0], n, x), what)
            else:
                ctx.expect(n == 0, 'missing', fn.where, '%s: data that is not inside of the record is handed on as %s bytes at %s' % (what, n, x), what)
        elif k != 'NONE':
            wd = 32 if k in ('UINT32', 'INT32') else 64
            ctx.expect(type(x) is int and x & ((1 << wd) - 1) == v & ((1 << wd) - 1), 'strings', fn.where, '%s: the value %#x is handed on as %s' % (what, v, x), what)


def special(ctx, t):
    w = base(ctx)
    top = w.LOW + 0x1000
    for k in (0, 2):
        w.rec(top + 256 * k, 50 + k, w.MID + 0x100, 1, [('GSTR', w.MID + 0x40)])
    w.rec(top + 256, 51, 0, 0xfff, [('UINT64', 5), ('UINT64', 6)], argtype=t)
    w.ring(w.LOW + 0x100, top, {}, 3, 8, 3, 3, w.MID + 0x50, 0)
    what = 'special record of type %#x' % t
    r = go(ctx, w, what)
    if r is None:
        return
    mem, shown = r
    fn = ctx.fns('ctor')[0]
    ctx.expect(len(shown) == 3, 'shown', fn.where, '%s: %d of 3 records are shown' % (what, len(shown)), what)
    o = w.at(top + 256)
    g = lambda n: mem.get((o[0], o[1] + w.L('hogl::record', n)))
    ctx.expect(special_area(g('area')), 'special', fn.where, '%s: the area is %s' % (what, g('area')), what)
    ctx.expect(g('argtype') == 0, 'special', fn.where, '%s: it is formatted with arguments of kinds %s' % (what, g('argtype')), what)
    s = g('seqnum')
    s = s >> 52 & 4095 if type(s) is int else None
    ctx.expect(s == min(t, 2), 'special', fn.where, '%s: it is shown in section %s' % (what, s), what)


def structures(ctx):
    """(what, ring fields, the ring has to be shown)"""
    w = World
    good = dict(cap=3, shift=8, head=3, tail=3, name=w.MID + 0x50, ts=0, top=w.LOW + 0x1000)
    S = []
    add = lambda what, ok=False, **kw: S.append((what, dict(good, **kw), ok))
    add('an intact ring', True)
    for c in (2, 4, 5, 6, 8, 14, M32, M32 - 1, 1 << 31, (1 << 31) - 1, (1 << 30) - 1, 1 << 20):
        for h, t in ((min(c, 3), min(c, 2)), (c, 0), (0, c), (c, c), (1, 1), (c, c - 1)):
            add('capacity %#x, head %d, tail %d' % (c, h, t), cap=c, head=h, tail=t)
    add('a capacity of one slot', cap=0, head=0, tail=0)
    for s in list(range(0, 8)) + [9, 10, 15, 16, 20, 21, 30, 31, 32, 33, 36, 39, 40, 63, 64, 71, 72, M32, M32 - 7, 1 << 31, (1 << 31) + 8]:
        add('record shift %#x' % s, shift=s)
        add('record shift %#x, one slot' % s, shift=s, cap=0, head=0, tail=0)
        add('record shift %#x, two slots' % s, shift=s, cap=1, head=1, tail=1)
    for h, t in ((4, 0), (0, 4), (M32, 0), (0, M32), (1 << 31, 1 << 31), (255, 3), (3, 255)):
        add('head %#x, tail %#x' % (h, t), head=h, tail=t)
    for p in (0, 1, w.LOW - 1, w.LOW + 0x8000 - 1024, w.LOW + 0x8000 - 1023, w.LOW + 0x7fff, w.LOW + 0x8000, w.LOW + 0x8001, w.MID - 4, w.MID - 1023, w.MID + 0x3fff, w.MID + 0x4000, M64 - 1, M64 - 256, M64 - 1024, M64 - 1025, w.TOP + 0x1000 - 1023, w.TOP - 1, w.TOP + 0xc00, w.TOP + 0x1000):
        add('records at %#x' % p, p in (w.LOW + 0x8000 - 1024, w.TOP + 0xc00), top=p)
    for h, t in ((3, 2), (2, 1), (0, 3)):
        for p in (w.LOW + 0x8000 - 1023, w.LOW + 0x8000 - 900, w.LOW + 0x8000 - 800, w.TOP + 0x1000 - 800):
            add('records at %#x, head %d, tail %d' % (p, h, t), top=p, head=h, tail=t)
    for p in (0, 1, w.LOW + 0x8000, w.LOW + 0x7fff, w.MID - 1, w.MID + 0x4000, w.MID + 0x3ff0, M64 - 1, w.TOP + 0x1000, w.TOP + 0xfff):
        add('ring name at %#x' % p, name=p)
    for p in (0, 1, w.MID + 0x400, w.MID + 0x3ff8, w.MID + 0x3ff1, w.LOW + 0x8000, w.LOW + 0x7fff, w.LOW + 0x7ff0, M64 - 8, M64 - 16, M64 - 1, w.MID + 0x420, w.MID + 0x440):
        add('timesource at %#x' % p, True, ts=p)
    for x in (1, 999, 1000):
        add('%d dropped of 1000' % x, True, _dropcnt=x)
    for x in (1001, M64 - 1):
        add('%d dropped of 1000' % x, _dropcnt=x)
    for x in (M32, 100000, 1 << 31):
        add('priority %#x' % x, None, _prio=x)
    for x in (0, 32, 256, 257, M32, 225):
        add('record tailroom %d' % x, None, _rec_tailroom=x)
    return [(a, b, c, f) for a, b, c in S for f in (0, 1)]


def structure(ctx, what, d, ok, flags):
    w = base(ctx)
    d = dict(d)
    top, cap, sh, h, t, name, ts = (d.pop(k) for k in ('top', 'cap', 'shift', 'head', 'tail', 'name', 'ts'))
    w.obj(w.MID + 0x420, 'hogl::timesource', _name=M64 - 1)
    w.obj(w.MID + 0x440, 'hogl::timesource', _name=w.MID + 0x3ff9)
    # slots of every plausible record size
    for k in range(4):
        for s in (8,):
            w.rec(top + (k << s), 60 + k, w.MID + 0x100, 1, [('GSTR', w.MID + 0x40), ('CSTR', (128, 3, 0))])
    w.ring(w.LOW + 0x100, top, {}, cap, sh, h, t, name, ts, **d)
    w.ring(w.LOW + 0x800, w.LOW + 0x3000, {0: (61, w.MID + 0x100, 0, [('GSTR', w.MID + 0x40)])}, 1, 8, 1, 1, w.MID + 0x60, w.MID + 0x400)
    if 8 <= sh <= 20:
        w.room = (1 << sh) - 32
    what = 'a ring with %s%s' % (what, ', all records' if flags else '')
    r = go2(ctx, w, what, flags, sh)
    if r is None:
        return
    mem, shown = r
    fn = ctx.fns('ctor')[0]
    B = [e for e in shown if cstr(w, mem, e[1]) == 'ringB']
    ctx.expect(len(B) == 1, 'shown', fn.where, '%s: the intact ring after it is shown with %d of 1 records' % (what, len(B)), what)
    A = [e for e in shown if cstr(w, mem, e[1]) == 'ringA']
    if ok:
        ctx.expect(len(A) == 3, 'shown', fn.where, '%s: %d of 3 records are shown' % (what, len(A)), what)


def go2(ctx, w, what, flags, sh):
    """as go(), for rings of which nothing but the limits is known"""
    return go(ctx, w, what, flags)


def areacases():
    w = World
    A = []
    good = dict(at=w.MID + 0x500, name=w.MID + 0x10, table=w.MID + 0x600, sects=[w.MID + 0x20, w.MID + 0x30], bits=w.MID + 0x300, size=2, magic=True)
    add = lambda what, want, **kw: A.append((what, dict(good, **kw), want))
    add('an intact area', ('area1', 's0', 's1'))
    add('no magic number', None, magic=False)
    for p in (0, 1, w.MID + 0x4000, w.MID + 0x3fff, M64 - 1, w.MID + 0x3ff0):
        add('name at %#x' % p, None, name=p)
        add('section table at %#x' % p, None if p != w.MID + 0x3ff0 else (), table=p)
        add('bitmap at %#x' % p, None if p not in (w.MID + 0x3ff0, w.MID + 0x3fff) else (), bits=p)
        add('first section name at %#x' % p, ('area1', 'NA', 's1'), sects=[p, w.MID + 0x30])
        add('second section name at %#x' % p, ('area1', 's0', 'NA'), sects=[w.MID + 0x20, p])
    for n in (0, 1 << 19, M32, 1 << 31, (1 << 18) + 1):
        add('%d sections' % n, None, size=n)
    for p in (0, 8, w.MID + 0x3ff0, w.MID + 0x4000 - 8, w.MID + 0x4000 - 16, w.MID + 0x4000 - 24, w.MID + 0x4000 - 32, w.MID + 0x4000 - 40, w.MID + 0x4000 - 47, w.MID + 0x4000, M64 - 40, M64 - 1, w.LOW + 0x7ff8, w.MID - 8):
        add('area at %#x' % p, None, at=p)
    end = w.MID + 0x4000
    add('a table that reaches out of the section', None, table=end - 16, size=3)
    add('a table at the end of the section', ('area1', 's0', 's1'), table=end - 16)
    add('a table that starts in the last word', None, table=end - 8)
    add('a bitmap that reaches out of the section', None, bits=end - 1, size=9)
    six = [w.MID + 0x20, w.MID + 0x30] * 3
    add('six sections', ('area1', 's0', 's1'), sects=six, size=6)
    add('default sections', ('area1', 'INFO', 'WARN'), sects=[1, 2, 3, 4, 5, 6], size=6)
    add('six sections, the last missing', ('area1', 's0', 's1'), sects=six[:5] + [9], size=6)
    add('a shared section table', ('area1', 's0', 's1'), table=w.MID + 0x200)
    add('six sections and a shared table', ('area1', 's0', 's1'), sects=six, size=6, other=True)
    add('the same area as another ring', ('area1', 's0', 's1'), at=w.MID + 0x100, table=w.MID + 0x200)
    return A


def areas(ctx, what, d, want):
    w = base(ctx)
    if w.at(d['at']) and w.at(d['at'] + 15):
        w.area(d['at'], d['name'], d['table'], d['sects'], d['bits'], d['size'], d['magic'])
    if d.get('other'):
        w.area(w.MID + 0x560, w.MID + 0x40, d['table'], d['sects'], d['bits'], d['size'])
    top = w.LOW + 0x1000
    a2 = w.MID + (0x560 if d.get('other') else 0x100)
    for k, (a, s) in enumerate(((d['at'], 0), (a2, 1), (d['at'], 1), (a2, 0))):
        w.rec(top + 256 * k, 50 + k, a, s, [('GSTR', w.MID + 0x40)])
    w.ring(w.LOW + 0x100, top, {}, 7, 8, 7, 4, w.MID + 0x50, 0)
    what = 'an area with ' + what
    r = go(ctx, w, what)
    if r is None:
        return
    mem, shown = r
    fn = ctx.fns('ctor')[0]
    ctx.expect(len(shown) == 4, 'shown', fn.where, '%s: %d of 4 records are shown' % (what, len(shown)), what)
    names = []
    for k in range(4):
        c = w.at(top + 256 * k)
        a = mem.get((c[0], c[1]))
        sc = mem.get((c[0], c[1] + w.L('hogl::record', 'seqnum'))) >> 52
        names.append((cstr(w, mem, areaof(w, mem, a)[0]), cstr(w, mem, sect(mem, areaof(w, mem, a)[1], sc))) if type(a) is tuple else None)
    n2 = 'gstr' if d.get('other') else 'area1'
    ctx.expect(names[1] == (n2, 's1') and names[3] == (n2, 's0'), 'names', fn.where, '%s: records of the other area are shown with %s and %s' % (what, names[3], names[1]), what)
    if want is None:
        ctx.expect(names[0] is None and names[2] is None, 'missing', fn.where, '%s: the area is used as %s' % (what, names[0]), what)
    elif want:
        ctx.expect(names[0] == (want[0], want[1]) and names[2] == (want[0], want[2]), 'names', fn.where, '%s: records are shown with %s and %s' % (what, names[0], names[2]), what)


def outcases():
    w = World
    C = []
    good = dict(data=w.LOW + 0x1000, cap=100, size=60, failed=0)
    add = lambda what, ok, **kw: C.append((what, dict(good, **kw), ok))
    add('an intact buffer', 1)
    add('a full buffer', 1, size=100)
    add('an empty buffer', 1, size=0)
    add('more than its capacity', 0, size=101)
    add('a failure', 1, failed=1)
    for p in (0, 1, w.LOW + 0x8000 - 99, w.LOW + 0x8000, w.MID - 1, M64 - 1, M64 - 100, M64 - 99):
        add('data at %#x' % p, 0, data=p)
    add('data at the end of the section', 1, data=w.LOW + 0x8000 - 100)
    for c in (0, M32, 1 << 31, (1 << 28) + 1, 0x7001):
        add('capacity %#x' % c, 0, cap=c, size=0)
    return [(a, b, c, f) for a, b, c in C for f in (0, 1)]


def outs(ctx, what, d, ok, flags):
    w = base(ctx)
    ob = w.MID + 0x800
    w.obj(ob, 'hogl::ostrbuf', _data=d['data'], _capacity=d['cap'], _size=d['size'], _failed=d['failed'])
    e = ob + w.L('hogl::ostrbuf', '_error')
    for o, nm in ((0x900, ob), (0xa00, ob), (0xb00, M64 - 8), (0xc00, 0), (0xd00, w.MID + 0x3fc0)):
        w.outs.append(w.MID + o + w.L('hogl::output', '_magic'))
        w.obj(w.MID + o, 'hogl::output', _ostrbuf=nm)
    w.outs += [w.MID + 0x3ff0, w.LOW]
    for k in range(0, 64, 4):
        w.put(w.LOW + k, 0)
    for k in range(10):
        if w.at(d['data'] + 55 + k):
            w.put(d['data'] + 55 + k, 65)
    what = 'an output buffer with %s%s' % (what, ', all of it' if flags else '')
    if go(ctx, w, what, flags) is None:
        return
    fn = ctx.fns('outbufs')[0]
    w.faults = []
    try:
        r = Obj(ctx, calls=w.calls(), watch=w.watch, limit=100000, zero=[x[2] for x in w.secs]).run(fn, {0: ('p', 'eng', 0)}, w.first, cap=100000)
    except SimLimit:
        r = []
    for wh, t in w.faults[:1]:
        ctx.bad('follow', wh, '%s: showing it %s' % (what, t))
    ctx.expect(r, 'ends', fn.where, '%s: showing it does not come to an end' % what, what)
    for inst, ev, ret, m in r:
        W = [x for x in ev if x[0] == 'write' and type(x[1]) is tuple and x[1][1] == 'im0']
        n = [x[2] * x[3] if type(x[2]) is int and type(x[3]) is int else None for x in W]
        lim = d['cap'] if flags else d['size']
        full = min(lim, 65)
        for x, k in zip(W, n):
            ctx.expect(ok and w.at(d['data']) == x[1][1:] and k is not None and k <= lim, 'buffers', x[4], '%s: %s bytes at %s are shown' % (what, k, x[1][2]), what)
        if ok and d['size'] in (0, 100):
            continue
        if ok:
            ctx.expect(len(W) == 1 and n[0] is not None and (n[0] >= full if not flags else n[0] >= 65), 'buffers', fn.where, '%s: %s bytes are shown instead of %d' % (what, n, full), what)


def remaps(ctx):
    w = base(ctx)
    fn = ctx.fns('remap')[0]
    for v, z, r in w.secs:
        for a in (v - 1, v, v + 1, v + z - 1, v + z, v + z + 1, v + z - 8, v + z // 2, M64 - 1, M64 - 8, 0, 1):
            for n in (1, 7, 8, 9, z, z - 1, z + 1, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, M64 - 1, M64 - 8, (M64 - a) % M64 or 5, (M64 - a + v) % M64 or 5, (M64 - a + v + 8) % M64 or 5):
                a %= M64
                x = Obj(ctx, calls=w.calls(), watch=w.watch).run(fn, {0: ('p', 'core', 0), 1: a, 2: n}, w.mem())
                h = w.at(a)
                end = a + n
                good = h is not None and any(rr == h[0] and end <= vv + zz for vv, zz, rr in w.secs)
                want = ('p',) + h if good else 0
                what = 'address %#x, %d bytes' % (a, n)
                ctx.expect(len(x) == 1 and x[0][2] == want, 'remap', fn.where, '%s is translated to %s instead of %s' % (what, x[0][2] if x else None, want), what)


def bfdworld(ctx, w, secs, fail, size):
    """bfd sections by address; fail: index of the section whose content cannot be read"""
    def find(i, v, Fx, ev):
        a = v[-1]
        n = [k for k, (vm, z) in enumerate(secs) if vm == a]
        return [(('p', 'bs%d' % n[0], 0) if n else 0, (), {})]

    def get(i, v, Fx, ev):
        k = int(v[1][1][2:]) if type(v[1]) is tuple and str(v[1][1]).startswith('bs') else None
        ok = int(k is not None and k != fail)
        return [(ok, (('read', k, v[2], v[3], v[4], ok, i.where),), {})]

    def alloc(i, v, Fx, ev):
        if fail == 'mem':
            return [(12, (), {})]
        n = len([e for e in ev if e[0] == 'new'])
        k = Fx.cell(i.ops[0])
        return [(0, (('new', 'buf%d' % n, i.where, v[2]),), {k: ('p', 'buf%d' % n, 0)})] if k else None
    c = dict(w.calls(), bfd_sections_find_if=find, bfd_get_section_contents=get, posix_memalign=alloc)
    c['sysconf'] = lambda i, v, Fx, ev: [(4096, (), {})]
    m = {}
    for k, (vm, z) in enumerate(secs):
        for f, x in (('vma', vm), ('size', z)):
            m[('bs%d' % k, layout_off(ctx, 'bfd_section', f))] = x
    return c, m


def loads(ctx):
    w = base(ctx)
    fn = ctx.fns('load')[0]
    for secs in ([(0x1000, 64)], [(0x1000, 64), (0x1040, 32)], [(0x1000, 64), (0x1040, 32), (0x1060, 1)], [(0x1000, 64), (0x1048, 32)], [(0x1000, 64), (0x1040, 64)], [(0x1000, 200)], [], [(0x1000, 64), (0x1040, 200)], [(0x1040, 32), (0x1000, 64)]):
        for total in (64, 96, 97):
            for fail in (None, 0, 1, 2, 'mem'):
                for prev in (0, 1):
                    c, m = bfdworld(ctx, w, secs, fail, total)
                    S = CD + '::section'
                    m.update({('sec', w.L(S, 'vma')): 0x1000, ('sec', w.L(S, 'size')): total, ('sec', w.L(S, 'addr')): 0, ('sec', w.L(S, 'abfd')): ('p', 'bfd0', 0), ('core', w.L(CD, 'failed')): prev})
                    what = 'a section of %d bytes made of %s%s%s' % (total, ' '.join('%d@%#x' % (z, a) for a, z in secs) or 'nothing', ', %s failing' % fail if fail is not None else '', ', after a failure' if prev else '')
                    try:
                        r = Obj(ctx, calls=c).run(fn, {0: ('p', 'core', 0), 1: ('p', 'sec', 0)}, m)
                    except SimLimit:
                        r = []
                    ctx.expect(r, 'loaded', fn.where, '%s: loading does not return' % what)
                    by, a, ok = dict(secs), 0x1000, fail != 'mem'
                    while ok and a < 0x1000 + total:
                        k = [j for j, s in enumerate(secs) if s[0] == a]
                        ok = bool(k) and k[0] != fail and a + secs[k[0]][1] <= 0x1000 + total
                        if ok:
                            a += secs[k[0]][1]
                    for inst, ev, ret, mm in r:
                        f = mm.get(('core', w.L(CD, 'failed')))
                        f = f & 1 if type(f) is int else f
                        ctx.expect(f == int(bool(prev or not ok)), 'loaded', inst.where, '%s: the failure flag is %s' % (what, f), what)
                        n = 0
                        for e in ev:
                            if e[0] == 'read' and e[5]:
                                want = ('p', 'buf0', secs[e[1]][0] - 0x1000)
                                ctx.expect(e[2] == want and e[3] == 0 and e[4] == secs[e[1]][1] and want[2] + e[4] <= total, 'loaded', e[6], '%s: %s bytes go to %s' % (what, e[4], e[2]), what)
                        z = [e[3] for e in ev if e[0] == 'new']
                        ctx.expect(not z or z[0] >= total, 'loaded', inst.where, '%s: the image has only %s bytes' % (what, z))


def coalesce(ctx):
    w = base(ctx)
    fn = ctx.fns('coalesce')[0]
    S = CD + '::section'
    A, B = ('p', 'bfd0', 0), ('p', 'bfd1', 0)
    for L in ([], [(0x1000, 16, A)], [(0x1000, 16, A), (0x1010, 16, A)], [(0x1000, 16, A), (0x1010, 16, B)], [(0x1000, 16, A), (0x1011, 16, A)], [(0x1000, 16, A), (0x1010, 16, A), (0x1020, 8, A), (0x2000, 8, A), (0x2008, 8, B), (0x2010, 8, B)], [(0x1000, 16, B), (0x3000, 8, A)], [(0x1000, 32, A), (0x1010, 32, A)], [(1, 8, A), (9, 8, A), (17, 8, B)]):
        c, m = bfdworld(ctx, w, [(a, z) for a, z, b in L], None, 0)
        el = []
        for k, (a, z, b) in enumerate(L):
            for f, x in (('vma', a), ('size', z), ('addr', 0), ('abfd', b)):
                m[('old%d' % k, w.L(S, f))] = x
            el.append((('p', 'old%d' % k, 0),))
        m.update(w.ct.put(('p',) + w.core, el))
        m[('core', w.L(CD, 'failed'))] = 0
        what = 'sections ' + (' '.join('%#x+%d/%s' % (a, z, b[1][3:]) for a, z, b in L) or 'none')
        setless = w.less
        w.ct.less = lambda k, a, b, mem: Obj(ctx).run(ctx.fns('secless')[0], {0: ('p', '#less', 0), 1: a[0], 2: b[0]}, mem)[0][2] & 1
        try:
            r = Obj(ctx, calls=c).run(fn, {0: ('p', 'core', 0)}, m)
        except SimLimit:
            r = []
        w.ct.less = setless
        ctx.expect(r, 'loaded', fn.where, '%s: no outcome' % what)
        for inst, ev, ret, mm in r:
            got = []
            for e in w.ct.items(mm, ('p',) + w.core):
                x = e[0]
                if type(x) is tuple and x[2] is not None:
                    got.append(tuple(mm.get((x[1], x[2] + w.L(S, f))) for f in ('vma', 'size', 'abfd', 'addr')))
                ctx.expect(type(x) is tuple and not str(x[1]).startswith('old'), 'loaded', fn.where, '%s: a section that was released stays' % what, what)
            for a, z, b in L:
                ok = [g for g in got if type(g[0]) is int and type(g[1]) is int and g[0] <= a and a + z <= g[0] + g[1] and g[2] == b and type(g[3]) is tuple]
                ctx.expect(ok or [x for x in L if x[0] != a and x[0] < a + z and a < x[0] + x[1]], 'loaded', fn.where, '%s: the section at %#x is not loaded' % (what, a), what)
            for g in got:
                cov = [x for x in L if type(g[0]) is int and g[0] <= x[0] and x[0] + x[1] <= g[0] + g[1]]
                ctx.expect(type(g[1]) is int and sum(x[1] for x in cov) >= g[1] and all(x[2] == g[2] for x in cov), 'loaded', fn.where, '%s: a section %s is made up' % (what, g[:2]), what)
            ns = len(set((e[0][1]) for e in w.ct.items(mm, ('p',) + w.core)))
