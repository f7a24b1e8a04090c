"""The raw log reader: a parser object built by its own constructor, fed with a byte stream."""
from rules.common import *
from rules.engine import layout_off
from rules.obj import Obj
from rules.c14 import arg_type, KINDS
RP, RD = 'hogl::raw_parser', 'hogl::file_rdbuf'
STRK, BLOBK, W32 = ('CSTR', 'GSTR'), ('XDUMP', 'RAW'), ('UINT32', 'INT32')
NCELL = 4096          # longer data is not followed byte by byte


NOP = lambda i, v, Fx, ev: [(None, (), {})]
STREAM = {'std::%s*' % n: NOP for n in ('basic_ios', 'ios', 'basic_ostream', 'ostream', 'basic_stringstream', 'stringstream', 'basic_stringbuf', 'basic_iostream', 'operator<<')}      # messages


def le(v, n):
    return [v >> 8 * k & 255 for k in range(n)]


def rawroots():
    return [Root('next', RP + '::next'), Root('pctor', RP + '::' + 'raw_parser', ptypes=lambda p: len(p) > 3)]


class Parser:
    def __init__(self, ctx, ver, size):
        """memory after construction"""
        self.ctx, self.ver = ctx, ver
        fn = ctx.fns('pctor')
        ctx.anchor(len(fn) == 1, 'constructor of the raw parser')
        self.size, self.sizes, self.bad = {}, {}, []
        r = Obj(ctx, calls=dict(STREAM, **{'malloc': self.alloc, 'strdup': lambda i, v, Fx, ev: [(('p', 'dummy', 0), (), {})]})).run(fn[0], {0: ('p', 'prs', 0), 1: ('p', 'in', 0), 2: ver, 3: size}, {})
        ctx.anchor(len(r) >= 1, 'constructed raw parser')
        inst, ev, ret, self.mem = r[0]
        for e in ev:
            if e[0] == 'new':
                self.sizes[e[1]] = e[3]
        o = lambda n: ('prs', layout_off(ctx, RP, n))
        self.where = inst.where
        p = self.mem.get(o('_record'))
        ctx.anchor(type(p) is tuple, 'record buffer of the raw parser')
        self.rec = p[1:3]
        self.failed = o('_failed')
        self.room = None
        n = self.sizes.get(self.rec[0])
        self.recsize = n if type(n) is int else None
        self.av = layout_off(ctx, 'hogl::record', 'argval')

    def alloc(self, i, v, Fx, ev):
        n = len([e for e in ev if e[0] == 'new'])
        return [(('p', 'new%d' % n, 0), (('new', 'new%d' % n, i.where, v[0] if type(v[0]) is int else None),), {})]

    def run(self, stream, endless=False, mem=None):
        """exits; events ('read', n, ok)"""
        fn = self.ctx.fns('next')[0]
        self.bad = []

        def read(i, v, Fx, ev):
            if len(v) != 3:
                return None
            done = [e for e in ev if e[0] == 'read']
            pos = sum(e[1] for e in done if e[2])
            p, n = v[1] if type(v[1]) is tuple else Fx.ptr(i.ops[1]), v[2]
            if type(n) is not int:
                self.bad.append((i.where, 'reads an unknown number of bytes'))
                return []
            if type(p) is tuple:
                lim = self.limit(Fx, p)
                if lim is None or p[2] is None or p[2] < 0 or p[2] + n > lim:
                    self.bad.append((i.where, 'reads %d bytes into %s' % (n, 'unknown memory' if lim is None or p[2] is None else '%s of %d bytes at offset %d' % (self.name(p), lim, p[2]))))
                    return []
            if not endless and pos + n > len(stream):
                return [(0, (('read', n, False),), {})]
            up = {}
            if type(p) is tuple and n <= NCELL:
                b = [stream[pos + k] if pos + k < len(stream) else 65 for k in range(n)]
                if n in (1, 2, 4, 8) and (type(p[1]) is tuple or p[1] == self.rec[0] and p[2] < self.rec[1] + self.av + 128):
                    up[(p[1], p[2])] = sum(x << 8 * k for k, x in enumerate(b))
                else:
                    up = {(p[1], p[2] + k): x for k, x in enumerate(b)}
            return [(1, (('read', n, True),), up)]
        m = dict(self.mem if mem is None else mem)
        if mem is None:
            r, o = self.rec
            m[(r, o + layout_off(self.ctx, 'hogl::record', 'argtype'))] = (1 << 64) - 1
            m[(r, o + layout_off(self.ctx, 'hogl::record', 'seqnum'))] = (1 << 64) - 1
            for k in range(16):
                m[(r, o + self.av + 8 * k)], m[(r, o + self.av + 8 * k + 4)] = 0xfff00003, 0xfffe

        def watch(i, Fx, ev):
            w = written_ptr(i)
            if w is not None and i.op == 'store':
                p = Fx.ptr(w)
                if p[1] == self.rec[0] or p[1] in self.sizes:
                    lim = self.sizes.get(p[1])
                    if p[2] is None or lim is None or p[2] < 0 or p[2] >= lim:
                        self.bad.append((i.where, 'writes %s of %s' % ('an unknown byte' if p[2] is None else 'byte %d' % p[2], self.name(p))))
                        return 'kill'
            return ()
        isp = lambda i, v, Fx, ev: [(int(type(v[0]) is int and 32 <= v[0] & 255 < 127), (), {})]
        return Obj(self.ctx, calls=dict(STREAM, **{'': read, 'isprint': isp, 'std::isprint': isp}), watch=watch).run(fn, {0: ('p', 'prs', 0)}, m, cap=64)

    def name(self, p):
        return 'the record buffer' if p[1] == self.rec[0] else 'a name buffer' if p[1] in self.sizes else 'a variable'

    def limit(self, Fx, p):
        if p[1] in self.sizes:
            return self.sizes[p[1]]
        if type(p[1]) is tuple and p[1][0] == 'v' and str(p[1][1]).isdigit():
            a = Fx.fn.inst(('v', int(p[1][1])))
            if a is not None and a.op == 'alloca' and a.ops and a.ops[0][0] == 'c':
                return Fx.get(a.ops[0]) * a.d.get('asz', 0)
        return None


def encode(ctx, rec, ver=1):
    """bytes of a record of the raw format; args: (kind, int | bytes | (declared length,))"""
    out = le(rec['ts'], 8) + le(rec['seq'], 8)
    for n in ('ring', 'area', 'sect'):
        out += [len(rec[n]) & 255] + [ord(c) for c in rec[n]]
    out += le(sum(arg_type(ctx, k) << 4 * j for j, (k, v) in enumerate(rec['args'])), 8)
    for k, v in rec['args']:
        if k in STRK + BLOBK:
            w = 2 if k in STRK or ver == 0 else 4
            if type(v) is int:
                out += le(v, w)       # the data is the endless filler
            else:
                out += le(len(v), w) + list(v)
        else:
            out += le(v, 4 if k in W32 else 8)
    return out


def compare(P, ctx, rec, ret, m):
    """what differs between the record handed out and `rec`, None if nothing"""
    r, o = P.rec
    D = lambda n: layout_off(ctx, 'hogl::format::data', n)
    if type(ret) is not tuple:
        return 'no record'
    p = m.get((ret[1], ret[2] + D('record')))
    if p != ('p', r, o):
        return 'another record buffer'
    g = lambda n: m.get((r, o + layout_off(ctx, 'hogl::record', n)))
    if g('timestamp') != rec['ts']:
        return 'timestamp %s instead of %s' % (g('timestamp'), rec['ts'])
    if type(g('seqnum')) is not int or g('seqnum') & ((1 << 52) - 1) != rec['seq'] & ((1 << 52) - 1):
        return 'sequence number %s instead of %s' % (g('seqnum'), rec['seq'])
    q = m.get((ret[1], ret[2] + D('ring_name')))
    e = text(m, q, rec['ring'])
    if e:
        return 'ring name ' + e
    a = g('area')
    if type(a) is not tuple or a[2] is None:
        return 'no area'
    e = text(m, m.get((a[1], a[2] + layout_off(ctx, 'hogl::area', '_name'))), rec['area'])
    if e:
        return 'area name ' + e
    s = m.get((a[1], a[2] + layout_off(ctx, 'hogl::area', '_section')))
    sec = g('seqnum') >> 52 & 4095
    s = m.get((s[1], s[2] + 8 * sec)) if type(s) is tuple and s[2] is not None else None
    e = text(m, s, rec['sect'])
    if e:
        return 'section name ' + e
    want = sum((arg_type(ctx, 'CSTR' if k == 'GSTR' else k)) << 4 * j for j, (k, v) in enumerate(rec['args']))
    if g('argtype') != want:
        return 'argument kinds %s instead of %x' % ('%x' % g('argtype') if type(g('argtype')) is int else g('argtype'), want)
    used = []
    for j, (k, v) in enumerate(rec['args']):
        c = o + P.av + 8 * j
        if k in STRK + BLOBK:
            off, ln = m.get((r, c)), m.get((r, c + 4))
            if type(off) is not int or type(ln) is not int:
                return 'argument %d: no offset and length' % j
            off, ln = off & 0xffffffff, ln & 0xffffffff
            n = v if type(v) is int else len(v)
            if ln != n:
                return 'argument %d: length %d instead of %d' % (j, ln, n)
            z = ln + (1 if k in STRK else 0)
            if z and (off < 128 or o + P.av + off + z > P.recsize or any(a < off + z and off < b for a, b in used)):
                return 'argument %d: bytes %d..%d, which are not its own' % (j, off, off + z)
            used.append((off, off + z))
            if type(v) is not int:
                got = [m.get((r, o + P.av + off + q)) for q in range(n)]
                if got != list(v):
                    return 'argument %d: other bytes' % j
            if k in STRK and m.get((r, o + P.av + off + ln)) != 0:
                return 'argument %d: no null-terminator' % j
        else:
            x = m.get((r, c))
            w = 32 if k in W32 else 64
            if type(x) is not int or x & ((1 << w) - 1) != v & ((1 << w) - 1):
                return 'argument %d: %s instead of %s' % (j, x, v)
    return None


def text(m, p, want):
    if type(p) is not tuple or p[2] is None:
        return 'unknown'
    got = [m.get((p[1], p[2] + k)) for k in range(len(want) + 1)]
    if got != [ord(c) for c in want] + [0]:
        return 'differs'
    return None
