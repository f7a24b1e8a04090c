"""C14: formatting any record terminates and reads only that record's data."""
from rules.text import *
from rules.safe import *
from sim import SimLimit
FR = 'hogl::format_raw'
FMTCALL = ('format', 'vprintf', 'vsprintf', 'vfprintf', 'printf', 'sprintf', 'vformat', 'vformat_to', 'format_to')
CATCHES = ('fmt::v6::format_error', 'fmt::format_error', 'std::runtime_error', 'std::exception')


def roots(ctx):
    return fmtroots() + [Root('raw', FR + '::process', stop=OBM), Root('mask', FB + '::format_basic', ptypes=lambda p: len(p) > 2 and not any('char' in q or 'string' in q or '&' in q for q in p[2:]), optional=True)] + \
        [Root('eh:' + m, FB + '::' + m, stop=OBM, eh=True, optional=True) for m in ('output_fmt', 'output_plain', 'output_raw', 'process')]


def arg_type(ctx, n):
    e = dict(ctx.enums.get('hogl::arg::(anonymous)', []))
    for k, L in ctx.enums.items():
        if k.startswith('hogl::arg') and not e.get(n):
            e.update(L)
    if n not in e:
        raise AnalysisBroken('argument kind %s not found' % n)
    return e[n]


KINDS = ('UINT32', 'INT32', 'UINT64', 'INT64', 'POINTER', 'DOUBLE', 'CSTR', 'GSTR', 'XDUMP', 'RAW')


def xhead(ctx, type_, bw, pr, lw, delim):
    b = {f[0]: f[2] for f in ctx.layout['hogl::arg_xdump::format']}
    v = type_ << b['type'] | (bw & 15) << b['byte_width'] | (pr & 15) << b['precision'] | lw << b['line_width'] | delim << b['delim']
    return [v >> 8 * k & 255 for k in range(ctx.sizes['hogl::arg_xdump::format'])]


class Case:
    """one record: arguments are stored as record::set_args stores them"""

    def __init__(self, ctx, args, **kw):
        """args: (kind, value): numbers, text or None for CSTR / GSTR, bytes for RAW and XDUMP"""
        self.R = Rec(ctx, **kw)
        n = len(args)
        off = 8 * n
        self.S, self.mem = {}, {}
        self.safe = Safe()
        self.ok = [(0, self.R.av + 8 * n)]
        self.null = []
        for k, (kind, v) in enumerate(args):
            t = arg_type(ctx, kind)
            if kind in ('CSTR', 'XDUMP', 'RAW'):
                if v is None:
                    self.R.arg(k, t, data=(0, 0))
                    self.null.append(k)
                    continue
                b = [ord(c) for c in v] + [0] if kind == 'CSTR' else list(v)
                ln = len(v)
                for j, x in enumerate(b):
                    self.R.mem[('rec', self.R.av + off + j)] = x
                self.R.arg(k, t, data=(off, ln))
                if b:
                    self.ok.append((self.R.av + off, self.R.av + off + len(b)))
                off += len(b)
            elif kind == 'GSTR':
                if v is None:
                    self.R.arg(k, t, 0)
                else:
                    cstring('g%d' % k, v, self.mem, self.S)
                    self.R.arg(k, t, ('p', 'g%d' % k, 0))
                    self.safe.read['g%d' % k] = [(0, len(v) + 1)]
            else:
                self.R.arg(k, t, v)
        self.safe.read['rec'] = self.ok
        self.safe.words['rec'] = (self.R.av, self.R.av + 8 * n)
        self.mem.update(self.R.mem)
        self.args = args

    def name(self, text, root):
        cstring(root, text, self.mem, self.S)
        self.safe.read[root] = [(0, len(text) + 1)]


class Run(Text):
    def __init__(self, ctx, case):
        Text.__init__(self, ctx, watch=case.safe.watch, strs=case.S)
        case.safe.kill = True
        self.safe = case.safe


def build(ctx, args, ring='ring', area='area', sect='sect', ts=1700000000123456789, seq=77):
    c = Case(ctx, args, area=('p', 'area', 0) if area is not None else 0, ts=ts, seq=seq, sect=1)
    c.name(ring, 'ring')
    if area is not None:
        m, S = area_mem(ctx, 'area', area, ['zero', sect, 'two'])
        c.mem.update(m)
        c.S.update(S)
        c.safe.read['area:n'] = [(0, len(area) + 1)]
        c.safe.read['area:s1'] = [(0, len(sect) + 1)]
    o = lambda n: ('data', layout_off(ctx, 'hogl::format::data', n))
    c.mem[o('ring_name')], c.mem[o('record')] = ('p', 'ring', 0), ('p', 'rec', 0)
    return c


def formatter(ctx, fields, last=0):
    m = {}
    t = Text(ctx)
    f = ctx.fns('mask') if 'mask' in ctx.rootspec else []
    ctx.anchor(len(f) == 1, 'constructor of format_basic from a field mask')
    ex = t.run(f[0], {0: ('p', 'fmt', 0), 1: fields}, {})
    m = {k: v for k, v in ex[0][3].items() if k[0] == 'fmt'}
    if last:
        m[('fmt', layout_off(ctx, FB, '_last_timestamp'))] = last
    return m


def one(ctx, rid, desc, c, fm):
    r = Run(ctx, c)
    m = dict(fm)
    m.update(c.mem)
    fn = ctx.fns(rid)[0]
    try:
        ex = r.run(fn, {0: ('p', 'fmt', 0), 1: ('p', 'sb', 0), 2: ('p', 'data', 0)}, m, cap=4000)
    except SimLimit:
        if not c.safe.found:
            raise
        ex = []
    who = 'text' if rid == 'process' else 'raw'
    ctx.expect(all(len(e[1]) < LIMIT for e in ex) and bool(ex or c.safe.found), 'ends', fn.where, 'the %s formatter does not finish %s' % (who, desc), desc)
    for w, p in r.problems:
        ctx.bad('throws', w, '%s: %s' % (desc, p))
    ctx.ok('throws')
    bad = {}
    for ev in [c.safe.found] + [e[1] for e in ex]:
        for e in ev:
            if e[0] == 'div0':
                bad.setdefault(('ends', e[1]), '%s: division by zero' % desc)
            elif e[0] == 'bad-read':
                bad.setdefault(('reads', e[-1]), '%s: reads bytes %s..%s of %s, which do not belong to it' % (desc, e[2], e[2] + e[3] if None not in (e[2], e[3]) else '?', what(e[1])))
            elif e[0] == 'rd':
                for x in c.safe.check((None, e[1], e[2]), e[3], e[4]):
                    bad.setdefault(('reads', e[4]), '%s: outputs bytes %s..%s of %s, which do not belong to it' % (desc, e[2], e[2] + e[3], what(e[1])))
            elif e[0] in ('bad-write', 'overflow'):
                bad.setdefault(('scratch', e[-1]), '%s: writes byte %s of %s' % (desc, e[2] if len(e) > 3 else '?', e[1]))
            elif e[0] == 'wild':
                bad.setdefault(('scratch', e[-1]), '%s: writes at an unknown place of the array of %s' % (desc, e[1]))
            elif e[0] == 'farg' and 'char' in e[1] and type(e[2]) is not str:
                bad.setdefault(('reads', fn.where), '%s: a string argument is %s' % (desc, 'null' if e[2] == 0 else 'not terminated inside its bytes'))
            elif e[0] == 'fmt' and (e[1] is None or type(e[1]) is tuple and e[1][1] == 'rec' and r.cstr is None):
                bad.setdefault(('reads', e[3]), '%s: the format string is %s' % (desc, 'unknown'))
        for t in Text.text(ev)[1]:
            if t[0] == 'str':
                bad.setdefault(('reads', fn.where), '%s: prints %s as a string' % (desc, 'a null pointer' if t[1] == 0 else 'bytes that are not terminated'))
            elif t[0] in ('range',):
                for x in c.safe.check(t[1], t[2], fn.where):
                    bad.setdefault(('reads', fn.where), '%s: outputs %s bytes from %s' % (desc, t[2], what(t[1][1]) if type(t[1]) is tuple else 'a null pointer'))
            elif t[0] in ('?len', '?fmt', '?data'):
                bad.setdefault(('reads', t[1]), '%s: unknown %s' % (desc, {'?len': 'length', '?fmt': 'format', '?data': 'bytes'}[t[0]]))
    for (rule, w), t in bad.items():
        ctx.bad(rule, w, t)
    for k in ('reads', 'scratch'):
        if not any(x[0] == k for x in bad):
            ctx.ok(k)


def what(r):
    return {'rec': 'the record', 'ring': 'the ring name', 'area:n': 'the area name', 'area:s1': 'the section name'}.get(r, 'the string argument' if str(r)[:1] == 'g' else str(r))


VAL = {'UINT32': 0xfffffff0, 'INT32': 0x80000000, 'UINT64': (1 << 64) - 1, 'INT64': 1 << 63, 'POINTER': 0, 'DOUBLE': 0x7ff8000000000000}
EVERY = [(k, VAL[k]) for k in VAL] + [('CSTR', None), ('CSTR', ''), ('CSTR', 'a%s%'), ('GSTR', None), ('GSTR', ''), ('GSTR', '%d %n %*d %'), ('RAW', None), ('RAW', (1, 2, 3)), ('XDUMP', None)]


def texts(ctx, thorough):
    x = ('XDUMP', tuple(xhead(ctx, ord('d'), 4, 0, 2, 32)) + (1, 0, 0, 0, 2, 0, 0, 0, 3, 0, 0, 0))
    ev = EVERY + [x]
    out = [('a record without arguments', [])]
    for a in ev:
        out.append((label([a]), [a]))
        out.append((label([a] * 16), [a] * 16))
        for b in ev:
            out.append((label([a, b]), [a, b]))
            if a[0] in ('CSTR', 'GSTR') or thorough:
                for c in (ev if thorough else ev[:1] + ev[6:8] + ev[-3:]):
                    out.append((label([a, b, c]), [a, b, c]))
    for k in range(len(ev)):
        mix = [ev[(k + 3 * j) % len(ev)] for j in range(16)]
        out.append((label(mix), mix))
    return out


def label(args):
    return 'a record with %s' % ' '.join('%s%s' % (k, '' if k in VAL else '(null)' if v is None else '(%d bytes)' % len(v)) for k, v in args)


def dumps(ctx, thorough):
    out = []
    for ty in 'HxdufZ\0':
        for bw in (0, 1, 2, 3, 4, 5, 7, 8, 15):
            for lw in (0, 1, 2, 3, 255):
                for n in (0, 1, 2, 3, 4, 5, 8, 9, 12, 16, 17):
                    if not thorough and n not in (0, 1, 3, 8, 9) and not (bw == 8 and n >= 16):
                        continue
                    for pr in ((0, 1, 2, 3, 4, 5, 6, 15) if ty == 'f' and lw in (0, 1) and bw in (4, 8) or thorough else (0, 9)):
                        out.append((ty, bw, lw, n, pr))
    # longer than a narrow counter can hold
    for ty in 'Hxu':
        for bw in (1, 2):
            for lw in (0, 20, 255):
                out.append((ty, bw, lw, 300 * bw, 0))
    return out


def check(ctx):
    ctx.rule('ends', 'formatting a record of every shape returns')
    ctx.rule('reads', 'only the bytes stored for the arguments and the terminated names are read')
    ctx.rule('scratch', 'every write to a local buffer lies inside the buffer')
    ctx.rule('throws', 'no conversion inside the formatters can be rejected by the print functions')
    ctx.rule('caught', 'a malformed or mismatched format string of the user is answered with text, not an exception')
    from rules.c29 import value
    F = {n: value(ctx, n) for n in ('DEFAULT', 'FAST0', 'FAST1')}
    F['NONE'] = 0
    F['ALL'] = 127 if value(ctx, 'SECTION') == 64 else F['DEFAULT'] | F['FAST1']
    thorough = ctx.tier == 'thorough'
    fm = {n: formatter(ctx, v) for n, v in F.items()}
    jobs = [('text', d, a) for d, a in texts(ctx, thorough)] + [('raw', d, a) for d, a in texts(ctx, False)] + [('dump', x) for x in dumps(ctx, thorough)]
    names = [('r', 'a', 's'), ('', '', ''), ('ring' * 40, 'a', 's'), ('r', 'area' * 60, 's'), ('r', 'a', 'sect' * 50), ('R' * 300, 'A' * 300, 'S' * 300)]
    for f in F:
        for nm in names:
            for ts, seq, last in ((1, 0, 0), ((1 << 64) - 1, (1 << 52) - 1, 1), (10 ** 18 + 999999999, 10 ** 15, 10 ** 18 + 10 ** 9)):
                jobs.append(('head', f, nm, ts, seq, last))
        jobs.append(('head', f, None, 5, 5, 0))
    for nm in names:
        jobs.append(('rawhead', nm))

    def job(J):
        for j in J:
            if len([v for v in ctx.viol if v[0] == 'ends']) >= 2:
                return
            if j[0] == 'text':
                one(ctx, 'process', j[1], build(ctx, j[2]), fm['NONE'])
            elif j[0] == 'raw':
                one(ctx, 'raw', j[1], build(ctx, j[2]), {})
            elif j[0] == 'dump':
                ty, bw, lw, n, pr = j[1]
                c = build(ctx, [('XDUMP', tuple(xhead(ctx, ord(ty), bw, pr, lw, 44)) + tuple((7 * k + 1) % 256 for k in range(n)))])
                one(ctx, 'process', 'a dump of type %s, element width %d, line width %d, precision %d with %d bytes' % (repr(ty), bw, lw, pr, n), c, fm['NONE'])
            elif j[0] == 'head':
                f, nm, ts, seq, last = j[1:]
                c = build(ctx, [('UINT32', 3)], ring=nm[0] if nm else 'ring', area=nm[1] if nm else None, sect=nm[2] if nm else '', ts=ts, seq=seq)
                m = formatter(ctx, F[f], last)
                one(ctx, 'process', 'header %s of names with %s characters, time %d, sequence number %d' % (f, tuple(map(len, nm)) if nm else 'no', ts, seq), c, m)
            elif j[0] == 'rawhead':
                nm = j[1]
                one(ctx, 'raw', 'names of %s characters' % (tuple(map(len, nm)),), build(ctx, [('UINT32', 3)], ring=nm[0], area=nm[1], sect=nm[2]), {})
    ctx.pmap([jobs[k::32] for k in range(32)], job)
    caught(ctx)


def caught(ctx):
    n = 0
    for rid in list(ctx.rootspec):
        if not rid.startswith('eh:'):
            continue
        for fn in ctx.fns(rid):
            for i in fn.insts:
                q = i.callee or ''
                if not i.is_call or not q.startswith('fmt::') or q.split('::')[-1] not in FMTCALL:
                    continue
                n += 1
                if i.op != 'invoke' and not nothrow(i):
                    ctx.bad('caught', i.where, 'an error of the format string leaves %s as an exception' % fn.qname)
                    continue
                pad = fn.succ[i.blk][1] if len(fn.succ[i.blk]) > 1 else None
                ctx.expect(pad is not None and handled(ctx, fn, pad), 'caught', i.where, 'an error of the format string leaves %s as an exception' % fn.qname, fn.qname)
    ctx.anchor(n > 0, 'deferred formatting of a user format string')


def nothrow(i):
    return False


def handled(ctx, fn, pad):
    """the landing pad takes format_error and reaches a normal return"""
    def assume(f, i):
        if i.op == 'extractvalue' and i.d.get('ix') == 1:
            return 77
        if i.is_call and (i.callee or '').startswith('llvm.eh.typeid.for'):
            o = i.ops[0]
            t = o[1] if o[0] == 'g' else ''
            return 77 if t.replace('typeinfo for ', '') in CATCHES else 5
        return None
    bad = []

    def step(i, a, Fx):
        if i.op == 'landingpad' and i.blk != pad:
            return None         # another exception, thrown while this one is handled
        if i.op == 'resume' or i.is_call and (i.callee or '') in ('__cxa_rethrow', '__cxa_throw', 'std::terminate', '__clang_call_terminate', 'abort'):
            bad.append(i.where)
            return None
        if i.is_call and (i.callee or '') == '__cxa_begin_catch':
            return a + ('caught',)
        return a
    s = Sim(fn, step, (), assume=assume, start=pad, cap=64)
    return bool(s.exits) and not bad and all('caught' in e[1] for e in s.exits)
