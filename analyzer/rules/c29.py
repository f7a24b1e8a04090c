"""C29: text headers contain exactly the selected fields in a fixed order."""
from rules.text import *
BITS = ('TIMESPEC', 'TIMESTAMP', 'TIMEDELTA', 'RING', 'SEQNUM', 'AREA', 'SECTION')
NAMES = {'timespec': 'TIMESPEC', 'timestamp': 'TIMESTAMP', 'timedelta': 'TIMEDELTA', 'ring': 'RING', 'seqnum': 'SEQNUM', 'area': 'AREA', 'section': 'SECTION'}
PRESET = {'default': 'TIMESTAMP RING SEQNUM AREA SECTION', 'fast0': 'TIMESPEC RING SEQNUM AREA SECTION', 'fast1': 'TIMESPEC TIMEDELTA RING SEQNUM AREA SECTION'}
G = 10 ** 9


def roots(ctx):
    return fmtroots() + [Root('fields', FB + '::format_basic', ptypes=lambda p: any('char' in q for q in p[1:])),
                         Root('mask', FB + '::format_basic', ptypes=lambda p: len(p) > 2 and not any('char' in q or 'string' in q or '&' in q for q in p[2:]), optional=True)]


def value(ctx, n):
    e = dict(ctx.enums.get(FB + '::Fields', []))
    if n in e:
        return e[n]
    for k, L in ctx.enums.items():
        if k.startswith(FB) and n in dict(L):
            return dict(L)[n]
    raise AnalysisBroken('enumerator %s not found' % n)


def bitmap(ctx):
    return {n: value(ctx, n) for n in BITS}


def expected(sel, r, last):
    """regular expression for the header"""
    out = ''
    t, sec, ns = r['ts'], r['ts'] // G, r['ts'] % G
    if 'TIMESPEC' in sel:
        out += '0*%d\\.%09d ' % (sec, ns)
    if 'TIMESTAMP' in sel:
        g = localtime(sec)
        out += '%02d%02d%04d %02d:%02d:%02d\\.%09d ' % (g.tm_mon, g.tm_mday, g.tm_year, g.tm_hour, g.tm_min, g.tm_sec, ns)
    if 'TIMEDELTA' in sel:
        # how a step back in time is shown is not specified
        out += '\\([^)]*\\) ' if t < last else '\\(%d\\) ' % (t - last if last else 0)
    two = [x for x, n in ((re.escape(r['ring']), 'RING'), (str(r['seq']), 'SEQNUM')) if n in sel]
    out += ':'.join(two) + ' ' if two else ''
    two = [x for x, n in ((re.escape(r['area']), 'AREA'), (re.escape(r['sect']), 'SECTION')) if n in sel]
    out += ':'.join(two) + ' ' if two else ''
    return out


class Page(Text):
    """a formatter object fed with records"""

    def __init__(self, ctx, mask):
        Text.__init__(self, ctx)
        self.fmt = self.start(ctx, mask)
        self.out_of_place = []

    def start(self, ctx, mask):
        f = ctx.fns('mask') if 'mask' in ctx.rootspec else []
        ctx.anchor(len(f) == 1, 'constructor of format_basic from a field mask')
        ex = self.run(f[0], {0: ('p', 'fmt', 0), 1: mask}, {})
        ctx.anchor(len(ex) == 1, 'one path through the constructor of format_basic')
        return {k: v for k, v in ex[0][3].items() if k[0] == 'fmt'}

    def feed(self, r, args=(), arg_mem=None):
        ctx = self.ctx
        S, m = {}, dict(self.fmt)
        cstring('ring', r['ring'], m, S)
        if r['area'] == 'INVALID' and r.get('noarea'):
            R = Rec(ctx, area=0, ts=r['ts'], seq=r['seq'], sect=r['k'])
        else:
            am, s2 = area_mem(ctx, 'area', r['area'], ['S-zero', 'S-one', 'S-two'][:r['k']] + [r['sect']] + ['S-after'])
            m.update(am)
            S.update(s2)
            R = Rec(ctx, area=('p', 'area', 0), ts=r['ts'], seq=r['seq'], sect=r['k'])
        for a in args:
            R.arg(*a)
        m.update(R.mem)
        m.update(arg_mem or {})
        o = lambda n: ('data', layout_off(ctx, 'hogl::format::data', n))
        m[o('ring_name')], m[o('record')] = ('p', 'ring', 0), ('p', 'rec', 0)
        self.S.names.update(S)
        fn = ctx.fns('process')[0]
        ex = self.run(fn, {0: ('p', 'fmt', 0), 1: ('p', 'sb', 0), 2: ('p', 'data', 0)}, m, cap=2000)
        return ex

    def keep(self, mem):
        self.fmt = {k: v for k, v in mem.items() if k[0] == 'fmt'}


def check(ctx):
    ctx.rule('header', 'for every field selection each record starts with exactly the selected fields, taken from that record, in the documented order')
    ctx.rule('message', 'the header is followed by the message and exactly one newline')
    ctx.rule('names', 'every documented field name selects its field and every preset its fields, alone and combined')
    ctx.anchor(len({v for v in bitmap(ctx).values()}) == 7, 'seven field bits')
    for n, f in PRESET.items():
        want = 0
        for x in f.split():
            want |= value(ctx, x)
        ctx.expect(value(ctx, n.upper()) == want, 'names', FB, 'preset %s does not consist of %s' % (n, f), 'preset ' + n)
    b = bitmap(ctx)
    masks = range(128)
    ctx.pmap([[m for m in masks if m % 8 == k] for k in range(8)], lambda L: [one_mask(ctx, m, b) for m in L] and None)
    names(ctx, b)
    lines(ctx)


def lines(ctx):
    """records of every kind end with exactly one newline"""
    from rules import c14
    T = c14.texts(ctx, False)
    fm = c14.formatter(ctx, value(ctx, 'RING'))
    fn = ctx.fns('process')[0]

    def job(L):
        for d, a in L:
            c = c14.build(ctx, a)
            r = Text(ctx, strs=c.S)
            m = dict(fm)
            m.update(c.mem)
            for e in r.run(fn, {0: ('p', 'fmt', 0), 1: ('p', 'sb', 0), 2: ('p', 'data', 0)}, m, cap=2000):
                t, _ = r.text(e[1])
                ctx.expect(t.startswith('ring ') and t.endswith('\n') and not t.endswith('\n\n'), 'message', fn.where, '%s is output as "%s"' % (d, t.replace('\n', '\\n')[:200]))
    ctx.pmap([T[k::16] for k in range(16)], job)


def seqs(sel, quick):
    """timestamps of consecutive records"""
    base = 1700000000 * G
    out = [(base + 123456789, base + 123456790, base + G + 5, base + 3 * G + 987650000)]
    if 'TIMESPEC' in sel or 'TIMEDELTA' in sel:
        # time does not always go forward
        out += [(base + 5 * G + 70000, base + 2 * G + 30000, base + 2 * G + 30070, base + 3 * G)]
    if 'TIMESPEC' in sel:
        # every way the cached parts can repeat or change
        out += [(base, base + 9999, base + 10000, base + 10000 + 9999), (base + 120000, base + G + 120000, base + G + 120001), (5, G, G + 5, 60 * G + 10000),
                (9 * G + 999999999, 10 * G, 99999999999999999), (base + 50000, base + 2 * G + 50000 + 1, base + 2 * G + 70000)]
    if 'TIMEDELTA' in sel:
        out += [(7, 7, 8, 1 << 40)]
    return out


def one_mask(ctx, m, b):
    sel = {n for k, n in enumerate(BITS) if m >> k & 1}
    mask = 0
    for n in sel:
        mask |= b[n]
    for q, S in enumerate(seqs(sel, ctx.tier != 'thorough')):
        P = Page(ctx, mask)
        last = 0
        for j, t in enumerate(S):
            k = (1, 0, 2, 1)[j % 4]
            r = {'ts': t, 'seq': (17, 4503599627370495, 4294967296 + j, 1000000)[(j + q) % 4], 'ring': ('ringname', 'R', 'r-%d' % q)[j % 3], 'area': ('AREA-X', 'B', 'Some.Area')[(j + 1) % 3], 'sect': ('SEC-Y', 'Z')[j % 2], 'k': k}
            if j == 2 and q == 0:
                r.update(area='INVALID', sect='INVALID', noarea=1)
            args = [(0, 1, 4242 + j)]      # one unsigned number
            ex = P.feed(r, args)
            where = ctx.fns('process')[0].where
            desc = 'fields {%s}, record %d of times %s' % (' '.join(n for n in BITS if n in sel), j, S)
            ctx.anchor(bool(ex), 'process() returns')
            want = expected(sel, r, last)
            for _, ev, ret, mem in ex:
                s, toks = P.text(ev)
                mt = re.match(want, s)
                full = mt and s[mt.end():] == '%d\n' % (4242 + j)
                ctx.expect(bool(mt) and s[mt.end():].lstrip(' ')[:len('%d' % (4242 + j))] == '%d' % (4242 + j), 'header', where,
                           '%s: printed "%s" where "%s" was expected' % (desc, show_text(s, toks), want.replace('\\', '')), desc if m in (45, 127) and j == 1 else None)
                ctx.expect(bool(full) or not mt, 'message', where, '%s: message printed as "%s"' % (desc, show_text(s[mt.end():] if mt else s, toks)))
            last = t
            P.keep(ex[0][3])


def show_text(s, toks):
    t = iter(toks)
    return ''.join(c if c != '\0' else '<%s>' % (next(t, '?'),) for c in s).replace('\n', '\\n')


# -- field strings ----------------------------------------------------------------------------
class Fields(Text):
    def __init__(self, ctx, text):
        self.textarg = text
        st = {'std::basic_stringstream::basic_stringstream': self.open, 'std::basic_istringstream::basic_istringstream': self.open, 'std::basic_stringstream::~basic_stringstream': self.nop,
              'std::basic_istringstream::~basic_istringstream': self.nop, 'std::basic_stringstream::str': self.str, 'std::basic_istringstream::str': self.str, 'std::getline': self.getline,
              'std::basic_ios::operator bool': lambda i, v, Fx, ev: [(int(('eof',) not in ev), (), {})], 'std::basic_ios::operator!': lambda i, v, Fx, ev: [(int(('eof',) in ev), (), {})],
              'std::basic_ios::good': lambda i, v, Fx, ev: [(int(('eof',) not in ev), (), {})], 'std::operator|': lambda i, v, Fx, ev: [(24, (), {})]}
        Text.__init__(self, ctx, calls=st)

    @staticmethod
    def nop(i, v, Fx, ev):
        return [(None, (), {})]

    def open(self, i, v, Fx, ev):
        s = None
        for o in i.ops[1:]:
            if o and o[0] in ('v', 'a') and s is None:
                s = self.S.of(Fx, o)
        p = v[0] if type(v[0]) is tuple else Fx.ptr(i.ops[0])
        if s is None:
            return None
        return [(None, (('open', ''.join(t for t, n in s)),), {(p[1], p[2]): ('p', '#ssvt', 0), ('#ssvt', -24): 0})]

    def str(self, i, v, Fx, ev):
        t = [e[1] for e in ev if e[0] == 'open']
        if not t or len(i.ops) != 2:
            return None
        p = Fx.ptr(i.ops[0])
        return [(None, (), {(p[1], p[2]): self.S.ptr(lit(t[-1]))})]

    def getline(self, i, v, Fx, ev):
        t = [e[1] for e in ev if e[0] == 'open']
        d = chr(v[2] & 255) if len(v) > 2 and type(v[2]) is int else '\n'
        if not t or len(v) > 2 and type(v[2]) is not int:
            return None
        n = sum(e[1] for e in ev if e[0] == 'got')
        rest = t[-1][n:]
        p = Fx.ptr(i.ops[1])
        if type(v[1]) is tuple:
            p = v[1]
        if not rest:
            return [(('p', 'ss', 0), (('eof',),), {(p[1], p[2]): self.S.ptr(()), ('ss', 0): ('p', '#ssvt', 0), ('#ssvt', -24): 0})]
        k = rest.find(d)
        w, n = (rest[:k], k + 1) if k >= 0 else (rest, len(rest))
        return [(('p', 'ss', 0), (('got', n),), {(p[1], p[2]): self.S.ptr(lit(w)), ('ss', 0): ('p', '#ssvt', 0), ('#ssvt', -24): 0})]


def names(ctx, b):
    fns = ctx.fns('fields')
    of = {n: b[f] for n, f in NAMES.items()}
    of.update({p: value(ctx, p.upper()) for p in PRESET})
    T = [(None, of['default']), ('nonsense', 0), ('', 0)]
    T += [(n, v) for n, v in of.items()]
    for d in ',|':
        for x in NAMES:
            T += [(x + d + y, of[x] | of[y]) for y in NAMES if y != x]
        T += [(d.join(NAMES), sum(of[n] for n in NAMES)), (d.join(reversed(list(NAMES))), sum(of[n] for n in NAMES))]
        T += [(p + d + n, of[p] | of[n]) for p in PRESET for n in NAMES]
        T += [('ring%snonsense%sarea' % (d, d), of['ring'] | of['area'])]
    off = layout_off(ctx, FB, '_fields')
    for fn in fns:
        for t, want in T:
            F = Fields(ctx, t)
            m = {}
            if t is not None:
                cstring('text', t, m, F.S.names)
            for _, ev, ret, mem in F.run(fn, {0: ('p', 'fmt', 0), 1: ('p', 'text', 0) if t is not None else 0}, m, cap=200):
                got = mem.get(('fmt', off))
                ctx.expect(got == want, 'names', fn.where, 'the field string %s selects %s instead of %s' % (t, bits(got, b), bits(want, b)), 'field string %s' % t if want in of.values() else None)


def bits(v, b):
    return '{%s}' % ' '.join(n for n in BITS if v & b[n]) if type(v) is int else 'unknown fields'
