"""C13: all layers agree on the argument types: records built by the posting functions are printed,
written, read back and printed again."""
from rules.text import *
from rules.rawin import *
from rules.c14 import FR, formatter, xhead, Run, Case
from rules import c12, c24
from rules.c24 import TYPES, M64
W = {'UINT32': (32, 0), 'INT32': (32, 1), 'UINT64': (64, 0), 'INT64': (64, 1)}
SIMPLE = ('UINT32', 'INT32', 'UINT64', 'INT64', 'POINTER', 'DOUBLE')
DATA = ('CSTR', 'XDUMP', 'RAW')
# parameter of the C++ constructors -> (kind, passed bits, expected bits)
CXX = {'bool': [('UINT32', 1, 1), ('UINT32', 0, 0)], 'u8': [('UINT32', 0xfe, 0xfe)], 'u16': [('UINT32', 0xfffe, 0xfffe)], 'u32': [('UINT32', 0xfffffff0, 0xfffffff0)],
       's32': [('INT32', 0x80000001, 0x80000001), ('INT32', 7, 7)], 'u64': [('UINT64', M64 - 4, M64 - 4)], 's64': [('INT64', 1 << 63 | 5, 1 << 63 | 5)], 'ull': [('UINT64', M64 - 5, M64 - 5)],
       'sll': [('INT64', 1 << 63 | 6, 1 << 63 | 6)], 'char': [('INT32', 0xc3, 0xffffffc3), ('INT32', 0x41, 0x41)], 'schar': [('INT32', 0xfb, 0xfffffffb)], 'short': [('INT32', 0x8001, 0xffff8001)],
       'flt': [('DOUBLE', 0x3fc00000, 0x3ff8000000000000)], 'dbl': [('DOUBLE', 0xc008000000000001, 0xc008000000000001)],
       'ptr': [('POINTER', 0x7f1234567890, 0x7f1234567890), ('POINTER', 0, 0)], 'vptr': [('POINTER', 0x7f1234567890, 0x7f1234567890)]}
VAL = {'UINT32': (0xfffffff0, 7), 'INT32': (0x80000001, 5), 'UINT64': (M64 - 4, 9), 'INT64': (1 << 63 | 5, 11), 'POINTER': (0x7f1234567890, 0x10), 'DOUBLE': (0xc008000000000001, 0x3ff8000000000000)}
PATHS = ('push_ring_16', 'push_ring_1', 'push_ring_2', 'push_ring_3', 'post_tls_16', 'capi_16')


def roots(ctx):
    tls = ('hogl::tls::ring',)
    R = fmtroots() + rawroots() + [Root('raw', FR + '::process', stop=OBM), Root('mask', FB + '::format_basic', ptypes=lambda p: len(p) > 2 and not any('char' in q or 'string' in q or '&' in q for q in p[2:]))]
    R += [Root('mk_' + t, 'hogldrv::mkarg_' + t) for t in list(CXX) + ['cstr', 'mstr', 'str', 'gstr', 'xdump', 'raw', 'none']]
    R += [Root('type_' + t, 'cdrv_' + t, stop=tls) for t in list(TYPES) + ['cstr', 'mstr', 'arr']]
    R += [Root(k, 'hogldrv::' + k, stop=tls) for k in PATHS if k[:4] != 'capi'] + [Root('capi_16', '__hogl_post_16', stop=tls)]
    return R


def check(ctx):
    c12.Src.head = lambda self, k: xhead(ctx, ord('u'), 1, 1, 16, 44 + k)
    ctx.rule('kinds', 'every C++ and C argument type becomes one argument of the right kind, with its value, signedness and width')
    ctx.rule('text', 'the text formatter prints every kind with the width and signedness it was posted with, at every position')
    ctx.rule('deferred', 'arguments of a format string are handed to it with the width and signedness they were posted with, none left out')
    ctx.rule('raw', 'what the raw writer writes for a record is read back as the same record, for every kind at every position')
    ctx.rule('same', 'a record that went through the raw format prints the same text')
    ctx.rule('dump', 'the elements of a data dump are printed with their width, signedness and order')
    jobs = [(mk, t) for t in CXX] + [(mkother,)] + [(ctype, t) for t in list(TYPES) + ['cstr', 'mstr', 'arr']]
    for k, args in lists(ctx.tier == 'thorough'):
        jobs.append((pipe, k, args))
    jobs += [(dump, t, w) for t in 'xduf' for w in (1, 2, 4, 8) if t != 'f' or w > 2]
    jobs.append((hexdump,))
    ctx.pmap([jobs[k::40] for k in range(40)], lambda J: [j[0](ctx, *j[1:]) for j in J])


def lists(thorough):
    """argument lists: each kind at each position, with its neighbours of other kinds"""
    every = list(SIMPLE) + ['CSTR', 'GSTR', 'RAW', 'XDUMP']
    val = lambda k, j: (k, VAL[k][j % 2] if k in VAL else ('p', 'g%d' % j, 0) if k == 'GSTR' else 0 if k == 'RAW' and j == 3 else 1 + j % 5 if k != 'XDUMP' else 2 * (1 + j % 3))
    out = []
    for path in ('push_ring_16', 'post_tls_16', 'capi_16') if thorough else ('push_ring_16',):
        for r in range(len(every)):
            for f in (0, 1):
                L = [val(every[(j + r) % len(every)], j + f) for j in range(16)]
                out.append((path, [val('UINT32', f)] + L[1:] if L[0][0] in ('CSTR', 'GSTR', 'RAW') and f else L))
        for k in every:
            out.append((path, [val('INT32', 0)] + [val(k, j) for j in range(1, 16)]))
            if k not in ('RAW',):
                out.append((path, [val(k, j) for j in range(16)]))
            out.append((path, [('GSTR', ('p', 'fmt', 0))] + [val(k, j) for j in range(1, 16)]))
            out.append((path, [('CSTR', 6)] + [val('INT32', 0)] + [val(k, j) for j in range(2, 16)]))
    if not thorough:
        out += [('post_tls_16', out[0][1]), ('post_tls_16', out[5][1]), ('capi_16', out[3][1]), ('capi_16', out[7][1])]
    for k in every:
        out.append(('push_ring_1', [val(k, 1)]))
        out.append(('push_ring_2', [('CSTR', 5), val(k, 1)]))
        out.append(('push_ring_2', [('GSTR', ('p', 'fmt', 0)), val(k, 1)]))
        out.append(('push_ring_3', [val(k, 0), val(k, 1), val('UINT64', 0)]))
    for v in (0, 1, 0x7fffffff, 0x80000000, 0xffffffff):
        for k in ('UINT32', 'INT32'):
            out.append(('push_ring_1', [(k, v)]))
            out.append(('push_ring_2', [('CSTR', 5), (k, v)]))
    for v in (0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 32, (1 << 63) - 1, 1 << 63, M64):
        for k in ('UINT64', 'INT64', 'POINTER', 'DOUBLE'):
            out.append(('push_ring_1', [(k, v)]))
            out.append(('push_ring_2', [('CSTR', 5), (k, v)]))
    out.append(('push_ring_2', [('GSTR', 0), ('UINT32', 1)]))
    out.append(('push_ring_2', [('UINT32', 1), ('GSTR', 0)]))
    return out


# -- constructors ---------------------------------------------------------------
def got(ctx, fn, params, mem=None, strs=None):
    io = IO(ctx)
    io.S.names.update(strs or {})
    io.o.calls['strlen'] = c12.strlen
    a = {0: ('p', 'out', 0)}
    a.update(params)
    r = io.o.run(fn, a, dict(mem or {}))
    o = lambda n: ('out', layout_off(ctx, 'hogl::arg', n))
    return [(x[0], x[3].get(o('type')), x[3].get(o('val')), x[3].get(o('len'))) for x in r]


def mk(ctx, t):
    fn = ctx.fn('mk_' + t)
    for kind, v, want in CXX[t]:
        L = got(ctx, fn, {1: v})
        ctx.expect(L, 'kinds', fn.where, 'argument of type %s: no result' % t)
        for inst, ty, val, ln in L:
            w = (1 << W[kind][0]) - 1 if kind in W else M64
            ctx.expect(ty == arg_type(ctx, kind) and type(val) is int and val & w == want & w, 'kinds', inst.where, 'a C++ argument of type %s and bits %x becomes kind %s with value %s instead of %s with %x' % (t, v, ty, val, kind, want), t)


def mkother(ctx):
    for t in ('cstr', 'mstr'):
        fn = ctx.fn('mk_' + t)
        for s in ('', 'a', 'hello'):
            m = {}
            cstring('s', s, m, {})
            for inst, ty, val, ln in got(ctx, fn, {1: ('p', 's', 0)}, m) or [(fn, None, None, None)]:
                ctx.expect((ty, val) == (arg_type(ctx, 'CSTR'), ('p', 's', 0)) and type(ln) is int and ln & 0xffffffff == len(s), 'kinds', inst.where, 'a C string of %d characters becomes kind %s of %s with length %s' % (len(s), ty, val, ln), t)
        for inst, ty, val, ln in got(ctx, fn, {1: 0}) or [(fn, None, None, None)]:
            ctx.expect(ty == arg_type(ctx, 'CSTR') and val == 0 and type(ln) is int and ln & 0xffffffff == 0, 'kinds', inst.where, 'a null string becomes kind %s of %s with length %s' % (ty, val, ln), t)
    fn = ctx.fn('mk_gstr')
    for v in (('p', 's', 0), 0):
        for inst, ty, val, ln in got(ctx, fn, {1: ('p', 'gs', 0)}, {('gs', layout_off(ctx, 'hogl::arg_gstr', 'str')): v}) or [(fn, None, None, None)]:
            ctx.expect((ty, val) == (arg_type(ctx, 'GSTR'), v), 'kinds', inst.where, 'a global string becomes kind %s of %s' % (ty, val), 'gstr')
    fn = ctx.fn('mk_raw')
    for n in (0, 1, 0x80000000, 0xffffffff):
        o = lambda f: ('rw', layout_off(ctx, 'hogl::arg_raw', f))
        for inst, ty, val, ln in got(ctx, fn, {1: ('p', 'rw', 0)}, {o('ptr'): ('p', 's', 0), o('len'): n}) or [(fn, None, None, None)]:
            ctx.expect((ty, val) == (arg_type(ctx, 'RAW'), ('p', 's', 0)) and type(ln) is int and ln & 0xffffffff == n, 'kinds', inst.where, 'raw data of %d bytes becomes kind %s of %s with length %s' % (n, ty, val, ln), 'raw')
    fn = ctx.fn('mk_xdump')
    for inst, ty, val, ln in got(ctx, fn, {1: ('p', 'xd', 0)}) or [(fn, None, None, None)]:
        ctx.expect((ty, val) == (arg_type(ctx, 'XDUMP'), ('p', 'xd', 0)), 'kinds', inst.where, 'a data dump becomes kind %s of %s' % (ty, val), 'xdump')
    fn = ctx.fn('mk_none')
    for inst, ty, val, ln in got(ctx, fn, {}) or [(fn, None, None, None)]:
        ctx.expect(ty == arg_type(ctx, 'NONE') and ty == 0, 'kinds', inst.where, 'an empty argument becomes kind %s' % ty, 'none')
    fn = ctx.fn('mk_str')
    for s in ('', 'hello'):
        L = got(ctx, fn, {1: ('p', 'str', 0)}, strs={'str': lit(s)})
        for inst, ty, val, ln in L or [(fn, None, None, None)]:
            ctx.expect(ty == arg_type(ctx, 'CSTR'), 'kinds', inst.where, 'a std::string becomes kind %s' % ty, 'str')


def ctype(ctx, t):
    c24.kinds(ctx, t)


# -- post, print, write, read, print ----------------------------------------------
def gtext(k):
    return 'g%d' % (k % 7) + 'lobal'[:k % 4]


FMTTEXT = 'fm%dt'


def pipe(ctx, path, args):
    for fn in ctx.fns(path):
        pipe1(ctx, fn, path, args)


def pipe1(ctx, fn, path, args):
    a2 = [(k, v) for k, v in args]
    params = at = None
    if path[:4] == 'capi':
        params, sz = {0: ('p', 'area0', 0), 1: 5, 2: ('p', 'ap', 0)}, ctx.sizes['hogl::arg']
        at = lambda k: ('ap', k * sz)
    ex, S, slot, tail, av = c12.run(ctx, fn, a2, 9, params=params, at=at)
    what = '%s(%s)' % (path, ' '.join(k + ('' if k not in DATA else '(%d)' % v) for k, v in args))
    ctx.expect(ex and not S.safe.found, 'kinds', fn.where, '%s: the record is not stored' % what)
    strs = {}
    gm = {}
    for j, (k, v) in enumerate(args):
        if k == 'GSTR' and v:
            cstring(v[1], FMTTEXT if v[1] == 'fmt' else gtext(int(v[1][1:])), gm, strs)
    text_of = {}
    for j, (k, v) in enumerate(args):
        if k == 'GSTR':
            text_of[j] = '' if not v else FMTTEXT if v[1] == 'fmt' else gtext(int(v[1][1:]))
        elif k == 'CSTR':
            text_of[j] = ''.join(chr(S.byte(j, q)) for q in range(v))
    for inst, ev, ret, m in ex:
        mem = {c: v for c, v in m.items() if c[0] == 'recs0'}
        for j, (k, v) in enumerate(args):          # what an old record left behind
            c = ('recs0', slot + av + 8 * j)
            x = mem.get(c)
            if k in ('UINT32', 'INT32') and type(x) is int:
                mem[c] = x & 0xffffffff | 0xdeadbeef << 32
        mem.update(gm)
        names = {'ring': 'ring', 'area': 'theArea', 'sect': 'S1'}
        am, aS = area_mem(ctx, 'area', names['area'], [names['sect']] * 8)
        mem.update(am)
        strs.update(aS)
        cstring('ring', names['ring'], mem, strs)
        mem[('recs0', slot + layout_off(ctx, REC, 'area'))] = ('p', 'area', 0)
        mem[('recs0', slot + layout_off(ctx, REC, 'timestamp'))] = 0x1122334455667788
        b = [f for f in ctx.layout[REC] if f[0] == 'section'][0][2]
        mem[('recs0', slot + b // 64 * 8)] = 0xa0b0c0d0e0f10 & ((1 << 52) - 1) | 5 << b % 64
        o = lambda n: ('data', layout_off(ctx, 'hogl::format::data', n))
        mem[o('ring_name')], mem[o('record')] = ('p', 'ring', 0), ('p', 'recs0', slot)
        first = printed(ctx, what, mem, strs, args, text_of, S)
        # raw format
        t = Raw(ctx, strs=strs)
        r = t.o.run(ctx.fns('raw')[0], {0: ('p', 'fmt', 0), 1: ('p', 'sb', 0), 2: ('p', 'data', 0)}, {**mem, **t.vmem}, cap=400)
        ctx.expect(len(r) == 1, 'raw', ctx.fns('raw')[0].where, '%s: the raw writer does not finish' % what)
        for i2, e2, r2, m2 in r[:1]:
            stream = bytes_of(e2)
            if stream is None:
                ctx.bad('raw', i2.where, '%s: the raw writer writes unknown bytes' % what)
                continue
            ver = V2(ctx)
            P = Parser(ctx, ver, 4096)
            rec = {'ts': 0x1122334455667788, 'seq': 0xa0b0c0d0e0f10, 'ring': 'ring', 'area': 'theArea', 'sect': 'S1', 'args': []}
            for j, (k, v) in enumerate(args):
                if j in text_of:
                    rec['args'].append((k, [ord(c) for c in text_of[j]]))
                elif k == 'RAW':
                    rec['args'].append((k, [S.byte(j, q) for q in range(v)]))
                elif k == 'XDUMP':
                    rec['args'].append((k, S.head(j) + [S.byte(j, q) for q in range(v)]))
                else:
                    rec['args'].append((k, v))
            ex3 = P.run(stream)
            nx = ctx.fns('next')[0]
            ctx.expect(len(ex3) == 1 and not P.bad, 'raw', nx.where, '%s: the raw reader does not read back what was written%s' % (what, ': ' + P.bad[0][1] if P.bad else ''))
            for i3, e3, r3, m3 in ex3[:1]:
                d = compare(P, ctx, rec, r3, m3)
                n = sum(e[1] for e in e3 if e[0] == 'read' and e[2])
                ctx.expect(d is None, 'raw', i3.where, '%s: read back from the raw format: %s' % (what, d), what if len(args) == 1 else None)
                ctx.expect(d is not None or n == len(stream), 'raw', i3.where, '%s: the reader takes %d of %d written bytes' % (what, n, len(stream)))
                if d is None and first is not None:
                    mm = dict(m3)
                    for j in range(16):             # 32 bit values share their word with older data
                        c = (P.rec[0], P.rec[1] + av + 8 * j)
                        if j < len(args) and args[j][0] in ('UINT32', 'INT32') and type(mm.get(c)) is int:
                            mm[c] = mm[c] & 0xffffffff | 0xdeadbeef << 32
                    t = Text(ctx)
                    r = t.o.run(ctx.fns('process')[0], {0: ('p', 'fmt', 0), 1: ('p', 'sb', 0), 2: r3}, {**mm, **fmt0(ctx), **t.vmem}, cap=400)
                    second = [norm(x[1]) for x in r]
                    ctx.expect(second == [first], 'same', r[0][0].where if r else nx.where, '%s: after the raw format the text is %s instead of %s' % (what, second[:1], first), what if len(args) == 1 else None)


def V2(ctx):
    return 1


FM = {}


def fmt0(ctx):
    if 'm' not in FM:
        FM['m'] = formatter(ctx, 0)
    return FM['m']


def bytes_of(ev):
    out = []
    for e in ev:
        if e[0] == 'txt':
            for t in e[1]:
                if type(t) is str:
                    out.append(ord(t))
                else:
                    return None
    return out


class Raw(Text):
    """words pushed byte by byte are little endian"""

    def push(self, i, v, Fx, ev):
        if len(v) == 3 and type(v[2]) is int and v[2] <= 4096 and type(v[1]) is tuple and v[1][2] is not None:
            b, k = [], 0
            while k < v[2]:
                x = Fx.mem.get((v[1][1], v[1][2] + k))
                w = 1
                while k + w < v[2] and (v[1][1], v[1][2] + k + w) not in Fx.mem and type(x) is int:
                    w += 1
                b += le(x, w) if type(x) is int and w in (1, 2, 4, 8) else [self.byte(Fx, v[1][1], v[1][2] + k + q) for q in range(w)]
                k += w
            return [(None, (('txt', tuple(chr(x) if type(x) is int else x for x in b)),), {})]
        return Text.push(self, i, v, Fx, ev)


def norm(ev):
    s, toks = Text.text(ev)
    out = []
    for t in toks:
        if t[0] == 'fmt':
            t = ('fmt', t[1], tuple((INTS.get(x[0], x[0]),) + tuple(x[1:]) for x in t[2]))
        elif t[0] == 'flt':
            t = t[:1] + t[2:]
        out.append(t)
    return s, tuple(out)


def printed(ctx, what, mem, strs, args, text_of, S):
    t = Text(ctx, strs=strs)
    fn = ctx.fns('process')[0]
    r = t.o.run(fn, {0: ('p', 'fmt', 0), 1: ('p', 'sb', 0), 2: ('p', 'data', 0)}, {**mem, **fmt0(ctx), **t.vmem}, cap=400)
    ctx.expect(len(r) == 1, 'text', fn.where, '%s: the formatter does not finish' % what)
    if len(r) != 1:
        return None
    inst, ev, ret, m = r[0]
    s, toks = Text.text(ev)
    kinds = [k for k, v in args]
    if kinds[0] in ('CSTR', 'GSTR') and len(kinds) > 1 and kinds[1] not in ('XDUMP', 'RAW'):
        f = [x for x in toks if x[0] == 'fmt']
        ctx.expect(len(f) == 1 and f[0][1] in (text_of[0], 'null' if not text_of[0] else None), 'deferred', inst.where, '%s: the format string is %s' % (what, f and f[0][1]))
        if len(f) == 1:
            A = f[0][2]
            ctx.expect(len(A) == len(args) - 1, 'deferred', inst.where, '%s: %d arguments are handed to the format string' % (what, len(A)))
            for j, ((k, v), x) in enumerate(zip(args[1:], A), 1):
                ctx.expect(same(k, v, x, text_of.get(j)), 'deferred', inst.where, '%s: argument %d is handed to the format string as %s' % (what, j, x), k)
        return norm(ev)
    if kinds[0] == 'RAW':
        return None         # a message of its own, with an address
    flat = [x for e in ev if e[0] == 'txt' for x in e[1]]
    T = {}
    line = ''.join(char(T, x) for x in flat)
    want = ' '.join(expected(T, k, v, text_of.get(j), S, j) for j, (k, v) in enumerate(args)) + '\n'
    ctx.expect(re.fullmatch(want, line, re.S), 'text', inst.where, '%s: the text is %s' % (what, show(flat)), what if len(args) == 1 else None)
    return norm(ev) if 'RAW' not in kinds else None


def show(flat):
    return repr(''.join(x if type(x) is str else '<%s>' % (x,) for x in flat))[:300]


def char(T, x):
    """one character for every token"""
    if type(x) is str:
        return x
    if x[0] == 'flt':
        x = ('flt',) + x[2:3] if x[1] == 'double' else x
    return T.setdefault(x, chr(0xe000 + len(T)))


def expected(T, k, v, text, S, j):
    """pattern of the text of one argument"""
    if k in W:
        return re.escape(spell(v, *W[k]))
    if k == 'POINTER':
        return char(T, ('ptr', v))
    if k == 'DOUBLE':
        return char(T, ('flt', 'double', v))
    if k in ('CSTR', 'GSTR'):
        return re.escape(text) if text else '(null)?'
    if k == 'RAW':
        return '[^\n]*?\\b%d\\b[^\n]*?' % v
    return re.escape(dumped([str(S.byte(j, q)) for q in range(v)], 16, chr(44 + j)))


def dumped(e, lw, delim):
    return ''.join('\n\t' + delim.join(e[q:q + lw]) for q in range(0, len(e), lw))


def same(k, v, x, text):
    t, y = x[0].replace(' const', '').replace('const ', '').strip(), x[1]
    if k in W:
        if t not in INTS or type(y) is not int:
            return False
        bits, sg = INTS[t]
        if bits < W[k][0] or sg != W[k][1] or sg and bits != W[k][0]:
            return False
        return y & ((1 << bits) - 1) == v & ((1 << W[k][0]) - 1)
    if k == 'POINTER':
        return '*' in t and 'char' not in t and y == v
    if k == 'DOUBLE':
        return t == 'double' and y == v
    if k in ('CSTR', 'GSTR'):
        return y in ((text,) if text else ('null', ''))
    return type(y) is str and 'not supported' in y


# -- data dumps -----------------------------------------------------------------
def dump(ctx, ty, w):
    """element k of the dump is one cell of the element's width"""
    V = {1: (0x80, 0x7f, 0xff), 2: (0x8001, 0x7fff, 0xfffe), 4: (0x80000001, 0x7fffffff, 0xfffffffe), 8: (1 << 63 | 1, (1 << 63) - 1, M64 - 1)}[w]
    for lw in (0, 1, 2, 3, 4):
        for n in (1, 2, 3, 4, 5):
            for prec in (0, 1, 2, 3, 4, 5) if ty == 'f' else (0,):
                vals = [V[q % 3] for q in range(n)]
                c = Case(ctx, [('XDUMP', tuple(xhead(ctx, ord(ty), w, prec, lw, 44)) + (1,) * (n * w))], sect=0)
                c.name('ring', 'ring')
                base = c.R.av + 8 + 4
                for q in range(n * w):
                    c.mem.pop(('rec', base + q), None)
                for q, x in enumerate(vals):
                    c.mem[('rec', base + q * w)] = x
                o = lambda f: ('data', layout_off(ctx, 'hogl::format::data', f))
                c.mem[o('ring_name')], c.mem[o('record')] = ('p', 'ring', 0), ('p', 'rec', 0)
                t = Text(ctx, strs=c.S)
                fn = ctx.fns('process')[0]
                r = t.o.run(fn, {0: ('p', 'fmt', 0), 1: ('p', 'sb', 0), 2: ('p', 'data', 0)}, {**c.mem, **fmt0(ctx), **t.vmem}, cap=400)
                what = 'a dump of type %s with %d elements of %d bytes, %d in a line' % (ty, n, w, lw)
                ctx.expect(len(r) == 1, 'dump', fn.where, what + ' is not finished')
                for inst, ev, ret, m in r[:1]:
                    flat = [y for e in ev if e[0] == 'txt' for y in e[1]]
                    if ty == 'f':
                        E = [[('flt', x)] for x in vals]
                    else:
                        E = [list('%x' % x) if ty == 'x' else list(spell(x, 8 * w, ty == 'd')) for x in vals]
                    want = []
                    for q, e in enumerate(E):
                        want += (list('\n\t') if lw and q % lw == 0 else [','] if q else []) + e
                    want.append('\n')
                    good = len(flat) == len(want) and all((type(x) is tuple and type(y) is tuple and x[0] == 'flt' and x[2] == y[1] and x[1] == ('float' if w == 4 else 'double') and (not prec or x[3] == str(prec))) or x == y for x, y in zip(flat, want))
                    ctx.expect(good, 'dump', inst.where, '%s prints %s' % (what, show(flat)), what if n == 3 else None)


def hexdump(ctx):
    for lw in (0, 1, 2, 4, 20):
        for n in (1, 2, 3, 5, 21):
            data = [(0x20 + 37 * q) % 256 for q in range(n)]
            c = Case(ctx, [('XDUMP', tuple(xhead(ctx, ord('H'), 1, 2, lw, 32)) + tuple(data))], sect=0)
            c.name('ring', 'ring')
            o = lambda f: ('data', layout_off(ctx, 'hogl::format::data', f))
            c.mem[o('ring_name')], c.mem[o('record')] = ('p', 'ring', 0), ('p', 'rec', 0)
            t = Text(ctx, strs=c.S)
            fn = ctx.fns('process')[0]
            r = t.o.run(fn, {0: ('p', 'fmt', 0), 1: ('p', 'sb', 0), 2: ('p', 'data', 0)}, {**c.mem, **fmt0(ctx), **t.vmem}, cap=400)
            what = 'a hex dump of %d bytes, %d in a line' % (n, lw)
            ctx.expect(len(r) == 1, 'dump', fn.where, what + ' is not finished')
            for inst, ev, ret, m in r[:1]:
                s = Text.text(ev)[0]
                L = s.split('\n\t')[1:] if '\n\t' in s else []
                k = lw or n
                got, ascii_ = [], ''
                for q, line in enumerate(L):
                    off, _, rest = line.partition(':')
                    m_ = re.findall(r'\b[0-9a-f]{2}(?= )', rest[:1 + 3 * k])
                    got += [int(x, 16) for x in m_]
                    ctx.expect(off.strip().isdigit() and int(off) == q * k, 'dump', inst.where, '%s: line %d starts with %s' % (what, q, off))
                ctx.expect(got == data, 'dump', inst.where, '%s prints %r' % (what, s), what)
