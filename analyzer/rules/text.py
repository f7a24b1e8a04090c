"""Text level model of the formatters: everything pushed or printed into an output buffer becomes
one text of characters and value tokens; printf conversions follow the bundled fmt library."""
import re, subprocess, time
from rules.io import *
OBM = ('hogl::ostrbuf::printf', 'hogl::ostrbuf::push_back', 'hogl::ostrbuf::flush')
FB = 'hogl::format_basic'
FMTARGS = 'fmt::dynamic_format_arg_store::'
INTS = {'bool': (8, 0), 'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0), 'int': (32, 1), 'unsigned int': (32, 0),
        'long': (64, 1), 'unsigned long': (64, 0), 'long long': (64, 1), 'unsigned long long': (64, 0)}
CONV = re.compile(r'%(?:(\d+)\$)?([-+0 #]*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|j|z|t|L)?(.)', re.S)
DEMANGLE = {}
LIMIT = 5000


def demangle(names):
    new = [n for n in names if n not in DEMANGLE]
    if new:
        r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(new), capture_output=True, text=True)
        out = r.stdout.splitlines()
        if len(out) != len(new):
            raise AnalysisBroken('cannot demangle')
        DEMANGLE.update(zip(new, out))
    return {n: DEMANGLE[n] for n in names}


def targs(sig, name):
    """top level template arguments after `name`"""
    k = sig.find(name + '<')
    if k < 0:
        return None
    k += len(name) + 1
    out, cur, d = [], '', 0
    while k < len(sig):
        c = sig[k]
        if c == '>' and d == 0:
            break
        d += c in '<(' 
        d -= c in '>)'
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
        k += 1
    return [x for x in out + [cur.strip()] if x]


def refsize(t):
    t = t.replace(' const', '').replace('const ', '').strip()
    return 8 if '*' in t else 1 if '[' in t else INTS[t][0] // 8 if t in INTS else {'float': 4, 'double': 8}.get(t, 1)


class Bad(Exception):
    pass


def spell(v, bits, signed):
    return str(sgn(v, bits) if signed else v & ((1 << bits) - 1))


def fmt_printf(fmt, args):
    """text tokens of a printf call of the fmt library; raises Bad where fmt would throw.
    args: [(C++ type, value)], value an int, a str (C string), or a token"""
    out, k, n = [], 0, 0
    while k < len(fmt):
        c = fmt[k]
        if c != '%':
            out.append(c)
            k += 1
            continue
        if fmt[k + 1:k + 2] == '%':
            out.append('%')
            k += 2
            continue
        m = CONV.match(fmt, k)
        if not m:
            raise Bad('malformed conversion in "%s"' % fmt)
        k = m.end()
        pos, flags, width, prec, ln, conv = m.groups()
        if width == '*' or prec == '*' or pos:
            raise Bad('argument dependent width in "%s"' % fmt)
        if n >= len(args):
            raise Bad('"%s" needs more than the %d arguments given' % (fmt, len(args)))
        t, v = args[n]
        n += 1
        t = t.replace(' const', '').replace('const ', '').strip()
        out += one(t, v, flags, width, prec, m.group(0), ln, conv, fmt)
    return out


def one(t, v, flags, width, prec, spec, ln, conv, fmt):
    if t.endswith('*') and t.rstrip('*').strip() in ('char', 'signed char'):
        if conv == 'p':
            return [('ptr', v)]
        if conv != 's':
            raise Bad('"%s" prints a string as %s' % (fmt, conv))
        if type(v) is not str:
            return [('str', v)]
        return list(v if prec is None or not prec.isdigit() else v[:int(prec)])
    if t.endswith('*') or t == 'std::nullptr_t':
        if conv not in 'ps':
            raise Bad('"%s" prints a pointer as %s' % (fmt, conv))
        return [('ptr', v)]
    if t in ('float', 'double', 'long double'):
        if conv not in 'fFeEgGaA':
            raise Bad('"%s" prints a floating point number as %s' % (fmt, conv))
        return [('flt', t, v, prec)]
    if t.startswith('std::') and 'string' in t and conv == 's':
        return list(v) if type(v) is str else [('str', v)]
    if t not in INTS:
        raise Bad('"%s": argument of type %s' % (fmt, t))
    bits, signed = INTS[t]
    if conv == 'c':
        return [chr(v & 255)] if type(v) is int else [('chr', v)]
    if conv not in 'diuxXo':
        raise Bad('"%s" prints an integer as %s' % (fmt, conv))
    tb = {'hh': 8, 'h': 16, 'l': 64, 'll': 64, 'j': 64, 'z': 64, 't': 64}.get(ln, bits)
    sg = conv in 'di'
    if type(v) is not int:
        return [('int', t, tb if ln in ('h', 'hh') else bits, sg, 16 if conv in 'xX' else 10, v)]
    x = sgn(v & ((1 << bits) - 1), bits) if signed else v & ((1 << bits) - 1)
    pb = max(bits, 32)       # small integers are stored as int
    if tb <= 32:
        tb2 = min(tb, 32) if ln else pb
        x = sgn(x & ((1 << tb2) - 1), tb2) if sg else x & ((1 << tb2) - 1)
    elif sg:
        x = sgn(x & ((1 << 64) - 1), 64)
    else:
        x &= (1 << pb) - 1
    s = ('%x' if conv == 'x' else '%X' if conv == 'X' else '%o' if conv == 'o' else '%d') % abs(x)
    if prec and prec.isdigit():
        s = s.rjust(int(prec), '0')
    neg = '-' if x < 0 else ''
    if width and width.isdigit():
        s = s.rjust(int(width) - len(neg), '0') if '0' in flags and '-' not in flags else (neg + s).ljust(int(width)) if '-' in flags else (neg + s).rjust(int(width))
        return list(s if not ('0' in flags and '-' not in flags) else neg + s)
    return list(neg + s)


TM = {'tm_sec': 0, 'tm_min': 4, 'tm_hour': 8, 'tm_mday': 12, 'tm_mon': 16, 'tm_year': 20, 'tm_wday': 24, 'tm_yday': 28, 'tm_isdst': 32}


def localtime(sec):
    """some local time: another zone than UTC, on another day"""
    return time.gmtime(sec + 9 * 3600 + 1800)


class Text(IO):
    def __init__(self, ctx, calls=None, strs=None, watch=None, trace=True):
        c = {'hogl::ostrbuf::printf': self.printf, 'hogl::ostrbuf::push_back': self.push, 'hogl::ostrbuf::flush': lambda i, v, Fx, ev: [(None, (), {})],
             FMTARGS + 'push_back': self.farg, 'fmt::to_string_view': self.view, 'fmt::basic_string_view::basic_string_view': None,
             'fmt::basic_printf_context::basic_printf_context': self.fctx, 'fmt::basic_printf_context::format': self.ffmt,
             'localtime_r': self.ltime, 'localtime': self.ltime, 'std::back_inserter': lambda i, v, Fx, ev: [(v[0], (), {})],
             'isprint': self.isprint, 'std::isprint': self.isprint, 'hogl::area::__dummy': None}
        c = {k: f for k, f in c.items() if f}
        c.update(calls or {})
        IO.__init__(self, ctx, calls=c, watch=watch)
        self.o.limit = LIMIT
        self.S.names.update(strs or {})
        demangle(sorted({i.d['callee'][2] for r in ctx.rootspec for f in ctx.fns(r) for i in f.insts if i.is_call and (i.callee or '') in (OBM[0], OBM[1], FMTARGS + 'push_back') and i.d.get('callee')}))
        self.problems = []

    # -- values ------------------------------------------------------------
    def sig(self, i):
        return DEMANGLE.get(i.d['callee'][2]) or demangle([i.d['callee'][2]])[i.d['callee'][2]]

    def cstr(self, Fx, p):
        """characters of a C string, None if unknown"""
        if type(p) is not tuple or p[2] is None:
            return None
        s = self.S.byroot(p[1], p[2])
        if s is not None:
            return ''.join(t for t, n in s) if all(n == 1 and len(t) == 1 for t, n in s) else None
        out, k = '', p[2]
        while len(out) < 4096:
            c = Fx.mem.get((p[1], k))
            if type(c) is not int:
                return None
            if c & 255 == 0:
                return out
            out, k = out + chr(c & 255), k + 1
        return None

    def value(self, Fx, t, p):
        """value of an argument passed by reference"""
        if type(p) is not tuple or p[2] is None:
            return ('?',)
        x = Fx.mem.get((p[1], p[2]))
        if '*' in t or '[' in t:
            s = self.cstr(Fx, x if '*' in t else p)
            return s if s is not None and 'char' in t and 'unsigned' not in t else x
        return x

    def txt(self, toks):
        return [(None, (('txt', tuple(toks)),), {})]

    def printf(self, i, v, Fx, ev):
        T = targs(self.sig(i), '::printf') or []
        f = self.cstr(Fx, v[1])
        if f is None or len(T) != len(v) - 2:
            return self.txt([('?fmt', i.where)])
        rd = tuple(('rd', a[1], a[2], refsize(t), i.where) for t, a in zip(T, v[2:]) if type(a) is tuple and a[2] is not None)
        try:
            return [(None, rd + (('txt', tuple(fmt_printf(f, [(t, self.value(Fx, t, a)) for t, a in zip(T, v[2:])]))),), {})]
        except Bad as e:
            self.problems.append((i.where, str(e)))
            return self.txt([('throw', str(e))])

    def push(self, i, v, Fx, ev):
        s = self.sig(i)
        a = s[s.rindex('(') + 1:s.rindex(')')] if '(' in s else ''
        if 'string' in a:
            segs = self.S.of(Fx, i.ops[1])
            return self.txt(list(''.join(t for t, n in segs)) if segs and all(n == 1 for t, n in segs) else [('?str', i.where)] if segs is None or segs else [])
        if len(v) == 3:
            if type(v[2]) is not int:
                return self.txt([('?len', i.where)])
            if v[2] > 4096:
                return self.txt([('range', v[1], v[2])])
            if type(v[1]) is not tuple or v[1][2] is None:
                return self.txt([('?data', i.where)] if v[2] else [])
            b = [self.byte(Fx, v[1][1], v[1][2] + k) for k in range(v[2])]
            return [(None, (('rd', v[1][1], v[1][2], v[2], i.where), ('txt', tuple(chr(x) if type(x) is int else x for x in b))), {})]
        if '*' in a:
            t = self.cstr(Fx, v[1])
            return self.txt(t if t is not None else [('str', v[1])])
        return self.txt([chr(v[1] & 255)] if type(v[1]) is int else [('chr', v[1])])

    # -- deferred formatting -------------------------------------------------
    def farg(self, i, v, Fx, ev):
        s = self.sig(i)
        T = targs(s, '::push_back')
        t = T[0] if T else s[s.rindex('(') + 1:s.rindex(')')].rstrip('&').strip()
        if '[' in t or 'char' in t and '*' not in t:
            x = self.cstr(Fx, v[1])
            return [(None, (('farg', 'const char*', x),), {})]
        return [(None, (('farg', t, self.value(Fx, t, v[1]), i.where),), {})]

    def view(self, i, v, Fx, ev):
        s = self.cstr(Fx, v[0])
        return [(('agg', v[0], len(s) if s is not None else None), (), {})]

    def fctx(self, i, v, Fx, ev):
        p = [(k, x) for k, x in enumerate(v[2:-2], 2) if type(x) is tuple]
        k, p = p[0] if p else (0, None)
        n = v[k + 1] if p else None
        s = self.cstr(Fx, p) if p else None
        return [(None, (('fctx', p, s[:n] if s is not None and type(n) is int else None),), {})]

    def ffmt(self, i, v, Fx, ev):
        f = [e for e in ev if e[0] == 'fctx']
        a, done = [], False
        for e in ev:
            if e[0] == 'fctx' and done:
                a, done = [], False
            if e[0] == 'fmt':
                a, done = [], True
            if e[0] == 'farg':
                a.append(e[1:3])
        return [(None, (('fmt', f[-1][1] if f else None, tuple(a), i.where), ('txt', (('fmt', f[-1][2] if f else None, tuple(a)),))), {})]

    def ltime(self, i, v, Fx, ev):
        s = Fx.mem.get((v[0][1], v[0][2])) if type(v[0]) is tuple else None
        if type(s) is not int:
            return None
        g = localtime(s)
        p = v[1] if len(v) > 1 else ('p', '#tm', 0)
        if type(p) is not tuple:
            p = Fx.ptr(i.ops[1])
        return [(p, (), {(p[1], p[2] + TM['tm_' + n]): x for n, x in (('sec', g.tm_sec), ('min', g.tm_min), ('hour', g.tm_hour), ('mday', g.tm_mday), ('mon', g.tm_mon - 1), ('year', g.tm_year - 1900), ('wday', (g.tm_wday + 1) % 7), ('yday', g.tm_yday - 1), ('isdst', 0))})]

    @staticmethod
    def isprint(i, v, Fx, ev):
        if type(v[0]) is not int:
            return [(0, (), {}), (1, (), {})]
        return [(int(32 <= v[0] & 255 < 127), (), {})]

    @staticmethod
    def text(ev):
        """text of a trace: (string with \\0 in place of tokens, tokens)"""
        s, toks = [], []
        for e in ev:
            if e[0] == 'txt':
                for t in e[1]:
                    if type(t) is str:
                        s.append(t)
                    else:
                        s.append('\0')
                        toks.append(t)
        return ''.join(s), toks


def fmtroots():
    R = [Root('process', FB + '::process', stop=OBM)]
    for m in ('output_plain', 'output_fmt', 'output_raw'):
        R.append(Root('v:' + FB + '::' + m, FB + '::' + m, stop=OBM, optional=True))
    return R


def cstring(root, s, m, S):
    """a C string at its own memory root"""
    for k, c in enumerate(s):
        m[(root, k)] = ord(c)
    m[(root, len(s))] = 0
    S[root] = lit(s)


class Rec:
    """memory of a record and what belongs to it"""

    def __init__(self, ctx, root='rec', **kw):
        self.ctx, self.root, self.mem, self.S = ctx, root, {}, {}
        self.o = lambda n: layout_off(ctx, 'hogl::record', n)
        self.m(self.o('area'), kw.get('area', 0))
        self.m(self.o('timestamp'), kw.get('ts', 0))
        b = ctx.layout['hogl::record']
        self.m(self.o('seqnum'), (kw.get('seq', 0) & ((1 << 52) - 1)) | kw.get('sect', 0) << 52)
        self.m(self.o('argtype'), 0)
        self.av = self.o('argval')
        self.types = 0

    def m(self, off, v):
        self.mem[(self.root, off)] = v

    def arg(self, i, type_, val=None, data=None):
        self.types |= type_ << 4 * i
        self.m(self.o('argtype'), self.types)
        if data is not None:
            self.m(self.av + 8 * i, data[0])
            self.m(self.av + 8 * i + 4, data[1])
        elif val is not None:
            self.m(self.av + 8 * i, val)


def area_mem(ctx, root, name, sects):
    S, m = {}, {}
    o = lambda n: (root, layout_off(ctx, 'hogl::area', n))
    cstring(root + ':n', name, m, S)
    m[o('_name')] = ('p', root + ':n', 0)
    m[o('_section')] = ('p', root + ':s', 0)
    for k, s in enumerate(sects):
        cstring(root + ':s%d' % k, s, m, S)
        m[(root + ':s', 8 * k)] = ('p', root + ':s%d' % k, 0)
    m[(root + ':s', 8 * len(sects))] = 0
    bo = layout_off(ctx, 'hogl::area', '_bitmap')
    m[(root, bo + layout_off(ctx, 'hogl::bitmap', '_size'))] = len(sects)
    m[(root, bo + layout_off(ctx, 'hogl::bitmap', '_data'))] = ('p', root + ':bits', 0)
    return m, S
