"""C28: cpu affinity strings select exactly the listed CPUs or are rejected."""
import re
from rules.io import *
SP = 'hogl::schedparam'
NCPU = 256
EINVAL_, ERANGE_ = 22, 34
CT = {'isdigit': str.isdigit, 'isxdigit': lambda c: c in '0123456789abcdefABCDEF', 'isspace': lambda c: c in ' \t\n\v\f\r', 'isalpha': str.isalpha, 'isalnum': str.isalnum, 'ispunct': lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != ' '}


def roots(ctx):
    st = ('hogl::platform::post_early',)
    return [Root('enter', SP + '::thread_enter', stop=st), Root('validate', SP + '::validate', stop=st)] + vroots()


# -- what a text means --------------------------------------------------------------------
def oracle(text):
    """set of CPUs, 'reject', or None where the property leaves it open"""
    if text.startswith('list:'):
        t, out = text[5:], set()
        if t.endswith(','):
            return None
        for it in t.split(','):
            m = re.fullmatch(r'(\d+)(?:-(\d+))?', it)
            if not m:
                return 'reject'
            a = int(m.group(1))
            b = int(m.group(2)) if m.group(2) else a
            if a > b or b >= NCPU:
                return 'reject'
            out |= set(range(a, b + 1))
        return out
    t = text[5:] if text.startswith('mask:') else text
    if re.fullmatch(r'0[xX][0-9a-fA-F]+', t):
        m = int(t, 16)
    elif re.fullmatch(r'0[0-7]*', t):
        m = int(t, 8)
    elif re.fullmatch(r'[1-9]\d*', t):
        m = int(t)
    else:
        return 'reject'
    if m >= 1 << 64:
        return 'reject'     # more CPUs than a mask can name
    return {k for k in range(64) if m >> k & 1}


def texts(quick):
    N = ['0', '1', '7', '30', '31', '32', '33', '63', '64', '65', '127', '128', '254', '255']
    BIG = ['256', '257', '1023', '4294967295', '4294967296', '4294967297', '18446744073709551615', '18446744073709551616', '99999999999999999999999']
    L = ['list:' + n for n in N + BIG]
    L += ['list:%s-%s' % p for p in [('0', '0'), ('0', '3'), ('0', '31'), ('30', '33'), ('31', '64'), ('0', '255'), ('254', '255'), ('255', '256'), ('0', '256'), ('3', '2'), ('64', '63'), ('255', '0'), ('256', '256'), ('0', '4294967296'), ('4294967296', '4294967297'), ('1', '18446744073709551615'), ('18446744073709551615', '18446744073709551615'), ('0', '18446744073709551616')]]
    L += ['list:' + s for s in ('0,2', '2,0', '0,1,2', '0-1,4-5', '1,3-4,9', '3,3', '1-3,2-4', '8,256', '256,8', '0-1,256', '5,4-3', '0,2-1,3')]
    L += ['list:' + s for s in ('', ',', '-', '0-', '-1', '-0', '0--1', '0-1-2', '0,,1', ',0', ' 0', '0 ', '0, 1', '0 1', '0x1', 'x', '0,x', '0-x', '1.5', '1;2', '+1', '0-+1', '0-,1', '0\t', '1_2', '1/2', '1:2', '1#')]
    for p in ('', 'mask:'):
        L += [p + hex(1 << k) for k in (range(64) if not p else (0, 1, 30, 31, 32, 33, 62, 63))]
        L += [p + s for s in ('0x3', '0xff00', '0xFFFFFFFF', '0xffffffffffffffff', '0x8000000000000001', '3', '12', '4294967296', '18446744073709551615', '010', '0', '0x100000000')]
        L += [p + s for s in ('-1', '0x', 'x', '0xr', '0x1g', '3 ', ' 3', '+3', '3,4', '3-4', '08', '1e', '0x-1', 'none', '12z', '-0', '0x1 0x2')]
    L += ['mask:', 'list', 'mask', 'lis:1', 'masks:1', 'list 1', 'LIST:1x', 'cpu:1', 'list:mask:1', 'mask:list:1', 'mask:mask:1', 'mask:0x10000000000000000', '0x10000000000000000', '99999999999999999999999', 'mask:-1']
    return L


# -- models of the library ----------------------------------------------------------------
def strto(signed):
    def f(i, v, Fx, ev):
        p, end, base = v[0], v[1], v[2]
        if type(p) is not tuple or p[2] is None or type(base) is not int:
            return None
        s, k = '', p[2]
        while True:
            c = IO.byte(Fx, p[1], k)
            if type(c) is not int:
                if type(p[1]) is tuple and k >= len(p[1][1]):
                    break
                return None
            if c == 0 or len(s) > 64:
                break
            s, k = s + chr(c), k + 1
        m = re.match(r'[ \t\n\v\f\r]*([+-]?)(0[xX](?=[0-9a-fA-F]))?', s)
        n = m.end()
        b = base
        if base not in (0, 16) and m.group(2):
            n, b = n - 1, base
            n -= 1
        if base == 0:
            b = 16 if m.group(2) else 8 if s[n:n + 1] == '0' else 10
        dig = '0123456789abcdefghijklmnopqrstuvwxyz'[:b]
        e = n
        while e < len(s) and s[e].lower() in dig:
            e += 1
        up, r = {}, 0
        if e > n:
            r = int(s[n:e], b)
            if r >= 1 << (63 if signed else 64):
                r = (1 << (63 if signed else 64)) - 1
                up[('#errno', 0)] = ERANGE_
            elif m.group(1) == '-':
                r = -r
        else:
            e = 0
        if type(end) is tuple and end[2] is not None:
            up[(end[1], end[2])] = ('p', p[1], p[2] + e)
        return [(r & ((1 << 64) - 1), (), up)]
    return f


class CPU(IO):
    def __init__(self, ctx, schedfail=False, nomem=False):
        self.nomem = nomem
        calls = {'__sched_cpualloc': self.alloc, '__sched_cpufree': lambda i, v, Fx, ev: [(None, (('free', self.ident(v[0]), i.where),), {})],
                 'pthread_setaffinity_np': self.affinity, 'sched_setaffinity': self.affinity, 'pthread_self': lambda i, v, Fx, ev: [(0x77, (), {})],
                 'pthread_setschedparam': self.sched, 'hogl::platform::post_early': lambda i, v, Fx, ev: [(None, (('report',),), {})]}
        self.schedfail, self.over = schedfail, []
        for n in ('strtoul', 'strtoull', '__isoc23_strtoul', '__isoc23_strtoull', 'std::strtoul', 'std::strtoull'):
            calls[n] = strto(False)
        for n in ('strtol', 'strtoll', '__isoc23_strtol', '__isoc23_strtoll', 'std::strtol', 'std::strtoll'):
            calls[n] = strto(True)
        for n, f in CT.items():
            calls[n] = calls['std::' + n] = lambda i, v, Fx, ev, f=f: [(int(f(chr(v[0] & 255))), (), {})] if type(v[0]) is int else None
        IO.__init__(self, ctx, calls=calls, watch=self.see)
        self.o.keep += ('is', '__sched', 'sched_', 'pthread_', 'hogl::platform::')

    def alloc(self, i, v, Fx, ev):
        if type(v[0]) is not int:
            return None
        out = [(('p', 'cpuset', 0), (('new', 'cpuset', i.where, (v[0] + 63) // 64 * 8),), {})]
        return out + ([(0, (('nomem',),), {})] if self.nomem else [])

    def affinity(self, i, v, Fx, ev):
        p, n = v[2], v[1]
        cpus = None
        if type(p) is tuple and p[2] is not None and type(n) is int and n <= 4096:
            cpus = set()
            for w in range(0, n, 8):
                x = Fx.mem.get((p[1], p[2] + w))
                if type(x) is not int:
                    cpus = None
                    break
                cpus |= {w * 8 + k for k in range(64) if x >> k & 1}
        e = ('apply', None if cpus is None else tuple(sorted(cpus)), v[0] in (0x77,) or i.callee == 'sched_setaffinity' and v[0] == 0, i.where)
        return [(0, (e,), {}), (EINVAL_, (e, ('applyfail',)), {})]

    def sched(self, i, v, Fx, ev):
        prio = Fx.mem.get((v[2][1], v[2][2])) if type(v[2]) is tuple else None
        e = ('sched', v[0] == 0x77, v[1], prio, i.where)
        return [(0, (e,), {})] + ([(1, (e, ('schedfail',)), {})] if self.schedfail else [])

    def see(self, i, Fx, a):
        if i.op in ('load', 'store'):
            c = Fx.cell(i.ops[1 if i.op == 'store' else 0])
            p = Fx.ptr(i.ops[1 if i.op == 'store' else 0])
            if p[1] == 'cpuset':
                n = [e[3] for e in a if e[0] == 'new' and e[1] == 'cpuset']
                if i.op == 'store' and (c is None or not n or not 0 <= c[1] <= n[-1] - 8):
                    return (('wild', i.where),)
            if i.op == 'load' and c is not None and type(c[0]) is str and c[0].startswith('#S'):
                s = self.S.byroot(c[0])
                if s is not None and not 0 <= c[1] <= slen(s):
                    self.over.append(i.where)
                    return 'kill'
        return ()


def objmem(io, text):
    o = lambda n: ('self', io.off(SP, n))
    m = {('self', 0): io.vt[SP][0], o('policy'): 2, o('priority'): 17, o('flags'): 0, o('cpu_affinity'): io.S.ptr(lit(text))}
    return m


def one(ctx, text):
    want = oracle(text)
    for rid in ('validate', 'enter'):
        fn = ctx.fn(rid)
        io = CPU(ctx)
        args = {0: ('p', 'self', 0)}
        if rid == 'enter':
            args[1] = ('p', 'title', 0)
        ex = io.run(fn, args, objmem(io, text), cap=600)
        what = 'cpu affinity "%s"' % text.encode('unicode_escape').decode()
        for w in io.over:
            ctx.bad('bounds', w, '%s: reads past the end of the text' % what)
        ctx.expect(bool(ex) or bool(io.over), 'terminate', fn.where, '%s: %s never returns' % (what, fn.qname), text)
        for inst, ev, ret, mem in ex:
            ap = [e for e in ev if e[0] == 'apply']
            sc = [e for e in ev if e[0] == 'sched']
            bad = [e for e in ev if e[0] == 'wild']
            ctx.expect(not bad, 'bounds', bad[0][1] if bad else fn.where, '%s: %s' % (what, 'writes outside the cpu set'), text)
            fails = [e for e in ev if e[0] == 'applyfail']
            if rid == 'validate':
                ctx.expect(not ap and not sc, 'dry', fn.where, '%s: validation changes the calling thread' % what, text)
                if want is not None:
                    ctx.expect(ret == int(want != 'reject'), 'reject' if want == 'reject' else 'select', fn.where, '%s: validation %s' % (what, 'accepts it' if ret else 'rejects it' if ret == 0 else 'gives an unknown result'), text)
                continue
            if want == 'reject':
                ctx.expect(not ap and ret == 0, 'reject', ap[0][3] if ap else fn.where, '%s is not rejected%s' % (what, ': CPUs %s selected' % (ap[0][1],) if ap else ''), text)
            elif want is not None:
                ctx.expect(len(ap) == 1 and ap[0][1] == tuple(sorted(want)) and ap[0][2], 'select', ap[0][3] if ap else fn.where, '%s selects %s' % (what, short(ap[0][1]) if ap else 'nothing'), text)
                ctx.expect(ret == int(not fails), 'report', fn.where, '%s: a %s is reported as %s' % (what, 'failure' if fails else 'success', ret), text)


def short(c):
    return 'an unknown set' if c is None else ','.join(str(x) for x in c[:12]) + ('...' if len(c) > 12 else '')


def sched(ctx):
    """policy and priority are applied to the calling thread and failures are reported; no affinity text leaves the affinity alone"""
    fn = ctx.fn('enter')
    for text in ('', '0x3', 'list:x'):
        io = CPU(ctx, schedfail=True, nomem=True)
        for inst, ev, ret, mem in io.run(fn, {0: ('p', 'self', 0), 1: ('p', 'title', 0)}, objmem(io, text), cap=600):
            sc = [e for e in ev if e[0] == 'sched']
            ctx.expect(len(sc) == 1 and sc[0][1:4] == (True, 2, 17), 'report', sc[0][4] if sc else fn.where, 'policy and priority are not applied to the calling thread', text)
            if not text:
                ctx.expect(not [e for e in ev if e[0] == 'apply'], 'select', fn.where, 'the affinity is changed although none is given', text)
            wrong = text == 'list:x' or [e for e in ev if e[0] in ('schedfail', 'applyfail', 'nomem')]
            ctx.expect(ret == int(not wrong), 'report', fn.where, 'thread_enter reports %s (%s)' % (ret, ', '.join(e[0] for e in ev)), text)
            new = [e for e in ev if e[0] == 'new' and e[1] == 'cpuset']
            fr = [e for e in ev if e[0] == 'free' and e[1] == 'cpuset']
            ctx.expect(len(new) == len(fr), 'bounds', fn.where, 'the cpu set is freed %d times' % len(fr), text)


def check(ctx):
    ctx.rule('select', 'a well-formed text selects exactly the CPUs it names')
    ctx.rule('reject', 'malformed texts, reversed ranges and numbers out of range are rejected and change nothing')
    ctx.rule('dry', 'validation never changes the calling thread')
    ctx.rule('bounds', 'nothing outside the cpu set is written and nothing past the text is read')
    ctx.rule('terminate', 'parsing ends for every text')
    ctx.rule('report', 'the result tells whether everything was applied to the calling thread')
    ctx.pmap(texts(ctx.tier == 'quick'), lambda t: one(ctx, t))
    sched(ctx)
