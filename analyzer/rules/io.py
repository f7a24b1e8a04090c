"""Byte level model of the output path: buffers with concrete contents, descriptors and
stdio streams as sinks, virtual calls resolved through the vtables and run in place."""
from rules.obj import *
from rules.strs import *
OB = 'hogl::ostrbuf'
OF = 'hogl::output_file'
CLS = ('ostrbuf_fd', 'ostrbuf_stdio', 'ostrbuf_tee', 'ostrbuf_file', 'ostrbuf_null')
EINTR, EIO = 4, 5
VIRT = [OB + '::failed', OB + '::error', OB + '::~ostrbuf'] + ['hogl::%s::%s' % (c, m) for c in CLS for m in ('do_flush', 'failed', 'error', '~' + c)]
INITBUF = 1      # first byte value of the buffered data
INITDATA = 101   # first byte value of the new data


def vroots(extra=()):
    return [Root('v:' + q, q, optional=True) for q in VIRT + list(extra)]


def vtables(ctx):
    """{class name: (pointer value of the vptr, memory cells)}"""
    out = {}
    for k, g in ctx.globals.items():
        if g['q'].startswith('vtable for ') and type(g.get('init')) is list:
            t = g['init'][1]
            m = {}
            for j, e in enumerate(t[1:]):
                if e[0] == 'f':
                    m[(('g', k), 8 * j)] = ('p', ('f', e[2]), 0)
            out[g['q'][len('vtable for '):]] = (('p', ('g', k), 16), m)
    return out


class IO:
    """results(kind, fd, total, ev) -> list of ('n', k) | ('intr',) | ('err', errno) for one write attempt"""

    def __init__(self, ctx, results=None, calls=None, virt=None, locks=None, strs=True, nest_cap=200, files=True, watch=None):
        self.ctx, self.results = ctx, results or (lambda kind, fd, n, ev: [('n', n)])
        self.vt = vtables(ctx)
        self.vmem = {}
        for p, m in self.vt.values():
            self.vmem.update(m)
        self.fnm = {}
        for r in ctx.rootspec.values():
            if r.rid.startswith('v:'):
                for f in ctx.fns(r.rid):
                    self.fnm[f.mangled] = f
        self.virt = virt or {}
        c = {'': self.indirect, 'write': self.write, 'writev': self.writev, 'fwrite': self.fwrite, 'fwrite_unlocked': self.fwrite,
             '__errno_location': lambda i, v, Fx, ev: [(('p', '#errno', 0), (), {})], 'strerror': lambda i, v, Fx, ev: [(('p', '#errtext', 0), (), {})],
             'ferror': self.ferror, 'fflush': lambda i, v, Fx, ev: [(0, (('fflush', self.ident(v[0])),), {})],
             'strncat': self.strput, 'strncpy': self.strput, 'strcpy': self.strput, 'strcat': self.strput, 'snprintf': self.strput, 'strlcpy': self.strput, 'vsnprintf': self.strput,
             'malloc': self.malloc, 'std::copy': self.copy, 'std::copy_n': self.copyn, 'llvm.type.test': lambda i, v, Fx, ev: [(1, (), {})]}
        c.update(calls or {})
        self.depth, self.maxwrite, self.overruns = 0, 0, []
        self.o = Obj(ctx, {}, c, locks=locks, keep=('std::', 'fmt::', 'write', 'writev', 'fwrite', 'str', 'ferror', 'fflush', '__errno', 'memcmp'), watch=self.watcher)
        self.o.limit = 400
        self.S = Strs()
        self.userwatch = watch
        self.bounds = {}        # memory root -> size in bytes
        if strs:
            heap, S = self.o.heap, self.S

            class H:
                def model(s, i, a, Fx):
                    r = S.model(i, a, Fx)
                    return r if r is not None else heap.model(i, a, Fx)
            self.o.heap = H()

    # -- memory ------------------------------------------------------------
    @staticmethod
    def ident(v):
        return v[1] if type(v) is tuple else v

    def bytes(self, Fx, p, n):
        if type(p) is not tuple or p[2] is None or type(n) is not int:
            return (('?', None),)
        if n > 256:
            return (('range', p[1], p[2], n),)
        return tuple(self.byte(Fx, p[1], p[2] + k) for k in range(n))

    @staticmethod
    def byte(Fx, r, o):
        v = Fx.mem.get((r, o))
        if type(v) is int:
            return v & 255
        if type(r) is tuple and r[0] == 's' and type(r[1]) is str and o < len(r[1]):
            return ord(r[1][o])
        return ('?', r, o)

    def watcher(self, i, Fx, a):
        e = ()
        if self.bounds:
            w = written_ptr(i)
            if w is not None:
                p = Fx.ptr(w)
                lim = self.bounds.get(p[1])
                if lim is not None:
                    n = Fx.get(i.ops[2]) if i.is_call else max(1, bits_of(i.ops[0][2] if i.ops[0][0] == 'c' else self.tyof(Fx, i)) // 8)
                    if p[2] is None or n is None or p[2] < 0 or (n and p[2] + n > lim):
                        e += (('overflow', p[1], i.where),)
        if self.userwatch:
            w = self.userwatch(i, Fx, a)
            if w == 'kill':
                return w
            e += tuple(w or ())
        return e

    @staticmethod
    def tyof(Fx, i):
        x = Fx.fn.inst(i.ops[0])
        return x.ty if x is not None and x.ty else 'i8'

    # -- sinks ---------------------------------------------------------------
    def attempt(self, kind, fd, data, ev, where):
        out = []
        n = data[-1][3] if data and type(data[-1]) is tuple and data[-1][0] == 'range' else len(data)
        n = len(data) - 1 + n if data and type(data[-1]) is tuple and data[-1][0] == 'range' else n
        if self.maxwrite and n > self.maxwrite:
            self.overruns.append(where)
            return []
        for r in ([('n', n)] if n > 256 else self.results(kind, fd, n, ev)):
            if r[0] == 'n':
                out.append((r[1], (('out', kind, fd, data if r[1] == n else data[:r[1]], where, n),), {}))
            elif r[0] == 'intr':
                out.append(((1 << 64) - 1, (('intr', fd),), {('#errno', 0): EINTR}))
            else:
                out.append(((1 << 64) - 1, (('err', fd),), {('#errno', 0): r[1]}))
        return out

    def write(self, i, v, Fx, ev):
        return self.attempt('fd', self.ident(v[0]), self.bytes(Fx, v[1], v[2]), ev, i.where)

    def writev(self, i, v, Fx, ev):
        p, n = v[1], v[2]
        if type(p) is not tuple or p[2] is None or type(n) is not int or n > 16:
            return self.attempt('fd', self.ident(v[0]), (('?', 'iov'),), ev, i.where)
        data = ()
        for k in range(n):
            data += self.bytes(Fx, Fx.mem.get((p[1], p[2] + 16 * k)), Fx.mem.get((p[1], p[2] + 16 * k + 8)))
        return self.attempt('fd', self.ident(v[0]), data, ev, i.where)

    def fwrite(self, i, v, Fx, ev):
        n = v[1] * v[2] if type(v[1]) is int and type(v[2]) is int else None
        f = self.ident(v[3])
        out = []
        for r, e, up in self.attempt('stdio', f, self.bytes(Fx, v[0], n), ev, i.where):
            bad = r != n
            if r == (1 << 64) - 1:
                r = 0
            up = dict(up)
            if bad:
                up[('#ferror', str(f))] = 1
            out.append((r // v[1] if type(v[1]) is int and v[1] else r, e, up))
        return out

    def ferror(self, i, v, Fx, ev):
        return [(Fx.mem.get(('#ferror', str(self.ident(v[0]))), 0), (), {})]

    def strput(self, i, v, Fx, ev):
        return [(v[0] if i.ty == 'ptr' else None, (('text', self.ident(v[0])),), {})]

    def malloc(self, i, v, Fx, ev):
        n = len([e for e in ev if e[0] == 'new'])
        return [(('p', 'new%d' % n, 0), (('new', 'new%d' % n, i.where, v[0] if type(v[0]) is int else None),), {}), (0, (('nomem', i.where),), {})]

    def _copy(self, i, src, n, dst, Fx):
        if type(src) is tuple and type(dst) is tuple and type(n) is int and src[2] is not None and dst[2] is not None and n <= 256:
            e = ()
            lim = self.bounds.get(dst[1])
            if lim is not None and n and dst[2] + n > lim:
                e = (('overflow', dst[1], i.where),)
            return [(('p', dst[1], dst[2] + n), e, {(dst[1], dst[2] + k): Fx.mem.get((src[1], src[2] + k)) for k in range(n)})]
        return None

    def copy(self, i, v, Fx, ev):
        n = v[1][2] - v[0][2] if type(v[0]) is tuple and type(v[1]) is tuple and v[0][1] == v[1][1] and None not in (v[0][2], v[1][2]) else None
        return self._copy(i, v[0], n, v[2], Fx)

    def copyn(self, i, v, Fx, ev):
        return self._copy(i, v[0], v[1], v[2], Fx)

    # -- virtual calls ---------------------------------------------------------
    def target(self, i, Fx):
        c = i.d.get('callee')
        p = Fx.val(c) if c and c[0] in ('v', 'a') else None
        return p[1][1] if type(p) is tuple and type(p[1]) is tuple and p[1][0] == 'f' else None

    def indirect(self, i, v, Fx, ev):
        t = self.target(i, Fx)
        if t is None:
            return [(None, (('virt?', i.where),), {})] if (i.d.get('callee') or [''])[0] in ('v', 'a') else None
        q = self.ctx.bym.get(t, {}).get('q', t)
        if q in self.virt:
            return self.virt[q](i, v, Fx, ev)
        f = self.fnm.get(t)
        if f is None:
            raise AnalysisBroken('virtual function %s is not modelled (%s)' % (q, i.where))
        return self.nested(f, v, Fx, ev)

    def nested(self, f, v, Fx, ev):
        self.depth += 1
        if self.depth > 6:
            raise AnalysisBroken('recursion through ' + f.qname)
        tag = 'L%d:' % self.depth

        def ren(r):
            return tag + r[1] if type(r) is tuple and len(r) == 2 and r[0] == 'v' else r

        def rv(x):
            return ('p', ren(x[1]), x[2]) if type(x) is tuple and x and x[0] == 'p' else x

        def back(r):
            return ('v', r[len(tag):]) if type(r) is str and r.startswith(tag) else r

        def bv(x):
            return ('p', back(x[1]), x[2]) if type(x) is tuple and x and x[0] == 'p' else x
        mem = {(ren(k[0]), k[1]): rv(x) for k, x in Fx.mem.items() if x is not None}
        args = {n: rv(x) for n, x in enumerate(v) if x is not None}
        bsave = self.bounds
        self.bounds = {ren(r): s for r, s in self.bounds.items()}
        out, seen = [], []
        try:
            for inst, a, r, m in self.o.run(f, args, mem, init=ev):
                new = {(back(k[0]), k[1]): bv(x) for k, x in m.items() if not (type(k[0]) is tuple and len(k[0]) == 2 and k[0][0] == 'v')}
                up = {k: x for k, x in new.items() if Fx.mem.get(k) != x}
                for k in Fx.mem:
                    if k not in new:
                        up[k] = None
                one = (bv(r), a[len(ev):], up)
                if one not in seen:
                    seen.append(one)
        finally:
            self.depth -= 1
            self.bounds = bsave
        return seen

    def run(self, fn, args, mem, **kw):
        m = dict(self.vmem)
        m.update(mem)
        return self.o.run(fn, args, m, **kw)

    # -- objects -----------------------------------------------------------------
    def off(self, cls, name):
        return layout_off(self.ctx, cls, name)

    def ob(self, root, cls, cap, size, buf=None, failed=0):
        """memory of an output buffer object with `size` buffered bytes"""
        buf = buf or root + ':buf'
        o = lambda n: (root, self.off(OB, n))
        m = {(root, 0): self.vt['hogl::' + cls][0], o('_data'): ('p', buf, 0) if cap else 0, o('_capacity'): cap, o('_size'): size, o('_failed'): failed}
        for k in range(size):
            m[(buf, k)] = INITBUF + k
        return m


def delivered(ev, fd):
    out = ()
    for e in ev:
        if e[0] == 'out' and e[2] == fd:
            out += e[3]
    return out


def show(bs):
    return ' '.join('%d' % b if type(b) is int else str(b) for b in bs)
