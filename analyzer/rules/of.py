"""Model of the operating system interface of the outputs: files, names, links, threads."""
from rules.io import *
HDR, FTR, REC_ = (201, 202), (211, 212), (221, 222, 223)
KILL, PEND = '_killed', '_rotate_pending'
M1 = (1 << 64) - 1
M1_32 = (1 << 32) - 1
FMTV = ('hogl::format::header', 'hogl::format::footer')


def ofroots():
    return vroots() + [Root('v:put', 'hogldrv::ob_put')]


class OS(IO):
    """files and threads on top of IO; openfail: maximal number of failing opens to explore"""

    def __init__(self, ctx, openfail=1, createfail=True, waits=2, hdrfail=1, nomem=False, linkfail=False, **kw):
        self.openfail, self.createfail, self.maxwaits, self.hdrfail = openfail, createfail, waits, hdrfail
        self.nomem, self.linkfail = nomem, linkfail
        self.throws, self.havoc = [], None
        calls = {'open': self.open, 'open64': self.open, 'close': self.close, 'symlink': self.symlink, 'rename': self.rename, 'remove': self.remove, 'unlink': self.remove,
                 'pthread_create': self.create, 'pthread_join': self.join, 'pthread_cond_wait': self.wait, 'pthread_cond_timedwait': self.wait,
                 'pthread_cond_signal': self.signal, 'pthread_cond_broadcast': self.signal, 'popen': self.popen, 'pclose': self.fclose, 'fclose': self.fclose,
                 'std::basic_ostringstream::str': self.str, 'std::basic_ostringstream::view': None, '__cxa_throw': self.throw, 'fdopen': None, 'pthread_mutex_lock': self.mlock,
                 'fsync': self.misc, 'fdatasync': self.misc, 'posix_fadvise': self.misc, 'posix_fadvise64': self.misc, 'setvbuf': self.misc, 'ftruncate': self.misc, 'lseek': self.misc, 'dup': self.misc,
                 'std::basic_string::c_str': self.cstr, 'std::basic_string::data': self.cstr,
                 '__cxa_allocate_exception': lambda i, v, Fx, ev: [(('p', '#exc', 0), (), {})], 'pthread_setname_np': lambda i, v, Fx, ev: [(0, (), {})],
                 'prctl': lambda i, v, Fx, ev: [(0, (), {})]}
        calls = {k: f for k, f in calls.items() if f}
        calls.update(kw.pop('calls', {}))
        virt = {'hogl::format::header': self.header, 'hogl::format::footer': self.footer, 'hogl::schedparam::thread_enter': self.nop, 'hogl::schedparam::thread_exit': self.nop,
                'hogl::schedparam::validate': self.nop}
        virt.update(kw.pop('virt', {}))
        for c in ('format_basic', 'format_raw'):
            for m in ('header', 'footer'):
                virt.setdefault('hogl::%s::%s' % (c, m), virt['hogl::format::' + m])
        IO.__init__(self, ctx, calls=calls, virt=virt, **kw)
        self.byinit = {}

    # -- names -----------------------------------------------------------------
    def name(self, Fx, o):
        """token of a C string operand"""
        v = Fx.val(o)
        if v == 0:
            return 0
        s = self.S.of(Fx, o)
        if s is not None:
            return s
        return v[1] if type(v) is tuple and type(v[1]) is str and v[1].startswith('#cs') else None

    def cstr(self, i, v, Fx, ev):
        if self.S.of(Fx, i.ops[0]) is not None:
            return None
        p = Fx.ptr(i.ops[0])
        return [(('p', '#cs:%s:%s' % (p[1], p[2]), 0), (), {})]

    def str(self, i, v, Fx, ev):
        p = Fx.ptr(i.ops[0])
        n = len([e for e in ev if e[0] == 'name'])
        return [(None, (('name', n),), {(p[1], p[2]): self.S.ptr(opaque('N%d' % n, 20))})]

    # -- system calls -------------------------------------------------------------
    def nop(self, i, v, Fx, ev):
        return [(1 if i.ty != 'void' else None, (), {})]

    def open(self, i, v, Fx, ev):
        n = 20 + len([e for e in ev if e[0] == 'open'])
        nm = self.name(Fx, i.ops[0])
        out = [(n, (('open', n, nm, v[1] if type(v[1]) is int else None, v[2] if len(v) > 2 else None, i.where),), {})]
        if len([e for e in ev if e[0] == 'openfail']) < self.openfail:
            out.append((M1_32, (('openfail', nm, i.where),), {('#errno', 0): 2}))
        return out

    def popen(self, i, v, Fx, ev):
        out = [(('p', 'PIPE', 0), (('open', 'PIPE', self.name(Fx, i.ops[0]), None, None, i.where),), {})]
        if len([e for e in ev if e[0] == 'openfail']) < self.openfail:
            out.append((0, (('openfail', None, i.where),), {}))
        return out

    def close(self, i, v, Fx, ev):
        return [(0, (('close', self.ident(v[0]), i.where),), {})]

    def fclose(self, i, v, Fx, ev):
        return [(0, (('close', self.ident(v[0]), i.where),), {})]

    def symlink(self, i, v, Fx, ev):
        e = ('symlink', self.name(Fx, i.ops[0]), self.name(Fx, i.ops[1]), i.where)
        return [(0, (e,), {})] + ([(M1_32, (('symlinkfail',) + e[1:],), {('#errno', 0): 17})] if self.linkfail else [])

    def rename(self, i, v, Fx, ev):
        return [(0, (('rename', self.name(Fx, i.ops[0]), self.name(Fx, i.ops[1]), i.where),), {})]

    def remove(self, i, v, Fx, ev):
        return [(0, (('remove', self.name(Fx, i.ops[0]), i.where),), {})]

    def misc(self, i, v, Fx, ev):
        return [(0, ((i.callee, self.ident(v[0]), i.where),), {})]

    def throw(self, i, v, Fx, ev):
        self.throws.append((i, ev, {k: x for k, x in Fx.mem.items()}))
        return []

    def malloc(self, i, v, Fx, ev):
        r = IO.malloc(self, i, v, Fx, ev)
        return r if self.nomem and not [e for e in ev if e[0] == 'nomem'] else r[:1]

    # -- threads ---------------------------------------------------------------------
    def create(self, i, v, Fx, ev):
        f = v[2][1] if type(v[2]) is tuple else None
        snap = tuple(sorted((n, Fx.mem.get(('self', self.off(OF, n)))) for n in (KILL, PEND, '_fd', '_size', '_max_size', '_max_count')))
        out = [(0, (('create', f, self.ident(v[3]), snap, i.where),), {})]
        if self.createfail:
            out.append((11, (('createfail', i.where),), {}))
        return out

    def join(self, i, v, Fx, ev):
        return [(0, (('join', i.where),), {})]

    def signal(self, i, v, Fx, ev):
        return [(0, (('signal', i.where),), {})]

    def mlock(self, i, v, Fx, ev):
        if self.havoc is None:
            return None
        return self.havoc(i, v, Fx, ev)

    def wait(self, i, v, Fx, ev):
        if self.havoc is None:
            return [(0, (('wait', None, None, i.where),), {})]
        k, p = (Fx.mem.get(('self', self.off(OF, n))) for n in (KILL, PEND))
        e = ('wait', k, p, i.where)
        n = len([x for x in ev if x[0] == 'wait'])
        K, P = ('self', self.off(OF, KILL)), ('self', self.off(OF, PEND))
        out = [(0, (e, ('kill',)), {K: 1})]
        if n + 1 < self.maxwaits:
            out += [(0, (e, ('req',)), {P: 1}), (0, (e,), {})]
        return out

    # -- formats ---------------------------------------------------------------------
    def _put(self, kind, i, v, Fx, ev, data, extra):
        e = (kind, self.ident(v[1]), self.name(Fx, i.ops[2])) + extra + (i.where,)
        if getattr(self, 'silent', False):
            return [(None, (e,), {})]
        m = dict(Fx.mem)
        for k, b in enumerate(data):
            m[('#fmtdata', k)] = b
        put = self.ctx.fn('v:put')

        class G:
            mem = m
        return [(None, (e,) + tuple(x), up) for _, x, up in self.nested(put, (v[1], ('p', '#fmtdata', 0), len(data)), G, ev + (e,))]

    def header(self, i, v, Fx, ev):
        return self._put('hdr', i, v, Fx, ev, HDR, (v[3] if len(v) > 3 else None,))

    def footer(self, i, v, Fx, ev):
        return self._put('ftr', i, v, Fx, ev, FTR, ())

    def file(self, **kw):
        """memory of a constructed file output"""
        o = lambda n: ('self', self.off(OF, n))
        m = {('self', 0): self.vt[OF][0], ('self', self.off('hogl::output', '_format')): ('p', 'fmt', 0), ('fmt', 0): self.vt['hogl::format_basic'][0],
             ('self', self.off('hogl::output', '_ostrbuf')): ('p', 'ob', 0), o('_rotate_schedparam'): 0,
             o('_symlink'): self.S.ptr(opaque('LINK')), o('_name'): self.S.ptr(opaque('NAME')), o('_name_pref'): self.S.ptr(opaque('PREF')), o('_name_sufx'): self.S.ptr(opaque('SUFX')),
             o('_name_index'): 3, o('_index_width'): 2, o('_max_size'): 1000, o('_max_count'): 16, o('_mode'): 0o640, o('_fd'): 9, o('_size'): 1010, o('_running'): 0, o(KILL): 0, o(PEND): 0}
        for k, x in kw.items():
            m[o(k)] = x
        return m


def held(ev, upto=None):
    h = []
    for e in ev[:upto]:
        if e[0] == 'lock':
            h.append(e[1])
        elif e[0] == 'unlock' and e[1] in h:
            h.remove(e[1])
    return h


def idx(ev, f):
    return [k for k, e in enumerate(ev) if f(e)]


def nm(x):
    return ''.join(t for t, n in x) if type(x) is tuple else str(x)
