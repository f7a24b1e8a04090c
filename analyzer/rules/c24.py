"""C24: the C interface forwards every option and argument faithfully."""
from rules.common import *
from rules.engine import layout_off
from rules.io import *
from rules.c11 import area_obj, only, NSEC, ONES
from rules import c12
ACT, SPC = 'hogl::activate', 'hogl::schedparam::schedparam'
MK = 'hogl::mask'
OUTS = {'stdout': 'hogl::output_stdout', 'stderr': 'hogl::output_stderr', 'file': OF, 'plainfile': 'hogl::output_plainfile', 'pipe': 'hogl::output_pipe'}
ctor = lambda c: c + '::' + c.rsplit('::', 1)[-1]
dtor = lambda c: c + '::~' + c.rsplit('::', 1)[-1]
FB = 'hogl::format_basic'
# C type of the macro -> (argument kind, passed bits, expected bits)
M64 = (1 << 64) - 1
TYPES = {'bool': [('UINT32', 1, 1), ('UINT32', 0, 0)], 'char': [('INT32', 0xc3, 0xffffffc3), ('INT32', 0x41, 0x41)],
         'u8': [('UINT32', 0xfe, 0xfe)], 's8': [('INT32', 0xfb, 0xfffffffb), ('INT32', 5, 5)], 'u16': [('UINT32', 0xfffe, 0xfffe)], 's16': [('INT32', 0x8001, 0xffff8001)],
         'u32': [('UINT32', 0xfffffff0, 0xfffffff0)], 's32': [('INT32', 0x80000001, 0x80000001)], 'u64': [('UINT64', M64 - 4, M64 - 4)], 's64': [('INT64', 1 << 63 | 5, 1 << 63 | 5)],
         'ull': [('UINT64', M64 - 5, M64 - 5)], 'sll': [('INT64', 1 << 63 | 6, 1 << 63 | 6)],
         'flt': [('DOUBLE', 0x3fc00000, 0x3ff8000000000000)], 'dbl': [('DOUBLE', 0xc008000000000001, 0xc008000000000001)], 'ptr': [('POINTER', 0x7f1234567890, 0x7f1234567890), ('POINTER', 0, 0)]}


def roots(ctx):
    tls = ('hogl::tls::ring',)
    R = [Root('post_%d' % n, '__hogl_post_%d' % n, stop=tls) for n in range(1, 17)]
    R += [Root('macro_%d' % n, 'cdrv_n%d' % n, stop=tls) for n in range(1, 17)]
    R += [Root('type_' + t, 'cdrv_' + t, stop=tls) for t in list(TYPES) + ['cstr', 'mstr', 'arr']]
    R += [Root('area_' + n, 'hogl_area_' + n) for n in ('test', 'set', 'reset', 'set_all', 'reset_all')]
    R.append(Root('add_area', 'hogl_add_area', stop=('hogl::add_area',)))
    R += [Root('activate', 'hogl_activate', stop=(ACT, SPC, ctor(MK), dtor(MK), MK + '::operator=')), Root('deactivate', 'hogl_deactivate', stop=('hogl::deactivate',)), Root('flush', 'hogl_flush', stop=('hogl::flush',))]
    for k, c in OUTS.items():
        R.append(Root('out_' + k, 'hogl_new_output_' + k, stop=(ctor(c), SPC)))
    R += [Root('fmt', 'hogl_new_format_basic', stop=(ctor(FB),)), Root('delfmt', 'hogl_delete_format'), Root('delout', 'hogl_delete_output'),
          Root('tls', 'hogl_new_tls', stop=(ctor('hogl::tls'),)), Root('deltls', 'hogl_delete_tls', stop=(dtor('hogl::tls'),)),
          Root('mask', 'hogl_new_mask', stop=(ctor(MK), MK + '::operator<<', MK + '::add')), Root('delmask', 'hogl_delete_mask', stop=(dtor(MK),))]
    return R


def check(ctx):
    ctx.rule('post', 'a C post of n arguments stores exactly these n arguments, in order, for the given area and section')
    ctx.rule('kinds', 'every C argument type arrives with its kind and value')
    ctx.rule('area', 'the area functions read and change exactly the section bits they name; registration passes on name and sections')
    ctx.rule('options', 'every field of an option structure reaches the matching option, and missing options mean the defaults')
    ctx.rule('create', 'handles are new objects of the named kind, made from the given name, format and fields')
    ctx.rule('delete', 'handles are destroyed with their own class\'s destructor and freed once; null is ignored')
    ctx.rule('engine', 'activation, deactivation and flush call the C++ function once, with the given output')
    jobs = [(post, k, n) for k in ('post', 'macro') for n in range(1, 17)] + [(kinds, t) for t in list(TYPES) + ['cstr', 'mstr', 'arr']]
    jobs += [(area, n) for n in ('test', 'set', 'reset', 'set_all', 'reset_all')]
    jobs += [(f,) for f in (addarea, activate, simple, outputs, fmt, tls, mask, deletes)]
    ctx.pmap(jobs, lambda j: j[0](ctx, *j[1:]))


def record(ctx, rule, fn, what, ex, sect):
    """the record in the slot belongs to area0 and the section; exactly one was published"""
    from rules.c04 import ring_obj
    off = ring_obj(ctx, 1, 3, 3, 0)[1]
    for inst, ev, ret, m in ex:
        bit = [n[2] for n in ctx.layout[REC] if n[0] == 'section'][0]
        ar, w = m.get(('recs0', 256 + layout_off(ctx, REC, 'area'))), m.get(('recs0', 256 + bit // 64 * 8))
        w = w >> bit % 64 if type(w) is int else w
        ctx.expect(ar == ('p', 'area0', 0) and w == sect, rule, inst.where, '%s: stored for area %s section %s' % (what, ar, w))
        ctx.expect(m.get(('ring0', off['_tail'])) == 2, rule, inst.where, '%s: %s records are posted' % (what, m.get(('ring0', off['_tail']))))


def post(ctx, kind, n):
    for fn in ctx.fns('%s_%d' % (kind, n)):
        V = ['UINT64', 'INT32', 'POINTER', 'UINT32', 'DOUBLE', 'INT64', 'GSTR']
        sz = ctx.sizes['hogl::arg']
        lists = [[('UINT64', 0x1000000000 + 77 * k) for k in range(n)]]
        if kind == 'post':
            lists += [[(V[(k + r) % 7], 0x2000 + 99 * k + r) for k in range(n)] for r in (0, 3)]
            lists += [[('CSTR', k % 5) if k % 2 == r else ('INT64', 0x3000 + k) for k in range(n)] for r in (0, 1)]
        for args in lists:
            for sect in (5, 66):
                p = {0: ('p', 'area0', 0), 1: sect}
                if kind == 'post':
                    p[2] = ('p', 'ap', 0)
                    at = lambda k: ('ap', k * sz)
                else:
                    p.update({2 + k: v for k, (t, v) in enumerate(args)})
                    at = None
                r = c12.run(ctx, fn, args, 8, params=p, at=at)
                what = '%s in section %d' % (fn.qname, sect)
                record(ctx, 'post', fn, what, r[0], sect)
                c12.stored(ctx, fn, args, 8, *r, R=('post',) * 4)


def kinds(ctx, t):
    for fn in ctx.fns('type_' + t):
        if t in TYPES:
            for kind, v, want in TYPES[t]:
                r = c12.run(ctx, fn, [(kind, want)], 8, params={0: ('p', 'area0', 0), 1: 5, 2: v})
                record(ctx, 'kinds', fn, fn.qname, r[0], 5)
                c12.stored(ctx, fn, [(kind, want)], 8, *r, R=('kinds',) * 4)
            continue
        for n in (0, 1, 7) if t != 'arr' else (3,):
            S = [('CSTR', n)]
            p = {0: ('p', 'area0', 0), 1: 5}
            if t != 'arr':
                p[2] = ('p', 'src0', 0)
            r = c12.run(ctx, fn, S, 8, params=p)
            if t == 'arr':
                r[1].opaque = True
            c12.stored(ctx, fn, S, 8, *r, R=('kinds',) * 4)
            record(ctx, 'kinds', fn, fn.qname, r[0], 5)
        if t != 'arr':
            r = c12.run(ctx, fn, [('CSTR', 0)], 8, params={0: ('p', 'area0', 0), 1: 5, 2: 0})
            ctx.expect(r[0], 'kinds', fn.where, '%s: null string' % fn.qname)
            c12.stored(ctx, fn, [('CSTR', 0)], 8, *r, R=('kinds',) * 4)


def area(ctx, name):
    for fn in ctx.fns('area_' + name):
        for init in ([0, 0], [ONES, ONES], [0x5555555555555555, 0xaaaaaaaaaaaaaaaa], [1, 0], [0, 1 << 63]):
            for s in (range(NSEC) if not name.endswith('all') else (0,)):
                r = Obj(ctx).run(fn, {0: ('p', 'area0', 0), 1: s} if not name.endswith('all') else {0: ('p', 'area0', 0)}, area_obj(ctx, init))
                want = [w if 'all' not in name else (ONES if name == 'set_all' else 0) for w in init]
                if name == 'set':
                    want[s // 64] |= 1 << s % 64
                elif name == 'reset':
                    want[s // 64] &= ~(1 << s % 64)
                ctx.expect(r, 'area', fn.where, '%s does not return' % fn.qname)
                for inst, ev, ret, m in r:
                    got = [m.get(('bits0', 8 * k)) for k in range(2)]
                    ctx.expect(got == want, 'area', inst.where, '%s(%d): sections become %s' % (fn.qname, s, got), fn.qname, key=fn.qname)
                    if name == 'test':
                        ctx.expect(type(ret) is int and ret & 1 == init[s // 64] >> s % 64 & 1, 'area', inst.where, '%s(%d) returns %s' % (fn.qname, s, ret), fn.qname, key=fn.qname)


def event(name, ret=None):
    return lambda i, v, Fx, ev: [(ret, ((name,) + tuple(v),), {})]


def addarea(ctx):
    for fn in ctx.fns('add_area'):
        for sects in (('p', 'sects', 0), 0):
            r = Obj(ctx, calls={'hogl::add_area': event('add', ('p', 'AREA', 0))}).run(fn, {0: ('p', 'aname', 0), 1: sects}, {})
            ctx.expect(r, 'area', fn.where, '%s does not return' % fn.qname)
            for inst, ev, ret, m in r:
                ok = [e[:3] for e in ev if e[0] == 'add'] == [('add', ('p', 'aname', 0), sects)] and ret == ('p', 'AREA', 0)
                ctx.expect(ok, 'area', inst.where, '%s does not register the given area' % fn.qname, fn.qname)


class W:
    """machine with strings; stopped functions record a snapshot of the options they are given"""

    def __init__(self, ctx, calls=None):
        self.ctx = ctx
        self.io = IO(ctx, calls=dict(calls or {}, **{SPC: self.sched}))
        self.S = self.io.S
        self.snap = []

    def sched(self, i, v, Fx, ev):
        s = self.S.of(Fx, i.ops[4]) if len(i.ops) > 4 else ()
        return [(None, (('sched', v[0], v[1] if len(v) > 1 else 0, v[2] if len(v) > 2 else 0, v[3] if len(v) > 3 else 0, s),), {})]

    def snapshot(self, name, cls, k):
        def f(i, v, Fx, ev):
            p = v[k] if type(v[k]) is tuple else Fx.ptr(i.ops[k])
            o = {n[0]: Fx.mem.get((p[1], p[2] + n[2] // 8)) for n in self.ctx.layout[cls]}
            m = [e for e in ev if e[0] in ('mcopy', 'massign') and e[1] == (p[1], p[2] + layout_off(self.ctx, cls, 'default_mask'))] if 'default_mask' in o else []
            return [(None, ((name, v, o, m[-1][2] if m else None),), {})]
        return f


def glob(ctx, q):
    g = [k for k, x in ctx.globals.items() if x['q'] == q]
    ctx.anchor(len(g) == 1, q)
    return ('g', g[0])


def defaults(ctx, cls, owner):
    """distinct values in the default options"""
    r = glob(ctx, owner + '::default_options')
    m = {}
    for j, n in enumerate(ctx.layout[cls]):
        if n[0] != 'default_mask':
            m[(r, n[2] // 8)] = ('p', 'defptr%d' % j, 0) if '*' in n[1] else 9000 + j
    return r, m


AFF = opaque('CPUS')


def sched_ok(o, ev, given):
    s = [e for e in ev if e[0] == 'sched' and o.get('schedparam') == e[1]]
    if len(s) != 1:
        return 'the scheduling parameters are %s' % ('not used' if not s else 'built several times')
    _, p, pol, prio, flags, aff = s[0]
    if (pol, prio) != given[:2] or aff != given[2]:
        return 'the scheduling parameters arrive as policy %s priority %s cpus %s' % (pol, prio, aff)
    return None if flags == 1 else 'the scheduling parameters are leaked (flags %s)' % flags


def copts(ctx, st, vals, aff):
    """memory of a C options structure"""
    m = {}
    for n in ctx.layout[st]:
        if n[0] == 'schedparam':
            for q in ctx.layout['hogl_sched_param']:
                m[('copt', n[2] // 8 + q[2] // 8)] = {'policy': 2, 'priority': 41}.get(q[0], ('p', 'aff', 0) if aff else 0)
        else:
            ctx.anchor(n[0] in vals, 'field %s of %s' % (n[0], st))
            m[('copt', n[2] // 8)] = vals[n[0]]
    return m


def activate(ctx):
    cls = EN + '::options'
    for fn in ctx.fns('activate'):
        for given in (0, 1):
            for aff in (0, 1):
                for msk in (0, 1):
                    for feat, poll, tso in ((1, 77, 4096), (0, 1, 1), (0, 0, 0), (3, (1 << 32) - 1, 1 << 20)):
                        w = W(ctx)
                        mark = lambda n: (lambda i, v, Fx, ev: [(None, ((n, Fx.cell(i.ops[0]), v[1] if len(v) > 1 and type(v[1]) is tuple else Fx.ptr(i.ops[1]) if len(i.ops) > 1 else None),), {})])
                        w.io.o.calls.update({ctor(MK): mark('mcopy'), MK + '::operator=': mark('massign'), dtor(MK): mark('mdel'), ACT: w.snapshot('act', cls, 1)})
                        w.S.names['aff'] = AFF
                        r0, m = defaults(ctx, cls, EN)
                        m.update(copts(ctx, 'hogl_engine_options', {'features': feat, 'default_mask': ('p', 'MSK', 0) if msk else 0, 'polling_interval_usec': poll, 'tso_buffer_capacity': tso}, aff))
                        ex = w.io.run(fn, {0: ('p', 'out', 0), 1: ('p', 'copt', 0) if given else 0}, m)
                        what = '%s with %s options' % (fn.qname, 'given' if given else 'no')
                        ctx.expect(ex, 'engine', fn.where, what + ' does not return')
                        for inst, ev, ret, mm in ex:
                            A = [e for e in ev if e[0] == 'act']
                            ctx.expect(len(A) == 1 and A[0][1][0] == ('p', 'out', 0), 'engine', inst.where, '%s does not activate the given output once' % what, what)
                            if len(A) != 1:
                                continue
                            o, mk = A[0][2], A[0][3]
                            D = {n[0]: m.get((r0, n[2] // 8)) for n in ctx.layout[cls]}
                            if given:
                                D.update(features=feat, polling_interval_usec=poll, tso_buffer_capacity=tso)
                                e = sched_ok(o, ev, (2, 41, AFF if aff else ()))
                                ctx.expect(e is None, 'options', inst.where, '%s: %s' % (what, e), what, key='sched')
                            for n in D:
                                if n != 'default_mask' and not (given and n == 'schedparam'):
                                    ctx.expect(o.get(n) == D[n], 'options', inst.where, '%s: %s arrives as %s instead of %s' % (what, n, o.get(n), D[n]), what, key=n)
                            want = ('p', 'MSK', 0) if given and msk else ('p', r0, layout_off(ctx, cls, 'default_mask'))
                            src = mk if type(mk) is tuple else None
                            ctx.expect(src is not None and src[1:3] == want[1:3], 'options', inst.where, '%s: the mask arrives as %s' % (what, src), what, key='mask')


def simple(ctx):
    for rid, q in (('deactivate', 'hogl::deactivate'), ('flush', 'hogl::flush')):
        for fn in ctx.fns(rid):
            r = Obj(ctx, calls={q: event('call')}).run(fn, {}, {})
            ctx.expect(r and all(len([e for e in ev if e[0] == 'call']) == 1 for _, ev, _, _ in r), 'engine', fn.where, '%s does not call %s once' % (fn.qname, q), fn.qname)


def outputs(ctx):
    for k, c in OUTS.items():
        for fn in ctx.fns('out_' + k):
            for given, aff, v in [(0, 0, 0)] if k != 'file' else [(0, 0, 0), (1, 0, 0), (1, 1, 0), (1, 1, 1), (1, 0, 2)]:
                w = W(ctx)
                w.S.names['aff'] = AFF
                m = {}
                if k == 'file':
                    r0, m = defaults(ctx, OF + '::options', OF)
                    cv = dict(zip(('perms', 'max_size', 'max_count', 'buffer_capacity'), [(0o640, 1 << 33, 17, 8192), (0, 0, 0, 0), (0o777, M64, (1 << 32) - 1, (1 << 32) - 1)][v]))
                    m.update(copts(ctx, 'hogl_output_options', cv, aff))
                    w.io.o.calls[ctor(c)] = w.snapshot('ctor', OF + '::options', 3)
                else:
                    w.io.o.calls[ctor(c)] = lambda i, v, Fx, ev: [(None, (('ctor', v, {}, None),), {})]
                named = k in ('file', 'plainfile', 'pipe')
                a = {0: ('p', 'oname', 0), 1: ('p', 'fmt', 0), 2: ('p', 'copt', 0) if given else 0} if named else {0: ('p', 'fmt', 0)}
                ex = w.io.run(fn, a, m)
                what = '%s%s' % (fn.qname, '' if k != 'file' else ' with given options' if given else ' without options')
                ctx.expect(ex, 'create', fn.where, what + ' does not return')
                for inst, ev, ret, mm in ex:
                    A = [e for e in ev if e[0] == 'ctor']
                    ok = len(A) == 1 and ret == A[0][1][0] and any(e[0] == 'new' and e[1] == ret[1] for e in ev)
                    ctx.expect(ok, 'create', inst.where, '%s does not return one new output' % what, what)
                    if not ok:
                        continue
                    v = A[0][1]
                    ctx.expect(v[1:3] == (('p', 'oname', 0), ('p', 'fmt', 0)) if named else v[1] == ('p', 'fmt', 0), 'create', inst.where, '%s: name or format is not the given one' % what, what)
                    ctx.expect(not [e for e in ev if e[0] == 'free'], 'create', inst.where, '%s frees something' % what)
                    if k == 'file':
                        o = A[0][2]
                        D = {n[0]: m.get((r0, n[2] // 8)) for n in ctx.layout[OF + '::options']}
                        if given:
                            D.update(cv)
                            e = sched_ok(o, ev, (2, 41, AFF if aff else ()))
                            ctx.expect(e is None, 'options', inst.where, '%s: %s' % (what, e), what, key='file sched')
                        for n in D:
                            if not (given and n == 'schedparam'):
                                ctx.expect(o.get(n) == D[n], 'options', inst.where, '%s: %s arrives as %s instead of %s' % (what, n, o.get(n), D[n]), what, key='file ' + n)


def fmt(ctx):
    for fn in ctx.fns('fmt'):
        for fields in (('p', 'fields', 0), 0):
            io = IO(ctx, calls={ctor(FB): lambda i, v, Fx, ev: [(None, (('ctor', v, Fx.val(i.ops[1]) if len(i.ops) > 1 else None),), {})]})
            ex = io.run(fn, {0: fields}, {})
            ctx.expect(ex, 'create', fn.where, '%s does not return' % fn.qname)
            for inst, ev, ret, m in ex:
                A = [e for e in ev if e[0] == 'ctor']
                ok = len(A) == 1 and ret == A[0][1][0]
                ctx.expect(ok, 'create', inst.where, '%s does not return one new format' % fn.qname, fn.qname)
                if ok:
                    f = A[0][2]
                    ctx.expect(f == fields if fields else f != 0, 'create', inst.where, '%s: the fields are %s' % (fn.qname, f), fn.qname)


def tls(ctx):
    cls = RB + '::options'
    for fn in ctx.fns('tls'):
        for cap, prio, room in ((1024, 3, 200), (1, 0, 1), (7, 100, 0), (1 << 20, 15, 65536)):
            w = W(ctx)
            w.io.o.calls[ctor('hogl::tls')] = w.snapshot('ctor', cls, 2)
            m = copts(ctx, 'hogl_tls_options', {'ring_capacity': cap, 'ring_priority': prio, 'record_tailroom': room}, 0)
            g = glob(ctx, 'hogl::default_engine')
            m[(g, 0)] = ('p', 'ENG', 0)
            ex = w.io.run(fn, {0: ('p', 'tname', 0), 1: ('p', 'copt', 0)}, m)
            ctx.expect(ex, 'create', fn.where, '%s does not return' % fn.qname)
            for inst, ev, ret, mm in ex:
                A = [e for e in ev if e[0] == 'ctor']
                ok = len(A) == 1 and ret == A[0][1][0] and A[0][1][1] == ('p', 'tname', 0) and A[0][1][3] == ('p', 'ENG', 0)
                ctx.expect(ok, 'create', inst.where, '%s does not return one new tls object of that name for the default engine' % fn.qname, fn.qname)
                if len(A) != 1:
                    continue
                o = A[0][2]
                for n, v in (('capacity', cap), ('prio', prio), ('record_tailroom', room), ('flags', 0)):
                    ok = o.get(n) == v or n == 'record_tailroom' and v == 0 and type(o.get(n)) is int and 0 < o.get(n) < 65536
                    ctx.expect(ok, 'options', inst.where, '%s: %s of the ring is %s instead of %s' % (fn.qname, n, o.get(n), v), fn.qname, key='tls ' + n)


def mask(ctx):
    # the entries are C22's; here the handle
    for fn in ctx.fns('mask'):
        io = IO(ctx, calls={ctor(MK): event('ctor'), MK + '::operator<<': event('add', ('p', 'x', 0)), MK + '::add': event('add')})
        ex = io.run(fn, {0: 0}, {})
        ctx.expect(ex, 'create', fn.where, '%s does not return' % fn.qname)
        for inst, ev, ret, m in ex:
            A = [e for e in ev if e[0] == 'ctor']
            ctx.expect(len(A) == 1 and ret == A[0][1] and not [e for e in ev if e[0] == 'add'], 'create', inst.where, '%s(0) does not return one new empty mask' % fn.qname, fn.qname)


def deletes(ctx):
    vt = vtables(ctx)
    for rid, classes in (('delout', sorted(OUTS.values())), ('delfmt', [FB])):
        for fn in ctx.fns(rid):
            for c in classes + [None]:
                def ind(i, v, Fx, ev):
                    cal = i.d.get('callee')
                    t = Fx.val(cal) if cal and cal[0] in ('v', 'a') else None
                    if type(t) is tuple and type(t[1]) is tuple and t[1][0] == 'f':
                        return [(None, (('virt', t[1][1], v[0]),), {})]
                    return [(None, (('virt?', i.where),), {})]
                mem = {}
                for p, mm in vt.values():
                    mem.update(mm)
                if c:
                    mem[('H', 0)] = vt[c][0]
                ex = Obj(ctx, calls={'': ind, 'llvm.type.test': lambda i, v, Fx, ev: [(1, (), {})]}).run(fn, {0: ('p', 'H', 0) if c else 0}, mem)
                ctx.expect(ex, 'delete', fn.where, '%s does not return' % fn.qname)
                for inst, ev, ret, m in ex:
                    V = [e for e in ev if e[0] in ('virt', 'virt?', 'free')]
                    if not c:
                        ctx.expect(not V, 'delete', inst.where, '%s of a null handle calls something' % fn.qname, fn.qname)
                        continue
                    full = [e for e in V if e[0] == 'virt' and e[2] == ('p', 'H', 0) and ctx.bym.get(e[1], {}).get('q', '').split('(')[0] == dtor(c)]
                    d0 = [e for e in full if 'D0Ev' in e[1]]
                    fr = [e for e in V if e[0] == 'free' and e[1] == 'H']
                    ok = len(full) == 1 and len(V) == len(full) + len(fr) and len(d0) + len(fr) == 1
                    ctx.expect(ok, 'delete', inst.where, '%s does not destroy and free a %s once' % (fn.qname, c), fn.qname + ' ' + c)
    for rid, q in (('deltls', 'hogl::tls'), ('delmask', MK)):
        for fn in ctx.fns(rid):
            for h in (1, 0):
                ex = Obj(ctx, calls={dtor(q): event('dtor')}).run(fn, {0: ('p', 'H', 0) if h else 0}, {})
                ctx.expect(ex, 'delete', fn.where, '%s does not return' % fn.qname)
                for inst, ev, ret, m in ex:
                    V = [e[:2] for e in ev if e[0] in ('dtor', 'free')]
                    want = [('dtor', ('p', 'H', 0)), ('free', 'H')] if h else []
                    ctx.expect(V == want, 'delete', inst.where, '%s does not destroy and free %s' % (fn.qname, 'its handle once' if h else 'nothing for null'), fn.qname)
