"""C25: shutdown outputs everything that was posted and frees nothing in use."""
from rules.obj import *
import rules.common as C
from rules.c08 import M, freed, refs, watcher
from rules.passmodel import EnginePass, Case, ROOT, MASK64, passes
IX = EN + '::ring_index'
OUTC = ('hogl::output::process', 'hogl::output::flush')


def roots(ctx):
    return [ROOT, Root('loop', EN + '::loop', stop=(EN + '::process_rings',)), Root('drain', EN + '::drain_rings', stop=(EN + '::process_rings',)), Root('entry', EN + '::entry', stop=(EN + '::loop',)),
            Root('ctor', EN + '::engine'), Root('down', EN + '::~engine'),
            Root('act', 'hogl::activate', stop=(EN + '::engine', EN + '::~engine', EN + '::add_ring', RB + '::hold', RB + '::release')),
            Root('deact', 'hogl::deactivate', stop=(EN + '::~engine', EN + '::add_ring', RB + '::hold', RB + '::release'))]


def check(ctx):
    C.check_flags(ctx)
    ctx.rule('drain', 'the engine thread ends only after a pass that left no ring in a valid index, following the shutdown request')
    ctx.rule('progress', 'abandoned empty rings leave the registry and the index within a few passes')
    ctx.rule('join', 'nothing the engine thread uses is released before the thread was told to stop and has been joined')
    ctx.rule('once', 'every registered ring is released once, every area deleted once, the index freed once')
    ctx.rule('start', 'the engine thread is started when everything it uses is initialised, as the last step of construction')
    ctx.rule('main', 'the engine thread runs the engine loop')
    ctx.rule('deactivate', 'deactivation gives up the default ring before it waits for the engine, once, and forgets the engine afterwards')
    ctx.rule('activate', 'activation is refused unless the default ring is shared and immortal and no engine is active; else it holds, registers and publishes once')
    mo = M(ctx)
    for f in (loop, down, ctor, activation):
        f(ctx, mo)
    progress(ctx, mo)


def loop(ctx, mo):
    cells = {'dirty': ('eng', mo.o('_ring_index') + layout_off(ctx, IX, 'dirty')), 'count': ('eng', mo.o('_ring_index') + layout_off(ctx, IX, 'count')), 'killed': ('eng', mo.o('_killed'))}

    def passcall(i, a, Fx, ev):
        k = Fx.mem.get(cells['killed'])
        n = sum(1 for e in ev if e[0] == 'pass')
        if n >= 4:
            return []
        out = []
        for d, c in ((0, 0), (1, 0), (0, 1), (1, 1), (0, 3)):
            for k2 in ((1,) if k else (0, 1)):
                out.append((None, [('pass', k, d, c)], {cells['dirty']: d, cells['count']: c, cells['killed']: k2}))
        return out
    for rid in ('loop', 'drain'):
        fn = ctx.fn(rid)
        for k in (0, 1):
            for d, c in ((1, 0), (0, 0), (0, 2)):
                o = Obj(ctx, mo.maps, calls={EN + '::process_rings': passcall})
                m = {cells['dirty']: d, cells['count']: c, cells['killed']: 1 if rid == 'drain' else k, ('eng', mo.o('_opts') + layout_off(ctx, EN + '::options', 'polling_interval_usec')): 100}
                ex = o.run(fn, {0: ('p', 'eng', 0)}, m, cap=200, assume=lambda f, i: None)
                ctx.expect(ex, 'drain', '%s:%d' % (fn.file, fn.line), '%s never ends' % fn.qname, key='drain never')
                for ret, ev, v, m2 in ex:
                    ps = [e for e in ev if e[0] == 'pass']
                    last = ps[-1] if ps else None
                    ok = last and last[1] and last[2] == 0 and last[3] == 0
                    ctx.expect(ok, 'drain', ret.where, '%s ends %s' % (fn.qname, 'after a pass with %s' % ('an outdated index' if last[2] else '%d ring(s) left' % last[3] if last[3] else 'the shutdown request following it') if last else 'without a pass'), fn.qname, key='drain')
                    early = [e for e in ps[:-1] if e[1] and e[2] == 0 and e[3] == 0]
                    ctx.expect(not early, 'progress', ret.where, '%s goes on after the last ring is gone' % fn.qname, fn.qname, key='drain late')
    fn = ctx.fn('entry')
    called = []
    o = Obj(ctx, mo.maps, calls={EN + '::loop': lambda i, a, Fx, ev: [(None, [('loop', a[0])], {})]}, keep=('hogl::', 'prctl'))
    ex = o.run(fn, {0: ('p', 'eng', 0)}, {('eng', mo.o('_opts') + layout_off(ctx, EN + '::options', 'schedparam')): 0}, cap=8)
    for ret, ev, v, m2 in ex:
        ctx.expect([e for e in ev if e[0] == 'loop'] == [('loop', ('p', 'eng', 0))], 'main', ret.where, '%s does not run the loop once' % fn.qname, fn.qname, key='main')


def down(ctx, mo):
    fn = ctx.fn('down')
    kc = ('eng', mo.o('_killed'))
    th = ('eng', mo.o('_thread'))
    for nr in (0, 1, 3):
        for na in (0, 1, 2):
            m = mo.engine([('K%d' % k, 'R%d' % k) for k in range(nr)])
            for k in range(nr):
                mo.ring(m, 'R%d' % k, (0, C.SHARED, C.IMMORTAL)[k], (1, 2, 1)[k])
            h = Heap(mo.maps)
            h.put(m, 'areas', [('A%d' % k, ('p', 'A%d' % k, 0)) for k in range(na)])
            ao = lambda f: layout_off(ctx, 'hogl::area', f)
            for k in range(na):
                m.update({('A%d' % k, ao('_name')): ('p', 'A%d.name' % k, 0), ('A%d' % k, ao('_section')): ('p', 'A%d.sect' % k, 0), ('A%d' % k, ao('_bitmap') + layout_off(ctx, 'hogl::bitmap', '_size')): 1,
                          ('A%d' % k, ao('_bitmap') + layout_off(ctx, 'hogl::bitmap', '_data')): ('p', 'A%d.bits' % k, 0), ('A%d.sect' % k, 0): ('p', 'A%d.s0' % k, 0)})
            m.update({('eng', mo.o('_ring_index') + layout_off(ctx, IX, 'entries')): ('p', 'ents', 0), kc: 0, th: 77,
                      ('eng', mo.o('_tso') + layout_off(ctx, 'hogl::tsobuf', '_entry')): ('p', 'tsoe', 0)})
            o = Obj(ctx, mo.maps, locks=mo.locks)
            base = watcher(ctx, mo, o, {}, None)

            def watch(i, Fx, ev):
                out = tuple(base(i, Fx, ev))
                if i.op == 'store' and Fx.cell(i.ops[1]) == kc:
                    out += (('kill', Fx.get(i.ops[0])),)
                return out
            o.watch = watch
            o.calls = {'pthread_join': lambda i, a, Fx, ev: [(0, [('join', Fx.mem.get(kc), a[0])], {})]}
            ex = o.run(fn, {0: ('p', 'eng', 0)}, m)
            W = '%s:%d' % (fn.file, fn.line)
            w = '%s (%d rings, %d areas)' % (fn.qname, nr, na)
            ctx.expect(ex, 'once', W, w + ' does not return')
            for ret, ev, v, m2 in ex:
                j = [k for k, e in enumerate(ev) if e[0] == 'join']
                ctx.expect(len(j) == 1 and ev[j[0]][1] == 1 and ev[j[0]][2] == 77, 'join', ret.where, '%s: %s' % (w, 'the thread is joined %d times' % len(j) if len(j) != 1 else 'the thread is joined before it is told to stop' if ev[j[0]][1] != 1 else 'another thread is joined'), w, key='join')
                if j:
                    ctx.expect(not [e for e in ev[:j[0]] if e[0] in ('free', 'ref')], 'join', ret.where, '%s: objects are released while the engine thread runs' % w, w, key='join early')
                for k in range(nr):
                    d = sum(e[2] for e in ev if e[0] == 'ref' and e[1] == 'R%d' % k)
                    ctx.expect(d == -1, 'once', ret.where, '%s: a registered ring is released %d times' % (w, -d), w, key='once ring')
                for k in range(na):
                    for x in ('A%d', 'A%d.name', 'A%d.sect', 'A%d.s0', 'A%d.bits'):
                        n = freed(ev, x % k)
                        ctx.expect(n == 1, 'once', ret.where, '%s: %s is freed %d times' % (w, {'A%d': 'an area'}.get(x, 'data of an area'), n), w, key='once area')
                for x in ('ents', 'tsoe'):
                    ctx.expect(freed(ev, x) == 1, 'once', ret.where, '%s: %s freed %d times' % (w, 'index' if x == 'ents' else 'reordering buffer', freed(ev, x)), w, key='once ' + x)


def ctor(ctx, mo):
    fn = ctx.fn('ctor')
    oo = lambda f: layout_off(ctx, EN + '::options', f)
    n = 0
    for feat in (0, None):
        if feat is None:
            for en, e in ctx.enums.items():
                if 'DISABLE_TSO' in dict(e):
                    feat = dict(e)['DISABLE_TSO']
        for cap in (0, 1, 64):
            m = {('opts', oo('timesource')): 0, ('opts', oo('tso_buffer_capacity')): cap, ('opts', oo('features')): feat, ('opts', oo('schedparam')): 0, ('opts', oo('polling_interval_usec')): 100}
            Heap(mo.maps).put(m, 'rings', [])
            Heap(mo.maps).put(m, 'areas', [])
            snap = []
            o = Obj(ctx, mo.maps, locks=mo.locks, keep=('hogl::mask', 'fmt::', 'std::'))

            def create(i, a, Fx, ev):
                snap.append((dict(Fx.mem), i.where, a))
                return [(0, [('create', a)], {})]

            def watch(i, Fx, ev):
                if i.op == 'store' and any(e[0] == 'create' for e in ev):
                    k = Fx.ptr(i.ops[1])
                    if k[1] == 'eng':
                        return (('late', i.where),)
                return ()
            o.calls = {'pthread_create': create}
            o.watch = watch
            ex = o.run(fn, {0: ('p', 'eng', 0), 1: ('p', 'out', 0), 2: ('p', 'opts', 0)}, m, cap=8)
            w = '%s (capacity %d, features %d)' % (fn.qname, cap, feat)
            ctx.expect(ex, 'start', '%s:%d' % (fn.file, fn.line), w + ' does not return')
            for ret, ev, v, m2 in ex:
                ctx.expect(sum(1 for e in ev if e[0] == 'create') == 1, 'start', ret.where, '%s: the engine thread is not started once' % w, w, key='start once')
                for e in ev:
                    if e[0] == 'late':
                        ctx.bad('start', e[1], '%s: the engine is changed after its thread was started' % w, key='start late')
            for mm, where, a in snap:
                n += 1
                g = lambda f: mm.get(('eng', mo.o(f)))
                ix = lambda f: mm.get(('eng', mo.o('_ring_index') + layout_off(ctx, IX, f)))
                ctx.expect(g('_killed') == 0 and type(g('_timesource')) is tuple and type(g('_internal_area')) is tuple and ix('count') == 0 and ix('entries') == 0 and ix('dirty') is not None, 'start', where,
                           '%s: the engine thread is started before its state is initialised' % w, w, key='start init')
                ctx.expect(any(x == ('p', 'eng', 0) for x in a), 'start', where, '%s: the thread does not get the engine' % w, w, key='start arg')
                f = [x for x in a if type(x) is tuple and x[1][0] == 'f']
                ctx.expect(f and 'entry' in f[0][1][1] or any('entry' in str(x) for x in a), 'main', where, '%s: the thread runs %s' % (w, a), w, key='main entry')
                if not feat:
                    tc, te = (mm.get(('eng', mo.o('_tso') + layout_off(ctx, 'hogl::tsobuf', x))) for x in ('_capacity', '_entry'))
                    th, tt = (mm.get(('eng', mo.o('_tso') + layout_off(ctx, 'hogl::tsobuf', x))) for x in ('_head', '_tail'))
                    ctx.expect(type(tc) is int and tc >= max(cap, 1) and type(te) is tuple and th == 0 and tt == 0 and g('_tso_leftover') == 0, 'start', where, '%s: the reordering buffer is not ready (capacity %s, %s, %s)' % (w, tc, th, tt), w, key='start tso')
    ctx.anchor(n, 'start of the engine thread')


def progress(ctx, mo):
    fn = ctx.fn('epass')
    E = EnginePass(ctx, fn)
    W = '%s:%d' % (fn.file, fn.line)
    R = lambda ts, refs=1, flags=0, head=6: (flags, False, refs, list(ts), head)
    cases = []
    for tso, cap in ((False, 64), (True, 64), (True, 2), (True, 1)):
        for a in ((), (10,), (10, 11, 12), tuple(range(10, 17))):
            for b in (None, (), (12, 9)):
                cases.append(Case('abandoned rings %d %s %s/%d' % (len(a), b, 'ordered' if tso else 'unordered', cap), [R(a)] + ([R(b, 1, C.SHARED | C.IMMORTAL, 2)] if b is not None else []), tso, cap))
    cases.append(Case('abandoned new ring', [R((10,))], True, 4, index=[], dirty=1))

    def job(c):
        rm = ('eng', E.o(EN, '_ring_mutex'))

        def on(i, a, Fx):
            if i.is_call and i.callee == 'pthread_mutex_trylock' and i.ops and Fx.cell(i.ops[0]) == rm:
                return [(0, a, {})]      # the registry lock is free
            return None
        E.intr = on
        mem = E.memory(c)
        ixd = ('eng', E.ri + E.o(IX, 'dirty'))
        ixc = ('eng', E.ri + E.o(IX, 'count'))
        got = {k: 0 for k in range(len(c.rings))}
        for p in range(8):
            ex = E.run(c, mem, on=on)
            if not ex:
                ctx.bad('progress', W, 'engine pass (%s) does not complete' % c.name, key='progress stuck')
                return
            ev, mem = ex[0][1], ex[0][3]
            for e in ev:
                if e[0] == 'out':
                    got[e[1]] += 1
                if e[0] == 'uaf':
                    ctx.bad('once', e[2], 'engine pass (%s): uses memory that was freed' % c.name, key='once uaf')
            if mem.get(ixd) == 0 and mem.get(ixc) == 0:
                break
        ctx.expect(mem.get(ixd) == 0 and mem.get(ixc) == 0, 'progress', W, 'engine pass (%s): abandoned rings stay registered: shutdown never ends' % c.name, c.name, key='progress')
        for k, r in enumerate(c.rings):
            ctx.expect(got[k] == len(r[3]), 'drain', W, 'shutdown (%s): %d of %d records of a ring are output' % (c.name, got[k], len(r[3])), c.name, key='drain records')
    ctx.pmap(cases, job)


def activation(ctx, mo):
    de = lambda m: [v for k, v in m.items() if type(k) is tuple and 'default_engine' in str(k[0])]

    def isde(k):
        return k is not None and 'default_engine' in str(k[0])
    for active in (False, True):
        for flags in range(8):
            fn = ctx.fn('act')
            ring = ('g', None)
            log = []

            def st(i, Fx, ev):
                if i.op == 'store' and isde(Fx.cell(i.ops[1])):
                    return (('publish', Fx.val(i.ops[0])),)
                return ()

            def asm(f, i):
                if i.op == 'load':
                    fl = f.fieldof(i)
                    if fl == (RB, '_flags'):
                        return flags
                    if 'default_engine' in str(f.addr(i.ops[0]).root):
                        return ('p', 'olde', 0) if active else 0
                return None
            isdr = lambda v: type(v) is tuple and 'default_ring' in str(v[1])
            o = Obj(ctx, {}, keep=('std::', 'hogl::'))
            o.watch = st
            o.calls = {EN + '::engine': lambda i, a, Fx, ev: [(None, [('engine', a[0], a[1], a[2])], {})],
                       EN + '::add_ring': lambda i, a, Fx, ev: [(1, [('add', a[0], isdr(a[1]))], {})],
                       RB + '::hold': lambda i, a, Fx, ev: [(a[0], [('hold', isdr(a[0]))], {})],
                       RB + '::release': lambda i, a, Fx, ev: [(None, [('release', isdr(a[0]))], {})],
                       '__cxa_throw': lambda i, a, Fx, ev: (log.append(ev), [])[1]}
            ex = o.run(fn, {0: ('p', 'out', 0), 1: ('p', 'opts', 0)}, {}, assume=asm, cap=8)
            okflags = flags & C.SHARED and flags & C.IMMORTAL
            w = 'activate (default ring flags %d, %s)' % (flags, 'engine active' if active else 'no engine')
            W = '%s:%d' % (fn.file, fn.line)
            if active or not okflags:
                ctx.expect(not ex, 'activate', W, '%s: accepted' % w, w, key='activate accepted')
                for ev in log:
                    ctx.expect(not [e for e in ev if e[0] in ('engine', 'add', 'hold', 'publish')], 'activate', W, '%s: refused only after something was changed' % w, w, key='activate late')
                continue
            ctx.expect(ex, 'activate', W, '%s: refused' % w, w, key='activate refused')
            for ret, ev, v, m in ex:
                eng = [e for e in ev if e[0] == 'engine']
                ok = len(eng) == 1 and eng[0][2:] == (('p', 'out', 0), ('p', 'opts', 0))
                e0 = eng[0][1] if eng else None
                hold = [k for k, e in enumerate(ev) if e == ('hold', True)]
                add = [k for k, e in enumerate(ev) if e[0] == 'add']
                pub = [e for e in ev if e[0] == 'publish']
                ctx.expect(ok, 'activate', ret.where, '%s: the engine is not created once from the given output and options' % w, w, key='activate engine')
                ctx.expect(len(hold) == 1 and len(add) == 1 and ev[add[0]] == ('add', e0, True) and hold[0] < add[0], 'activate', ret.where, '%s: the default ring is held %d times and registered %d times (hold first)' % (w, len(hold), len(add)), w, key='activate ring')
                ctx.expect(pub and pub[-1] == ('publish', e0), 'activate', ret.where, '%s: the engine is not made the default engine' % w, w, key='activate publish')
    fn = ctx.fn('deact')
    for active in (True, False):
        def asm2(f, i):
            if i.op == 'load' and 'default_engine' in str(f.addr(i.ops[0]).root):
                return ('p', 'olde', 0) if active else 0
            return None

        def st(i, Fx, ev):
            if i.op == 'store' and isde(Fx.cell(i.ops[1])):
                return (('publish', Fx.val(i.ops[0])),)
            return ()
        isdr = lambda v: type(v) is tuple and 'default_ring' in str(v[1])
        o = Obj(ctx, {}, keep=('std::', 'hogl::'))
        o.watch = st
        o.calls = {EN + '::~engine': lambda i, a, Fx, ev: [(None, [('~engine', a[0])], {})],
                   RB + '::release': lambda i, a, Fx, ev: [(None, [('release', isdr(a[0]))], {})],
                   RB + '::hold': lambda i, a, Fx, ev: [(a[0], [('hold', isdr(a[0]))], {})]}
        ex = o.run(fn, {}, {}, assume=asm2, cap=8)
        ctx.expect(ex, 'deactivate', '%s:%d' % (fn.file, fn.line), 'deactivate does not return')
        for ret, ev, v, m in ex:
            rel = [k for k, e in enumerate(ev) if e[0] in ('release', 'hold')]
            dt = [k for k, e in enumerate(ev) if e[0] == '~engine']
            pub = [k for k, e in enumerate(ev) if e[0] == 'publish']
            if not active:
                ctx.expect(not rel and not dt, 'deactivate', ret.where, 'deactivate without an engine releases something', key='deactivate none')
                continue
            ctx.expect(len(rel) == 1 and ev[rel[0]] == ('release', True) and len(dt) == 1 and ev[dt[0]][1] == ('p', 'olde', 0) and rel[0] < dt[0], 'deactivate', ret.where,
                       'deactivate: the default ring is released %d times and the engine destroyed %d times (release first)' % (len(rel), len(dt)), 'deactivate', key='deactivate order')
            ctx.expect(len(pub) and ev[pub[-1]] == ('publish', 0) and freed(ev, 'olde') == 1, 'deactivate', ret.where, 'deactivate: the engine is still the default engine afterwards or is not freed once', key='deactivate forget')
