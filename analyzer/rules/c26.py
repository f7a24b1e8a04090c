"""C26: a timesource change reaches every ring, including new ones."""
from rules.obj import *
import rules.common as C
from rules.c08 import M
from rules.passmodel import EnginePass, Case, ROOT, MASK64
from rules.c04 import ring_obj, ring_assume, SH
TS = 'hogl::timesource'


def roots(ctx):
    P = lambda *x: (lambda p: all(any(y in q for q in p[1:]) for y in x))
    return [ROOT, Root('add', EN + '::add_ring', ptypes=P('const char*')), Root('addr', EN + '::add_ring', ptypes=P('ringbuf*')),
            Root('chts', 'hogl::change_timesource', stop=('hogl::tls::ring',), ptypes=P('ringbuf')),
            Root('chts_tls', 'hogl::change_timesource', stop=('hogl::tls::ring',), ptypes=lambda p: not any('ringbuf' in x for x in p)),
            Root('set', RB + '::timesource', ptypes=lambda p: any('timesource*' in x for x in p[1:])), Root('ctor', EN + '::engine'),
            Root('stamp', RB + '::timestamp')]


def check(ctx):
    C.check_flags(ctx)
    ctx.rule('all', 'processing a timesource change updates the engine and every registered ring to the timesource of the change')
    ctx.rule('locked', 'the engine\'s and the rings\' timesource change together under the registry lock')
    ctx.rule('order', 'the change takes effect after the records before it and before the records after it in its ring')
    ctx.rule('new', 'whenever the registry is not locked every registered ring has the engine\'s timesource, whatever change comes between')
    ctx.rule('null', 'a missing timesource means the default timesource, in the engine options and in a change')
    ctx.rule('barrier', 'a write barrier separates the caller\'s setup of a timesource from its use by a ring')
    ctx.rule('read', 'a ring takes timestamps from its current timesource')
    mo = M(ctx)
    passes_(ctx)
    for f in (adds, change, setter, ctor, stamp):
        f(ctx, mo)


def passes_(ctx):
    fn = ctx.fn('epass')
    E = EnginePass(ctx, fn)
    W = '%s:%d' % (fn.file, fn.line)
    R = lambda ts, head=6, refs=2, flags=0: (flags, False, refs, list(ts), head)
    rm = ('eng', E.o(EN, '_ring_mutex'))
    cases = []
    for tso, cap in ((False, 64), (True, 64), (True, 2), (True, 3)):
        for at in ((0, 0), (0, 1), (0, 2), (1, 0)):
            cases.append(Case('change at %s of ring %d, %s/%d' % (at[1], at[0], 'ordered' if tso else 'unordered', cap), [R((10, 11, 12)), R((9, 13), 3), R((), 1), R((), 2, 1, 0)],
                              tso, cap, special={at: 'SPR_TIMESOURCE_CHANGE'}, index=[0, 1, 2], names=[0, 1, 2, 3]))
        cases.append(Case('two changes %s/%d' % (tso, cap), [R((10, 11, 12)), R((9, 13), 3)], tso, cap, special={(0, 1): 'SPR_TIMESOURCE_CHANGE', (1, 0): 'SPR_TIMESOURCE_CHANGE'}))
        cases.append(Case('index update %s/%d' % (tso, cap), [R((10,)), R((9, 13), 3), R((), 1)], tso, cap, special={(0, 0): 'SPR_TIMESOURCE_CHANGE'}, index=[0], dirty=1))

    def job(c):
        def on(i, a, Fx):
            if i.is_call and i.callee in ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock') and i.ops and Fx.cell(i.ops[0]) == rm:
                if i.callee.endswith('trylock'):
                    return [(0, a + (('lk', 1),), {}), (16, a, {})]
                return [(0, a + (('lk', 1 if i.callee.endswith('_lock') else 0),), {})]
            return None
        n = 0
        for ret, ev, v, m in E.run(c, on=on):
            w = 'engine pass (%s)' % c.name
            lk = 0
            seen = {}
            for e in ev:
                if e[0] == 'lk':
                    lk = e[1]
                elif e[0] in ('ts', 'ets'):
                    ctx.expect(lk, 'locked', W, '%s: a timesource is changed without the registry lock' % w, c.name, key='locked pass')
                    if e[0] == 'ets':
                        seen.setdefault('at', []).append({k: v for k, v in seen.items() if k != 'at'})
                elif e[0] == 'out':
                    seen[e[1]] = seen.get(e[1], 0) + 1
            for k, r in enumerate(c.rings):
                if k not in c.registered:
                    continue
                gone = any(e[0] == 'free' and e[1] == 'ring%d' % k for e in ev)
                # every marker of the pass was acknowledged, so its change has been applied
                if all(any(e[0] == 'out' and (e[1], e[2]) == (a, (c.rings[a][4] + 1 + b) & 7) for e in ev) for a, b in c.special) and not gone:
                    n += 1
                    t = m.get(('ring%d' % k, E.roff['_timesource']))
                    ctx.expect(t == ('p', 'newts', 0), 'all', W, '%s: a registered ring has %s after the change' % (w, t), c.name, key='all ring')
                    t = m.get(('eng', E.o(EN, '_timesource')))
                    ctx.expect(t == ('p', 'newts', 0), 'all', W, '%s: the engine has %s after the change' % (w, t), c.name, key='all engine')
            # order: at every switch, the rings with a marker have output exactly the records before it
            for at in seen.get('at', []):
                ok = any(at.get(k, 0) in (j, j + 1) for k, j in c.special)
                ctx.expect(ok, 'order', W, '%s: the change is applied after %s records' % (w, at), c.name, key='order')
            if not seen.get('at') and all(k in [e[1] for e in ev if e[0] == 'out'] for k, j in c.special):
                ctx.bad('all', W, '%s: the change is not applied' % w, key='all never')
        return n
    ctx.anchor(sum(ctx.pmap(cases, job)), 'processing of a timesource change')


def adds(ctx, mo):
    te = ('eng', mo.o('_timesource'))
    tf = mo.f['_timesource']
    oo = lambda f: layout_off(ctx, RB + '::options', f)
    for rid in ('add', 'addr'):
        fn = ctx.fn(rid)
        for used in (None, C.SHARED, C.REUSABLE, 0):
            m = mo.engine([('OTHER', 'O')] + ([('NAME', 'R')] if used is not None else []))
            mo.ring(m, 'O', 0, 2, tsrc='ets')
            if used is not None:
                mo.ring(m, 'R', used, 1, 'NAME', tsrc='ets')
            args = {0: ('p', 'eng', 0)}
            if rid == 'addr':
                mo.ring(m, 'N', C.SHARED, 1, 'NAME', tsrc='stale')
                args[1] = ('p', 'N', 0)
            else:
                args.update({1: ('p', 'NAME', 0), 2: ('p', 'opts', 0)})
                m.update({('opts', oo('capacity')): 8, ('opts', oo('prio')): 0, ('opts', oo('flags')): C.SHARED, ('opts', oo('record_tailroom')): 128})
            o = Obj(ctx, mo.maps, locks=mo.locks)

            def switched(Fx, n):
                up = {te: ('p', 'ets%d' % n, 0)}
                for k, v in (o.heap.items(Fx.mem, 'rings') or ()):
                    r = Fx.mem.get(('#node:rings:%s' % (k,), 32))
                    if type(r) is tuple:
                        up[(r[1], tf)] = ('p', 'ets%d' % n, 0)
                return up

            # before locking and after unlocking the engine may switch
            def lock(i, a, Fx, ev):
                nm = o.lockname(Fx, i.ops[0])
                out = [(0, [], {})]
                n = sum(1 for e in ev if e[0] == 'sw')
                if nm == 'ring' and n < 2:
                    out.append((0, [('sw', n)], switched(Fx, n)))
                return out

            def watch(i, Fx, ev):
                if i.op == 'store':
                    k = Fx.cell(i.ops[1])
                    if k and k[1] == tf and type(k[0]) is str and k[0] != 'eng' and not k[0].startswith(('#', 'TR')) and any(e[0] == 'unlock' and e[1] == 'ring' for e in ev) and not inlock(ev):
                        ctx.bad('new', i.where, '%s sets the timesource of a registered ring without the registry lock' % fn.qname, key='new unlocked ' + rid)
                return ()
            o.calls = {'pthread_mutex_lock': lock, 'pthread_mutex_unlock': lock}
            o.watch = watch
            W = '%s:%d' % (fn.file, fn.line)
            ex = o.run(fn, args, m, assume=lambda f, i: 8192 if i.is_call and i.callee == 'sysconf' else 0 if i.is_call and i.callee in ('pthread_mutex_init', 'pthread_cond_init') else None)
            w = '%s (%s)' % (fn.qname, 'new name' if used is None else 'name in use')
            ctx.expect(ex, 'new', W, w + ' does not return')
            for ret, ev, v, m2 in ex:
                t = m2.get(te)
                for k, r in mo.registered(m2, o.heap) or [('?', None)]:
                    ctx.expect(type(r) is str and m2.get((r, tf)) == t, 'new', ret.where, '%s: the engine uses %s and the ring registered as %s uses %s' % (w, t, k, m2.get((r, tf))), w, key='new ' + rid)


def inlock(ev):
    d = 0
    for e in ev:
        if e[0] in ('lock', 'unlock') and e[1] == 'ring':
            d = e[0] == 'lock'
    return d


def change(ctx, mo):
    for rid in ('chts', 'chts_tls'):
        fn = ctx.fn(rid)
        vo = layout_off(ctx, REC, 'argval')
        for ts in ('ts', None):
            for to in (0, 5000):
                mem, off = ring_obj(ctx, 1, 0, 3, 0)
                mem[('ring0', off['_timesource'])] = ('p', 'oldts', 0)
                args = {}
                for n, p in enumerate(fn.ptypes[1:]):
                    args[n] = ('p', 'ring0', 0) if 'ringbuf' in p else (('p', ts, 0) if ts else 0) if 'timesource' in p else to
                got = []

                def step(i, a, Fx):
                    if i.op == 'store':
                        k = Fx.cell(i.ops[1])
                        p = Fx.ptr(i.ops[1])
                        if p[2] is not None and p[2] % (1 << SH) == vo + 8 and p[1] not in ('ring0',) and C.in_ring(fn, i.ops[1]):
                            v = Fx.val(i.ops[0])
                            want = v == ('p', ts, 0) if ts else type(v) is tuple and v[1][0] == 'g' and 'default_timesource' in str(v[1])
                            got.append(want)
                            ctx.expect(want, 'null' if not ts else 'all', i.where, '%s: posts timesource %s for %s' % (fn.qname, v, ts), fn.qname, key='posted ' + str(ts))
                            return 1
                        if k == ('ring0', off['_tail']):
                            ctx.expect(a, 'all', i.where, '%s: posts a change without a timesource' % fn.qname, fn.qname, key='posted none')
                    return a
                def asm(f, i):
                    if i.is_call and i.callee == 'hogl::tls::ring':
                        return ('p', 'ring0', 0)
                    return ring_assume(f, i)
                Sim(fn, step, 0, objmem=True, args=args, mem=mem, cap=4, assume=asm)
                ctx.anchor(got, 'posting of the timesource in ' + fn.qname)


def setter(ctx, mo):
    fn = ctx.fn('set')
    tf = (RB, '_timesource')
    n = [0]

    def step(i, a, Fx):
        if 'w' in barrier_kind(i):
            return 1
        if i.op == 'store' and fn.fieldof(i) == tf:
            n[0] += 1
            ctx.expect(a or store_kind(i), 'barrier', i.where, '%s: sets the timesource without a write barrier' % fn.qname, fn.qname)
            ctx.expect(Fx.val(i.ops[0]) == ('p', 'ts', 0), 'all', i.where, '%s: stores another timesource' % fn.qname, fn.qname, key='setter')
        return a
    s = Sim(fn, step, 0, objmem=True, args={0: ('p', 'ring0', 0), 1: ('p', 'ts', 0)}, mem={('ring0', mo.f['_timesource']): ('p', 'oldts', 0)})
    ctx.anchor(n[0] and s.exits, 'store of the timesource')
    for r, a, v, m in s.exits:
        ctx.expect(m.get(('ring0', mo.f['_timesource'])) == ('p', 'ts', 0), 'all', r.where, '%s: the ring keeps another timesource' % fn.qname, fn.qname, key='setter end')


def ctor(ctx, mo):
    fn = ctx.fn('ctor')
    oo = lambda f: layout_off(ctx, EN + '::options', f)
    for ts in ('ts', None):
        m = {('opts', oo('timesource')): ('p', ts, 0) if ts else 0, ('opts', oo('tso_buffer_capacity')): 16, ('opts', oo('features')): 0, ('opts', oo('schedparam')): 0, ('opts', oo('polling_interval_usec')): 100}
        o = Obj(ctx, mo.maps, locks=mo.locks, keep=('hogl::mask',))
        at = []

        def create(i, a, Fx, ev):
            at.append((Fx.mem.get(('eng', mo.o('_timesource'))), i.where))
            return [(0, [], {})]
        o.calls = {'pthread_create': create}
        o.run(fn, {0: ('p', 'eng', 0), 1: ('p', 'out', 0), 2: ('p', 'opts', 0)}, m, cap=8)
        ctx.anchor(at, 'start of the engine thread')
        for t, where in at:
            ok = t == ('p', ts, 0) if ts else type(t) is tuple and 'default_timesource' in str(t[1])
            ctx.expect(ok, 'null', where, '%s: the thread is started with timesource %s for option %s' % (fn.qname, t, ts), fn.qname, key='ctor ' + str(ts))


def stamp(ctx, mo):
    for fn in ctx.fns('stamp'):
        n = [0]

        def step(i, a, Fx):
            if i.is_call and i.callee is None and not (asm_of(i)):
                p = [Fx.val(o) for o in i.ops]
                c = Fx.val(i.d['callee']) if i.d.get('callee') else None
                n[0] += 1
                ctx.expect(any(x == ('p', 'ts', 0) for x in p), 'read', i.where, '%s: takes the time from %s' % (fn.qname, p), fn.qname, key='read')
            return a
        this = [k for k, a in enumerate(fn.args) if a[0] == 'this'][0]
        s = Sim(fn, step, 0, objmem=True, args={this: ('p', 'ring0', 0)}, mem={('ring0', mo.f['_timesource']): ('p', 'ts', 0)})
        ctx.anchor(n[0], 'callback of ' + fn.qname)
