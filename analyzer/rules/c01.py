from rules.common import *
from rules.ringctor import ring_ctor
import rules.common as C
RAW = True
KIND = ('post_ring', 'post_unlocked_ring', 'push_ring', 'push_unlocked_ring', 'post_tls', 'post_unlocked_tls')
COUNTS = (0, 1, 3, 16)


def roots(ctx):
    R = writer_roots(COUNTS)
    R += [Root('pop_begin', 'hogldrv::rb_pop_begin'), Root('pop_commit', 'hogldrv::rb_pop_commit'),
          Root('pit_next', 'hogldrv::pit_next'), Root('pit_rewind', 'hogldrv::pit_rewind'),
          Root('pit_commit', 'hogldrv::pit_commit'), Root('pit_reset', 'hogldrv::pit_reset'),
          Root('push_begin', 'hogldrv::rb_push_begin'), Root('push_commit', 'hogldrv::rb_push_commit'),
          Root('reset', 'hogl::ringbuf::reset'), Root('ctor', 'hogl::ringbuf::ringbuf', ptypes=lambda p: len(p) > 2 and 'ringbuf &' not in ' '.join(p[1:])),
          Root('passes', 'hogl::engine::process_rings', stop=('hogl::output::process',)),
          ]
    return R


def writers(ctx):
    for k in KIND:
        for n in COUNTS:
            yield '%s_%d' % (k, n), not k.startswith('push')
    for n in (1, 2, 16):
        yield 'capi_%d' % n, True


SH = 9


def caps(ctx):
    return (1, 3, 7, 1023) if ctx.tier == 'thorough' else (1, 3)


def slot_of(fn, Fx, o):
    """slot index (const or None) of an address inside ring memory"""
    p = Fx.ptr(o)
    if p[1] != (RB, '_rec_top') or p[2] is None:
        return None
    return p[2] >> SH


def check(ctx):
    check_flags(ctx)
    ctx.rule('full-drop', 'non-blocking full ring: every path leaves _tail alone, adds exactly one to _dropcnt and never waits')
    ctx.rule('full-block', 'blocking full ring: no path returns, publishes or counts a drop while the ring stays full')
    ctx.rule('resume', 'blocking full ring: once a slot is freed the record is published in the slot at the tail')
    ctx.rule('accept', 'ring with room: every path publishes exactly one slot ((tail+1)&mask) and counts no drop')
    ctx.rule('slot', 'record stores go to the slot at the tail only, never to a queued slot')
    ctx.rule('reader', 'the reader takes the slot after _head only if it differs from _tail, and advances _head to it')
    ctx.rule('index-owner', '_tail is stored by writers only, _head by readers only (plus construction/reset)')
    ctx.rule('marker', 'flush / change_timesource publish a marker only in a free slot')
    ctx.rule('init', 'a new ring is empty and its index mask is a power of two minus one')
    jobs = [(writer, rid, area) for rid, area in sorted(writers(ctx), key=lambda x: -int(x[0].rsplit('_', 1)[1]))]
    jobs += [(marker, rid, None) for rid in ('flush', 'chts', 'flush_tls', 'chts_tls')] + [(reader,), (owners,), (init,)]

    def job(j):
        if len(j) == 1:
            j[0](ctx)
            return
        for fn in ctx.fns(j[1]):
            if j[0] is writer:
                writer(ctx, j[1], fn, j[2])
            else:
                marker(ctx, j[1], fn)
    ctx.pmap(jobs, job)


def sim(fn, mem, wake=None, sleep_wake=False):
    """automaton: (tail stores, waits) saturated at 2; returns Sim and list of bad slot stores"""
    bad = []
    t0 = mem['_tail']

    def step(i, a, Fx):
        ts, w = a
        f = fn.fieldof(i) if i.op == 'store' else None
        if f == (RB, '_tail'):
            return (min(ts + 1, 2), w)
        if f == (RB, '_head'):
            bad.append((i, 'writer stores _head'))
        if i.is_call and i.callee in CONDW or (sleep_wake and i.is_call and i.callee in SLEEP):
            if wake is not None:
                Fx.mem['_head'] = wake
            return (ts, min(w + 1, 2))
        p = written_ptr(i)
        if p is not None and f != (RB, '_tail') and in_ring(fn, p):
            s = slot_of(fn, Fx, p)
            if ts:
                bad.append((i, 'stores into the record after it was published'))
            if s is not None and s != t0:
                bad.append((i, 'stores into slot %d while the tail is %d' % (s, t0)))
            seen.append(i)
        return a
    seen = []
    s = Sim(fn, step, (0, 0), cells=ring_cells, mem=mem, cap=3)
    s.slotstores = seen
    return s, bad


def writer(ctx, rid, fn, area):
    w = fn.qname
    big = rid.endswith('_16') or rid.endswith('_3')
    thin = big and ctx.tier != 'thorough'
    for c in (3,) if thin else caps(ctx):
        for fl in (C.SHARED,) if thin else (0, C.SHARED):
            for t in (c,) if thin else sorted({0, c, c // 2}):
                # full
                s, bad = sim(fn, ring_mem(t, t, c, fl, SH))
                att = 0
                for r, a, v, m in s.exits:
                    if area and a == (0, 0) and m.get('_seqnum') == 1000 and m.get('_dropcnt') == 5 and m.get('_tail') == t:
                        continue
                    att += 1
                    ctx.expect(a == (0, 0) and m.get('_tail') == t and m.get('_head') == t and m.get('_dropcnt') == 6,
                               'full-drop', r.where, '%s: full non-blocking ring (mask %d tail %d): waits/published=%s tail=%s drops=%s'
                               % (w, c, t, a, m.get('_tail'), None if m.get('_dropcnt') is None else m['_dropcnt'] - 5), sample=w)
                if not att:
                    ctx.bad('full-drop', '%s:%d' % (fn.file, fn.line), '%s: no path discards the record on a full ring' % w)
                for i, msg in bad:
                    ctx.bad('slot', i.where, '%s: %s' % (w, msg))
                # room
                for used in (c - 1,) if thin else sorted({0, c // 2, c - 1}):
                    h = (t - 1 - used) & c
                    if h == t:
                        continue
                    for extra in (0, C.BLOCKING):
                        s, bad = sim(fn, ring_mem(t, h, c, fl | extra, SH))
                        att = 0
                        for r, a, v, m in s.exits:
                            if area and a == (0, 0) and m.get('_seqnum') == 1000 and m.get('_dropcnt') == 5:
                                continue
                            att += 1
                            ctx.expect(a == (1, 0) and m.get('_tail') == (t + 1) & c and m.get('_dropcnt') == 5 and m.get('_head') == h,
                                       'accept', r.where, '%s: ring with room (mask %d tail %d head %d): published %d time(s), waited %d, tail=%s drops=%s'
                                       % (w, c, t, h, a[0], a[1], m.get('_tail'), m.get('_dropcnt')), sample=w)
                        if not att:
                            ctx.bad('accept', '%s:%d' % (fn.file, fn.line), '%s: no path accepts the record' % w)
                        for i, msg in bad:
                            ctx.bad('slot', i.where, '%s: %s' % (w, msg))
                        ctx.ok('slot', n=len(s.slotstores))
                # blocking full
                s, bad = sim(fn, ring_mem(t, t, c, fl | C.BLOCKING, SH))
                for r, a, v, m in s.exits:
                    if area and a == (0, 0) and m.get('_seqnum') == 1000:
                        continue
                    ctx.bad('full-block', r.where, '%s: returns while the blocking ring is full (published %d, drops %s)' % (w, a[0], m.get('_dropcnt')))
                ctx.ok('full-block', w)
                s, bad = sim(fn, ring_mem(t, t, c, fl | C.BLOCKING, SH), wake=(t + 1) & c)
                att = 0
                for r, a, v, m in s.exits:
                    if area and a == (0, 0) and m.get('_seqnum') == 1000:
                        continue
                    att += 1
                    ctx.expect(a[0] == 1 and a[1] >= 1 and m.get('_tail') == (t + 1) & c and m.get('_dropcnt') == 5, 'resume', r.where,
                               '%s: after waiting for room: published %d time(s) waits %d tail=%s drops=%s' % (w, a[0], a[1], m.get('_tail'), m.get('_dropcnt')), sample=w)
                if not att:
                    ctx.bad('resume', '%s:%d' % (fn.file, fn.line), '%s: never publishes after a slot was freed' % w)
                for i, msg in bad:
                    ctx.bad('slot', i.where, '%s: %s' % (w, msg))


def marker(ctx, rid, fn):
    w = fn.qname
    for c in caps(ctx):
        for fl in (0, C.SHARED, C.BLOCKING, C.SHARED | C.BLOCKING):
            for t in sorted({0, c}):
                s, bad = sim(fn, ring_mem(t, t, c, fl, SH))
                for r, a, v, m in s.exits:
                    ctx.expect(a[0] == 0 and m.get('_tail') == t and m.get('_dropcnt') == 5, 'marker', r.where,
                               '%s: marker posted to a full ring (tail %s drops %s)' % (w, m.get('_tail'), m.get('_dropcnt')), sample=w)
                for i, msg in bad:
                    ctx.bad('slot', i.where, '%s: %s' % (w, msg))
                for wake, h in ((None, (t + 1) & c), ((t + 1) & c, t)):
                    s, bad = sim(fn, ring_mem(t, h, c, fl, SH), wake=wake, sleep_wake=True)
                    n = 0
                    for r, a, v, m in s.exits:
                        if a[0] == 0 and wake is not None and m.get('_tail') == t and m.get('_dropcnt') == 5:
                            continue
                        n += 1
                        ctx.expect(a[0] == 1 and m.get('_tail') == (t + 1) & c and m.get('_dropcnt') == 5, 'marker', r.where,
                                   '%s: ring with room: marker published %d time(s), tail %s drops %s' % (w, a[0], m.get('_tail'), m.get('_dropcnt')))
                    if not n:
                        ctx.bad('marker', '%s:%d' % (fn.file, fn.line), '%s: marker never published' % w)
                    for i, msg in bad:
                        ctx.bad('slot', i.where, '%s: %s' % (w, msg))


PI = 'hogl::ringbuf::pop_iterator'


def pit_cells(fn, i):
    f = fn.fieldof(i)
    if f and f[0] == PI and f[1] in ('_head', '_tail'):
        return 'it' + f[1]
    return ring_cells(fn, i)


def ret_slot(fn, i, Fx):
    """slot index a returned record pointer denotes; -1 for null"""
    o = i.ops[0]
    v = Fx.get(o)
    if v == 0:
        return -1
    return slot_of(fn, Fx, o)


def reader(ctx):
    for c in caps(ctx) + (7,):
        for h in range(0, c + 1):
            for t in range(0, c + 1):
                if c > 7 and (h % 337 or t % 211):
                    continue
                nx = (h + 1) & c
                want = -1 if nx == t else nx
                fn = ctx.fn('pop_begin')
                res = []

                def step(i, a, Fx):
                    if i.op == 'ret':
                        res.append((i, ret_slot(fn, i, Fx)))
                    return a
                Sim(fn, step, 0, cells=pit_cells, mem=ring_mem(t, h, c, 0, SH))
                for i, r in res:
                    ctx.expect(r == want, 'reader', i.where, 'pop_begin returns slot %s for head %d tail %d mask %d (want %s)' % (r, h, t, c, want), 'pop_begin')
                fn = ctx.fn('pop_commit')
                s = Sim(fn, lambda i, a, Fx: a, 0, cells=pit_cells, mem=ring_mem(t, h, c, 0, SH))
                for r, a, v, m in s.exits:
                    ctx.expect(m.get('_head') == nx and m.get('_tail') == t, 'reader', r.where, 'pop_commit moves head %d to %s (mask %d)' % (h, m.get('_head'), c))
                # iterator: own copies, ring indices elsewhere
                fn = ctx.fn('pit_next')
                res = []

                def step2(i, a, Fx):
                    if i.op == 'ret':
                        res.append((i, ret_slot(fn, i, Fx), dict(Fx.mem)))
                    return a
                m0 = ring_mem(2 & c, 1 & c, c, 0, SH)
                m0.update({'it_head': h, 'it_tail': t})
                Sim(fn, step2, 0, cells=pit_cells, mem=m0)
                for i, r, m in res:
                    ctx.expect(r == want and m.get('it_head') == (h if want < 0 else nx) and m.get('it_tail') == t and m.get('_head') == 1 & c, 'reader', i.where,
                               'pop_iterator::next returns slot %s, position %s, for position %d end %d mask %d' % (r, m.get('it_head'), h, t, c), 'pop_iterator::next')
                fn = ctx.fn('pit_commit')
                s = Sim(fn, lambda i, a, Fx: a, 0, cells=pit_cells, mem=dict(m0))
                for r, a, v, m in s.exits:
                    ctx.expect(m.get('_head') == h and m.get('_tail') == 2 & c, 'reader', r.where, 'pop_iterator::commit sets head %s for position %d' % (m.get('_head'), h))
                fn = ctx.fn('pit_reset')
                m1 = ring_mem(t, h, c, 0, SH)
                s = Sim(fn, lambda i, a, Fx: a, 0, cells=pit_cells, mem=m1)
                for r, a, v, m in s.exits:
                    ctx.expect(m.get('it_head') == h and m.get('it_tail') == t and m.get('_head') == h and m.get('_tail') == t, 'reader', r.where,
                               'pop_iterator::reset takes position %s end %s for head %d tail %d' % (m.get('it_head'), m.get('it_tail'), h, t))
    # rewind: index is the inverse of the slot address
    fn = ctx.fn('pit_rewind')
    for i in fn.stores((PI, '_head')):
        e = fn.expr(i.ops[0], stable=lambda f: f in ((RB, '_rec_top'), (RB, '_rec_shift')))
        txt = repr(e)
        ctx.expect(any(k in txt for k in ("'lshr'", "'ashr'", 'div')) and "'sub'" in txt and '_rec_shift' in txt and '_rec_top' in txt, 'reader', i.where,
                   'pop_iterator::rewind does not invert the slot address')
    # push_begin
    fn = ctx.fn('push_begin')
    for c in (3, 7):
        for t in range(c + 1):
            res = []

            def step3(i, a, Fx):
                if i.op == 'ret':
                    res.append((i, ret_slot(fn, i, Fx)))
                return a
            Sim(fn, step3, 0, cells=pit_cells, mem=ring_mem(t, (t - 1) & c, c, 0, SH))
            for i, r in res:
                ctx.expect(r == t, 'slot', i.where, 'push_begin returns slot %s, tail is %d' % (r, t))


WRITER_ROOTS = None


def owners(ctx):
    wr = [r for r, _ in writers(ctx)] + ['flush', 'chts', 'push_begin', 'push_commit', 'flush_tls', 'chts_tls']
    rd = ['pop_begin', 'pop_commit', 'pit_next', 'pit_rewind', 'pit_commit', 'pit_reset', 'passes']
    init = ['ctor', 'reset']
    covered(ctx, 'index-owner', (RB, '_tail'), wr + init)
    covered(ctx, 'index-owner', (RB, '_head'), rd + init)
    covered(ctx, 'index-owner', (RB, '_capacity'), ['ctor'])
    covered(ctx, 'index-owner', (RB, '_rec_shift'), ['ctor'])
    covered(ctx, 'index-owner', (RB, '_rec_top'), ['ctor'])
    covered(ctx, 'index-owner', (RB, '_dropcnt'), wr + init)
    for r in rd:
        for fn in ctx.fns(r):
            for i in fn.stores((RB, '_tail')):
                ctx.bad('index-owner', i.where, 'the reader side (%s) stores _tail' % fn.qname)
            ctx.ok('index-owner', fn.qname)
    for r in wr:
        for fn in ctx.fns(r):
            for i in fn.stores((RB, '_head')):
                ctx.bad('index-owner', i.where, 'the writer side (%s) stores _head' % fn.qname)
            ctx.ok('index-owner', fn.qname)


def init(ctx):
    fn = ctx.fn('reset')
    for c in (1, 7):
        s = Sim(fn, lambda i, a, Fx: a, 0, cells=ring_cells, mem=ring_mem(1, 1, c, 0, SH))
        for r, a, v, m in s.exits:
            ok = m.get('_tail') is not None and m.get('_head') is not None and (m['_head'] + 1) & c == m['_tail']
            ctx.expect(ok and m.get('_seqnum') == 0 and m.get('_dropcnt') == 0, 'init', r.where,
                       'reset leaves head %s tail %s seqnum %s drops %s (mask %d)' % (m.get('_head'), m.get('_tail'), m.get('_seqnum'), m.get('_dropcnt'), c), 'reset')
    for fn in ctx.fns('ctor'):
        for cap in (1, 2, 3, 5, 64, 100, 1000, 1024, 1025, 65537):
            n = 0
            for inst, g, al in ring_ctor(ctx, fn, 128, cap):
                n += 1
                c, h, t = g('_capacity'), g('_head'), g('_tail')
                ctx.expect(c is not None and c & (c + 1) == 0, 'init', inst.where, 'capacity %d: the ring mask is %s, not a power of two minus one' % (cap, c))
                ctx.expect(g('_seqnum') == 0 and g('_dropcnt') == 0, 'init', inst.where, 'a new ring starts with sequence number %s and %s drops' % (g('_seqnum'), g('_dropcnt')))
                ctx.expect(None not in (c, h, t) and (h + 1) & c == t, 'init', inst.where, 'capacity %d: a new ring is not empty (head %s, tail %s, mask %s)' % (cap, h, t, c))
            ctx.anchor(n > 0, 'ring constructor')
