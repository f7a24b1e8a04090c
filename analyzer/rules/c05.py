"""C05: flush / timesource change report success only after the engine's acknowledgement."""
from rules.common import *
import rules.common as C
from rules.engine import *
from rules.c04 import ring_obj, ring_assume, args_of, SH
ACK = 0x7e7f
CLOCKS = {'clock_gettime', 'gettimeofday', 'time', 'std::chrono::_V2::steady_clock::now', 'std::chrono::_V2::system_clock::now'}


def roots(ctx):
    return [r for r in writer_roots((), (), ()) if True] + [PASS]


def check(ctx):
    check_flags(ctx)
    ctx.rule('no-ack', 'without an acknowledgement of this call\'s marker the call returns false after a bounded number of waits, whatever the slot contained before')
    ctx.rule('no-room', 'while the ring stays full the call publishes nothing and returns false after a bounded number of waits')
    ctx.rule('acked', 'once the marker is acknowledged the call returns true')
    ctx.rule('marker', 'the published marker has the right kind and operand and is not touched by the caller afterwards')
    ctx.rule('engine-ack', 'the engine acknowledges every marker it reaches exactly once, never shows it in the output, and acknowledges nothing else')
    ctx.rule('applied', 'a timesource change is applied to the engine and the registered rings before it is acknowledged; a flush marker changes no timesource')
    jobs = [(client, r, to, flags, mode) for r in ('flush', 'flush_tls', 'chts', 'chts_tls') for to in (0, 2500) for flags in (0, C.SHARED, C.BLOCKING, C.SHARED | C.BLOCKING)
            for mode in ('never', 'noroom', 'ack0', 'ack1', 'room1', 'null', 'drained')]
    e = dict(ctx.enums.get('hogl::internal::special_record_types', [])) or kinds(ctx)
    jobs += [(engine, k, tso) for k in ('flush', 'ts', 'regular', 'noarea', 'notsect') for tso in (True, False)]
    ctx.pmap(jobs, lambda j: j[0](ctx, *j[1:]))


def kinds(ctx):
    for n, e in ctx.enums.items():
        d = dict(e)
        if 'SPR_FLUSH' in d and 'SPR_TIMESOURCE_CHANGE' in d:
            return d
    raise AnalysisBroken('special record types')


def client(ctx, rid, to, flags, mode):
    K = kinds(ctx)
    seqoff, valoff, typoff = (layout_off(ctx, REC, m) for m in ('seqnum', 'argval', 'argtype'))
    ts = rid.startswith('chts')
    if mode == 'null' and not ts:
        return
    base = 1 << SH
    full = mode in ('noroom', 'room1')
    for fn in ctx.fns(rid):
        w = fn.qname
        args = args_of(fn, to)
        ctx.anchor(to in args.values(), 'timeout parameter of ' + w)
        if mode == 'null':
            for k, v in list(args.items()):
                if v == ('p', 'newts', 0):
                    args[k] = 0
        mem, off = ring_obj(ctx, 1, 1 if full else 0, 3, flags)
        mem[('recs0', base + seqoff)] = 0
        mem[('recs0', base + valoff)] = ACK      # left over from an earlier marker
        clock = any(i.is_call and i.callee in CLOCKS for i in fn.insts)
        LIM = 2 * to + 2000
        acell = ('recs0', base + valoff)

        # automaton: (published, slept usec, acknowledged)
        def step(i, a, Fx):
            pub, slept, acked = a
            if i.op == 'store' and fn.fieldof(i) == (RB, '_tail'):
                typ = Fx.mem.get(('recs0', base + typoff))
                if typ is None:
                    typ = Fx.mem.get(('recs0', base + typoff + 0))
                want = K['SPR_TIMESOURCE_CHANGE'] if ts else K['SPR_FLUSH']
                ctx.expect(typ == want, 'marker', i.where, '%s: the marker has kind %s (want %d)' % (w, typ, want), w)
                if ts:
                    v = Fx.mem.get(('recs0', base + valoff + 8))
                    if mode == 'null':
                        ok = type(v) is tuple and v[1][0] == 'g'
                    else:
                        ok = v == ('p', 'newts', 0)
                    ctx.expect(ok, 'marker', i.where, '%s: the marker carries timesource %s' % (w, v), w)
                if mode == 'ack0':
                    Fx.mem[acell] = ACK
                    acked = 1
                return (min(pub + 1, 2), slept, acked)
            if i.op == 'store' and pub and Fx.cell(i.ops[1]) and Fx.cell(i.ops[1])[0] == 'recs0':
                ctx.bad('marker', i.where, '%s: changes the marker after it was published' % w)
            if i.is_call and (i.callee in SLEEP or i.callee in CONDW):
                n = Fx.get(i.ops[0]) if i.callee in SLEEP and i.ops else None
                slept = min(slept + (n or 1000), LIM + 1)
                if mode == 'room1':
                    Fx.mem[('ring0', off['_head'])] = 0
                if mode == 'drained' and pub:
                    Fx.mem[('ring0', off['_head'])] = 1
                if mode == 'ack1' and pub:
                    Fx.mem[acell] = ACK
                    acked = 1
                return (pub, slept, acked)
            return a
        s = Sim(fn, step, (0, 0, 0), objmem=True, args=args, mem=mem, cap=8, assume=ring_assume)
        rule = {'never': 'no-ack', 'noroom': 'no-room', 'null': 'no-ack', 'room1': 'no-ack', 'drained': 'no-ack'}.get(mode, 'acked')
        if not s.exits:
            ctx.bad('no-ack' if rule == 'acked' else rule, '%s:%d' % (fn.file, fn.line), '%s: never returns (%s)' % (w, 'ring full' if full else 'marker not acknowledged'))
        for r, (pub, slept, acked), v, m in s.exits:
            if v is not None and type(v) is int:
                v &= 1
            if not clock:
                ctx.expect(slept <= LIM, rule, r.where, '%s: waits %s usec with a timeout of %d' % (w, slept, to), w)
            if mode == 'noroom':
                ctx.expect(v == 0 and pub == 0, rule, r.where, '%s: returns %s on a ring that stays full (%d markers published)' % (w, v, pub), w)
            elif acked:
                ctx.expect(v == 1, 'acked', r.where, '%s: returns %s although its marker was acknowledged' % (w, v), w)
            elif ts and not to:
                ctx.expect(pub == 1 or v == 0, rule, r.where, '%s: returns %s without publishing its marker' % (w, v), w)
            else:
                ctx.expect(v == 0, rule, r.where, '%s: returns %s although its marker was not acknowledged' % (w, 'true' if v else v), w)


S = 500


def engine(ctx, kind, tso):
    K = kinds(ctx)
    fn = ctx.fn('pass')
    P = Pass(ctx, fn)
    valoff = layout_off(ctx, REC, 'argval')
    fe = dict(ctx.enums.get(EN + '::features', []))
    if 'DISABLE_TSO' not in fe:
        for n, e in ctx.enums.items():
            if 'DISABLE_TSO' in dict(e):
                fe = dict(e)
    ctx.anchor('DISABLE_TSO' in fe, 'DISABLE_TSO')
    sect = 0xfff if kind != 'notsect' else 5
    area = ('p', 'area0', 0) if kind in ('regular', 'noarea') and kind != 'noarea' else 0
    if kind == 'noarea':      # has an area but the special section number
        area = ('p', 'area0', 0)
    if kind == 'regular':
        sect = 5
    if kind == 'notsect':     # no area but a normal section number
        area = 0
    special = kind in ('flush', 'ts')
    mem = {'rword': S | sect << 52, 'rarea': area, 'rtype': K['SPR_FLUSH'] if kind == 'flush' else K['SPR_TIMESOURCE_CHANGE'], 'eseq': S, 'recs_dropped': 0,
           'features': 0 if tso else fe['DISABLE_TSO'], 'dirty': 0}
    n = [0]

    def isnext(i):
        # the reader takes a record: the iterator's position is stored by next()
        return i.op == 'store' and fn.fieldof(i) == (PI, '_head')

    # automaton: phase 0 none, 1 record taken; acks, shown, applied(engine), applied(ring loop)
    def close(i, a):
        ph, ack, shown, ap = a
        if not ph:
            return
        n[0] += 1
        if special:
            ctx.expect(ack == 1, 'engine-ack', i.where, 'a %s marker is acknowledged %s' % (kind, 'more than once' if ack else 'never'), kind)
            ctx.expect(shown == 0, 'engine-ack', i.where, 'a %s marker is shown in the output' % kind)
        else:
            ctx.expect(ack == 0, 'engine-ack', i.where, 'a regular record is acknowledged as a marker', kind)

    def step(i, a, Fx):
        ph, ack, shown, ap = a
        if tso and i.is_call and i.callee == 'hogl::tsobuf::pop':
            close(i, a)
            return (0, 0, 0, 0)
        if not tso and i.op == 'store' and fn.fieldof(i) == (RB, '_head'):
            close(i, a)
            return (0, 0, 0, 0)
        h = P.handover(i, Fx)
        if h and h[0] == 'rec':
            return (ph, ack, 1, ap)
        if P.is_ack(i):
            v = Fx.get(i.ops[0])
            ctx.expect(v == ACK, 'engine-ack', i.where, 'the engine writes %s into a record in a ring' % v)
            if not ph:
                ctx.bad('engine-ack', i.where, 'the engine acknowledges a record it has not reached')
            if kind == 'ts':
                ctx.expect(ap == 1, 'applied', i.where, 'a timesource change is acknowledged before the engine switched', 'switch before ack')
            return (ph, min(ack + 1, 2), shown, ap)
        if i.op == 'store' and fn.fieldof(i) == (EN, '_timesource'):
            if kind != 'ts':
                ctx.bad('applied', i.where, 'the engine changes its timesource for a record that is not a timesource change')
            return (ph, ack, shown, 1)
        if i.op == 'store' and fn.fieldof(i) == (RB, '_timesource'):
            ctx.expect(not ack, 'applied', i.where, 'a ring is switched to the new timesource after the change was acknowledged', 'rings before ack')
        if i.op == 'ret':
            close(i, a)
        return a

    def split(i):
        if tso and i.is_call and i.callee == 'hogl::tsobuf::pop':
            return [(0, None), (1, lambda a: (1, 0, 0, 0))]
        return None

    def edge(b, k, a, Fx):
        return a

    def assume(f, i):
        v = P.assume(0)(f, i)
        return v
    if tso:
        Sim(fn, step, (0, 0, 0, 0), objmem=True, cells=P.cells, assume=assume, mem=mem, split=split, cap=3)
    else:
        # a ring holding exactly one record
        def cells(f, i):
            k = P.cells(f, i)
            if k is None:
                fl = f.fieldof(i)
                if fl and fl[0] == RB and fl[1] in ('_head', '_tail', '_capacity', '_rec_shift') and i.op == 'load':
                    k = 'R' + fl[1]
                elif fl in ((PI, '_head'), (PI, '_tail')):
                    k = 'P' + fl[1]
            return k

        def step2(i, a, Fx):
            if i.op == 'store' and fn.fieldof(i) == (PI, '_head') and Fx.get(i.ops[0]) == 1 and a[0] == 0:
                return (1, 0, 0, 0)
            return step(i, a, Fx)
        mem.update({'R_head': 0, 'R_tail': 2, 'R_capacity': 3, 'R_rec_shift': 6})
        Sim(fn, step2, (0, 0, 0, 0), objmem=True, cells=cells, assume=assume, mem=mem, cap=3)
    if not n[0]:
        ctx.bad('engine-ack', '%s:%d' % (fn.file, fn.line), 'no record of kind %s is reached (%s mode)' % (kind, 'ordered' if tso else 'unordered'))
