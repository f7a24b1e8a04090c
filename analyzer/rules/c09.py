"""C09: a writer blocked on a full ring is always resumed."""
from rules.passmodel import *
from rules.locks import *
import rules.common as C
RAW = True
POST = ('post_ring_0', 'post_ring_3', 'post_unlocked_ring_0', 'post_unlocked_ring_3', 'push_ring_1', 'push_unlocked_ring_1', 'post_tls_3', 'capi_2')
BM, BA, BC = '_block_mutex', '_block_active', '_block_cond'


def roots(ctx):
    return [ROOT] + [r for r in writer_roots((0, 1, 3), C.POST_KINDS, (2,), False) if r.rid in POST]


def cases(ctx):
    R = lambda ts, head, blocked, refs=2, flags=8: (flags, blocked, refs, list(ts), head)
    out = []
    for tso, cap in ((False, 64), (True, 64), (True, 2), (True, 1)):
        for a in ((), (10,), (10, 11, 12), tuple(range(10, 17))):
            for b in ((), (12, 13)):
                for ba, bb in ((True, True), (True, False), (False, True)):
                    for refs in (2, 1):
                        for ix in ([0, 1], [1, 0], [None, 0, 1]):
                            if refs == 1 and ix != [0, 1]:
                                continue
                            out.append(Case('%d+%d %s/%d' % (len(a), len(b), 'ordered' if tso else 'unordered', cap), [R(a, 6, ba, refs), R(b, 2, bb, refs)], tso, cap, index=ix))
        out.append(Case('index rebuilt %s/%d' % (tso, cap), [R((10,), 6, True), R((), 2, True)], tso, cap, index=[0], dirty=1))
    return out


def check(ctx):
    C.check_flags(ctx)
    ctx.rule('resume', 'every pass signals the condition of every indexed ring whose writer has announced that it waits, after the last change of the ring\'s head')
    ctx.rule('announce', 'a writer announces that it waits before it waits, and from then on holds the block mutex up to the wait')
    ctx.rule('wait', 'a writer waits on the condition and mutex of its own ring, only while the ring is full, and looks again after waking up')
    ctx.rule('flag', 'the announcement is changed only under the block mutex, and withdrawn by the reader only together with a signal')
    fn = ctx.fn('epass')
    E = EnginePass(ctx, fn)
    W = '%s:%d' % (fn.file, fn.line)

    def job(c):
        for trail, cnt in passes(E, c, ()):
            m0, ev, m1, have = trail[0]
            idx = indexed2(E, m1)
            for k, r in enumerate(c.rings):
                if not r or not r[1] or k not in idx:
                    continue
                if any(x[0] == 'free' and x[1] == 'ring%d' % k for x in ev):
                    continue
                heads = [j for j, e in enumerate(ev) if e[0] == 'head' and e[1] == k]
                sig = [j for j, e in enumerate(ev) if e[0] == 'sig' and e[1] == k]
                ctx.expect(sig and (not heads or sig[-1] > heads[-1]), 'resume', W, 'engine pass (%s): the waiting writer of a ring is %s' % (c.name, 'signalled before the room is made' if sig else 'not signalled'), c.name, key='resume ' + ('early' if sig else 'never'))
    ctx.pmap(cases(ctx), job)
    ctx.pmap(list(POST), lambda r: writer(ctx, r))
    flag(ctx)


def indexed2(E, m):
    from rules.c07 import indexed
    return indexed(E, m)


def writer(ctx, rid):
    from rules.c04 import ring_obj, ring_assume, args_of
    for fn in ctx.fns(rid):
        w = fn.qname
        mem, off = ring_obj(ctx, 1, 1, 3, C.BLOCKING)
        mem[('ring0', off[BA])] = 0
        nwait = [0]

        # automaton: (block mutex held, announced under it, published, waited n)
        def step(i, a, Fx):
            held, ann, n = a
            if i.is_call and i.callee == 'pthread_mutex_lock' and Fx.cell(i.ops[0]) == ('ring0', off[BM]):
                return (1, 0, n)
            if i.is_call and i.callee == 'pthread_mutex_unlock' and Fx.cell(i.ops[0]) == ('ring0', off[BM]):
                return (0, 0, n)
            if i.op == 'store' and Fx.cell(i.ops[1]) == ('ring0', off[BA]) and Fx.get(i.ops[0]):
                return (held, held, n)
            if i.op == 'store' and fn.fieldof(i) == (RB, '_tail') and n < 2:
                ctx.bad('wait', i.where, '%s: publishes although the ring is still full' % w, key='wait publish ' + w)
            if i.is_call and i.callee in CONDW:
                nwait[0] += 1
                ctx.expect(Fx.cell(i.ops[0]) == ('ring0', off[BC]) and Fx.cell(i.ops[1]) == ('ring0', off[BM]), 'wait', i.where, '%s: waits on another condition or mutex' % w, w)
                ctx.expect(held, 'wait', i.where, '%s: waits without holding the block mutex' % w, w)
                ctx.expect(ann, 'announce', i.where, '%s: waits without having announced it under the block mutex' % w, w, key='announce ' + w)
                if n >= 1:
                    Fx.mem[('ring0', off['_head'])] = 2
                Fx.mem[('ring0', off[BA])] = 0
                return (1, 0, min(n + 1, 3))
            return a
        s = Sim(fn, step, (0, 0, 0), objmem=True, args=args_of(fn), mem=mem, cap=4, assume=ring_assume)
        ctx.anchor(nwait[0], 'waiting in ' + w)
        for r, (held, ann, n), v, m in s.exits:
            if n == 0 and m.get(('ring0', off['_tail'])) == 1:
                continue     # disabled section
            ctx.expect(n == 2 and m.get(('ring0', off['_tail'])) == 2, 'wait', r.where, '%s: waits %s times on a ring that becomes free after the second wakeup' % (w, n), w, key='wait count ' + w)


def flag(ctx):
    n = 0
    for fn in ctx.raw():
        if '/drivers/' in fn.file or '/tools/' in fn.file or '~' in fn.qname or fn.qname.endswith('ringbuf::ringbuf'):
            continue
        st = [i for i in fn.insts if i.op in ('store', 'atomicrmw') and fn.fieldof(i) == (RB, BA)]
        if not st:
            continue
        n += 1

        # automaton: (held lock, withdrawn without signal, signalled since lock)
        def step(i, a, Fx):
            held, wd, sg = a
            f = lambda o: fn.addr(o).field
            if i.is_call and i.callee == 'pthread_mutex_lock' and f(i.ops[0]) == (RB, BM):
                return (1, wd, 0)
            if i.is_call and i.callee == 'pthread_mutex_unlock' and f(i.ops[0]) == (RB, BM):
                return (0, wd, sg)
            if i.is_call and i.callee in ('pthread_cond_signal', 'pthread_cond_broadcast') and f(i.ops[0]) == (RB, BC):
                return (held, 0, 1)
            if i in st:
                ctx.expect(held, 'flag', i.where, '%s: changes the announcement of a waiting writer without the block mutex' % fn.qname, fn.qname)
                if i.op == 'store' and Fx.get(i.ops[0]) == 0 and not sg:
                    return (held, 1, sg)
            if i.op == 'ret':
                ctx.expect(not wd, 'flag', i.where, '%s: withdraws the announcement of a waiting writer without a signal' % fn.qname)
            return a
        Sim(fn, step, (0, 0, 0), cap=4)
    ctx.anchor(n, 'functions changing the block flag')
