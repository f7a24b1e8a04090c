"""C07: every record is output once and its slot released only afterwards."""
from rules.passmodel import *
roots = lambda ctx: [ROOT]


def cases(ctx):
    C = []
    deep = ctx.tier == 'thorough'
    R = lambda ts, head=6, refs=2, blocked=False, flags=0: (flags, blocked, refs, list(ts), head)
    shapes = [
        ('two', [R((10, 20, 15)), R((12, 12), 3)]), ('one+empty', [R((10, 20), 7), R((), 3)]), ('empty+one', [R((), 0), R((5,), 6)]),
        ('full', [R(range(10, 17), 2), R((11, 13, 15, 17), 5)]), ('orphans', [R((10, 20), 5, 1), R((), 4, 1)]), ('none', [R((), 1), R((), 7)]),
        ('backwards', [R((30, 20, 10, 40), 4), R((25, 35), 1)]), ('three', [R((10, 11), 6), R((9,), 2), R((8, 14), 5)]),
    ]
    if deep:
        shapes += [('head%d-%d' % (h, n), [R(range(10, 10 + n), h), R((11, 14), (h + 3) & CAP)]) for h in range(8) for n in (1, 4, 7)]
        shapes += [('orphan-%d' % n, [R(range(10, 10 + n), 6, 1), R((12,), 2, 1), R((), 3)]) for n in (0, 1, 3)]
    for name, rings in shapes:
        for tso, cap in [(False, 64)] + [(True, x) for x in ((1, 2, 3, 5, 8, 16, 64) if not deep else (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 24, 32, 64, 1024))]:
            C.append((Case('%s/%s' % (name, cap if tso else 'unordered'), rings, tso, cap), ((), ((0, (50, 51)), (1, (49,))), (), ())))
    base = shapes[0][1]
    for tso, cap in ((False, 64), (True, 2), (True, 64)):
        # unused entries, special records, index rebuild with a new / a removed ring
        C.append((Case('unused/%s/%d' % (tso, cap), base, tso, cap, index=[None, 1, None, 0]), ((), ())))
        for kind in ('SPR_FLUSH', 'SPR_TIMESOURCE_CHANGE'):
            C.append((Case('special/%s/%d' % (tso, cap), base, tso, cap, special={(0, 1): kind, (1, 1): kind}), ((), ())))
        C.append((Case('new ring/%s/%d' % (tso, cap), base, tso, cap, index=[0], dirty=1), ((), ((0, (60,)), (1, (61, 62))), ())))
        C.append((Case('removed ring/%s/%d' % (tso, cap), base, tso, cap, index=[1, 0], dirty=1, names=[1]), ((), ())))
    return C


def check(ctx):
    ctx.rule('once', 'records of a ring are handed over in posting order, each exactly once')
    ctx.rule('release', 'the head of a ring only ever advances over records already handed over, and at the end of a pass over all of them')
    ctx.rule('complete', 'a record in an indexed ring is handed over in this pass or, in ordered mode, at the latest in a following pass')
    ctx.rule('valid', 'nothing but records of the rings is handed over, and no ring or buffer is used after it was freed')
    ctx.rule('flush', 'the outputs are flushed after the last record of a pass')
    fn = ctx.fn('epass')
    E = EnginePass(ctx, fn)
    W = '%s:%d' % (fn.file, fn.line)

    def job(cp):
        c, plan = cp
        for trail, cnt in passes(E, c, plan):
            judge(ctx, E, c, trail, trail[-1][3], W)
            if cnt is None and not ctx.viol:
                raise AnalysisBroken('%s: the analysis of a pass does not end' % c.name)
    ctx.pmap(cases(ctx), job)


def judge(ctx, E, c, trail, cnt, W):
    n = {k: 0 for k in cnt}
    head = {k: h0(c, k) for k in cnt}
    for p, (m0, ev, m1, have) in enumerate(trail):
        last = -1
        for j, e in enumerate(ev):
            if e[0] == 'out':
                last = j
                k = e[1]
                want = slot(c, k, n[k])
                ctx.expect(n[k] < have[k] and e[2] == want, 'once', W, 'engine pass (%s): hands over slot %d of a ring where slot %d is next' % (c.name, e[2], want), c.name, key='once')
                n[k] += 1
            elif e[0] == 'head':
                if e[1] is None:
                    ctx.bad('release', e[3], 'engine pass (%s): moves the head of an unknown ring' % c.name, key='release unknown')
                    continue
                k = e[1]
                adv = -1 if e[2] is None else (e[2] - h0(c, k)) & CAP if n[k] <= CAP else (e[2] - h0(c, k)) % (CAP + 1)
                ok = e[2] is not None and e[2] in [(h0(c, k) + x) & CAP for x in range(n[k] + 1)][max(0, n[k] - CAP):] and 0 <= ((e[2] - head[k]) & CAP) <= CAP
                # never past what was handed over, never backwards
                done = (h0(c, k) + n[k]) & CAP
                ok = ok and ((done - e[2]) & CAP) <= ((done - head[k]) & CAP)
                ctx.expect(ok, 'release', e[3], 'engine pass (%s): head of a ring moved to %s with records up to %d handed over' % (c.name, e[2], done), c.name, key='release early')
                if e[2] is not None:
                    head[k] = e[2]
            elif e[0] in ('badrec', 'uaf', 'stuck', 'badsort'):
                ctx.bad('valid', e[-1] if len(e) > 1 else W, 'engine pass (%s): %s' % (c.name, {'badrec': 'hands over something that is not a record of a ring', 'uaf': 'uses %s after it was freed' % e[1] if len(e) > 2 else '',
                        'stuck': 'does not complete', 'badsort': 'sorts an unknown range'}[e[0]]), key='valid ' + e[0])
        fl = [j for j, e in enumerate(ev) if e[0] == 'flush']
        ctx.expect(fl and fl[-1] > last, 'flush', W, 'engine pass (%s): outputs are not flushed after the last record' % c.name, key='flush')
        ctx.ok('valid')
        live = indexed(E, m1)
        for k in n:
            gone = any(x[0] == 'free' and x[1] == 'ring%d' % k for t in trail[:p + 1] for x in t[1])
            if gone:
                ctx.expect(n[k] == have[k], 'complete', W, 'engine pass (%s): a ring is freed with %d unread records' % (c.name, have[k] - n[k]), key='complete freed')
                continue
            ctx.expect(m1.get(('ring%d' % k, E.roff['_head'])) == (h0(c, k) + n[k]) & CAP, 'release', W,
                       'engine pass (%s): at the end of the pass the head of a ring is %s although its records up to %d were handed over' % (c.name, m1.get(('ring%d' % k, E.roff['_head'])), (h0(c, k) + n[k]) & CAP), c.name, key='release end')
            if k not in indexed(E, m0) and k not in live:
                continue
            if not c.tso and k in live:
                ctx.expect(n[k] == have[k], 'complete', W, 'engine pass (%s): %d record(s) of a ring not handed over' % (c.name, have[k] - n[k]), c.name, key='complete')
        if c.tso and p >= 1 and sum(have.values()) == sum(trail[p - 1][3].values()) and live == indexed(E, trail[p - 1][2]):
            # nothing was added since the pass before
            for k in n:
                if k in live:
                    ctx.expect(n[k] >= have[k], 'complete', W, 'engine pass (%s): %d record(s) stay in the ring after a further pass' % (c.name, have[k] - n[k]), c.name, key='complete later')


def indexed(E, m):
    e = m.get(('eng', E.ri + E.o(EN + '::ring_index', 'entries')))
    n = m.get(('eng', E.ri + E.o(EN + '::ring_index', 'count')))
    out = set()
    if type(e) is tuple and type(n) is int:
        for j in range(n):
            v = m.get((e[1], e[2] + j * E.entsz + E.ep + E.o(PI, '_ring')))
            if type(v) is tuple:
                out.add(int(v[1][4:]))
    return out
