"""C06: ordered mode sorts by timestamp and keeps each ring in posting order."""
from rules.passmodel import *
RAW = True
roots = lambda ctx: [ROOT, Root('lt', 'hogl::timestamp::operator<', optional=True), Root('gt', 'hogl::timestamp::operator>', optional=True)]


def cases(ctx):
    deep = ctx.tier == 'thorough'
    R = lambda ts, head=6, refs=2: (0, False, refs, list(ts), head)
    ts = [(10, 20, 30), (30, 20, 10), (10, 10, 10), (5, 7, 6), (0, 1, 0), (12,), ()]
    other = [(12, 12, 13), (25, 5), (10, 10), ()]
    if deep:
        import itertools as it
        ts = sorted(set(it.product((5, 6, 7), repeat=3))) + [(1, 0, 2, 1), (9, 8, 7, 6, 5, 4, 3)]
        other = [(6, 6, 6), (7, 5), (5, 7, 6, 4), ()]
    C = []
    for a in ts:
        for b in other:
            for cap in (1, 2, 3, 4, 8, 64) if not deep else (1, 2, 3, 4, 5, 6, 8, 16, 64):
                for mark in (True, False):
                    C.append((Case('%s %s cap %d%s' % (a, b, cap, '' if mark else ' unmarked'), [R(a), R(b, 3)], True, cap, mark=mark), ((), ((0, (40, 39)),), ())))
    for a, b, d in (((10, 20), (10, 15), (10, 12)), ((3, 2), (2, 2), (2, 3))):
        for cap in (2, 4, 64):
            C.append((Case('three rings %s' % cap, [R(a), R(b, 3), R(d, 1)], True, cap), ((), ())))
    return C


def check(ctx):
    ctx.rule('batch', 'a record is output only if no record in the reordering buffer has a smaller sort key')
    ctx.rule('ring', 'the records of one ring are output in posting order, whatever order sorting gives records with equal keys')
    ctx.rule('key', 'the sort key of a record is its timestamp unless an earlier record of its ring in the same pass had the same or a later one')
    ctx.rule('sorted', 'records are output from the front of the reordering buffer')
    ctx.rule('capacity', 'the reordering buffer is never written outside its capacity')
    ctx.rule('lost', 'no record of the buffer is output twice or dropped: a record not output stays in its ring')
    ctx.rule('mark', 'a flush forced by a full buffer is announced before the records it affects if that notice is enabled, and not otherwise')
    ctx.rule('less', 'the comparison used for sorting is "earlier timestamp"')
    fn = ctx.fn('epass')
    E = EnginePass(ctx, fn)
    W = '%s:%d' % (fn.file, fn.line)

    def job(cp):
        c, plan = cp
        for trail, cnt in passes(E, c, plan):
            judge(ctx, E, c, trail, W)
            if cnt is None and not ctx.viol:
                raise AnalysisBroken('%s: the analysis of a pass does not end' % c.name)
    ctx.pmap(cases(ctx), job)
    less(ctx)


def judge(ctx, E, c, trail, W):
    n = {k: 0 for k in range(len(c.rings))}
    for m0, ev, m1, have in trail:
        marks, keys = 0, {}
        start = dict(n)
        for j, e in enumerate(ev):
            if e[0] == 'mark' and e[1] == E.P.TSOFULL:
                marks += 1
                ctx.expect(c.mark, 'mark', W, 'ordered pass (%s): "out of order" notice although it is disabled' % c.name, key='mark disabled')
            elif e[0] == 'out':
                k, (key, least, rest) = e[1], e[3:6]
                if key is None or least is None:
                    ctx.bad('sorted', W, 'ordered pass (%s): outputs a record that is not at the front of the reordering buffer' % c.name, key='sorted')
                    continue
                ctx.ok('sorted')
                keys[(k, e[2])] = key
                ctx.expect(key <= least, 'batch', W, 'ordered pass (%s): outputs a record with key %s although one with key %s is in the buffer' % (c.name, key, least), c.name, key='batch')
                if rest == c.cap - 1:
                    ctx.expect(marks >= 1 or not c.mark, 'mark', W, 'ordered pass (%s): forced flush without the "out of order" notice' % c.name, c.name, key='mark missing')
                marks = 0
                ctx.expect(e[2] == slot(c, k, n[k]), 'ring', W, 'ordered pass (%s): a ring is output out of posting order' % c.name, c.name, key='ring order')
                n[k] += 1
            elif e[0] == 'overflow':
                ctx.bad('capacity', e[1], 'ordered pass (%s): writes the reordering buffer outside its %d entries' % (c.name, c.cap), key='capacity')
            elif e[0] in ('badsort', 'badrec', 'stuck'):
                ctx.bad('sorted', e[-1] if len(e) > 1 else W, 'ordered pass (%s): %s' % (c.name, e[0]), key='sorted ' + e[0])
        ctx.ok('capacity')
        # keys are the timestamps, bumped only within a ring
        for k in n:
            prev = None
            for j in range(start[k], have[k]):
                s = slot(c, k, j)
                ts = m0.get(('recs%d' % k, s * E.rsz + E.o(REC, 'timestamp')))
                if (k, s) not in keys:
                    continue
                want = ts if prev is None or ts > prev else prev + 1
                if prev is None and ts == 0:
                    want = keys[(k, s)] if keys[(k, s)] in (0, 1) else 0
                ctx.expect(keys[(k, s)] == want, 'key', W, 'ordered pass (%s): record with timestamp %s sorted with key %s' % (c.name, ts, keys[(k, s)]), c.name, key='key')
                prev = keys[(k, s)]
        for k in n:
            hd = m1.get(('ring%d' % k, E.roff['_head']))
            ctx.expect(hd == (h0(c, k) + n[k]) & CAP, 'lost', W, 'ordered pass (%s): the ring head %s does not match the %d records output' % (c.name, hd, n[k]), c.name, key='lost')
        tail, head, cap = (m1.get(x) for x in (E.tt, E.th, E.tc))
        ctx.expect(cap == c.cap, 'capacity', W, 'ordered pass (%s): capacity of the buffer changes' % c.name, key='capacity changes')
    # after passes without new records nothing is left
    for k in n:
        ctx.expect(n[k] == trail[-1][3].get(k, n[k]), 'lost', W, 'ordered pass (%s): %d record(s) never output' % (c.name, trail[-1][3].get(k, 0) - n[k]), c.name, key='lost forever')


def less(ctx):
    ets = layout_off(ctx, 'hogl::tsobuf::entry', 'timestamp')
    for rid, f in (('lt', lambda x, y: x < y), ('gt', lambda x, y: x > y)):
        off = layout_off(ctx, 'hogl::timestamp', ctx.layout['hogl::timestamp'][0][0])
        for fn in ctx.fns(rid):
            for x, y in ((3, 5), (5, 3), (5, 5), (0, 1 << 63), (1 << 63, 0)):
                for r, a, v, m in Sim(fn, lambda i, a, F: a, 0, objmem=True, args={0: ('p', 'x', 0), 1: ('p', 'y', 0)}, mem={('x', off): x, ('y', off): y}, cap=4).exits:
                    ctx.expect(type(v) is int and v & 1 == int(f(x, y)), 'less', r.where, '%s: comparing %d with %d gives %s' % (fn.qname, x, y, v), fn.qname, key='less ' + rid)
    L = [f for f in ctx.raw() if len([p for p in f.ptypes[1:] if 'tsobuf::entry' in p]) == 2 and f.ptypes[0] == 'bool']
    ctx.anchor(L, 'comparison of reordering buffer entries')
    for f in L:
        ix = [n for n, a in enumerate(f.args) if a[0] != 'this' and a[1] == 'ptr']
        for x, y in ((3, 5), (5, 3), (5, 5), (0, 1 << 63), (1 << 63, 0)):
            def model(i, a, F):
                op = (i.callee or '').rsplit('operator', 1)[-1]
                if (i.callee or '').startswith(('hogl::timestamp::operator', 'hogl::operator')):
                    u, v = (F.mem.get(F.cell(o)) if F.cell(o) else None for o in i.ops[:2])
                    if op in ('<', '>', '<=', '>=', '==', '!=') and type(u) is int and type(v) is int:
                        return [(int({'<': u < v, '>': u > v, '<=': u <= v, '>=': u >= v, '==': u == v, '!=': u != v}[op]), a, {})]
                return None
            s = Sim(f, lambda i, a, F: a, 0, model=model, objmem=True, args={ix[-2]: ('p', 'x', 0), ix[-1]: ('p', 'y', 0)}, mem={('x', ets): x, ('y', ets): y}, cap=4)
            for r, a, v, m in s.exits:
                ctx.expect(type(v) is int and v & 1 == int(x < y), 'less', r.where, '%s: %d before %d is %s' % (f.qname, x, y, v), f.qname, key='less')

