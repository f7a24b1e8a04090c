"""Constant propagation of one engine pass over an index with two rings, split by
cases of fill level, reordering buffer capacity and timestamps.  Used by C06, C07, C09."""
from rules.engine import *
import itertools
from rules.common import *
from rules.c04 import SH
from rules.heap import *
MASK64 = (1 << 64) - 1
ROOT = Root('epass', EN + '::process_rings', stop=('hogl::output::process', 'hogl::output::flush'))
KEEP = KEEPSTD + ('hogl::output::',)
CAP = 7   # ring index mask (8 slots)


class Case:
    """rings: [(flags, blocked, refs, [timestamps], head)] or None for an unused entry"""

    def __init__(self, name, rings, tso=True, cap=64, leftover=0, mark=True, special=(), index=None, dirty=0, lastrec=0, names=None):
        self.name, self.rings, self.tso, self.cap, self.leftover, self.mark, self.special = name, rings, tso, cap, leftover, mark, special
        # special: {(ring, n): kind}; index: ring numbers in the index (None = unused entry); registered: rings in the map
        self.special = dict(special)
        self.index = list(range(len(rings))) if index is None else index
        self.dirty = dirty
        self.lastrec = lastrec
        self.registered = [k for k in range(len(rings)) if rings[k]] if names is None else names


class EnginePass:
    def __init__(self, ctx, fn, sink=None):
        self.ctx, self.fn, self.sink = ctx, fn, sink
        self.P = Pass(ctx, fn)
        self.heap = Heap({('eng', layout_off(ctx, EN, '_ring_map')): 'rings', ('eng', layout_off(ctx, EN, '_area_map')): 'areas'})
        o = lambda c, m: layout_off(ctx, c, m)
        self.o = o
        for n, e in ctx.enums.items():
            if 'DISABLE_TSO' in dict(e):
                self.DIS = dict(e)['DISABLE_TSO']
        self.roff = {f[0]: f[2] // 8 for f in ctx.layout[RB]}
        self.ri = o(EN, '_ring_index')
        self.tso = o(EN, '_tso')
        T = 'hogl::tsobuf'
        self.th, self.tt, self.tc, self.te = (('eng', self.tso + o(T, m)) for m in ('_head', '_tail', '_capacity', '_entry'))
        self.esz = ctx.sizes[T + '::entry']
        self.ets, self.erec, self.etag = (o(T + '::entry', m) for m in ('timestamp', 'rec', 'tag'))
        self.left = ('eng', o(EN, '_tso_leftover'))
        self.entsz = ctx.sizes[ENT]
        self.ep = o(ENT, 'pit')
        self.rsz = 1 << SH

    def ent(self, k, off):
        return ('ents', k * self.entsz + off)

    def memory(self, c):
        o, m = self.o, {}
        m[('eng', o(EN, '_opts') + o(EN + '::options', 'features'))] = 0 if c.tso else self.DIS
        m[('eng', self.ri + o(EN + '::ring_index', 'entries'))] = ('p', 'ents', 0)
        m[('eng', self.ri + o(EN + '::ring_index', 'count'))] = len(c.index)
        m[('eng', self.ri + o(EN + '::ring_index', 'dirty'))] = c.dirty
        self.heap.put(m, 'rings', [('R%d' % k, ('p', 'ring%d' % k, 0)) for k in c.registered])
        m[('eng', o(EN, '_timesource'))] = ('p', 'oldts', 0)
        m[('eng', o(EN, '_internal_area'))] = ('p', 'iarea', 0)
        m.update({self.th: 0, self.tt: 0, self.tc: c.cap, self.te: ('p', 'tsoe', 0), self.left: c.leftover})
        for k, r in enumerate(c.index):
            m[self.ent(k, self.ep + o(PI, '_ring'))] = ('p', 'ring%d' % r, 0) if r is not None else 0
            # left over from the pass before
            m[self.ent(k, self.ep + o(PI, '_head'))] = 5
            m[self.ent(k, self.ep + o(PI, '_tail'))] = 2
            m[self.ent(k, o(ENT, 'lastrec'))] = 0
            m[self.ent(k, o(ENT, 'seqnum'))] = 1000
        for k, r in enumerate(c.rings):
            if not r:
                continue
            flags, blocked, refs, ts, head = r
            q = lambda f: ('ring%d' % k, self.roff[f])
            m.update({q('_capacity'): CAP, q('_flags'): flags, q('_rec_shift'): SH, q('_rec_tailroom'): 256, q('_seqnum'): 2000, q('_dropcnt'): 0,
                      q('_rec_top'): ('p', 'recs%d' % k, 0), q('_head'): head, q('_tail'): (head + 1 + len(ts)) & CAP, q('_block_active'): int(blocked), q('_refcnt'): refs,
                      q('_prio'): 0, q('_timesource'): ('p', 'oldts', 0), q('_name'): ('p', 'R%d' % k, 0)})
            for j, t in enumerate(ts):
                self.record(m, k, (head + 1 + j) & CAP, t, 1000 + j, c.special.get((k, j)))
        return m

    def record(self, m, k, slot, ts, seq, special):
        o = self.o
        b = slot * self.rsz
        w = lambda f: ('recs%d' % k, b + o(REC, f))
        m[w('timestamp')] = ts
        m[w('seqnum')] = seq | ((0xfff if special else 5) << 52)
        m[w('area')] = 0 if special else ('p', 'area0', 0)
        m[w('argtype')] = self.kind(special or 'SPR_FLUSH')
        m[w('argval')] = 0
        m[w('argval') [:1] + (w('argval')[1] + 8,)] = ('p', 'newts', 0)

    def kind(self, name):
        for n, e in self.ctx.enums.items():
            if name in dict(e):
                return dict(e)[name]
        raise AnalysisBroken('special record types')

    def buffer(self, Fx, r):
        """(key of record r, smallest key still in the buffer, number of records still in it)"""
        h, t = Fx.mem.get(self.th), Fx.mem.get(self.tt)
        if type(h) is not int or type(t) is not int or t - h > 64:
            return (None, None, None)
        at = lambda j, x: Fx.mem.get(('tsoe', j * self.esz + x))
        key = [at(j, self.ets) for j in range(max(0, h - 1), t) if at(j, self.erec) == ('p', 'recs%d' % r[0], r[1] * self.rsz)]
        rest = [at(j, self.ets) for j in range(h, t)]
        return (key[0] if key else None, None if None in rest else min(rest) if rest else MASK64, len(rest))

    def tsowrite(self, i, off, n, Fx, e):
        cap = Fx.mem.get(self.tc)
        if off is None or n is None or type(cap) is not int or off < 0 or off + n > cap * self.esz:
            e.append(('overflow', i.where))

    def run(self, c, mem=None, on=None):
        """[(ret inst, events, mem)]; an event is ('out', ring, slot) | ('mark', section) | ('head', ring, value, where) |
        ('flush',) | ('sort', lo, hi) | ('sig', ring) | ('push', tag, slot) | ('badrec', where) | ('pop',)"""
        fn, ctx = self.fn, self.ctx
        mem = dict(mem if mem is not None else self.memory(c))
        bits = MASK64 if c.mark else 0
        base = self.P.assume(bits)

        def assume(f, i):
            if i.is_call and i.callee == 'pthread_mutex_trylock':
                return None
            if i.is_call and i.callee == 'pthread_mutex_lock':
                return 0
            return base(f, i)

        def rec(p):
            if type(p) is tuple and type(p[1]) is str and p[1].startswith('recs') and p[2] is not None and p[2] % self.rsz == 0:
                return (int(p[1][4:]), p[2] // self.rsz)
            return None

        def step(i, a, Fx):
            e = []
            if i.is_call:
                if i.callee == 'hogl::output::process':
                    p = Fx.ptr(i.ops[1])
                    v = Fx.mem.get((p[1], p[2] + self.P.datarec)) if p[2] is not None else None
                    r = rec(v)
                    if r:
                        e.append(('out',) + r + self.buffer(Fx, r))
                    else:
                        h = self.P.handover(i, Fx)
                        e.append(('mark', h[1]) if h and h[0] == 'fake' else ('badrec', i.where))
                elif i.callee == 'hogl::output::flush':
                    e.append(('flush',))
                elif i.callee in ('pthread_cond_signal', 'pthread_cond_broadcast'):
                    p = Fx.ptr(i.ops[0])
                    if type(p[1]) is str and p[1].startswith('ring'):
                        e.append(('sig', int(p[1][4:])))
            elif i.op == 'store':
                k = Fx.cell(i.ops[1])
                if k and type(k[0]) is str:
                    if k[0].startswith('ring') and k[1] == self.roff['_head']:
                        e.append(('head', int(k[0][4:]), Fx.get(i.ops[0]), i.where))
                    elif k[0].startswith('recs'):
                        b, off = divmod(k[1], self.rsz)
                        if off == self.o(REC, 'argval') and Fx.get(i.ops[0]):
                            e.append(('out', int(k[0][4:]), b) + self.buffer(Fx, (int(k[0][4:]), b)))
                elif fn.fieldof(i) == (RB, '_head') and k is None:
                    e.append(('head', None, None, i.where))
            if i.op in ('load', 'store', 'atomicrmw'):
                ad = i.ops[0] if i.op != 'store' else i.ops[1]
                r0 = Fx.ptr(ad)[1]
                if type(r0) is str and any(x[0] == 'free' and x[1] == r0 for x in a):
                    e.append(('uaf', r0, i.where))
                if type(r0) is str and r0 == 'tsoe' and i.op == 'store':
                    self.tsowrite(i, Fx.ptr(ad)[2], 8, Fx, e)
            elif i.is_call and (i.callee or '').startswith(('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')):
                for o in i.ops[:2]:
                    d = Fx.ptr(o)
                    if d[1] == 'tsoe':
                        self.tsowrite(i, d[2], Fx.get(i.ops[2]), Fx, e)
            if i.op == 'store' and Fx.cell(i.ops[1]):
                k = Fx.cell(i.ops[1])
                if type(k[0]) is str and k[0].startswith('ring') and k[1] == self.roff['_timesource']:
                    v = Fx.val(i.ops[0])
                    e.append(('ts', int(k[0][4:]), v[1] if type(v) is tuple else v))
                elif k == ('eng', self.o(EN, '_timesource')):
                    v = Fx.val(i.ops[0])
                    e.append(('ets', v[1] if type(v) is tuple else v))
            for x in e:
                if len(a) < 400:
                    a = a + (x,)
            return a

        def model(i, a, Fx):
            c0 = i.callee or ''
            if on is not None:
                r = on(i, a, Fx)
                if r is not None:
                    return r
            if c0 in ('operator new[]', 'operator new'):
                return [(('p', 'new%d' % len([x for x in a if x[0] == 'new']), 0), a + (('new', i.where),), {})]
            if c0 in ('operator delete[]', 'operator delete', 'free'):
                v = Fx.val(i.ops[0])
                return [(None, a + (('free', v[1] if type(v) is tuple else v, i.where),), {})]
            if c0 == 'llvm.umul.with.overflow.i64':
                x, y = Fx.get(i.ops[0]), Fx.get(i.ops[1])
                return [(('agg', x * y & MASK64, 0), a, {})] if x is not None and y is not None else None
            if c0.startswith(('std::sort', 'std::stable_sort')):
                lo, hi = Fx.ptr(i.ops[0]), Fx.ptr(i.ops[1])
                if str(lo[1]).startswith('new') and lo[2] is not None and hi[2] is not None:
                    # the new ring index, ordered by priority: any order
                    n = (hi[2] - lo[2]) // self.entsz
                    if n > 3:
                        return None
                    blocks = [{q[1] - lo[2] - j * self.entsz: v for q, v in Fx.mem.items() if q[0] == lo[1] and j * self.entsz <= q[1] - lo[2] < (j + 1) * self.entsz} for j in range(n)]
                    out = []
                    for perm in itertools.permutations(range(n)):
                        up = {}
                        for j, k in enumerate(perm):
                            for off, v in blocks[k].items():
                                up[(lo[1], lo[2] + j * self.entsz + off)] = v
                        out.append((None, a, up))
                    return out
                if lo[1] != 'tsoe' or lo[2] is None or hi[2] is None:
                    return [(None, a + (('badsort', i.where),), {})]
                n = (hi[2] - lo[2]) // self.esz
                L = []
                for j in range(n):
                    b = lo[2] + j * self.esz
                    L.append(tuple(Fx.mem.get(('tsoe', b + x)) for x in (self.ets, self.erec, self.etag)))
                if any(x[0] is None for x in L):
                    return [(None, a + (('badsort', i.where),), {})]
                out = []
                for perm in orders(L, 'stable' in c0):
                    up = {}
                    for j, x in enumerate(perm):
                        b = lo[2] + j * self.esz
                        for y, v in zip((self.ets, self.erec, self.etag), x):
                            up[('tsoe', b + y)] = v
                    out.append((None, a + (('sort', lo[2] // self.esz, hi[2] // self.esz, tuple((x[0], rec(x[1])) for x in L)),), up))
                return out
            return self.heap.model(i, a, Fx)
        s = Sim(fn, step, (), objmem=True, args={0: ('p', 'eng', 0)}, mem=mem, assume=assume, model=model, keeppfx=KEEP, cap=64)
        return s.exits


def orders(L, stable):
    """all results sorting may give: ties in any order (in place if stable)"""
    if stable:
        return [sorted(L, key=lambda x: x[0])]
    groups = [list(g) for _, g in itertools.groupby(sorted(L, key=lambda x: x[0]), key=lambda x: x[0])]
    out = [[]]
    for g in groups:
        out = [o + list(p) for o in out for p in itertools.islice(itertools.permutations(g), 6)]
    return out[:12]


class Trace:
    """a sequence of passes over one case with records added in between; judged by the rules below"""

    def __init__(self, E, c):
        self.E, self.c = E, c
        self.n = {k: len(r[3]) for k, r in enumerate(c.rings) if r}
        self.outs = {k: [] for k in self.n}


def h0(c, k):
    return c.rings[k][4]


def passes(E, c, plan=((), ()), width=2):
    """[(list of per-pass (before mem, events, after mem), counts)] over a plan of additions
    [(ring, timestamps)] made before each further pass"""
    out = []
    m0 = E.memory(c)
    cnt0 = {k: len(r[3]) for k, r in enumerate(c.rings) if r}

    def go(mem, cnt, trail, j):
        try:
            ex = E.run(c, mem)
        except SimLimit:
            if not trail:
                raise
            out.append((trail, None))
            return
        if not ex:
            out.append((trail + [(mem, (('stuck',),), mem, cnt)], cnt))
            return
        for r, ev, v, m in ex[:width if j else 6]:
            t2 = trail + [(mem, ev, m, cnt)]
            if j >= len(plan):
                out.append((t2, cnt))
                continue
            m2, c2 = dict(m), dict(cnt)
            for k, ts in plan[j]:
                if k not in c2 or any(x[0] == 'free' and x[1] == 'ring%d' % k for t in t2 for x in t[1]):
                    continue
                h = m2.get(('ring%d' % k, E.roff['_head']))
                for t in ts:
                    tail = m2[('ring%d' % k, E.roff['_tail'])]
                    if tail == h:
                        break
                    E.record(m2, k, tail, t, 1000 + c2[k], None)
                    m2[('ring%d' % k, E.roff['_tail'])] = (tail + 1) & CAP
                    c2[k] += 1
            go(m2, c2, t2, j + 1)
    go(m0, cnt0, [], 0)
    return out


def slot(c, k, n):
    return (h0(c, k) + 1 + n) & CAP
