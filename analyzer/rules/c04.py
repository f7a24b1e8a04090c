"""C04: sequence-number accounting (writers) and gap reports (engine, ordered mode)."""
from rules.common import *
import rules.common as C
from rules.engine import *
RAW = True
COUNTS = (0, 1, 3, 16)
SH = 9
E0, SECT = 1000, 5


def roots(ctx):
    R = writer_roots(COUNTS)
    R += [PASS, Root('reset', RB + '::reset'), Root('ctor', RB + '::ringbuf', ptypes=lambda p: len(p) > 2),
          Root('inc', 'hogldrv::rb_inc_seqnum')]
    return R


def check(ctx):
    check_flags(ctx)
    ctx.rule('consume', 'a post consumes exactly one sequence number on every path on which it attempts a record, and none otherwise; a marker consumes one exactly when it is published')
    ctx.rule('stamp', 'the published record carries the consumed number, the given section and the given area')
    ctx.rule('owner', 'only the posting interfaces, construction and reset change a ring\'s sequence counter')
    ctx.rule('gap', 'before handing over a record the engine adds record number minus expected number to the drop statistics, if and only if they differ')
    ctx.rule('mark', 'a gap yields exactly one drop mark with that count, ahead of the record, if drop marks are enabled, and none without a gap')
    ctx.rule('expect', 'after a record the expected number is its number plus one, also for special records')
    ctx.rule('first', 'a ring without history never reports a gap')
    ctx.rule('carry', 'rebuilding the ring index keeps the expected number of a ring that was indexed and starts without history otherwise')
    jobs = []
    for k in POST_KINDS:
        for n in sorted(COUNTS, reverse=True):
            jobs.append((writer, '%s_%d' % (k, n), k, n))
    jobs += [(writer, 'capi_%d' % n, 'capi', n) for n in (16, 2, 1)]
    jobs.sort(key=lambda j: -j[3])
    jobs += [(marker, r) for r in ('flush', 'flush_tls', 'chts', 'chts_tls')]
    jobs += [(gap, c) for c in cases()]
    jobs += [(carry,), (owner,)]
    ctx.pmap(jobs, lambda j: j[0](ctx, *j[1:]))


# ---- writers ---------------------------------------------------------------
def ring_obj(ctx, t, h, c, flags):
    off = {f[0]: f[2] // 8 for f in ctx.layout[RB]}
    m = {('ring0', off['_tail']): t, ('ring0', off['_capacity']): c, ('ring0', off['_flags']): flags,
         ('ring0', off['_rec_shift']): SH, ('ring0', off['_rec_tailroom']): 256, ('ring0', off['_seqnum']): E0,
         ('ring0', off['_dropcnt']): 5, ('ring0', off['_rec_top']): ('p', 'recs0', 0), ('ring0', off['_timesource']): ('p', 'ts0', 0)}
    if h is not None:
        m[('ring0', off['_head'])] = h
    return m, off


def ring_assume(fn, i):
    if i.is_call and i.callee == 'hogl::tls::ring':
        return ('p', 'ring0', 0)
    return None


def arg_map(ctx, fn, k):
    """argument tokens by parameter type"""
    a = {}
    for n, p in enumerate(fn.ptypes[:3] if fn.ptypes and fn.ptypes[0] == 'void' else fn.ptypes):
        pass
    return a


def args_of(fn, to=None):
    """constants / tokens for ring, area, section and timeout parameters"""
    a = {}
    names = [x for x in fn.args]
    pt = [p for p in fn.ptypes]
    # ptypes[0] is the return type
    for n, p in enumerate(pt[1:]):
        if 'ringbuf' in p:
            a[n] = ('p', 'ring0', 0)
        elif 'area' in p:
            a[n] = ('p', 'area0', 0)
        elif 'timesource' in p:
            a[n] = ('p', 'newts', 0)
        elif p == 'unsigned int':
            a[n] = SECT if to is None else to
    return a


def writer(ctx, rid, kind, n):
    area = not kind.startswith('push')
    seqoff = layout_off(ctx, REC, 'seqnum')
    areaoff = layout_off(ctx, REC, 'area')
    for fn in ctx.fns(rid):
        w = fn.qname
        args = args_of(fn)
        ctx.anchor(len([x for x in args.values() if x == SECT]) == 1, 'section parameter of ' + w)
        fulls = (True, False)
        for flags in ((0, C.SHARED) if n < 16 else (0,)):
            for full in fulls:
                for init in (0, (1 << 64) - 1):
                    mem, off = ring_obj(ctx, 1, 1 if full else 0, 3, flags)
                    base = 1 << SH
                    mem[('recs0', base + seqoff)] = init
                    pub = []

                    def step(i, a, Fx):
                        if i.op == 'store' and fn.fieldof(i) == (RB, '_tail'):
                            word = Fx.mem.get(('recs0', base + seqoff))
                            ar = Fx.mem.get(('recs0', base + areaoff))
                            ctx.expect(word == (E0 | SECT << 52), 'stamp', i.where, '%s: record published with sequence/section word %s (want number %d, section %d)'
                                       % (w, word if word is None else '%d/%d' % (word & (1 << 52) - 1, word >> 52), E0, SECT), w)
                            ctx.expect(ar == ('p', 'area0', 0), 'stamp', i.where, '%s: record published with area %s' % (w, ar,))
                            return min(a + 1, 2)
                        return a
                    s = Sim(fn, step, 0, objmem=True, args=args, mem=mem, cap=3, assume=ring_assume)
                    att = 0
                    for r, a, v, m in s.exits:
                        seq, drop = m.get(('ring0', off['_seqnum'])), m.get(('ring0', off['_dropcnt']))
                        if area and a == 0 and seq == E0 and drop == 5:
                            continue
                        att += 1
                        ok = seq == E0 + 1 and (a, drop) == ((0, 6) if full else (1, 5))
                        ctx.expect(ok, 'consume', r.where, '%s: %s ring: published %d, discarded %s, sequence numbers consumed %s'
                                   % (w, 'full' if full else 'ready', a, None if drop is None else drop - 5, None if seq is None else seq - E0), w)
                    if not att:
                        ctx.bad('consume', '%s:%d' % (fn.file, fn.line), '%s: never attempts the record' % w)


def marker(ctx, rid):
    for fn in ctx.fns(rid):
        w = fn.qname
        for to in (0, 2500):
            args = args_of(fn, to)
            for flags in (0, C.SHARED, C.BLOCKING):
                for full in (True, False):
                    mem, off = ring_obj(ctx, 1, 1 if full else 0, 3, flags)
                    mem[('recs0', (1 << SH) + layout_off(ctx, REC, 'seqnum'))] = 0

                    def step(i, a, Fx):
                        if i.op == 'store' and fn.fieldof(i) == (RB, '_tail'):
                            word = Fx.mem.get(('recs0', (1 << SH) + layout_off(ctx, REC, 'seqnum')))
                            ctx.expect(word == (E0 | 0xfff << 52), 'stamp', i.where, '%s: marker published with sequence/section word %s' % (w, word), w)
                            return min(a + 1, 2)
                        return a
                    s = Sim(fn, step, 0, objmem=True, args=args, mem=mem, cap=3, assume=ring_assume)
                    for r, a, v, m in s.exits:
                        seq, drop = m.get(('ring0', off['_seqnum'])), m.get(('ring0', off['_dropcnt']))
                        ctx.expect(seq == E0 + a and drop == 5, 'consume', r.where, '%s: %s ring: marker published %d time(s) but %s sequence number(s) consumed'
                                   % (w, 'full' if full else 'ready', a, None if seq is None else seq - E0), w)
                    if not s.exits:
                        ctx.bad('consume', '%s:%d' % (fn.file, fn.line), '%s: never returns within its timeout' % w)


def owner(ctx):
    seen = set()
    for k in POST_KINDS:
        for n in COUNTS:
            collect(ctx, '%s_%d' % (k, n), seen)
    for r in ('capi_1', 'capi_2', 'capi_16', 'flush', 'flush_tls', 'chts', 'chts_tls', 'reset', 'ctor', 'inc'):
        collect(ctx, r, seen)
    for fn in ctx.raw():
        if '/tools/' in fn.file or '/drivers/' in fn.file or 'tools/' == fn.file[:6]:
            continue
        for i in fn.insts:
            if i.op in ('store', 'atomicrmw', 'cmpxchg') and fn.fieldof(i) == (RB, '_seqnum'):
                ctx.expect(fn.qname in seen, 'owner', i.where, '%s changes the sequence counter of a ring' % fn.qname, fn.qname)
    # the engine does not consume numbers
    f = ctx.fn('pass')
    for i in f.stores((RB, '_seqnum')):
        ctx.bad('owner', i.where, 'the engine changes the sequence counter of a ring')
    ctx.ok('owner', 'process_rings')


def collect(ctx, r, seen):
    for fn in ctx.fns(r):
        seen.add(fn.qname)
        for i in fn.insts:
            for c in i.chain:
                seen.add(c[0])


# ---- engine ---------------------------------------------------------------------
UNK = (1 << 64) - 1
S = 77777


def cases():
    for special in (False, True):
        for e, n in ((S, 0), (S - 1, 1), (S - 300, 300), (UNK, 0)):
            for bits in (UNK, 0):
                yield special, e, n, bits


def gap(ctx, case):
    special, e, n, bits = case
    fn = ctx.fn('pass')
    P = Pass(ctx, fn)
    rw = S | ((0xfff if special else SECT) << 52)
    rule = 'first' if e == UNK else 'gap'
    D0 = 5000
    seen = [0, 0]

    def close(i, a, Fx):
        """end of one record's iteration"""
        ph, marks, rec = a
        if ph == 0:
            return
        m = Fx.mem
        if ph == 1 and not rec and not marks and m.get('recs_dropped') == D0 and m.get('eseq') == e and i.op == 'ret':
            return
        seen[0] += 1
        d = m.get('recs_dropped')
        ctx.expect(d == D0 + n, rule, i.where, 'record %d, expected %s: %s added to the drop statistics (want %d)'
                   % (S, 'nothing' if e == UNK else e, None if d is None else d - D0, n), 'gap %d' % n)
        ctx.expect(marks == (1 if n and bits else 0), 'mark' if e != UNK else 'first', i.where, '%d drop mark(s) for a gap of %d (drop marks %s)' % (marks, n, 'enabled' if bits else 'disabled'))
        ctx.expect(m.get('eseq') == S + 1, 'expect', i.where, 'expected number after %s record %d is %s' % ('special' if special else 'regular', S, m.get('eseq')))

    # state: (0 outside / 1 record popped, drop marks, record handed over)
    def step(i, a, Fx):
        ph, marks, rec = a
        if i.is_call and i.callee == 'hogl::tsobuf::pop':
            close(i, a, Fx)
            Fx.mem.update({'eseq': e, 'recs_dropped': D0, 'rword': rw})
            return (0, 0, 0)
        h = P.handover(i, Fx)
        if h:
            if h[0] == 'fake' and h[1] == P.DROPMARK:
                if ph != 1:
                    ctx.bad('mark', i.where, 'drop mark without a record')
                if rec:
                    ctx.bad('mark', i.where, 'drop mark is output after the record')
                if n and n not in h[2].values():
                    ctx.bad('mark', i.where, 'drop mark does not carry the number of missing records')
                return (ph, min(marks + 1, 2), rec)
            if h[0] == 'fake' and h[1] is None:
                ctx.bad('mark', i.where, 'injected record with an unknown section')
            if h[0] == 'rec':
                return (ph, marks, 1)
        if P.is_ack(i):
            return (ph, marks, 1)
        if i.op == 'ret':
            close(i, a, Fx)
        return a

    def split(i):
        if i.is_call and i.callee == 'hogl::tsobuf::pop':
            return [(0, None), (1, lambda a: (1, 0, 0))]
        return None
    mem = {'rword': rw, 'rarea': 0 if special else ('p', 'area0', 0), 'eseq': e, 'recs_dropped': D0, 'features': 0}
    Sim(fn, step, (0, 0, 0), objmem=True, cells=P.cells, assume=P.assume(bits), mem=mem, split=split, cap=3)
    if not seen[0]:
        ctx.bad(rule, '%s:%d' % (fn.file, fn.line), 'the engine hands over no record')


# ---- index rebuild -----------------------------------------------------------------
def carry(ctx):
    """every new entry (an object from operator new[]) ends its turn with either no
    history or the number 123 that the old entry of the same ring has"""
    fn = ctx.fn('pass')
    P = Pass(ctx, fn)
    ri = layout_off(ctx, EN, '_ring_index')
    ents = layout_off(ctx, EN + '::ring_index', 'entries')
    old = 123
    ends, first = set(), []

    def cells(f, i):
        k = P.cells(f, i)
        return k if k in ('dirty', 'features') else None

    def assume(f, i):
        if i.is_call and i.callee in ('operator new[]', 'operator new', 'malloc', 'calloc'):
            return ('p', 'new0', 0)
        if i.op == 'load' and fn.fieldof(i) == (ENT, 'seqnum'):
            return old
        return None

    def step(i, a, Fx):
        if i.op == 'store' and fn.fieldof(i) == (ENT, 'seqnum') and Fx.ptr(i.ops[1])[1] == 'new0':
            v = Fx.get(i.ops[0])
            first.append(i)
            if v == UNK:
                return 'unk'
            if v == old:
                return 'old'
            ctx.bad('carry', i.where, 'a new index entry starts with expected number %s' % v)
            return 'bad'
        if i.op == 'store' and fn.fieldof(i) == (PI, '_ring') and Fx.ptr(i.ops[1])[1] == 'new0' and Fx.get(i.ops[0]) != 0:
            return 'set'
        if (i.is_call and (i.callee or '').endswith('_iterator::operator++')) or i.op == 'ret':
            if a in ('unk', 'old'):
                ends.add(a)
            elif a == 'set':
                ctx.bad('carry', i.where, 'a new index entry keeps an uninitialised expected number')
            return 'none'
        return a
    def ringcmp(x):
        return x is not None and x.op == 'icmp' and x.d['pred'] in ('eq', 'ne') and any(load_field(fn, o) == (PI, '_ring') for o in x.ops) \
            and not any(o[0] in ('null', 'c') for o in x.ops)
    cnt = layout_off(ctx, EN + '::ring_index', 'count')
    for match in (True, False):
        ends.clear()

        def edge(b, k, a, Fx):
            t = fn.blocks[b][-1]
            c = fn.inst(t.ops[0]) if t.op == 'br' and len(fn.succ[b]) == 2 else None
            if ringcmp(c) and (k == 0) != ((c.d['pred'] == 'eq') == match):
                return None
            return a
        Sim(fn, step, 'none', mem={'dirty': 1, 'features': 0, ('eng', ri + ents): ('p', 'oldents', 0), ('eng', ri + cnt): 1}, args={0: ('p', 'eng', 0)},
            objmem=True, cells=cells, assume=assume, edge=edge, cap=2)
        ctx.anchor(first, 'index rebuild stores the expected number of new entries')
        ctx.expect(ends == {'old' if match else 'unk'}, 'carry', first[0].where, 'index rebuild: the expected number of a ring that %s indexed before can be %s'
                   % (('was', 'forgotten') if match else ('was not', 'taken from another ring')), 'rebuild')
    # the old entry is found by ring identity
    ok = any(ringcmp(x) for x in fn.insts)
    ctx.expect(ok, 'carry', first[0].where, 'the old entry of a ring is not looked up by ring identity')
