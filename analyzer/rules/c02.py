"""C02: record stores < write barrier < tail store; record reads < read barrier < head store."""
from rules.common import *
import rules.common as C
RAW = True
KIND = POST_KINDS
COUNTS = (0, 1, 3, 16)
HDR = ('area', 'timestamp', 'argtype', 'seqnum', 'section')


def roots(ctx):
    R = writer_roots(COUNTS)
    R += [Root('pop_commit', 'hogldrv::rb_pop_commit'), Root('pit_commit', 'hogldrv::pit_commit'),
          Root('passes', 'hogl::engine::process_rings', stop=('hogl::output::process', 'hogl::output::flush'))]
    return R


def check(ctx):
    check_flags(ctx)
    ctx.rule('publish-order', 'on every path a write barrier separates the last store into the record from the _tail store that publishes it')
    ctx.rule('after-publish', 'no store into the record after the _tail store that published it')
    ctx.rule('complete', 'area, section, sequence number, timestamp and argument types are stored before the record is published')
    ctx.rule('arguments', 'as many argument values as were passed are stored before the record is published')
    ctx.rule('release-order', 'on every path a read barrier separates the last access to a record from the _head store that frees its slot')
    ctx.rule('after-release', 'the engine does not touch a record after the _head store that freed it')
    ctx.rule('index-access', 'ring indices, the timesource pointer and the blocked flag are accessed as volatile or atomic objects')
    wr = []
    for k in KIND:
        for n in COUNTS:
            wr.append(('%s_%d' % (k, n), n))
    for n in (1, 2, 16):
        wr.append(('capi_%d' % n, n))
    jobs = [('w', rid, n, False) for rid, n in wr] + [('w', r, 0, True) for r in ('flush', 'chts', 'flush_tls', 'chts_tls')]
    jobs.sort(key=lambda j: -j[2])
    jobs += [('r', r, True, 0) for r in ('pop_commit', 'pit_commit')] + [('r', 'passes', False, 0), ('a',)]

    def job(j):
        if j[0] == 'a':
            access(ctx)
            return
        for fn in ctx.fns(j[1]):
            if j[0] == 'w':
                writer(ctx, fn, j[2], j[3])
            else:
                reader(ctx, fn, j[2])
    ctx.pmap(jobs, job)


SH = 9


def header(ctx, marker):
    """(size of the header, words that must be stored, name of each word)"""
    names = {}
    need = set()
    hs = 0
    for f in ctx.layout[REC]:
        if f[0] == 'argval':
            hs = f[2] // 8
            continue
        for x in range(f[2] // 32 * 4, (f[2] + f[3] + 7) // 8, 4):
            names[x] = names[x] + '/' + f[0] if x in names else f[0]
            if not (marker and f[0] == 'area'):
                need.add(x)
    ctx.anchor(hs >= 32, 'record header layout')
    return hs, frozenset(need), names


# automaton: 0 no record store, 1 stores pending, 2 ordered by a barrier, 3 published
def writer(ctx, fn, nargs, marker):
    w = fn.qname
    inring = {}
    hdrsize, need, names = header(ctx, marker)

    def rstore(i):
        if i.id not in inring:
            p = written_ptr(i)
            v = None
            if p is not None and fn.fieldof(i) != (RB, '_tail') and in_ring(fn, p):
                v = True
            elif i.is_call and p is None and not (i.callee or '').startswith('llvm.') and read_ptr(i) is None and asm_of(i) is None \
                    and (i.callee or '') not in PUREREAD:
                for o in i.ops:
                    if o and o[0] == 'v' and in_ring(fn, o):
                        v = True
            inring[i.id] = v
        return inring[i.id]
    pubs = []

    def words_of(i, Fx):
        """header words (4 byte units) of the record at slot 1 this store covers"""
        p = written_ptr(i)
        if p is None:
            return frozenset()
        q = Fx.ptr(p)
        if q[1] != (RB, '_rec_top') or q[2] is None:
            return frozenset()
        o = q[2] - (1 << SH)
        if i.op == 'store':
            n = ir.bits_of(i.d.get('sty') or i.d.get('vty') or 'i64') // 8
        else:
            n = Fx.get(i.ops[2]) or 0
        return frozenset(x for x in range(0, hdrsize, 4) if o <= x and x + 4 <= o + n)

    def step(i, a, Fx):
        st, have = a
        f = fn.fieldof(i) if i.op in ('store', 'load') else None
        if i.op == 'store' and f == (RB, '_tail'):
            pubs.append(i)
            if st == 1 and store_kind(i) != 'w':
                ctx.bad('publish-order', i.where, '%s: publishes the record without a write barrier after its last store' % w)
            elif st == 3:
                ctx.bad('publish-order', i.where, '%s: publishes twice' % w)
            else:
                ctx.ok('publish-order', '%s %s' % (w, i.where))
            miss = need - have
            if miss:
                ctx.bad('complete', i.where, '%s: record published before %s is stored' % (w, ', '.join(sorted({names[x] for x in miss}))))
            else:
                ctx.ok('complete')
            return (3, frozenset())
        if rstore(i):
            if st == 3:
                ctx.bad('after-publish', i.where, '%s: stores into the record after it was published' % w)
                return (3, have)
            return (1, have | (words_of(i, Fx) & need))
        if st == 1 and 'w' in barrier_kind(i):
            return (2, have)
        return a
    for fl in (0, C.SHARED, C.BLOCKING):
        for full in (False, True):
            mem = ring_mem(1, 1 if full else 0, 3, fl, SH)
            if full:
                mem.pop('_head')
            s = Sim(fn, step, (0, frozenset()), cells=ring_cells, mem=mem, cap=4)
    if not pubs:
        ctx.bad('publish-order', '%s:%d' % (fn.file, fn.line), '%s: never publishes' % w)
    ctx.ok('after-publish', w)
    # argument values: distinct argval stores in the record
    if nargs:
        vals = [i for i in fn.insts if rstore(i) and i.op == 'store' and (fn.fieldof(i) or ('', ''))[1] in ('argval', 'u64', 'u32', 'offset', 'len')]
        ctx.expect(len(vals) > 0, 'arguments', '%s:%d' % (fn.file, fn.line), '%s: stores no argument value into the record' % w, w)
    else:
        ctx.ok('arguments', w)


PUREREAD = {'strlen', 'strnlen', 'memcmp', 'strcmp', 'abort', '__assert_fail'}


# automaton: 0 nothing read, 1 reads pending, 2 ordered, 3 slot freed
def reader(ctx, fn, prim):
    w = fn.qname
    heads = []

    def acc(i):
        f = fn.fieldof(i) if i.op in ('load', 'store') else None
        if f and (f[0] == REC or f[0].startswith(REC + '::')):
            # the injected records are locals of the engine
            root = fn.addr(fn.ptrop(i)).root
            ri = fn.inst(root)
            if ri is not None and ri.op == 'alloca':
                return False
            return True
        return i.is_call and i.callee == 'hogl::output::process'

    def step(i, a, Fx):
        f = fn.fieldof(i) if i.op in ('load', 'store') else None
        if i.op == 'store' and f == (RB, '_head'):
            heads.append(i)
            if a == 1 and store_kind(i) != 'w':
                ctx.bad('release-order', i.where, '%s: frees the slot without a read barrier after the last access to the record' % w)
            else:
                ctx.ok('release-order', '%s %s' % (w, i.where))
            return 3
        if acc(i):
            if a == 3:
                ctx.bad('after-release', i.where, '%s: accesses a record after its slot was freed' % w)
                return a
            return 1
        if i.op == 'load' and f == (RB, '_tail') and a == 3:
            return 0
        if a == 1 and 'r' in barrier_kind(i):
            return 2
        return a
    Sim(fn, step, 1 if prim else 0, cap=4)
    if not heads:
        ctx.bad('release-order', '%s:%d' % (fn.file, fn.line), '%s: never frees a slot' % w)
    ctx.ok('after-release', w)


def access(ctx):
    for fn in ctx.raw():
        if '/tools/' in fn.file or '/drivers/' in fn.file:
            continue
        if fn.qname in (RB + '::ringbuf', RB + '::~ringbuf'):
            continue
        for i in fn.insts:
            if i.op not in ('load', 'store'):
                continue
            f = fn.fieldof(i)
            if f in ((RB, '_tail'), (RB, '_head'), (RB, '_block_active'), (RB, '_timesource')):
                ctx.expect(i.d.get('vol') or i.d.get('ord'), 'index-access', i.where,
                           '%s accesses %s::%s as a plain object' % (fn.qname, f[0], f[1]))
