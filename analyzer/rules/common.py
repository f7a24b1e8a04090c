from ir import *
import ir
from sim import Sim, SimLimit
from core import Root, AnalysisBroken

RB = 'hogl::ringbuf'
REC = 'hogl::record'


def F(cls, m):
    return (cls, m)


# ---- barriers -----------------------------------------------------------------
def asm_of(i):
    if i.is_call:
        c = i.d.get('callee')
        if c and c[0] == 'asm':
            return c[1], (c[2] if len(c) > 2 else '')
    return None


def barrier_kind(i):
    """set of {'r','w'} orderings this instruction enforces ('' for none)"""
    a = asm_of(i)
    if a:
        t, cons = a
        if '~{memory}' not in cons:
            return ''
        if 'mfence' in t or 'mefence' in t or 'lock' in t:
            return 'rw'
        if 'lfence' in t:
            return 'r'
        if 'sfence' in t:
            return 'w'
        return ''
    if i.op == 'fence':
        o = i.d.get('ord', '')
        return {'seq_cst': 'rw', 'acq_rel': 'rw', 'release': 'w', 'acquire': 'r'}.get(o, 'rw' if not o else '')
    if i.op in ('atomicrmw', 'cmpxchg'):
        return 'rw'
    return ''


def store_kind(i):
    """'w' if the store itself has release semantics"""
    o = i.d.get('ord', '')
    return 'w' if i.op == 'store' and o in ('release', 'seq_cst') else ''


# ---- memory classification --------------------------------------------------
def trace_roots(fn, o, depth=0, seen=None):
    """all root operands an address may come from (through geps, casts, phis, selects)"""
    if seen is None:
        seen = set()
    ad = fn.addr(o)
    r = ad.root
    k = repr(r)
    if k in seen or depth > 40:
        return []
    seen.add(k)
    i = fn.inst(r)
    if i is not None and i.op in ('phi', 'select'):
        out = []
        for x in (i.ops if i.op == 'phi' else i.ops[1:]):
            out += trace_roots(fn, x, depth + 1, seen)
        return out
    if i is not None and i.op in ('inttoptr', 'ptrtoint', 'freeze'):
        return trace_roots(fn, i.ops[0], depth + 1, seen)
    if i is not None and i.op in ('add', 'sub') and i.ty == 'i64':
        a = trace_roots(fn, i.ops[0], depth + 1, seen)
        b = trace_roots(fn, i.ops[1], depth + 1, seen)
        return a + b
    return [r]


def load_field(fn, o):
    i = fn.inst(o)
    if i is not None and i.op == 'load':
        return fn.fieldof(i)
    return None


def in_ring(fn, o):
    """address points into a ring's record memory"""
    return any(load_field(fn, r) == (RB, '_rec_top') for r in trace_roots(fn, o))


MEMW = {'memcpy': 0, 'memmove': 0, 'memset': 0, 'llvm.memcpy': 0, 'llvm.memmove': 0, 'llvm.memset': 0,
        'llvm.memcpy.p0.p0.i64': 0, 'llvm.memmove.p0.p0.i64': 0, 'llvm.memset.p0.i64': 0, 'llvm.memcpy.p0.p0.i32': 0,
        'strcpy': 0, 'strncpy': 0, 'strcat': 0, 'sprintf': 0, 'snprintf': 0, 'vsnprintf': 0}
MEMR = {'memcpy': 1, 'memmove': 1, 'llvm.memcpy': 1, 'llvm.memmove': 1, 'llvm.memcpy.p0.p0.i64': 1,
        'llvm.memmove.p0.p0.i64': 1, 'llvm.memcpy.p0.p0.i32': 1}


def written_ptr(i):
    """pointer operand written by this instruction (store or mem* call)"""
    if i.op == 'store':
        return i.ops[1]
    if i.op in ('atomicrmw', 'cmpxchg'):
        return i.ops[0]
    if i.is_call and i.callee:
        for n, k in MEMW.items():
            if i.callee == n or i.callee.startswith(n + '.p0'):
                return i.ops[k]
    return None


def read_ptr(i):
    if i.op == 'load':
        return i.ops[0]
    if i.is_call and i.callee:
        for n, k in MEMR.items():
            if i.callee == n or i.callee.startswith(n + '.p0'):
                return i.ops[k]
    return None


WAITS = {'pthread_cond_wait', 'pthread_cond_timedwait', 'usleep', 'nanosleep', 'sched_yield', 'pthread_yield',
         'clock_nanosleep', 'select', 'poll'}
CONDW = {'pthread_cond_wait', 'pthread_cond_timedwait'}
SLEEP = {'usleep', 'nanosleep', 'clock_nanosleep'}

RING_CELLS = ('_tail', '_head', '_capacity', '_flags', '_rec_shift', '_seqnum', '_dropcnt', '_rec_tailroom', '_block_active')


def ring_cells(fn, i):
    f = fn.fieldof(i)
    if f and f[0] == RB and f[1] in RING_CELLS:
        return f[1]
    return None


def ring_mem(t, h, c, flags, shift=6, seq=1000, drop=5):
    return {'_tail': t, '_head': h, '_capacity': c, '_flags': flags, '_rec_shift': shift, '_seqnum': seq,
            '_dropcnt': drop, '_rec_tailroom': 64}


SHARED, IMMORTAL, REUSABLE, BLOCKING = 1, 2, 4, 8


def check_flags(ctx):
    e = dict(ctx.enums.get('hogl::ringbuf::flags', []))
    ctx.anchor(e == {'SHARED': 1, 'IMMORTAL': 2, 'REUSABLE': 4, 'BLOCKING': 8} or
               set(e) >= {'SHARED', 'IMMORTAL', 'REUSABLE', 'BLOCKING'}, 'ringbuf::flags')
    global SHARED, IMMORTAL, REUSABLE, BLOCKING
    SHARED, IMMORTAL, REUSABLE, BLOCKING = (e[k] for k in ('SHARED', 'IMMORTAL', 'REUSABLE', 'BLOCKING'))
    return e


POST_KINDS = ('post_ring', 'post_unlocked_ring', 'push_ring', 'push_unlocked_ring', 'post_tls', 'post_unlocked_tls')


def writer_roots(counts=(0, 1, 3, 16), kinds=POST_KINDS, capi=(1, 2, 16), flush=True):
    R = []
    for k in kinds:
        for n in counts:
            R.append(Root('%s_%d' % (k, n), 'hogldrv::%s_%d' % (k, n), stop=('hogl::tls::ring',)))
    for n in capi:
        R.append(Root('capi_%d' % n, '__hogl_post_%d' % n, stop=('hogl::tls::ring',)))
    if flush:
        R.append(Root('flush', 'hogl::flush', stop=('hogl::tls::ring',), ptypes=lambda p: any('ringbuf' in x for x in p)))
        R.append(Root('flush_tls', 'hogl::flush', stop=('hogl::tls::ring',), ptypes=lambda p: not any('ringbuf' in x for x in p)))
        R.append(Root('chts', 'hogl::change_timesource', stop=('hogl::tls::ring',), ptypes=lambda p: any('ringbuf' in x for x in p)))
        R.append(Root('chts_tls', 'hogl::change_timesource', stop=('hogl::tls::ring',), ptypes=lambda p: not any('ringbuf' in x for x in p)))
    return R


def is_ret(i):
    return i.op == 'ret'


def call_of(i, *names):
    return i.is_call and i.callee in names


def fpath(fn, path):
    """source lines of a block path"""
    out = []
    for b in path:
        for i in fn.blocks[b]:
            if i.line:
                if not out or out[-1] != i.where:
                    out.append(i.where)
                break
    return ' -> '.join(out)


def covered(ctx, rule, field, roots, extra_ok=()):
    """every repo function that stores `field` must be part of an analysed root"""
    seen = set(extra_ok)
    for r in roots:
        for fn in ctx.fns(r):
            seen.add(fn.qname)
            for i in fn.insts:
                for c in i.chain:
                    seen.add(c[0])
    for fn in ctx.raw():
        if '/tools/' in fn.file or '/drivers/' in fn.file:
            continue
        for i in fn.insts:
            if i.op in ('store', 'atomicrmw') and fn.fieldof(i) == field:
                q = fn.qname
                ctx.expect(q in seen, rule, i.where, '%s writes %s::%s outside the analysed interfaces' % (q, field[0], field[1]))


def globmem(ctx, want):
    """memory cells of the initialised pointer arrays whose mangled names contain `want`"""
    m = {}
    for k, g in ctx.globals.items():
        if want in k and type(g.get('init')) is list and g['init'][:1] == ['agg']:
            for j, e in enumerate(g['init'][1:]):
                if e[0] == 's':
                    m[(('g', k), 8 * j)] = ('p', ('s', e[1]), 0)
                elif e[0] == 'null':
                    m[(('g', k), 8 * j)] = 0
    return m
