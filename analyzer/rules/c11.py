"""C11: nothing is posted for a disabled section and every enabled post is attempted."""
from rules.common import *
import rules.common as C
from rules.engine import layout_off
from rules.c04 import ring_obj, ring_assume, SH, E0
AREA = 'hogl::area'
SECTS = (0, 1, 31, 32, 63, 64, 65, 127)
NSEC = 128
POSTS = ('post_ring', 'post_unlocked_ring', 'post_tls', 'post_unlocked_tls')
ONES = (1 << 64) - 1


def roots(ctx):
    R = writer_roots((0, 1, 3, 16), POSTS, (), False)
    for n in (1, 2, 8, 16):
        R.append(Root('c_%d' % n, 'cdrv_n%d' % n, stop=('hogl::tls::ring',)))
    for t in ('cstr', 's32', 'dbl'):
        R.append(Root('c_' + t, 'cdrv_' + t, stop=('hogl::tls::ring',)))
    R += [Root(k, 'hogldrv::area_' + k) for k in ('test', 'enable', 'disable')]
    R += [Root('capi_area_test', 'hogl_area_test')]
    return R


def check(ctx):
    check_flags(ctx)
    ctx.rule('enabled', 'with the section enabled every path of a post attempts exactly one record')
    ctx.rule('disabled', 'with the section disabled (and all others enabled) no path of a post consumes a sequence number, publishes, counts a drop or writes a slot')
    ctx.rule('test-bit', 'the section test is true exactly if the section\'s bit is set')
    ctx.rule('set-bit', 'enable / disable change exactly the bit that the test reads')
    jobs = []
    for k in POSTS:
        for n in (16, 3, 1, 0):
            jobs.append((post, '%s_%d' % (k, n)))
    jobs += [(post, 'c_%s' % n) for n in (16, 8, 2, 1, 'cstr', 's32', 'dbl')]
    jobs += [(bits, k) for k in ('test', 'enable', 'disable', 'capi_area_test')]
    jobs.sort(key=lambda j: not j[1].endswith('16'))
    ctx.pmap(jobs, lambda j: j[0](ctx, j[1]))


def area_obj(ctx, words):
    bo = layout_off(ctx, AREA, '_bitmap')
    m = {('area0', bo + layout_off(ctx, 'hogl::bitmap', '_data')): ('p', 'bits0', 0),
         ('area0', bo + layout_off(ctx, 'hogl::bitmap', '_size')): NSEC}
    for k, w in enumerate(words):
        m[('bits0', 8 * k)] = w
    return m


def only(s, on):
    w = [0] * (NSEC // 64) if on else [ONES] * (NSEC // 64)
    w[s // 64] ^= 1 << s % 64
    return w


def args_of(fn, s):
    a = {}
    isc = fn.qname.startswith('cdrv') or fn.qname.startswith('hogl_')
    for n, p in enumerate(fn.ptypes[1:]):
        if 'ringbuf' in p:
            a[n] = ('p', 'ring0', 0)
        elif 'area' in p or (isc and n == 0):
            a[n] = ('p', 'area0', 0)
        elif n <= 2 and p == 'unsigned int' and s not in a.values():
            a[n] = s
    return a


def post(ctx, rid):
    for fn in ctx.fns(rid):
        w = fn.qname
        for s in SECTS if ctx.tier == 'thorough' or not rid.endswith('16') else (0, 33, 127):
            args = args_of(fn, s)
            ctx.anchor(s in [x for x in args.values() if type(x) is int], 'section parameter of ' + w)
            for on in (True, False):
                mem, off = ring_obj(ctx, 1, 3, 3, 0)
                mem.update(area_obj(ctx, only(s, on)))
                mem[('recs0', (1 << SH) + layout_off(ctx, REC, 'seqnum'))] = 0

                def step(i, a, Fx):
                    if i.op == 'store' and fn.fieldof(i) == (RB, '_tail'):
                        return (min(a[0] + 1, 2), a[1])
                    if not on:
                        p = written_ptr(i)
                        if p is not None:
                            q = Fx.ptr(p)
                            if q[1] in ('recs0', 'ring0'):
                                ctx.bad('disabled', i.where, '%s: writes to the ring for a disabled section' % w, w)
                    return a
                S = Sim(fn, step, (0, 0), objmem=True, args=args, mem=mem, cap=3, assume=ring_assume)
                rule = 'enabled' if on else 'disabled'
                if not S.exits:
                    ctx.bad(rule, '%s:%d' % (fn.file, fn.line), '%s: does not return' % w)
                for r, (pub, _), v, m in S.exits:
                    seq, drop = m.get(('ring0', off['_seqnum'])), m.get(('ring0', off['_dropcnt']))
                    if on:
                        ok = pub == 1 and seq == E0 + 1 and drop == 5
                    else:
                        ok = pub == 0 and seq == E0 and drop == 5
                    ctx.expect(ok, rule, r.where, '%s: section %d %s: %d record(s) published, %s sequence number(s) used'
                               % (w, s, 'enabled' if on else 'disabled', pub, None if seq is None else seq - E0), '%s section %d' % (w, s))


def bits(ctx, rid):
    for fn in ctx.fns(rid):
        w = fn.qname
        for s in range(NSEC):
            args = args_of(fn, s)
            ctx.anchor(len(args) >= 2, 'parameters of ' + w)
            if 'test' in rid:
                for on in (True, False):
                    S = Sim(fn, lambda i, a, Fx: a, 0, objmem=True, args=args, mem=area_obj(ctx, only(s, on)), cap=3)
                    for r, a, v, m in S.exits:
                        ctx.expect(v is not None and (v & 1) == int(on), 'test-bit', r.where, '%s: returns %s for %s section %d' % (w, v, 'an enabled' if on else 'a disabled', s), w)
                    if not S.exits:
                        ctx.bad('test-bit', '%s:%d' % (fn.file, fn.line), '%s: does not return' % w)
            else:
                en = rid == 'enable'
                for init in ([0, 0], [ONES, ONES], [0x5555555555555555, 0xaaaaaaaaaaaaaaaa]):
                    want = list(init)
                    if en:
                        want[s // 64] |= 1 << s % 64
                    else:
                        want[s // 64] &= ONES ^ (1 << s % 64)
                    S = Sim(fn, lambda i, a, Fx: a, 0, objmem=True, args=args, mem=area_obj(ctx, init), cap=3)
                    for r, a, v, m in S.exits:
                        got = [m.get(('bits0', 0)), m.get(('bits0', 8))]
                        ctx.expect(got == want, 'set-bit', r.where, '%s: section %d: bitmap words %s become %s' % (w, s, ['%x' % x for x in init], ['%x' % x if x is not None else '?' for x in got]), w)
                    if not S.exits:
                        ctx.bad('set-bit', '%s:%d' % (fn.file, fn.line), '%s: does not return' % w)
