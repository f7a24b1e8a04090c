"""C23: every output opens with its header and closes with footer and full flush."""
from rules.of import *
from rules.c17 import opts_mem, held
O = 'hogl::output'
KINDS = {'plainfile': ('fd', True), 'pipe': ('stdio', True), 'stdout': ('stdio', False), 'stderr': ('stdio', False), 'null': (None, False), 'file': ('fd', True), 'tee': (None, False)}


def cls(k):
    return 'hogl::output_' + k


def roots(ctx):
    R = []
    for k in KINDS:
        if k == 'null':
            R.append(Root('ctor:null', 'hogldrv::out_null_new'))
        else:
            R.append(Root('ctor:' + k, cls(k) + '::output_' + k, ptypes=lambda p, k=k: k != 'file' or any('char' in x for x in p[1:])))
        R.append(Root('v:' + cls(k) + '::~output_' + k, cls(k) + '::~output_' + k))
    for d in ('process', 'flush', 'failed', 'error', 'delete'):
        R.append(Root(d, 'hogldrv::out_' + d))
    return R + [Root('v:' + O + '::~output', O + '::~output', optional=True)] + ofroots()


def machine(ctx, fail, silent=False):
    io = OS(ctx, openfail=1 if fail else 0, createfail=fail, hdrfail=0)
    io.silent = silent  # the format writes neither header nor footer
    io.results = lambda kind, fd, n, ev: [('n', n)]
    proc = lambda i, v, Fx, ev: io._put('rec', i, v, Fx, ev, REC_, (v[2],)) if False else process(io, i, v, Fx, ev)
    for q in ('format', 'format_basic', 'format_raw', 'format_null'):
        io.virt['hogl::%s::process' % q] = proc
        io.virt.setdefault('hogl::%s::header' % q, io.virt['hogl::format::header'])
        io.virt.setdefault('hogl::%s::footer' % q, io.virt['hogl::format::footer'])
    return io


def process(io, i, v, Fx, ev):
    e = ('rec', io.ident(v[1]), v[2], i.where)
    m = dict(Fx.mem)
    for k, b in enumerate(REC_):
        m[('#fmtdata', k)] = b

    class G:
        mem = m
    return [(None, (e,) + tuple(x), up) for _, x, up in io.nested(io.ctx.fn('v:put'), (v[1], ('p', '#fmtdata', 0), len(REC_)), G, ev + (e,))]


def clean(mem):
    return {k: v for k, v in mem.items() if not (type(k[0]) is tuple and len(k[0]) == 2 and k[0][0] == 'v')}


def construct(ctx, io, k, fn, cap):
    m = {('fmt', 0): io.vt['hogl::format_basic'][0]}
    for s, n in (('stdout', 'STDOUT'), ('stderr', 'STDERR')):
        m[(('g', s), 0)] = ('p', n, 0)
    for n in ('fname', 'command'):
        io.S.names[n] = opaque('P') + lit('.#.') + opaque('X')
    a = {}
    if k == 'tee':
        for o in ('o0', 'o1'):
            m[(o, 0)] = io.vt['hogl::output'][0] if 'hogl::output' in io.vt else 0
            m[(o, io.off(O, '_format'))] = ('p', 'fmt', 0)
            m[(o, io.off(O, '_ostrbuf'))] = ('p', o + 'b', 0)
            m.update(io.ob(o + 'b', 'ostrbuf_fd', 0, 0))
            m[(o + 'b', io.off('hogl::ostrbuf_fd', '_fd'))] = 7 if o == 'o0' else 8
        a = {0: ('p', 'self', 0), 1: ('p', 'o0', 0), 2: ('p', 'o1', 0), 3: cap}
    elif k == 'null':
        a = {0: ('p', 'fmt', 0), 1: cap}
    elif k in ('stdout', 'stderr'):
        a = {0: ('p', 'self', 0), 1: ('p', 'fmt', 0), 2: cap}
    elif k == 'file':
        a = {0: ('p', 'self', 0), 1: ('p', 'fname', 0), 2: ('p', 'fmt', 0), 3: ('p', 'opts', 0)}
        m.update(opts_mem(ctx, io, buffer_capacity=cap))
    else:
        a = {0: ('p', 'self', 0), 1: ('p', 'fname', 0), 2: ('p', 'fmt', 0), 3: cap}
    out = []
    for inst, ev, ret, mem in io.run(fn, a, m, cap=200):
        self = ret if k == 'null' else ('p', 'self', 0)
        out.append((inst, ev, self, clean(mem)))
    return out


def life(ctx, item):
    k, cap, silent = item
    kind, owned = KINDS[k]
    head, foot = ((), ()) if silent else (HDR, FTR)
    for fn in ctx.fns('ctor:' + k):
        io = machine(ctx, False, silent)
        what = '%s with a buffer of %d%s' % (cls(k), cap, ' and a format without header and footer' if silent else '')
        ex = construct(ctx, io, k, fn, cap)
        ctx.expect(bool(ex), 'header', fn.where, '%s: construction never succeeds' % what, what)
        for inst, ev, self, mem in ex:
            if type(self) is not tuple or type(self[1]) is not str:
                ctx.bad('header', inst.where, '%s: no object' % what)
                continue
            ob = mem.get((self[1], io.off(O, '_ostrbuf')))
            ob = ob[1] if type(ob) is tuple else None
            op = [e for e in ev if e[0] == 'open']
            hd = [e for e in ev if e[0] == 'hdr']
            sink = op[0][1] if op else {'stdout': 'STDOUT', 'stderr': 'STDERR'}.get(k)
            if k == 'tee':
                ctx.expect(mem.get((ob, io.off('hogl::ostrbuf_tee', '_o0'))) == ('p', 'o0b', 0) and mem.get((ob, io.off('hogl::ostrbuf_tee', '_o1'))) == ('p', 'o1b', 0), 'tee', fn.where, '%s: does not feed both downstream outputs' % what, what)
                ctx.expect(not hd and not [e for e in ev if e[0] in ('free', 'close') and e[1] in ('o0b', 'o1b', 'o0', 'o1')], 'tee', fn.where, '%s: touches the downstream outputs' % what, what)
            else:
                ctx.expect(len(hd) == 1 and hd[0][1] == ob, 'header', fn.where, '%s: the header is written %d times to the output' % (what, len([e for e in hd if e[1] == ob])), what)
                ctx.expect(len(hd) == 1 and hd[0][3] in (1, None), 'header', fn.where, '%s: the header is not marked as the first one' % what, what)
            if k in ('plainfile', 'file'):
                ctx.expect(len(op) == 1 and op[0][3] is not None and op[0][3] & 64 and op[0][3] & 512 and op[0][3] & 3, 'header', fn.where, '%s: the file is not created empty and writable' % what, what)
            ctx.expect(len(op) == int(owned), 'close', fn.where, '%s: opens %d sinks' % (what, len(op)), what)
            ctx.expect(mem.get((self[1], io.off(O, '_format'))) == ('p', 'fmt', 0), 'header', fn.where, '%s: the format is not the given one' % what, what)
            ctx.expect(not held(ev), 'header', inst.where, '%s: the constructor returns holding %s' % (what, held(ev)), what)
            # some records
            states = [(ev, mem)]
            for n in (0, 1):
                nxt = []
                for ev1, mem1 in states:
                    for i2, ev2, _, mem2 in io.run(ctx.fn('process'), {0: self, 1: ('p', 'rec', 0)}, mem1, init=ev1):
                        r = [e for e in ev2[len(ev1):] if e[0] == 'rec']
                        ctx.expect(len(r) == 1 and r[0][1] == ob and r[0][2] == ('p', 'rec', 0), 'record', i2.where, '%s: a record does not reach the format with the buffer of the output' % what, what)
                        nxt.append((ev2, clean(mem2)))
                states = nxt
            for ev1, mem1 in states:
                for i2, ev2, _, mem2 in io.run(ctx.fn('flush'), {0: self}, mem1, init=ev1):
                    if kind:
                        ctx.expect(delivered(ev2, sink) == head + REC_ * 2, 'record', i2.where, '%s: after a flush the sink holds %s' % (what, show(delivered(ev2, sink))), what)
                    elif k == 'tee':
                        ctx.expect(delivered(ev2, 7) == REC_ * 2 and delivered(ev2, 8) == REC_ * 2, 'tee', i2.where, '%s: after a flush the downstreams got %s and %s' % (what, show(delivered(ev2, 7)), show(delivered(ev2, 8))), what)
                # destruction
                end = io.run(ctx.fn('delete'), {0: self}, mem1, init=ev1)
                ctx.expect(bool(end), 'footer', fn.where, '%s: destruction never returns' % what, what)
                for i2, ev2, _, mem2 in end:
                    judge(ctx, io, k, kind, owned, what, fn, ob, sink, self, ev2, head + REC_ * 2 + foot)


def judge(ctx, io, k, kind, owned, what, fn, ob, sink, self, ev, want):
    w = ctx.fns('v:' + cls(k) + '::~output_' + k)[0].where
    ft = [e for e in ev if e[0] == 'ftr']
    if k == 'tee':
        ctx.expect(not ft and not [e for e in ev if e[0] in ('free', 'close') and e[1] in ('o0b', 'o1b', 'o0', 'o1', 7, 8)], 'tee', w, '%s: destruction takes the downstream outputs apart' % what, what)
    else:
        ctx.expect(len(ft) == 1 and ft[0][1] == ob and ft[0][2] == 0, 'footer', w, '%s: %d final footers' % (what, len(ft)), what)
    if kind:
        got = delivered(ev, sink)
        ctx.expect(got == want, 'footer', w, '%s: in the end the sink holds %s' % (what, show(got)), what)
        cl = idx(ev, lambda e: e[0] == 'close')
        ctx.expect([ev[x][1] for x in cl] == ([sink] if owned else []), 'close', w, '%s: closes %s' % (what, [ev[x][1] for x in cl]), what)
        late = [e for x, e in enumerate(ev) if cl and x > cl[0] and e[0] == 'out']
        ctx.expect(not late, 'close', w, '%s: writes to the sink after closing it' % what, what)
    else:
        ctx.expect(not [e for e in ev if e[0] == 'close'], 'close', w, '%s: closes something' % what, what)
    # memory
    new = [e[1] for e in ev if e[0] == 'new']
    fr = [e[1] for e in ev if e[0] == 'free']
    for n in new:
        if n == self[1]:
            continue
        ctx.expect(fr.count(n) == 1, 'memory', w, '%s: allocation %s is freed %d times' % (what, n, fr.count(n)), what)
    for n in fr:
        ctx.expect(n in new or n == self[1] or n == 'self', 'memory', w, '%s: frees %s' % (what, n), what)
    rec = idx(ev, lambda e: e[0] == 'rec')
    x = idx(ev, lambda e: e[0] == 'free' and e[1] == ob)
    late = [y for y in idx(ev, lambda e: e[0] in ('ftr', 'hdr', 'rec') and e[1] == ob) if x and y > x[0]]
    ctx.expect(not late, 'memory', w, '%s: uses the buffer after freeing it' % what, what)


def fails(ctx, k):
    for fn in ctx.fns('ctor:' + k):
        io = machine(ctx, True)
        ex = construct(ctx, io, k, fn, 16)
        for inst, ev, self, mem in ex:
            ctx.expect(not [e for e in ev if e[0] in ('openfail', 'createfail')], 'fails', inst.where, '%s: construction succeeds although the sink could not be opened' % cls(k), k)
        ctx.expect(bool([1 for i, ev, m in io.throws if [e for e in ev if e[0] == 'openfail']]), 'fails', fn.where, '%s: a sink that cannot be opened is not reported' % cls(k), k)
        for i, ev, m in io.throws:
            op = [e[1] for e in ev if e[0] == 'open']
            cl = [e[1] for e in ev if e[0] == 'close']
            ctx.expect(not [x for x in cl if x not in op], 'fails', i.where, '%s: closes %s although it was not opened' % (cls(k), cl), k)


def state(ctx):
    """an output has failed iff its buffer has"""
    for f in (0, 1):
        io = machine(ctx, False)
        m = {('self', io.off(O, '_ostrbuf')): ('p', 'ob', 0)}
        m.update(io.ob('ob', 'ostrbuf_fd', 4, 0, failed=f))
        r = {x[2] for x in io.run(ctx.fn('failed'), {0: ('p', 'self', 0)}, m)}
        ctx.expect(r == {f}, 'state', ctx.fn('failed').where, 'an output whose buffer has failed = %d reports %s' % (f, r), 'failed')
        r = {x[2] for x in io.run(ctx.fn('error'), {0: ('p', 'self', 0)}, m)}
        ctx.expect(r == {('p', 'ob', io.off(OB, '_error'))}, 'state', ctx.fn('error').where, 'the error text of an output is not the one of its buffer', 'error')


def check(ctx):
    ctx.rule('header', 'construction opens an empty sink and writes the first header to the buffer of the output, nothing else')
    ctx.rule('record', 'records are formatted into the buffer of the output and reach the sink behind the header')
    ctx.rule('footer', 'destruction writes one final footer and delivers everything to the sink')
    ctx.rule('close', 'a sink the output opened is closed exactly once, after the last write; others never')
    ctx.rule('memory', 'buffers are freed exactly once and not used afterwards')
    ctx.rule('tee', 'a tee feeds both downstream outputs and leaves them alone otherwise')
    ctx.rule('fails', 'a sink that cannot be opened makes construction fail')
    ctx.rule('state', 'an output reports the failure of its buffer')
    caps = (0, 1, 4, 64) if ctx.tier == 'quick' else (0, 1, 2, 3, 4, 5, 7, 8, 10, 11, 64)
    ctx.pmap([(k, c, e) for k in KINDS for c in caps for e in (False, True)], lambda x: life(ctx, x))
    ctx.pmap(['plainfile', 'pipe', 'file'], lambda k: fails(ctx, k))
    state(ctx)
