"""C27: area registration is unique by name and never hands out a wrong area."""
from rules.obj import *
import rules.common as C
from rules.c08 import M, freed
AREA = 'hogl::area'
APPLY = 'hogl::mask::apply'


def roots(ctx):
    return [Root('add', EN + '::add_area', stop=(APPLY,)), Root('addi', EN + '::engine', stop=(APPLY,)), Root('find', EN + '::find_area'), Root('name', 'hogldrv::area_section_name', optional=True), Root('sname', AREA + '::section_name'),
            Root('eq', AREA + '::operator=='), Root('gadd', 'hogl::add_area', stop=(EN + '::add_area',), optional=True)]


def check(ctx):
    C.check_flags(ctx)
    ctx.rule('reuse', 'a second registration of a name returns the existing area if name, section count and section names are the same, else null')
    ctx.rule('untouched', 'an existing area is not changed, freed or masked by another registration')
    ctx.rule('freed', 'the extra area object and all its data are freed exactly once')
    ctx.rule('copy', 'a new area has its own copies of its name and section names and one bit per section, all disabled before the mask is applied')
    ctx.rule('mask', 'the current mask is applied to a new area, under the registry lock, before anybody can find it')
    ctx.rule('registry', 'a new area is registered under its name and returned; lookup returns exactly the registered area of that name')
    ctx.rule('lookup', 'section lookup reads only entries of the section table')
    mo = M(ctx)
    for f in (adds, find, equal, names, internal):
        f(ctx, mo)


def put_area(ctx, m, root, name, sects, default=False):
    ao = lambda f: layout_off(ctx, AREA, f)
    b = lambda f: ao('_bitmap') + layout_off(ctx, 'hogl::bitmap', f)
    n = len(sects)
    m.update({(root, ao('_name')): ('p', 'dup:' + name, 0), (root, ao('_section')): ('p', root + '.sect', 0), (root, b('_size')): n, (root, b('_data')): ('p', root + '.bits', 0)})
    for k, s in enumerate(sects):
        m[(root + '.sect', 8 * k)] = ('p', 'dup:' + s, 0)
    for k in range((n + 63) // 64):
        m[(root + '.bits', 8 * k)] = 0


CASES = [
    ('new name', None, ('S0', 'S1')), ('new name, one section', None, ('S0',)), ('new name, 65 sections', None, tuple('S%d' % k for k in range(65))),
    ('same', ('S0', 'S1'), ('S0', 'S1')), ('same, one', ('S0',), ('S0',)), ('fewer', ('S0', 'S1'), ('S0',)), ('more', ('S0',), ('S0', 'S1')),
    ('first differs', ('S0', 'S1', 'S2'), ('X', 'S1', 'S2')), ('last differs', ('S0', 'S1', 'S2'), ('S0', 'S1', 'X')), ('middle differs', ('S0', 'S1', 'S2'), ('S0', 'X', 'S2')), ('order differs', ('S0', 'S1'), ('S1', 'S0')),
]


def adds(ctx, mo):
    fn = ctx.fn('add')
    W = '%s:%d' % (fn.file, fn.line)
    ao = lambda f: layout_off(ctx, AREA, f)
    bo = lambda f: ao('_bitmap') + layout_off(ctx, 'hogl::bitmap', f)
    gm = globmem(ctx, 'default_section_names')
    gk = [k for k, g in ctx.globals.items() if 'default_section_names' in k and g['file'].endswith('/src/area.cc')]
    dflt = tuple(v[1][1] for (r, o_), v in sorted(gm.items(), key=lambda x: x[0][1]) if gk and r == ('g', gk[0]) and v)
    cases = [(n, a, b, '') for n, a, b in CASES]
    if dflt:
        other = dflt[:1] + ('X',) + dflt[2:]
        # 'e' the existing area, 'n' the new one uses the default section table
        cases += [('default sections, new name', None, dflt, 'n'), ('default sections, same', dflt, dflt, 'en'), ('default sections, existing has others', other, dflt, 'n'),
                  ('default sections, existing has own copies', dflt, dflt, 'n'), ('existing has default sections', dflt, other, 'e'), ('existing has default sections, same names', dflt, dflt, 'e'),
                  ('existing has default sections, fewer', dflt, dflt[:2], 'e'), ('default sections, existing has fewer', dflt[:2], dflt, 'n')]
    for name, ex, sects, df in cases:
        m = mo.engine()
        m.update(gm)
        h = Heap(mo.maps)
        items = [('OTHER', ('p', 'O', 0))]
        put_area(ctx, m, 'O', 'OTHER', ('S0', 'S1'))
        if ex is not None:
            items.append(('NAME', ('p', 'A', 0)))
            put_area(ctx, m, 'A', 'NAME', ex)
            if 'e' in df:
                m[('A', ao('_section'))] = ('p', ('g', gk[0]), 0)
        h.put(m, 'areas', sorted(items))
        for k, s in enumerate(sects):
            m[('secs', 8 * k)] = ('p', s, 0)
        m[('secs', 8 * len(sects))] = 0
        o = Obj(ctx, mo.maps, locks=mo.locks)

        def inmap(Fx):
            return [(Fx.mem.get(('#node:areas:%s' % k, 32)) or (0, 0))[1] for k, v in (o.heap.items(Fx.mem, 'areas') or ())]

        def watch(i, Fx, ev):
            if i.is_call and i.callee == 'pthread_mutex_unlock':
                return (('open', tuple(inmap(Fx))),)
            p = written_ptr(i)
            if p is not None:
                r = Fx.ptr(p)[1]
                if i.is_call and 'memset' in i.callee and type(r) is str and r.startswith('new'):
                    d, n = Fx.ptr(i.ops[0]), Fx.get(i.ops[2])
                    if d[2] is not None and n is not None and Fx.get(i.ops[1]) == 0:
                        return (('zero', r, d[2], n),)
                if type(r) is str and r.split('.')[0] in ('A', 'O'):
                    ctx.bad('untouched', i.where, '%s (%s): changes an existing area' % (fn.qname, name), key='untouched store')
            return ()

        def apply(i, a, Fx, ev):
            t = a[1][1] if type(a[1]) is tuple else a[1]
            msk = a[0]
            d = Fx.mem.get((t, bo('_data')), (0, 0))[1]
            clear = [any(e[0] == 'zero' and e[1] == d and e[2] <= k // 8 < e[2] + e[3] for e in ev) or
                     not any(e[0] == 'zero' and e[1] == d for e in ev) and Fx.mem.get((d, k // 64 * 8)) == 0 for k in range(len(sects))]
            return [(None, [('apply', msk, t, t in inmap(Fx), all(clear))], {})]
        o.watch = watch
        o.calls = {APPLY: apply}
        o.limit = 600
        r = o.run(fn, {0: ('p', 'eng', 0), 1: ('p', 'NAME', 0), 2: 0 if 'n' in df else ('p', 'secs', 0)}, m, cap=256)
        w = '%s (%s)' % (fn.qname, name)
        ctx.expect(r, 'registry', W, w + ' does not return')
        for ret, ev, v, m2 in r:
            ctx.ok('untouched')
            v = v[1] if type(v) is tuple else v
            reg = {k: (m2.get(('#node:areas:%s' % k, 32)) or (0, None))[1] for k, x in o.heap.items(m2, 'areas') or ()}
            ctx.expect(reg.get('OTHER') == 'O' and len(reg) == 2, 'registry', ret.where, '%s: other areas are affected' % w, w, key='registry other')
            ap = [k for k, e in enumerate(ev) if e[0] == 'apply']
            na = [e[1] for e in ev if e[0] == 'new' and m2.get((e[1], ao('_name'))) == ('p', 'dup:NAME', 0)]
            if ex is None:
                ctx.expect(v == reg.get('NAME') and v in na, 'registry', ret.where, '%s: returns %s, registered %s' % (w, v, reg.get('NAME')), w, key='registry new')
                if v not in na:
                    continue
                ctx.expect(not [e for e in ev if e[0] == 'free' and (str(e[1]) == v or str(e[1]).startswith('dup'))], 'freed', ret.where, '%s: frees the new area' % w, w, key='freed new')
                g = lambda f: m2.get((v, f))
                st = g(ao('_section'))
                ctx.expect(g(ao('_name')) == ('p', 'dup:NAME', 0) and type(st) is tuple and st[1] != 'secs' and ('n' in df and st[1] == ('g', gk[0]) or [m2.get((st[1], 8 * k)) for k in range(len(sects))] == [('p', 'dup:' + s, 0) for s in sects]) and g(bo('_size')) == len(sects),
                           'copy', ret.where, '%s: the new area does not own copies of its names' % w, w, key='copy')
                lk = inl(ev, ap[0]) if ap else None
                good = len(ap) == 1 and ev[ap[0]][1] == ('p', 'eng', mo.o('_mask')) and ev[ap[0]][2] == v
                ctx.expect(good and lk, 'mask', ret.where, '%s: %s' % (w, 'the mask is applied %d times' % len(ap) if len(ap) != 1 else 'the mask is applied without the registry lock' if not lk else 'another mask or area is used'), w, key='mask')
                if ap:
                    ctx.expect(ev[ap[0]][4], 'copy', ret.where, '%s: not all sections are disabled before the mask is applied' % w, w, key='copy bits')
                    # nobody else may see it in between: registered and masked in one critical section
                    ctx.expect(not [1 for e in ev[:ap[0]] if e[0] == 'open' and v in e[1]], 'mask', ret.where, '%s: the area can be found before the mask is applied' % w, w, key='mask late')
                continue
            same = ex == sects
            ctx.expect(reg.get('NAME') == 'A', 'registry', ret.where, '%s: the existing area is replaced' % w, w, key='registry replaced')
            ctx.expect(v == ('A' if same else 0), 'reuse', ret.where, '%s: returns %s' % (w, {'A': 'the existing area', 0: 'null'}.get(v, v)), w, key='reuse ' + str(same))
            ctx.expect(not freed(ev, 'A') and not freed(ev, 'O') and not [e for e in ev if e[0] == 'free' and str(e[1]).startswith(('A.', 'O.'))], 'untouched', ret.where, '%s: frees an existing area' % w, w, key='untouched free')
            ctx.expect(not [k for k in ap if ev[k][2] in ('A', 'O')], 'untouched', ret.where, '%s: applies the mask to an existing area' % w, w, key='untouched mask')
            for n in na:
                st = m2.get((n, ao('_section')))
                fr = [e[1] for e in ev if e[0] == 'free']
                exp = [n, 'dup:NAME', (m2.get((n, bo('_data'))) or (0, None))[1]]
                if not (type(st) is tuple and st[1] in [('g', k) for k in gk]):
                    exp += [st[1] if type(st) is tuple else None] + ['dup:' + s for s in sects]
                ctx.expect(not [x for x in fr if gk and str(gk[0]) in str(x)] and (not gk or not [x for x in fr if x in dflt]), 'freed', ret.where, '%s: frees the default section names' % w, w, key='freed default')
                ctx.expect(sorted(map(str, exp)) == sorted(map(str, [x for x in fr if x in exp])), 'freed', ret.where, '%s: the extra area leaks or is freed twice (freed %d of %d)' % (w, len([x for x in fr if x in exp]), len(exp)), w, key='freed')
            ctx.expect(len(na) <= 1, 'freed', ret.where, '%s: allocates %d areas' % (w, len(na)), w, key='freed many')
            news = [e[1] for e in ev if e[0] == 'new']
            left = [x for x in news if not freed(ev, x)]
            ctx.expect(not left, 'freed', ret.where, '%s: leaks %d allocations' % (w, len(left)), w, key='freed leak')


def inl(ev, k):
    d = False
    for e in ev[:k]:
        if e[0] in ('lock', 'unlock') and e[1] == 'area':
            d = e[0] == 'lock'
    return d


def find(ctx, mo):
    fn = ctx.fn('find')
    for L in (('A0', 'NAME', 'Z'), ('NAME',), ('A0', 'Z'), ()):
        m = mo.engine()
        h = Heap(mo.maps)
        h.put(m, 'areas', [(k, ('p', 'a:' + k, 0)) for k in L])
        o = Obj(ctx, mo.maps, locks=mo.locks)
        for ret, ev, v, m2 in o.run(fn, {0: ('p', 'eng', 0), 1: ('p', 'NAME', 0)}, m):
            v = v[1] if type(v) is tuple else v
            ctx.expect(v == ('a:NAME' if 'NAME' in L else 0), 'registry', ret.where, '%s: finds %s among %s' % (fn.qname, v, L), str(L), key='find')
            ctx.expect(len(h.items(m2, 'areas')) == len(L), 'registry', ret.where, '%s: changes the registry' % fn.qname, key='find changes')
    fns = ctx.fns('gadd')
    for f in fns:
        o = Obj(ctx, {}, calls={EN + '::add_area': lambda i, a, Fx, ev: [(('p', 'A', 0), [('add', a)], {})]})
        args = {k: ('p', x[0], 0) for k, x in enumerate(f.args)}
        for ret, ev, v, m2 in o.run(f, args, {}, cap=4):
            e = [x for x in ev if x[0] == 'add']
            ctx.expect(len(e) == 1 and v == ('p', 'A', 0) and e[0][1][1:3] == tuple(('p', x[0], 0) for x in f.args[:2]), 'registry', ret.where, '%s: does not forward its arguments and result' % f.qname, f.qname, key='forward')


def equal(ctx, mo):
    for fn in ctx.fns('eq'):
        for a, b in itertools_cases():
            m = {}
            put_area(ctx, m, 'A', a[0], a[1:])
            put_area(ctx, m, 'B', b[0], b[1:])
            r = Obj(ctx, {}).run(fn, {0: ('p', 'A', 0), 1: ('p', 'B', 0)}, m)
            ctx.expect(r, 'reuse', '%s:%d' % (fn.file, fn.line), '%s does not return' % fn.qname)
            for ret, ev, v, m2 in r:
                ctx.expect(type(v) is int and v & 1 == int(a == b), 'reuse', ret.where, '%s: areas %s and %s compare as %s' % (fn.qname, a, b, v), '%s %s' % (a, b), key='equal')


def itertools_cases():
    L = [('N', 'S0'), ('N', 'S0', 'S1'), ('N', 'S1', 'S0'), ('N', 'S0', 'S1', 'S2'), ('N', 'S0', 'S1', 'X'), ('M', 'S0', 'S1'), ('N', 'X', 'S1'), ('N',)]
    return [(a, b) for a in L for b in L]


def names(ctx, mo):
    for fn in ctx.fns('sname'):
        for n in (0, 1, 6, 65):
            for s in sorted({0, 1, n - 1, n, n + 1, 64, 65, 1 << 31, (1 << 32) - 1}):
                if s < 0:
                    continue
                m = {}
                put_area(ctx, m, 'A', 'N', ['S%d' % k for k in range(n)])

                def watch(i, Fx, ev):
                    if i.op == 'load':
                        p = Fx.ptr(i.ops[0])
                        if p[1] == 'A.sect' or p[1] == 'A.bits':
                            ctx.expect(p[2] is not None and 0 <= p[2] < 8 * n, 'lookup', i.where, '%s: looking up section %d of %d reads outside the table' % (fn.qname, s, n), fn.qname, key='lookup')
                    return ()
                o = Obj(ctx, {}, watch=watch)
                for ret, ev, v, m2 in o.run(fn, {0: ('p', 'A', 0), 1: s}, m):
                    if s < n:
                        ctx.expect(v == ('p', 'dup:S%d' % s, 0), 'lookup', ret.where, '%s: section %d of %d is %s' % (fn.qname, s, n, v), fn.qname, key='lookup result')
                    else:
                        ctx.expect(type(v) is tuple and type(v[1]) is tuple and v[1][0] in ('s', 'g'), 'lookup', ret.where, '%s: unknown section %d of %d is %s' % (fn.qname, s, n, v), fn.qname, key='lookup unknown')


def internal(ctx, mo):
    """the engine's own area gets the mask too"""
    fn = ctx.fn('addi')
    oo = lambda f: layout_off(ctx, EN + '::options', f)
    m = {('opts', oo('timesource')): 0, ('opts', oo('tso_buffer_capacity')): 16, ('opts', oo('features')): 0, ('opts', oo('schedparam')): 0}
    Heap(mo.maps).put(m, 'areas', [])
    o = Obj(ctx, mo.maps, locks=mo.locks, keep=('hogl::mask', 'fmt::', 'std::'))
    o.calls = {APPLY: lambda i, a, Fx, ev: [(None, [('apply', a[0], a[1])], {})], 'pthread_create': lambda i, a, Fx, ev: [(0, [('create',)], {})]}
    r = o.run(fn, {0: ('p', 'eng', 0), 1: ('p', 'out', 0), 2: ('p', 'opts', 0)}, m, cap=8)
    ctx.anchor(r, 'engine constructor')
    for ret, ev, v, m2 in r:
        ap = [k for k, e in enumerate(ev) if e[0] == 'apply']
        cr = [k for k, e in enumerate(ev) if e[0] == 'create']
        ia = m2.get(('eng', mo.o('_internal_area')))
        ok = len(ap) >= 1 and cr and ap[-1] < cr[0] and ev[ap[-1]][1] == ('p', 'eng', mo.o('_mask')) and ev[ap[-1]][2] == ia
        ctx.expect(ok, 'mask', ret.where, '%s: the mask is not applied to the internal area before the thread starts' % fn.qname, fn.qname, key='mask internal')
        ctx.expect([x[1] for x in (o.heap.items(m2, 'areas') or [])] and (m2.get(('#node:areas:%s' % o.heap.items(m2, 'areas')[0][0], 32)) == ia), 'registry', ret.where, '%s: the internal area is not registered' % fn.qname, fn.qname, key='registry internal')
