"""C22: masks switch exactly the matching sections, last match wins."""
import itertools as it
from rules.obj import *
from rules.strs import *
from rules.c08 import M
MK = 'hogl::mask'
ICASE = 1
APPLY = MK + '::apply'
ANY = lit('.*')
# entries of the list-building rules: name of the C string -> segments
ENT = {'E0': opaque('A0') + lit(':') + opaque('S0'), 'E1': lit('!') + opaque('A1') + lit(':') + opaque('S1'), 'E2': opaque('S2')}
PARSED = {'E0': (opaque('A0'), opaque('S0'), 1), 'E1': (opaque('A1'), opaque('S1'), 0), 'E2': (ANY, opaque('S2'), 1)}


def roots(ctx):
    P = lambda x: (lambda p: any(x in q for q in p[1:]))
    return [Root('add', MK + '::add'), Root('ins', MK + '::operator<<', optional=True), Root('stream', 'hogl::operator>>', ptypes=P('istream')),
            Root('ctor', MK + '::mask', ptypes=P('char')), Root('copy', MK + '::mask', ptypes=lambda p: any('mask' in q and '&' in q for q in p[1:])), Root('assign', MK + '::operator='),
            Root('empty', MK + '::mask', ptypes=lambda p: len(p) <= 2 and not any('&' in x or 'char' in x for x in p[1:])),
            Root('clear', MK + '::clear'), Root('apply', APPLY, ptypes=P('area')),
            Root('c_new', 'hogl_new_mask'), Root('c_add', 'hogl_mask_add'), Root('c_clear', 'hogl_mask_clear'),
            Root('e_apply', EN + '::apply_mask', stop=(APPLY,)), Root('e_get', EN + '::get_mask'), Root('g_apply', 'hogl::apply_mask', stop=(EN + '::apply_mask',)),
            Root('c_apply', 'hogl_apply_mask', stop=(EN + '::apply_mask',)), Root('e_ctor', EN + '::engine', stop=(APPLY,))]


class A:
    """abstract machine with strings, regular expressions and mask lists"""

    def __init__(self, ctx, calls=None, maps=None, locks=None, keep=()):
        self.ctx = ctx
        self.S = Strs({k: v for k, v in ENT.items()})
        self.R = Regex(self.S)
        L = ctx.layout['hogl::mask::data']
        self.f = {f[0]: f[2] // 8 for f in L}
        self.L = Lists(ctx.sizes['hogl::mask::data'])
        self.L.fields = [(f[2] // 8, f[1]) for f in L]
        self.o = Obj(ctx, maps or {}, calls or {}, locks=locks, keep=('std::', 'fmt::') + tuple(keep))
        self.o.limit = 400
        heap = self.o.heap
        me = self

        class H:
            def model(s, i, a, Fx):
                for m in (me.S, me.R, me.L, me):
                    r = m.model(i, a, Fx)
                    if r is not None:
                        return r
                return heap.model(i, a, Fx)
        self.o.heap = H()
        self.heap = heap
        self.va, self.lines = [], []

    def model(self, i, a, Fx):
        c = i.callee or ''
        if c.startswith('llvm.va_start'):
            p = Fx.ptr(i.ops[0])
            up = {(p[1], p[2]): 48, (p[1], p[2] + 4): 304, (p[1], p[2] + 8): ('p', '#va', 0)}
            for k, x in enumerate(self.va + [0]):
                up[('#va', 8 * k)] = ('p', x, 0) if x else 0
            return [(None, a, up)]
        if c == 'std::getline':
            n = len([e for e in a if e[0] == 'line'])
            p = Fx.ptr(i.ops[1])
            if n >= len(self.lines):
                return [(('p', '#in', 0), a + (('line', None),), {(p[1], p[2]): self.S.ptr(())})]
            return [(('p', '#in', 0), a + (('line', n),), {(p[1], p[2]): self.S.ptr(self.lines[n])})]
        if c in ('std::basic_ios::operator bool', 'std::basic_ios::good'):
            return [(int(('line', None) not in a), a, {})]
        if c in ('std::basic_ios::eof', 'std::basic_ios::fail', 'std::basic_ios::operator!'):
            return [(int(('line', None) in a), a, {})]
        return None

    def mem(self, masks):
        """masks: {root: [entry name...]}"""
        m = {('#in', 0): ('p', '#invt', 0), ('#invt', -24): 0}
        n = 0
        for r, es in masks.items():
            L = []
            for e in es:
                nd = '#ln:%s:%d' % (r, n)
                n += 1
                a, s, on = PARSED[e]
                m[(nd, self.f['str'])] = self.S.ptr(ENT[e])
                m[(nd, self.f['area'])] = self.R.ptr(a, 64)
                m[(nd, self.f['sect'])] = self.R.ptr(s, 64)
                m[(nd, self.f['on'])] = on
                L.append(nd)
            m[(r, 0)] = ('p', 'L' + r, 0)
            self.L.put(m, ('p', 'L' + r, 0), L)
        return m

    def entry(self, mem, nd):
        def re(f):
            v = mem.get((nd, self.f[f]))
            return self.R.tab[int(v[1][2:])] if type(v) is tuple and str(v[1]).startswith('#R') else ((('?', 1),), 0)
        v = mem.get((nd, self.f['str']))
        s = self.S.byroot(v[1]) if type(v) is tuple else None
        return s, re('area'), re('sect'), mem.get((nd, self.f['on']))

    def entries(self, mem, mask):
        p = mem.get((mask[1], mask[2]))
        L = self.L.items(mem, p) if type(p) is tuple else None
        return None if L is None else [self.entry(mem, x) for x in L]


def check(ctx):
    ctx.rule('parse', 'an entry selects by its area part and its section part (everything where a part is missing) and switches off iff it starts with !')
    ctx.rule('apply', 'after applying a mask every section has the state of the last entry whose area and section expressions fully match, or its old state')
    ctx.rule('build', 'every way of building a mask yields the same entries in the same order')
    ctx.rule('independent', 'copies and assignments own their entries; the source is left alone')
    ctx.rule('engine', 'a mask applied to the engine becomes its current mask and is applied to every registered area under the registry lock')
    ctx.rule('wrapper', 'the C and default-engine functions apply the given mask to the default engine')
    parse(ctx)
    build(ctx)
    copies(ctx)
    apply(ctx)
    engine(ctx)
    wrappers(ctx)


def good(e, exp):
    s, a, x, on = e
    ea, ex, eon = exp[1:]
    return s == exp[0] and a[0] == ea and x[0] == ex and not (a[1] | x[1]) & ICASE and on == eon


def show(segs):
    return ''.join(t for t, n in segs) if segs is not None else '?'


def parse(ctx):
    fn = ctx.fns('add')[0]
    bodies = [(opaque('S'), ANY, opaque('S'))]
    for a in ((), opaque('A'), opaque('A', 1)):
        for s in ((), opaque('S'), opaque('S') + lit(':') + opaque('S2'), opaque('S', 1)):
            bodies.append((a + lit(':') + s, a or ANY, s or ANY))
    bodies.append((opaque('S', 2), ANY, opaque('S', 2)))
    for bang in (0, 1):
        for segs, ea, es in bodies + ([((), ANY, ANY)] if bang else []):
            x = A(ctx)
            segs = (lit('!') if bang else ()) + segs
            m = x.mem({'M': ['E0']})
            m[('STR', 0)] = x.S.ptr(segs)
            m.update(x.S.chars(segs))
            r = x.o.run(fn, {0: ('p', 'M', 0), 1: ('p', 'STR', 0)}, m)
            w = '%s "%s"' % (fn.qname, show(segs))
            ctx.expect(r, 'parse', fn.where, w + ' does not return', w)
            for ret, ev, v, m2 in r:
                L = x.entries(m2, ('p', 'M', 0))
                ok = L is not None and len(L) == 2 and good(L[0], (ENT['E0'],) + PARSED['E0'])
                ctx.expect(ok, 'build', ret.where, '%s: does not append one entry to the list' % w, w, key='append ' + fn.qname)
                if ok:
                    s, a, e, on = L[1]
                    ctx.expect(good(L[1], (segs, ea, es, 1 - bang)), 'parse', ret.where, '%s: area "%s" section "%s" %s%s' % (w, show(a[0]), show(e[0]), 'on' if on else 'off' if on == 0 else '?', '' if s == segs else ', kept as "%s"' % show(s)), w,
                               key='parse %s %s' % (fn.qname, show(segs)))


def expected(x, L, names):
    return L is not None and len(L) == len(names) and all(good(e, (ENT[n],) + PARSED[n]) for e, n in zip(L, names))


def build(ctx):
    jobs = []
    for rid, args, va in (('ins', None, ()), ('c_add', None, ()), ('ctor', 'new', ('E1', 'E2')), ('ctor', 'new', ()), ('ctor', 'null', ()), ('c_new', 'ret', ('E1', 'E2')), ('c_new', 'ret', ()), ('c_new', 'null', ()), ('stream', None, ()), ('empty', 'new', ())):
        for fn in ctx.fns(rid):
            jobs.append((fn, rid, args, va))
    for fn, rid, mode, va in jobs:
        x = A(ctx)
        x.va = list(va)
        m = x.mem({'M': ['E2']}) if mode is None else {}
        m[('STR', 0)] = x.S.ptr(ENT['E0'])
        for e in ENT.values():
            m.update(x.S.chars(e))
            for (r, k), c in x.S.chars(e).items():
                for nm in ENT:
                    if ENT[nm] == e:
                        m[(nm, k)] = c
        if rid == 'ins':
            args, exp, tgt = {0: ('p', 'M', 0), 1: ('p', 'STR', 0)}, ['E2', 'E0'], ('p', 'M', 0)
        elif rid == 'c_add':
            args, exp, tgt = {0: ('p', 'M', 0), 1: ('p', 'E0', 0)}, ['E2', 'E0'], ('p', 'M', 0)
        elif rid == 'stream':
            x.lines = [ENT['E0'], (), ENT['E1'], ENT['E2'], ()]
            args, exp, tgt = {0: ('p', '#in', 0), 1: ('p', 'M', 0)}, ['E2', 'E0', 'E1', 'E2'], ('p', 'M', 0)
        elif rid == 'empty':
            args, exp, tgt = {0: ('p', 'M', 0)}, [], ('p', 'M', 0)
        else:
            first = 0 if mode == 'null' else ('p', 'E0', 0)
            exp = [] if mode == 'null' else ['E0'] + list(va)
            args, tgt = ({0: first}, None) if rid == 'c_new' else ({0: ('p', 'M', 0), 1: first}, ('p', 'M', 0))
        r = x.o.run(fn, args, m)
        w = '%s(%s)' % (fn.qname, ', '.join(exp))
        ctx.expect(r, 'build', fn.where, w + ' does not return', w)
        for ret, ev, v, m2 in r:
            t = tgt or v
            L = x.entries(m2, t) if type(t) is tuple else None
            ctx.expect(expected(x, L, exp), 'build', ret.where, '%s: the mask has the entries %s' % (w, [show(e[0]) for e in L] if L is not None else L), w, key='build %s %s' % (fn.qname, mode))


def copies(ctx):
    for rid in ('copy', 'assign'):
        for fn in ctx.fns(rid):
            for self_, src, old in ((0, ['E0', 'E1', 'E2'], ['E2']), (0, [], ['E1']), (0, ['E1'], []), (1, ['E0', 'E1'], None)):
                if self_ and rid == 'copy':
                    continue
                x = A(ctx)
                m = x.mem({'M': src} if self_ or rid == 'copy' else {'M': src, 'T': old})
                t = 'M' if self_ else 'T'
                r = x.o.run(fn, {0: ('p', t, 0), 1: ('p', 'M', 0)}, m)
                w = '%s%s of %d entries' % (fn.qname, ' (self-assignment)' if self_ else '', len(src))
                ctx.expect(r, 'build', fn.where, w + ' does not return', w)
                for ret, ev, v, m2 in r:
                    L, S = x.entries(m2, ('p', t, 0)), x.entries(m2, ('p', 'M', 0))
                    ctx.expect(expected(x, L, src), 'build', ret.where, '%s: the result has the entries %s' % (w, [show(e[0]) for e in L] if L is not None else L), w, key='copy %s %d' % (fn.qname, self_))
                    ctx.expect(expected(x, S, src), 'independent', ret.where, '%s: the source is changed' % w, w, key='source ' + fn.qname)
                    if not self_:
                        ctx.expect(m2.get(('T', 0)) != m2.get(('M', 0)), 'independent', ret.where, '%s: both masks share one list' % w, w, key='shared ' + fn.qname)
    for rid in ('clear', 'c_clear'):
        for fn in ctx.fns(rid):
            x = A(ctx)
            for ret, ev, v, m2 in x.o.run(fn, {0: ('p', 'M', 0)}, x.mem({'M': ['E0', 'E1']})):
                ctx.expect(x.entries(m2, ('p', 'M', 0)) == [], 'build', ret.where, '%s: entries remain' % fn.qname, fn.qname, key='clear ' + fn.qname)


def apply(ctx):
    deep = ctx.tier == 'thorough'
    g = lambda t, n: [f[2] // 8 for f in ctx.layout[t] if f[0] == n][0]
    ao, bo = (lambda n: g('hogl::area', n)), (lambda n: g('hogl::bitmap', n) + g('hogl::area', '_bitmap'))
    NS = 2
    PARSED.update({'E3': (opaque('A0'), opaque('S1'), 0), 'E4': (ANY, ANY, 0), 'E5': (opaque('A0'), opaque('S0'), 0), 'E6': (opaque('A0'), opaque('S3'), 1)})
    ENT.update({'E3': lit('!') + opaque('A0') + lit(':') + opaque('S1'), 'E4': lit('!:'), 'E5': lit('!') + opaque('A0') + lit(':') + opaque('S0'), 'E6': opaque('A0') + lit(':') + opaque('S3')})
    lists = [[], ['E0'], ['E1'], ['E0', 'E1'], ['E1', 'E0'], ['E2', 'E4'], ['E4', 'E2'], ['E0', 'E5'], ['E5', 'E0'], ['E0', 'E3', 'E6']]
    if deep:
        lists += [list(p) for p in it.permutations(['E0', 'E1', 'E2'])] + [['E4', 'E6', 'E3'], ['E2', 'E5', 'E1']]
    jobs = [(fn, es, init) for fn in ctx.fns('apply') for es in lists for init in (0, 1, 2, 3)]

    def one(j):
        fn, es, init = j
        x = A(ctx)
        x.S.names.update({'AN': opaque('area'), 'N0': opaque('sect0'), 'N1': opaque('sect1'), 'N2': opaque('beyond')})
        m = x.mem({'M': es})
        m[('AR', ao('_name'))] = ('p', 'AN', 0)
        m[('AR', ao('_section'))] = ('p', 'SEC', 0)
        for k in range(NS + 1):
            m[('SEC', 8 * k)] = ('p', 'N%d' % k, 0)
        m[('AR', bo('_data'))] = ('p', 'BITS', 0)
        m[('AR', bo('_size'))] = NS
        m[('BITS', 0)] = init
        r = x.o.run(fn, {0: ('p', 'M', 0), 1: ('p', 'AR', 0)}, m, cap=512)
        out = []
        w = '%s of [%s] to %d%d' % (fn.qname, ', '.join(show(ENT[e]) for e in es), init & 1, init >> 1)
        if not r:
            out.append(('apply', fn.where, w + ' does not return', w))
        n = 0
        for ret, ev, v, m2 in r:
            n += 1
            out += judge(x, es, init, NS, ev, m2, ret, w, fn)
        return out, n
    for out, n in ctx.pmap(jobs, one):
        for _ in range(n):
            ctx.ok('apply')
        for rule, wh, msg, w in out:
            ctx.bad(rule, wh, msg, key='apply ' + w.split(' of ')[0])


def judge(x, es, init, NS, ev, m2, ret, w, fn):
    names = {'area': opaque('area'), 0: opaque('sect0'), 1: opaque('sect1')}
    known = {(e[1], e[2][0]): e[3] for e in ev if e[0] == 'match' and not e[2][1] & ICASE}
    asked = lambda n, pat: 1 if pat == ANY else known.get((names[n], pat))
    got = m2.get(('BITS', 0))
    if type(got) is not int:
        return [('apply', ret.where, '%s: the section bits are unknown afterwards' % w, w)]
    for k in range(NS):
        # state of section k for every answer that was not asked for
        st = {init >> k & 1}
        for e in es:
            a, s, on = PARSED[e]
            ra, rs = asked('area', a), asked(k, s)
            if ra == 0 or rs == 0:
                continue
            st = {on} if ra == 1 and rs == 1 else st | {on}
        if st != {got >> k & 1}:
            return [('apply', ret.where, '%s: section %d is %s where its state should be %s (matches: %s)' % (w, k, 'on' if got >> k & 1 else 'off', sorted(st), sorted((show(a), show(b), v) for (a, b), v in known.items())), w)]
    if got >> NS:
        return [('apply', ret.where, '%s: bits beyond the sections are set' % w, w)]
    if [e for e in ev if e[0] in ('clear', '~list', 'node')] or not expected(x, x.entries(m2, ('p', 'M', 0)), es):
        return [('apply', ret.where, '%s: the mask is changed' % w, w)]
    return []


def engine(ctx):
    mo = M(ctx)
    off = mo.o('_mask')
    MAPS = {('eng', mo.o('_area_map')): 'areas'}

    def make(es):
        x = A(ctx, {}, MAPS, {('eng', mo.o('_area_mutex')): 'area'}, keep=(APPLY,))

        def apply(i, a, Fx, ev):
            p = a[0] if type(a[0]) is tuple else Fx.ptr(i.ops[0])
            L = x.entries(Fx.mem, p)
            held = sum(1 if e[0] == 'lock' else -1 for e in ev if e[0] in ('lock', 'unlock') and e[1] == 'area')
            return [(None, [('apply', tuple(show(e[0]) for e in L) if L is not None else None, a[1], held)], {})]
        x.o.calls = {APPLY: apply}
        m = x.mem({'M': es, 'EM': ['E2']})
        m[('eng', off)] = m.pop(('EM', 0))
        return x, m
    fn = ctx.fns('e_apply')[0]
    for areas in ((), ('A',), ('A', 'B', 'C')):
        for es, same in ((['E0', 'E1'], 0), ([], 0), (['E2'], 1)):
            x, m = make(es)
            x.heap.put(m, 'areas', [(k, ('p', 'area' + k, 0)) for k in areas])
            src = ('p', 'eng', off) if same else ('p', 'M', 0)
            r = x.o.run(fn, {0: ('p', 'eng', 0), 1: src}, m, cap=128)
            w = '%s of %d entries to %d areas%s' % (fn.qname, len(es), len(areas), ', its own mask' if same else '')
            ctx.expect(r, 'engine', fn.where, w + ' does not return', w)
            for ret, ev, v, m2 in r:
                ap = [e for e in ev if e[0] == 'apply']
                exp = tuple(show(ENT[e]) for e in es)
                ctx.expect(expected(x, x.entries(m2, ('p', 'eng', off)), es), 'engine', ret.where, '%s: the current mask is not the given one afterwards' % w, w, key='current')
                t = sorted(str(e[2][1]) if type(e[2]) is tuple else str(e[2]) for e in ap if e[1] == exp)
                ctx.expect(set(t) == set('area' + k for k in areas) and all(e[1] == exp for e in ap), 'engine', ret.where, '%s: the mask is applied to %s' % (w, t), w, key='all areas')
                ctx.expect(all(e[3] for e in ap), 'engine', ret.where, '%s: an area is masked without the registry lock' % w, w, key='locked')
                # the registry must not change between the two steps: one critical section for the current mask and the areas
                un = [k for k, e in enumerate(ev) if e[0] == 'unlock' and e[1] == 'area']
                ctx.expect(len(un) == 1, 'engine', ret.where, '%s: the current mask and the areas are not updated in one critical section' % w, w, key='one section')
    fn = ctx.fns('e_get')[0]
    for es in (['E0', 'E1'], []):
        x, m = make(es)
        m[('eng', off)] = m[('M', 0)]
        for ret, ev, v, m2 in x.o.run(fn, {0: ('p', 'R', 0), 1: ('p', 'eng', 0)}, m):
            ctx.expect(expected(x, x.entries(m2, ('p', 'R', 0)), es), 'engine', ret.where, '%s does not return the current entries' % fn.qname, fn.qname, key='get')
            ctx.expect(m2.get(('R', 0)) != m2.get(('eng', off)) and expected(x, x.entries(m2, ('p', 'eng', off)), es), 'independent', ret.where, '%s shares the engine\'s list' % fn.qname, fn.qname, key='get shared')
    # the engine starts with the mask of its options
    fn = ctx.fns('e_ctor')[0]
    do = [f[2] // 8 for f in ctx.layout['hogl::engine::options'] if f[0] == 'default_mask'][0]
    seen = [0]
    x, m = make(['E0', 'E1'])
    m[('opt', do)] = m.pop(('M', 0))
    x.heap.put(m, 'areas', [])

    def start(i, a, Fx, ev):
        seen[0] += 1
        ctx.expect(expected(x, x.entries(Fx.mem, ('p', 'eng', off)), ['E0', 'E1']), 'engine', i.where, '%s: the engine thread starts without the mask of the options' % fn.qname, fn.qname, key='options')
        return [(0, [], {})]
    x.o.calls['pthread_create'] = start
    x.o.run(fn, {0: ('p', 'eng', 0), 1: ('p', 'out', 0), 2: ('p', 'opt', 0)}, m, cap=128)
    ctx.expect(seen[0], 'engine', fn.where, '%s does not start a thread' % fn.qname, key='options start')


def wrappers(ctx):
    AM = EN + '::apply_mask'
    for rid in ('g_apply', 'c_apply'):
        for fn in ctx.fns(rid):
            def call(i, a, Fx, ev):
                return [(None, [('call', a[0], a[1])], {})]
            x = A(ctx, {AM: call})
            m = x.mem({'M': ['E0']})
            r = x.o.run(fn, {0: ('p', 'M', 0)}, m)
            for ret, ev, v, m2 in r:
                c = [e for e in ev if e[0] == 'call']
                ctx.expect(len(c) == 1 and c[0][2] == ('p', 'M', 0), 'wrapper', ret.where, '%s does not apply the given mask once' % fn.qname, fn.qname, key='wrapper ' + fn.qname)
