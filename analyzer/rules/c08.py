"""C08: rings live exactly as long as they are referenced."""
from rules.obj import *
import rules.common as C
from rules.passmodel import EnginePass, Case, passes, ROOT, h0, MASK64
TLS = 'hogl::tls'
NRM = 'hogl::ringbuf::'


def roots(ctx):
    return [ROOT, Root('add', EN + '::add_ring', ptypes=lambda p: any('char' in x for x in p)),
            Root('addr', EN + '::add_ring', ptypes=lambda p: any('ringbuf*' in x for x in p[1:])),
            Root('find', EN + '::find_ring'), Root('hold', RB + '::hold'), Root('release', RB + '::release'),
            Root('tlsn', TLS + '::tls', stop=(EN + '::add_ring',), ptypes=lambda p: any('char' in x for x in p)),
            Root('tlsr', TLS + '::tls', ptypes=lambda p: any('ringbuf*' in x for x in p)),
            Root('untls', TLS + '::~tls'), Root('down', EN + '::~engine'), Root('dump', 'hogl::operator<<', stop=(EN + '::find_ring',), ptypes=lambda p: any('engine&' in x for x in p))]


class M:
    """abstract memory of engine, rings, thread-local data"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.f = {f[0]: f[2] // 8 for f in ctx.layout[RB]}
        self.o = lambda m: layout_off(ctx, EN, m)
        rc = ctx.layout['hogl::refcount'][0]
        self.refs = self.f['_refcnt'] + rc[2] // 8
        self.maps = {('eng', self.o('_ring_map')): 'rings', ('eng', self.o('_area_map')): 'areas'}
        self.locks = {('eng', self.o('_ring_mutex')): 'ring', ('eng', self.o('_area_mutex')): 'area'}

    def ring(self, m, name, flags=0, refs=2, key=None, prio=0, tsrc='ts0'):
        f = self.f
        m.update({(name, f['_flags']): flags, (name, self.refs): refs, (name, f['_capacity']): 7, (name, f['_tail']): 1, (name, f['_head']): 0, (name, f['_rec_shift']): 9,
                  (name, f['_seqnum']): 7, (name, f['_dropcnt']): 0, (name, f['_rec_tailroom']): 64, (name, f['_rec_top']): ('p', name + '.recs', 0), (name, f['_block_active']): 0,
                  (name, f['_prio']): prio, (name, f['_timesource']): ('p', tsrc, 0), (name, f['_name']): ('p', key or name + '.name', 0)})

    def engine(self, rings=(), dirty=0):
        o, m = self.o, {}
        h = Heap(self.maps)
        h.put(m, 'rings', [(k, ('p', n, 0)) for k, n in rings])
        m.update({('eng', o('_timesource')): ('p', 'ets', 0), ('eng', o('_internal_area')): ('p', 'iarea', 0),
                  ('eng', o('_ring_index') + layout_off(self.ctx, EN + '::ring_index', 'dirty')): dirty})
        bo = layout_off(self.ctx, 'hogl::area', '_bitmap') + layout_off(self.ctx, 'hogl::bitmap', '_data')
        m[('iarea', bo)] = ('p', 'ibits', 0)
        m[('ibits', 0)] = 0
        self.ring(m, 'TR', refs=7)
        m[('#tls', 0)] = ('p', 'TR', 0)
        return m

    def dirty(self, m):
        return m.get(('eng', self.o('_ring_index') + layout_off(self.ctx, EN + '::ring_index', 'dirty')))

    def registered(self, m, h):
        """[(key, ring)] of the ring map"""
        L = h.items(m, 'rings')
        return None if L is None else [(k, (m.get(('#node:rings:%s' % (k,), 32)) or (0, None))[1]) for k, v in L]


def held(ev, name):
    d = 0
    for e in ev:
        if e[0] == 'lock' and e[1] == name:
            d += 1
        elif e[0] == 'unlock' and e[1] == name:
            d -= 1
    return d > 0


def check(ctx):
    C.check_flags(ctx)
    ctx.rule('count', 'every operation leaves exactly the references it documents: registration and lookup add one per holder, a refused registration adds none')
    ctx.rule('free', 'a ring is destroyed exactly when its last reference is dropped, and never if it is immortal')
    ctx.rule('locked', 'a ring found in the registry is referenced before the registry lock is released')
    ctx.rule('use', 'a ring is used only while the registry lock or an own reference protects it')
    ctx.rule('registry', 'the registry contains exactly the rings the engine holds a reference to')
    ctx.rule('orphan', 'the engine drops a ring only if, with the registry locked, nobody else holds it and it is empty')
    mo = M(ctx)
    for f in (simple, adds, finds, tls, down, dump):
        f(ctx, mo)
    orphan(ctx)


def watcher(ctx, mo, o, foreign, bad):
    """checks that rings in `foreign` {ring: references owned at the start} are protected when used"""
    def w(i, Fx, ev):
        op = i.ops[0] if i.op in ('load', 'atomicrmw', 'cmpxchg') else i.ops[1] if i.op == 'store' else None
        if op is None:
            return ()
        k = Fx.ptr(op)
        out = ()
        if i.op == 'atomicrmw' and k[2] == mo.refs and type(k[1]) is str:
            d = Fx.get(i.ops[1])
            if d is None:
                return ()
            if i.d.get('rmw') == 'sub':
                d = -d
            d = d - (1 << 32) if d > 1 << 31 else d
            if d:
                out = (('ref', k[1], d, i.where),)
        if k[1] in foreign:
            own = foreign[k[1]] + sum(e[2] for e in ev if e[0] == 'ref' and e[1] == k[1])
            gone = any(e[0] == 'free' and e[1] == k[1] for e in ev)
            # whoever drops the last reference destroys the ring
            if gone or not (own > 0 or held(ev, 'ring') or Fx.mem.get((k[1], mo.refs)) == 0):
                bad(i, k[1])
        return out
    return w


def refs(m, mo, r):
    v = m.get((r, mo.refs))
    return None if type(v) is not int else v - (1 << 32) if v > 1 << 31 else v


def freed(ev, r):
    return sum(1 for e in ev if e[0] == 'free' and e[1] == r)


def simple(ctx, mo):
    """hold, release"""
    for rid, d in (('hold', 1), ('release', -1)):
        fn = ctx.fn(rid)
        for flags in (0, C.SHARED, C.IMMORTAL, C.SHARED | C.IMMORTAL, C.REUSABLE):
            for r in (1, 2, 3):
                m = {}
                mo.ring(m, 'R', flags, r)
                o = Obj(ctx)
                ex = o.run(fn, {0: ('p', 'R', 0)}, m)
                w = '%s (flags %d, %d references)' % (fn.qname, flags, r)
                ctx.expect(ex, 'count', '%s:%d' % (fn.file, fn.line), '%s does not return' % w)
                for ret, ev, v, m2 in ex:
                    n = freed(ev, 'R')
                    want = int(r + d == 0 and not flags & C.IMMORTAL)
                    ctx.expect(n == want, 'free', ret.where, '%s: destroyed %d times instead of %d' % (w, n, want), w, key='free %s %d' % (rid, want))
                    if not n:
                        ctx.expect(refs(m2, mo, 'R') == r + d, 'count', ret.where, '%s: %s references afterwards' % (w, refs(m2, mo, 'R')), w, key='count ' + rid)


def adds(ctx, mo):
    fn = ctx.fn('add')
    W = '%s:%d' % (fn.file, fn.line)
    oo = lambda f: layout_off(ctx, RB + '::options', f)
    for of in (0, C.SHARED, C.REUSABLE, C.BLOCKING | C.SHARED):
        for ef in (None, 0, C.SHARED, C.SHARED | C.IMMORTAL, C.REUSABLE, C.REUSABLE | C.SHARED, C.IMMORTAL):
            for er in (1, 2, 3):
                if ef is None and er != 1:
                    continue
                for bits in (0, MASK64):
                    m = mo.engine([('OTHER', 'O')] + ([('NAME', 'R')] if ef is not None else []))
                    m[('ibits', 0)] = bits
                    mo.ring(m, 'O', 0, 2)
                    if ef is not None:
                        mo.ring(m, 'R', ef, er, 'NAME')
                    m.update({('opts', oo('capacity')): 8, ('opts', oo('prio')): 0, ('opts', oo('flags')): of, ('opts', oo('record_tailroom')): 128})
                    w = '%s (existing ring %s)' % (fn.qname, 'none' if ef is None else 'with flags %d and %d references' % (ef, er))
                    o = Obj(ctx, mo.maps, locks=mo.locks)
                    o.watch = watcher(ctx, mo, o, {'R': 0, 'O': 0}, lambda i, r: ctx.bad('use', i.where, '%s uses a ring that nothing protects' % fn.qname, key='use add'))
                    ex = o.run(fn, {0: ('p', 'eng', 0), 1: ('p', 'NAME', 0), 2: ('p', 'opts', 0)}, m, assume=lambda f, i: 8192 if i.is_call and i.callee == 'sysconf' else 0 if i.is_call and i.callee in ('pthread_mutex_init', 'pthread_cond_init') else None)
                    ctx.expect(ex, 'count', W, '%s does not return' % w)
                    for ret, ev, v, m2 in ex:
                        ctx.ok('use')
                        judge_add(ctx, mo, o, w, ret, ev, v, m2, ef, er)
    fn = ctx.fn('addr')
    for ef in (None, 0, C.SHARED | C.IMMORTAL):
        for r in (1, 2):
            for bits in (0, MASK64):
                m = mo.engine([('OTHER', 'O')] + ([('NAME', 'R')] if ef is not None else []))
                m[('ibits', 0)] = bits
                mo.ring(m, 'N', C.SHARED, r, 'NAME')
                mo.ring(m, 'O', 0, 2)
                if ef is not None:
                    mo.ring(m, 'R', ef, 2, 'NAME')
                o = Obj(ctx, mo.maps, locks=mo.locks)
                o.watch = watcher(ctx, mo, o, {'R': 0, 'O': 0}, lambda i, x: ctx.bad('use', i.where, '%s uses a ring that nothing protects' % fn.qname, key='use addr'))
                ex = o.run(fn, {0: ('p', 'eng', 0), 1: ('p', 'N', 0)}, m)
                w = '%s (%s)' % (fn.qname, 'name in use' if ef is not None else 'new name')
                ctx.expect(ex, 'count', W, '%s does not return' % w)
                for ret, ev, v, m2 in ex:
                    reg = dict(mo.registered(m2, o.heap) or [])
                    ctx.expect(not freed(ev, 'N') and not freed(ev, 'R') and not freed(ev, 'O'), 'free', ret.where, '%s: destroys a ring' % w, key='free addr')
                    if ef is None:
                        ctx.expect(v == 1 and refs(m2, mo, 'N') == r + 1, 'count', ret.where, '%s: result %s, %s references instead of %d' % (w, v, refs(m2, mo, 'N'), r + 1), w, key='count addr new')
                        ctx.expect(reg.get('NAME') == 'N', 'registry', ret.where, '%s: ring not registered' % w, w)
                        ctx.expect(ref_at_unlock(ev, 'N', 0) >= 1, 'locked', ret.where, '%s: the engine\'s reference is taken after the registry lock was released' % w, w, key='locked addr')
                        ctx.expect(mo.dirty(m2) == 1, 'registry', ret.where, '%s: the index is not marked for an update' % w, w, key='dirty addr')
                    else:
                        ctx.expect(v == 0 and refs(m2, mo, 'N') == r and refs(m2, mo, 'R') == 2, 'count', ret.where, '%s: result %s, references %s and %s' % (w, v, refs(m2, mo, 'N'), refs(m2, mo, 'R')), w, key='count addr used')
                        ctx.expect(reg.get('NAME') == 'R', 'registry', ret.where, '%s: registered ring replaced' % w, w, key='registry addr used')


def ref_at_unlock(ev, r, start):
    """references of r at the last release of the registry lock"""
    n, at = start, start
    for e in ev:
        if e[0] == 'ref' and e[1] == r:
            n += e[2]
        elif e[0] == 'unlock' and e[1] == 'ring':
            at = n
    return at


def judge_add(ctx, mo, o, w, ret, ev, v, m2, ef, er):
    reg = dict(mo.registered(m2, o.heap) or [])
    v = v[1] if type(v) is tuple else v
    ctx.expect('OTHER' in reg and len(reg) == 2 and not freed(ev, 'O') and refs(m2, mo, 'O') == 2, 'registry', ret.where, '%s: other rings are affected' % w, w, key='registry other')
    # the newly allocated ring is the first allocation with a reference count
    rings = [e[1] for e in ev if e[0] == 'new' and (e[1], mo.refs) in m2]
    if ef is None:
        n = reg.get('NAME')
        ctx.expect(v == n and type(n) is str and n.startswith('new'), 'registry', ret.where, '%s: registers %s and returns %s' % (w, n, v), w, key='registry add new')
        if type(n) is str:
            ctx.expect(refs(m2, mo, n) == 2 and not freed(ev, n), 'count', ret.where, '%s: %s references to the new ring (engine and caller hold one each)' % (w, refs(m2, mo, n)), w, key='count add new')
            ctx.expect(ref_at_unlock(ev, n, 0) == 2, 'locked', ret.where, '%s: when the registry is unlocked the new ring has %d references' % (w, ref_at_unlock(ev, n, 0)), w, key='locked add new')
        ctx.expect(mo.dirty(m2) == 1, 'registry', ret.where, '%s: the index is not marked for an update' % w, w, key='dirty add')
        return
    ctx.expect(reg.get('NAME') == 'R' and not freed(ev, 'R'), 'registry', ret.where, '%s: the existing ring is replaced or destroyed' % w, w, key='registry add used')
    ok = bool(ef & C.SHARED) or bool(ef & C.REUSABLE) and er == 1
    if ok:
        ctx.expect(v == 'R' and refs(m2, mo, 'R') == er + 1, 'count', ret.where, '%s: returns %s with %s references' % (w, v, refs(m2, mo, 'R')), w, key='count add reuse')
        ctx.expect(ref_at_unlock(ev, 'R', 0) == 1, 'locked', ret.where, '%s: the ring found is not referenced when the registry is unlocked' % w, w, key='locked add used')
    else:
        ctx.expect(v == 0 and refs(m2, mo, 'R') == er, 'count', ret.where, '%s: returns %s with %s references' % (w, v, refs(m2, mo, 'R')), w, key='count add refused')
    left = [n for n in rings if not freed(ev, n)]
    ctx.expect(not left, 'free', ret.where, '%s: the unused new ring is not destroyed' % w, w, key='free add')


def finds(ctx, mo):
    fn = ctx.fn('find')
    for has in (True, False):
        for r in (1, 2, 3):
            m = mo.engine([('OTHER', 'O')] + ([('NAME', 'R')] if has else []))
            mo.ring(m, 'R', 0, r, 'NAME')
            mo.ring(m, 'O', 0, 2)
            o = Obj(ctx, mo.maps, locks=mo.locks)
            o.watch = watcher(ctx, mo, o, {'R': 0, 'O': 0}, lambda i, x: ctx.bad('use', i.where, '%s uses a ring that nothing protects' % fn.qname, key='use find'))
            ex = o.run(fn, {0: ('p', 'eng', 0), 1: ('p', 'NAME', 0)}, m)
            w = '%s (%s)' % (fn.qname, 'ring with %d references' % r if has else 'no such ring')
            ctx.expect(ex, 'count', '%s:%d' % (fn.file, fn.line), w + ' does not return')
            for ret, ev, v, m2 in ex:
                v = v[1] if type(v) is tuple else v
                ctx.expect(v == ('R' if has else 0), 'registry', ret.where, '%s: returns %s' % (w, v), w, key='find result')
                ctx.expect(refs(m2, mo, 'R') == r + has and refs(m2, mo, 'O') == 2, 'count', ret.where, '%s: %s references afterwards' % (w, refs(m2, mo, 'R')), w, key='count find')
                if has:
                    ctx.expect(ref_at_unlock(ev, 'R', 0) == 1, 'locked', ret.where, '%s: the ring found is not referenced when the registry is unlocked' % w, w, key='locked find')


def tls(ctx, mo):
    t = lambda f: layout_off(ctx, TLS, f)
    calls = lambda res: {EN + '::add_ring': lambda i, a, Fx, ev: [(res, [('call', 'add_ring', tuple(a[1:]))], {})]}
    for rid in ('tlsn', 'tlsr'):
        fn = ctx.fn(rid)
        for fail in ((False, True) if rid == 'tlsn' else (False,)):
            for bits in (0, MASK64):
                m = mo.engine()
                m[('ibits', 0)] = bits
                mo.ring(m, 'R', 0, 2, 'NAME')
                o = Obj(ctx, mo.maps, locks=mo.locks, calls=calls(0 if fail else ('p', 'R', 0)))
                o.watch = watcher(ctx, mo, o, {}, None)
                args = {0: ('p', 'tls', 0)}
                for k, (n, ty, s) in enumerate(fn.args):
                    p = fn.ptypes[1 + k]
                    if 'engine' in p:
                        args[k] = ('p', 'eng', 0)
                    elif 'char' in p:
                        args[k] = ('p', 'NAME', 0)
                    elif 'ringbuf*' in p:
                        args[k] = ('p', 'R', 0)
                    elif 'options' in p:
                        args[k] = ('p', 'opts', 0)
                ex = o.run(fn, args, m)
                w = '%s (%s)' % (fn.qname, 'refused' if fail else rid)
                ctx.expect(ex, 'count', '%s:%d' % (fn.file, fn.line), w + ' does not return')
                for ret, ev, v, m2 in ex:
                    g = lambda f: m2.get(('tls', t(f)))
                    cur = m2.get(('#tls', 0))
                    ctx.expect(not any(e[0] == 'free' for e in ev), 'free', ret.where, '%s: destroys a ring' % w, key='free ' + rid)
                    if fail:
                        ctx.expect(refs(m2, mo, 'TR') == 7 and cur == ('p', 'TR', 0) and g('_current_ring') == 0, 'count', ret.where, '%s: keeps a reference or changes the thread\'s ring' % w, w, key='count tls refused')
                    else:
                        ctx.expect(refs(m2, mo, 'TR') == 8 and refs(m2, mo, 'R') == 2, 'count', ret.where, '%s: previous ring has %s references instead of one more, own ring %s instead of 2' % (w, refs(m2, mo, 'TR'), refs(m2, mo, 'R')), w, key='count tls')
                        ctx.expect(cur == ('p', 'R', 0) and g('_current_ring') == ('p', 'R', 0) and g('_previous_ring') == ('p', 'TR', 0), 'registry', ret.where, '%s: the thread uses %s, remembers %s and %s' % (w, cur, g('_previous_ring'), g('_current_ring')), w, key='tls pointers')
    fn = ctx.fn('untls')
    for valid in (True, False):
        for rr, pr in ((1, 2), (2, 1), (2, 2), (2, 7)):
            for bits in (0, MASK64):
                m = mo.engine()
                m[('ibits', 0)] = bits
                mo.ring(m, 'R', 0, rr, 'NAME')
                mo.ring(m, 'P', 0, pr + 1, 'PREV')
                m.update({('tls', t('_engine')): ('p', 'eng', 0), ('tls', t('_current_ring')): ('p', 'R', 0) if valid else 0, ('tls', t('_previous_ring')): ('p', 'P', 0) if valid else 0,
                          ('#tls', 0): ('p', 'R', 0) if valid else ('p', 'P', 0)})
                o = Obj(ctx, mo.maps, locks=mo.locks)
                # the previous ring is still held by whoever made it current
                o.watch = watcher(ctx, mo, o, {'R': 1, 'P': 2}, lambda i, x: ctx.bad('use', i.where, '%s uses a ring after it gave up its reference' % fn.qname, key='use ~tls'))
                ex = o.run(fn, {0: ('p', 'tls', 0)}, m)
                w = '%s (%s)' % (fn.qname, '%d references' % rr if valid else 'without ring')
                ctx.expect(ex, 'count', '%s:%d' % (fn.file, fn.line), w + ' does not return')
                for ret, ev, v, m2 in ex:
                    d = 1 if valid else 0
                    nr, np = freed(ev, 'R'), freed(ev, 'P')
                    ctx.expect((refs(m2, mo, 'P') == pr + 1 - d and not np), 'count', ret.where, '%s: previous ring has %s references instead of %d' % (w, refs(m2, mo, 'P'), pr + 1 - d), w, key='count ~tls previous')
                    if rr - d == 0:
                        ctx.expect(nr == 1, 'free', ret.where, '%s: the ring is destroyed %d times' % (w, nr), w, key='free ~tls')
                    else:
                        ctx.expect(nr == 0 and refs(m2, mo, 'R') == rr - d, 'count', ret.where, '%s: ring has %s references instead of %d' % (w, refs(m2, mo, 'R'), rr - d), w, key='count ~tls')
                    ctx.expect(m2.get(('#tls', 0)) == ('p', 'P', 0), 'use', ret.where, '%s: the thread keeps using %s' % (w, m2.get(('#tls', 0))), w, key='tls restored')


def down(ctx, mo):
    fn = ctx.fn('down')
    for flags in (0, C.SHARED | C.IMMORTAL, C.REUSABLE):
        for r in (1, 2):
            m = mo.engine([('A', 'R'), ('B', 'O')])
            mo.ring(m, 'R', flags, r)
            mo.ring(m, 'O', 0, 1)
            Heap(mo.maps).put(m, 'areas', [])
            m[('eng', mo.o('_ring_index') + layout_off(ctx, EN + '::ring_index', 'entries'))] = ('p', 'ents', 0)
            o = Obj(ctx, mo.maps, locks=mo.locks)
            o.watch = watcher(ctx, mo, o, {}, None)
            ex = o.run(fn, {0: ('p', 'eng', 0)}, m)
            w = '%s (ring with flags %d and %d references)' % (fn.qname, flags, r)
            ctx.expect(ex, 'count', '%s:%d' % (fn.file, fn.line), w + ' does not return')
            for ret, ev, v, m2 in ex:
                n = freed(ev, 'R')
                ctx.expect(n == int(r == 1 and not flags & C.IMMORTAL) and freed(ev, 'O') == 1, 'free', ret.where, '%s: rings destroyed %d and %d times' % (w, n, freed(ev, 'O')), w, key='free ~engine')
                d = sum(e[2] for e in ev if e[0] == 'ref' and e[1] == 'R')
                ctx.expect(d == -1, 'count', ret.where, '%s: drops %d references to a registered ring' % (w, -d), w, key='count ~engine')


def dump(ctx, mo):
    """the engine's own lookups are given back"""
    fn = ctx.fn('dump')
    for found, flags in ((True, 0), (True, C.SHARED), (True, C.REUSABLE), (True, C.SHARED | C.IMMORTAL), (False, 0)):
        def find(i, a, Fx, ev):
            if not found:
                return [(0, [], {})]
            k = sum(1 for e in ev if e[0] == 'found')
            if k >= 2:
                return []
            return [(('p', 'R', 0), [('found',)], {('R', mo.refs): (Fx.mem.get(('R', mo.refs)) or 0) + 1})]
        m = mo.engine([])
        mo.ring(m, 'R', flags, 2)
        o = Obj(ctx, mo.maps, locks=mo.locks, calls={EN + '::find_ring': find}, keep=('std::', 'hogl::'))
        ex = o.run(fn, {0: ('p', 'str', 0), 1: ('p', 'eng', 0)}, m, cap=4)
        ctx.anchor(ex, 'end of ' + fn.qname)
        for ret, ev, v, m2 in ex:
            ctx.expect(refs(m2, mo, 'R') == 2 and not freed(ev, 'R'), 'count', ret.where, '%s: a ring looked up for printing keeps %s references instead of 2' % (fn.qname, refs(m2, mo, 'R')), fn.qname, key='count dump')


def orphan(ctx):
    """removal by the engine, with another thread finding the ring or posting to it before the lock is taken"""
    fn = ctx.fn('epass')
    E = EnginePass(ctx, fn)
    mo = M(ctx)
    W = '%s:%d' % (fn.file, fn.line)
    R = lambda ts, refs=1, flags=0, head=6: (flags, False, refs, list(ts), head)
    cases = []
    for tso, cap in ((False, 64), (True, 64), (True, 2)):
        for flags in (0, C.SHARED, C.IMMORTAL | C.SHARED, C.REUSABLE):
            for refs_ in (1, 2):
                for ts in ((), (10,), (10, 11)):
                    for intr in (None, 'find', 'post', 'find early'):
                        if intr and refs_ != 1:
                            continue
                        cases.append((Case('flags %d, %d references, %d records, %s' % (flags, refs_, len(ts), 'ordered' if tso else 'unordered'), [R(ts, refs_, flags), R((12,), 2, 0, 2)], tso, cap), intr))

    def job(cp):
        c, intr = cp
        rc, off = ('ring0', mo.refs), E.roff

        def on(i, a, Fx):
            """another thread at the moment the registry lock is taken"""
            if i.callee == 'pthread_mutex_trylock' or i.callee == 'pthread_mutex_lock' and Fx.cell(i.ops[0]) in mo.locks:
                res = [(0, a, {})]
                if intr and not any(e[0] == 'intr' for e in a) and not any(e[0] == 'free' for e in a) and type(Fx.mem.get(rc)) is int and mo_in(E, Fx.mem, 'ring0'):
                    if intr.startswith('find'):
                        res.append((0, a + (('intr', 'find'),), {rc: Fx.mem[rc] + 1}))
                    else:
                        t = Fx.mem.get(('ring0', off['_tail']))
                        if type(t) is int and t != Fx.mem.get(('ring0', off['_head'])):
                            # somebody looked the ring up, posted and released it again
                            res.append((0, a + (('intr', 'post'),), {('ring0', off['_tail']): (t + 1) & 7}))
                if i.callee == 'pthread_mutex_trylock':
                    res.append((16, a, {}))
                return res
            return None
        n = 0
        for ret, ev, v, m in E.run(c, on=on):
            n += 1
            w = 'engine pass (%s)' % c.name
            gone = sum(1 for e in ev if e[0] == 'free' and e[1] == 'ring0')
            was = [e[1] for e in ev if e[0] == 'intr']
            inmap = mo_in(E, m, 'ring0')
            flags, _, rf = c.rings[0][:3]
            used = rf == 2 or 'find' in was
            d = refs(m, mo, 'ring0')
            base = rf + was.count('find')
            if used or 'post' in was:
                ctx.expect(inmap and not gone and d == base, 'orphan', W, '%s: removes a ring that %s' % (w, 'another thread has found meanwhile' if 'find' in was else 'got a record meanwhile' if was else 'is in use'), w, key='orphan ' + (was[0] if was else 'used'))
                continue
            ctx.expect(inmap == (d == base and not gone), 'registry', W, '%s: ring %s the registry with %s references' % (w, 'in' if inmap else 'not in', d), w, key='registry pass')
            if not inmap:
                ctx.expect(gone == (0 if flags & C.IMMORTAL else 1), 'free', W, '%s: a ring without references is destroyed %d times' % (w, gone), w, key='free pass')
            ctx.expect(sum(1 for e in ev if e[0] == 'free' and e[1] == 'ring1') == 0 and refs(m, mo, 'ring1') == 2, 'orphan', W, '%s: drops a ring in use' % w, key='orphan other')
            for e in ev:
                if e[0] == 'uaf':
                    ctx.bad('use', e[2], '%s uses a ring after it was destroyed' % w, key='use pass')
        ctx.expect(n, 'orphan', W, 'engine pass (%s) does not complete' % c.name, key='stuck')
    ctx.pmap(cases, job)


def mo_in(E, m, r):
    L = E.heap.items(m, 'rings')
    return L is not None and any((m.get(('#node:rings:%s' % k, 32)) or (0, None))[1] == r for k, v in L)
