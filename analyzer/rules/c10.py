"""C10: registries and file naming state are accessed under their locks; no deadlock."""
from rules.common import *
from rules.locks import *
RAW = True
EN, OF, ORB = 'hogl::engine', 'hogl::output_file', 'hogl::ostrbuf_file'
PROT = {EN: ('_area_map', '_ring_map', '_mask'),
        OF: ('_fd', '_size', '_symlink', '_name', '_name_pref', '_name_sufx', '_name_index', '_index_width')}
PUB = {EN: ('add_area', 'find_area', 'add_ring', 'find_ring', 'list_rings', 'list_areas', 'apply_mask', 'get_mask', 'process_rings'),
       OF: ('write', 'writev', 'thread_entry', 'switch_name', 'name', 'index')}
ITER = ('std::_Rb_tree_iterator::operator', 'std::_Rb_tree_const_iterator::operator')


def roots(ctx):
    R = []
    for c in PUB:
        for m in PUB[c]:
            R.append(Root('%s::%s' % (c, m), '%s::%s' % (c, m), stop=POSTIMPL, optional=True))
    R += [Root('file_ctor', OF + '::output_file', ptypes=lambda p: not any('string' in x for x in p)), Root('file_dtor', OF + '::~output_file')]
    R += [Root('engine_ctor', EN + '::engine', ptypes=lambda p: len(p) > 3, stop=POSTIMPL), Root('engine_dtor', EN + '::~engine', stop=POSTIMPL)]
    return R


def check(ctx):
    ctx.rule('lockset', 'any two accesses of the area registry, ring registry, current mask or file descriptor/size/naming state outside construction and destruction, one of them a change, hold a common lock')
    ctx.rule('iterate', 'walking a registry happens with a registry lock held')
    ctx.rule('escape', 'no reference to protected state is returned')
    ctx.rule('balanced', 'every function returns with the locks it found and releases only locks it holds')
    ctx.rule('once', 'no lock is taken by a thread that already holds it')
    ctx.rule('order', 'locks are nested in one global order')
    ctx.rule('nopost', 'no record is posted while a registry lock is held')
    for c, ms in PROT.items():
        have = {f[0] for f in ctx.layout[c]}
        for m in ms:
            ctx.anchor(m in have, '%s::%s' % (c, m))
    covered = set()
    jobs = []
    for c in PUB:
        for m in PUB[c]:
            rid = '%s::%s' % (c, m)
            for k, fn in enumerate(ctx.fns(rid)):
                covered.add(fn.qname)
                for i in fn.insts:
                    for x in i.chain:
                        covered.add(x[0])
                jobs.append((c, fn, True))
    for r, c in (('file_ctor', OF), ('file_dtor', OF), ('engine_ctor', EN), ('engine_dtor', EN)):
        for fn in ctx.fns(r):
            covered.add(fn.qname)
            for i in fn.insts:
                for x in i.chain:
                    covered.add(x[0])
            jobs.append((c, fn, False))
    # functions that touch protected state without being part of the roots above
    for fn in ctx.raw():
        if fn.qname in covered or '/tools/' in fn.file or '/drivers/' in fn.file:
            continue
        for i in fn.insts:
            hit = None
            for o in [x for x in i.ops if x] if i.op in ('load', 'store', 'atomicrmw') or i.is_call else []:
                if o[0] in ('v', 'e'):
                    f = fn.addr(o).first
                    if f and f[0] in PROT and f[1] in PROT[f[0]]:
                        hit = f[0]
            if hit:
                jobs.append((hit, fn, True))
                break
    res = ctx.pmap(jobs, lambda j: one(ctx, *j))
    acc, order = {}, {}
    for a, o in res:
        for k, v in a.items():
            acc.setdefault(k, []).extend(v)
        order.update(o)
    n = 0
    for (c, m), L in sorted(acc.items()):
        seen = set()
        L = sorted(set(L), key=lambda x: (len(x[3]), x))
        writes = [x for x in L if x[2]]
        for x in L:
            for y in writes:
                n += 1
                ctx.ok('lockset')
                if not x[3] & y[3] and (x[0], m) not in seen and (len(x[3]) < len(y[3]) or (len(x[3]) == len(y[3]))):
                    seen.add((x[0], m))
                    ctx.bad('lockset', x[1], '%s: %s %s::%s holding %s while %s changes it holding %s'
                            % (x[0], 'changes' if x[2] else 'reads', c, m, ', '.join(sorted(x[3])) or 'no lock', y[0], ', '.join(sorted(y[3])) or 'no lock'),
                            key='%s|%s|%s' % (x[0], 'w' if x[2] else 'r', m))
    for c in PROT:
        for m in PROT[c]:
            ctx.anchor((c, m) in acc and any(x[2] for x in acc[(c, m)]), 'accesses of %s::%s' % (c, m))
    ctx.ok('order', str(sorted(order)))
    for (a, b), w in sorted(order.items()):
        # cycle through any chain
        todo, seen = [b], {b}
        while todo:
            x = todo.pop()
            for (p, q) in order:
                if p == x and q not in seen:
                    seen.add(q)
                    todo.append(q)
        ctx.expect(a not in seen, 'order', w, 'takes %s while holding %s; elsewhere they are nested the other way round' % (b, a))


def one(ctx, c, fn, access):
    acc = {}
    reg = {EN + '::_area_mutex', EN + '::_ring_mutex'}

    def on(i, held, Fx):
        if access:
            for m, w in L[0].accesses(i, Fx):
                if m in PROT[c]:
                    acc.setdefault((c, m), set()).add((fn.qname, i.where, w, frozenset(held)))
        if c == EN and access and i.is_call and (i.callee or '').startswith(ITER) and not i.callee.endswith(('==', '!=')):
            ctx.expect(held & reg, 'iterate', i.where, '%s: walks a registry without its lock' % fn.qname, fn.qname)
        if i.is_call and i.callee in POSTIMPL:
            ctx.expect(not (held & reg), 'nopost', i.where, '%s: posts a record holding %s' % (fn.qname, ', '.join(sorted(held))), fn.qname)
        if i.op == 'ret' and i.ops:
            p = Fx.ptr(i.ops[0])
            m = L[0].member(Fx, i.ops[0]) if p[1] == 'self' else None
            ctx.expect(m is None or m not in PROT[c], 'escape', i.where, '%s: returns a reference to %s' % (fn.qname, m), fn.qname)
        return None
    L = [None]
    L[0] = Lk = Locks.__new__(Locks)
    Lk.__init__(ctx, fn, c, selfargs(fn, '_self'), on, 'balanced', 'once')
    return {k: sorted(v, key=str) for k, v in acc.items()}, {e: Lk.acq[e] for e in Lk.order}
