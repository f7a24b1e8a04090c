"""Property simulation: a path-sensitive forward dataflow analysis.  A fact is
(automaton state, known constants of live SSA values, known constants of the
tracked memory cells).  Facts with the same automaton state are joined (constants
that differ become unknown) once a block holds more than `cap` of them, so the
analysis terminates and over-approximates all paths."""
from ir import *
import ir
import struct


# external functions that leave the objects they are given alone
KEEPS = {'strlen', 'strnlen', 'strcmp', 'memcmp', 'usleep', 'free', 'abort', 'close', 'write', 'writev', 'unlink', 'rename', 'open', 'open64'}
# memory blocks whose addresses are never null
NONNULL = {('hogl::ringbuf', '_rec_top')}


CONSTMEM = {}        # root of a constant object -> {offset: value}


def load_constants(globals_):
    CONSTMEM.clear()
    for k, g in globals_.items():
        m = {}
        for off, o in g.get('cells') or ():
            if o[0] == 'c':
                m[off] = int(o[1]) & ((1 << min(int(o[2]), 64)) - 1)
            elif o[0] == 'null':
                m[off] = 0
            elif o[0] == 's':
                m[off] = ('p', ('s', o[1]), 0)
            elif o[0] in ('g', 'f'):
                m[off] = ('p', (o[0], o[2]), 0)
        if m:
            CONSTMEM[('g', k)] = m


def constcell(k, bits):
    """value of a load from a constant object or a string literal"""
    m = CONSTMEM.get(k[0])
    if m is not None:
        v = m.get(k[1])
        return mask(v, bits) if type(v) is int and bits < 64 else v
    if k[0][0] == 's' and type(k[0][1]) is str and bits == 8 and type(k[1]) is int and 0 <= k[1] <= len(k[0][1]):
        return ord(k[0][1][k[1]]) & 255 if k[1] < len(k[0][1]) else 0
    return None


class SimLimit(Exception):
    pass


class Facts:
    """read access to constants for step functions"""
    __slots__ = ('fn', 'env', 'mem', 'sim')

    def __init__(self, sim, env, mem):
        self.sim, self.fn, self.env, self.mem = sim, sim.fn, env, mem

    def get(self, o):
        k = o[0]
        if k == 'c':
            return mask(int(o[1]), o[2])
        if k == 'null':
            return 0
        if k == 'v':
            v = self.env.get(o[1])
            return v if type(v) is int else None
        if k == 'a':
            v = self.sim.args.get(o[1])
            return v if type(v) is int else None
        return None

    def val(self, o):
        """int, pointer token or None"""
        v = self.get(o)
        if v is not None:
            return v
        if o[0] == 'v' and o[1] in self.env:
            return self.env[o[1]]
        if o[0] == 'a':
            return self.sim.args.get(o[1])
        if o[0] in ('g', 'f'):
            return ('p', (o[0], o[2]), 0)
        if o[0] == 's':
            return ('p', ('s', o[1]), 0)
        i = self.fn.inst(o)
        if i is not None and i.op in ('gep', 'alloca'):
            return self.ptr(o)
        if o[0] == 'e' and o[1]['op'] == 'gep':
            return self.ptr(o)
        return None

    def cell(self, o):
        """memory cell key of an address, None if not constant"""
        p = self.ptr(o)
        if p[2] is None:
            return None
        return (p[1], p[2])

    def ptr(self, o):
        """('p', root, constant offset or None) of an address"""
        fn = self.fn
        k = o[0]
        if k == 'v':
            t = self.env.get(o[1])
            if type(t) is tuple:
                return t
            i = fn.I.get(o[1])
            if i is not None:
                if i.op == 'gep':
                    return self._step(self.ptr(i.ops[0]), i.d['path'])
                if i.op in ('bitcast', 'addrspacecast'):
                    return self.ptr(i.ops[0])
                if i.op == 'load':
                    f = fn.fieldof(i)
                    if f:
                        return ('p', f, 0)
        elif k == 'e':
            if o[1]['op'] == 'gep':
                return self._step(self.ptr(o[1]['ops'][0]), o[1]['path'])
        elif k == 'a':
            t = self.sim.args.get(o[1])
            if type(t) is tuple:
                return t
        if k in ('g', 'f'):
            return ('p', (k, o[2]), 0)
        if k == 's':
            return ('p', (k, o[1]), 0)
        return ('p', (k,) + tuple(str(x) for x in o[1:]), 0)

    def lower(self, o):
        """constant prefix of an address: lower bound if the unknown indices are not negative"""
        k = o[0]
        i = self.fn.I.get(o[1]) if k == 'v' else None
        if k == 'v' and type(self.env.get(o[1])) is tuple:
            return self.env[o[1]][2]
        if i is not None and i.op in ('bitcast', 'addrspacecast'):
            return self.lower(i.ops[0])
        if i is not None and i.op == 'gep':
            b, path = self.lower(i.ops[0]), i.d['path']
            if self.ptr(i.ops[0])[2] is None:
                return b
        elif k == 'e' and o[1]['op'] == 'gep':
            b, path = self.lower(o[1]['ops'][0]), o[1]['path']
        else:
            return self.ptr(o)[2]
        for s in path:
            if b is None:
                return None
            t = self._step(('p', None, b), [s])
            if t[2] is None:
                return b
            b = t[2]
        return b

    def _step(self, b, path):
        off = b[2]
        for s in path:
            if off is None:
                break
            if s[0] == '.':
                off += s[3]
            elif s[0] == '[]':
                v = self.get(s[1])
                if v is None:
                    off = None
                else:
                    off += sgn(v, s[1][2] if s[1][0] == 'c' else 64) * s[2]
            else:
                off = None
        return ('p', b[1], off)


class Sim:
    def __init__(self, fn, step, init=0, assume=None, args=None, cells=None, mem=None, clobber=None,
                 edge=None, cap=24, maxfacts=60000, start=0, objmem=False, keepcalls=(), fields=None,
                 split=None, model=None, keeppfx=(), zero=()):
        # model(call, aut, F) -> [(return value, aut, {cell: value})] or None: effect of an external call
        # split(inst) -> [(return value, aut -> aut or None)]: explore a call's results separately
        self.split = split
        self.objmem = objmem
        self.keepcalls = set(keepcalls)
        self.model = model
        self.keeppfx = tuple(keeppfx)
        self.fields = fields or {}
        self.fn = fn
        self.step = step
        self.assume = assume
        self.args = args or {}
        self.cells = cells
        self.clobber = clobber
        self.edge = edge
        self.cap = cap
        self.exits = []           # (ret inst, aut, const return value, mem)
        self.visited = set()
        self.n = 0
        self.cellfield = {}
        self.maxfacts = maxfacts
        self.zero = frozenset(zero)     # objects whose cells are zero unless written
        self._live()
        self.work = []
        self.at = {}
        self._add(start, init, {}, dict(mem or {}))
        self._go()

    # liveness of SSA values at block entry ---------------------------------
    def _live(self):
        fn = self.fn
        cached = getattr(fn, '_livein', None)
        if cached is not None:
            self.livein = cached
            return
        n = len(fn.blocks)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        phiuse = [set() for _ in range(n)]  # values used by phis, attributed to the predecessor

        def ops(i):
            r = []

            def w(o):
                if not o:
                    return
                if o[0] == 'v':
                    if o[1] not in r:
                        r.append(o[1])
                        # an address is recomputed from its parts
                        g = fn.I.get(o[1])
                        if g is not None and g.op in ('gep', 'bitcast', 'addrspacecast'):
                            w(g.ops[0])
                            for s in g.d.get('path', []):
                                if s[0] == '[]':
                                    w(s[1])
                elif o[0] == 'e':
                    for x in o[1]['ops']:
                        w(x)
            for o in i.ops:
                w(o)
            c = i.d.get('callee')
            if c:
                w(c)
            for s in i.d.get('path', []):
                if s[0] == '[]':
                    w(s[1])
            return r
        for b, L in enumerate(fn.blocks):
            for i in L:
                if i.op == 'phi':
                    dfn[b].add(i.id)
                    for o, f in zip(i.ops, i.d['from']):
                        if o[0] == 'v':
                            phiuse[f].add(o[1])
                    continue
                for v in ops(i):
                    if v not in dfn[b]:
                        use[b].add(v)
                dfn[b].add(i.id)
        livein = [set() for _ in range(n)]
        ch = True
        order = fn.rpo()[::-1]
        while ch:
            ch = False
            for b in order:
                out = set(phiuse[b])
                for s in fn.succ[b]:
                    out |= livein[s]
                # phi definitions live in their own block
                new = use[b] | (out - dfn[b])
                if new != livein[b]:
                    livein[b] = new
                    ch = True
        fn._livein = livein
        self.livein = livein

    def _add(self, b, aut, env, mem):
        # env at entry of b: live-in values plus phi values of b
        keep = self.livein[b]
        phis = {i.id for i in self.fn.blocks[b] if i.op == 'phi'}
        env = {k: v for k, v in env.items() if k in keep or k in phis}
        key = (b, aut)
        L = self.at.setdefault(key, [])
        fe, fm = env, mem
        for e2, m2 in L:
            if e2 == fe and m2 == fm:
                return
            # subsumed by a weaker fact
            if all(fe.get(k) == v for k, v in e2.items()) and all(fm.get(k) == v for k, v in m2.items()):
                return
        if len(L) >= self.cap:
            e = dict(fe)
            m = dict(fm)
            for e2, m2 in L:
                e = {k: v for k, v in e.items() if e2.get(k) == v and k in e2}
                m = {k: v for k, v in m.items() if m2.get(k) == v and k in m2}
            L[:] = [(e, m)]
            fe, fm = e, m
        else:
            L.append((fe, fm))
        self.work.append((b, aut, fe, fm))

    def _go(self):
        while self.work:
            b, aut, env, mem = self.work.pop()
            if not any(e is env and m is mem for e, m in self.at.get((b, aut), ())):
                continue   # replaced by a join
            self.n += 1
            if self.n > self.maxfacts:
                raise SimLimit('too many facts in %s' % self.fn.qname)
            self._block(b, aut, dict(env), dict(mem))

    @staticmethod
    def _local(F, r):
        i = F.fn.I.get(int(r[1])) if r[0] == 'v' and str(r[1]).isdigit() else None
        return i is not None and i.op == 'alloca'

    def _block(self, b, aut, env, mem):
        self._run(b, 0, [aut], env, mem)

    def _run(self, b, start, auts, env, mem):
        fn = self.fn
        F = Facts(self, env, mem)
        for ix in range(start, len(fn.blocks[b])):
            i = fn.blocks[b][ix]
            self.visited.add(i.id)
            if i.op == 'phi':
                continue
            nxt = []
            for a in auts:
                r = self.step(i, a, F)
                if r is None:
                    continue
                for x in (r if isinstance(r, list) else [r]):
                    if x not in nxt:
                        nxt.append(x)
            auts = nxt
            if not auts:
                return
            if i.op == 'ret':
                v = F.val(i.ops[0]) if i.ops else None
                for a in auts:
                    self.exits.append((i, a, v, dict(mem)))
                return
            if i.is_call and (i.d.get('noret') or i.callee in NORETURN):
                if self.model is not None:
                    for a in auts:
                        self.model(i, a, F)     # lets a rule see how the path dies
                return
            if self.model is not None and i.is_call:
                for a in auts:
                    r = self.model(i, a, F)
                    if r is None:
                        break
                    for v, a2, up in r:
                        e2, m2 = dict(env), dict(mem)
                        if v is None:
                            e2.pop(i.id, None)
                        else:
                            e2[i.id] = v
                        m2.update(up or {})
                        self._run(b, ix + 1, [a2], e2, m2)
                else:
                    return
            self._eval(i, F)
            if self.split is not None and i.is_call:
                alts = self.split(i)
                if alts:
                    for v, tr in alts:
                        a2 = []
                        for a in auts:
                            x = tr(a) if tr else a
                            if x is not None and x not in a2:
                                a2.append(x)
                        if not a2:
                            continue
                        e2 = dict(env)
                        if v is not None:
                            e2[i.id] = v
                        self._run(b, ix + 1, a2, e2, dict(mem))
                    return
        t = fn.blocks[b][-1]
        n = len(fn.succ[b])
        ks = list(range(n))
        refine = {}
        if t.op == 'br' and n == 2:
            c = F.get(t.ops[0])
            if c is not None:
                ks = [0] if c & 1 else [1]
            else:
                for k in (0, 1):
                    refine[k] = self._refine(t.ops[0], 1 - k, F)
        elif t.op == 'switch':
            c = F.get(t.ops[0])
            if c is not None:
                ks = [0]
                for k, cv in enumerate(t.d['cases']):
                    if mask(int(cv[1]), cv[2]) == c:
                        ks = [k + 1]
            elif t.ops[0][0] == 'v':
                for k, cv in enumerate(t.d['cases']):
                    refine[k + 1] = {t.ops[0][1]: mask(int(cv[1]), cv[2])}
        for k in ks:
            s = fn.succ[b][k]
            r = refine.get(k, {})
            if r is None:
                continue
            e = dict(env)
            e.update(r)
            if r:
                self._propagate(b, e, set(r))
            # phi values
            pv = {}
            F2 = Facts(self, e, mem)
            for i in fn.blocks[s]:
                if i.op != 'phi':
                    break
                for o, f in zip(i.ops, i.d['from']):
                    if f == b:
                        v = F2.val(o)
                        if v is None and i.ty == 'ptr' and o[0] not in ('undef', 'null'):
                            v = F2.ptr(o)
                        pv[i.id] = v
                        break
            for p, v in pv.items():
                if v is None:
                    e.pop(p, None)
                else:
                    e[p] = v
            for a in auts:
                if self.edge is not None:
                    ra = self.edge(b, k, a, F2)
                    if ra is None:
                        continue
                    for x in (ra if isinstance(ra, list) else [ra]):
                        self._add(s, x, e, mem)
                else:
                    self._add(s, a, e, mem)

    def _propagate(self, b, e, changed):
        """re-evaluate instructions of this block that depend on refined values"""
        fn = self.fn
        F = Facts(self, e, {})
        for i in fn.blocks[b]:
            if i.op in ('phi', 'load', 'store', 'call', 'br', 'switch') or i.id in e:
                continue
            if any(o and o[0] == 'v' and o[1] in changed for o in i.ops):
                v = self._value(i, F)
                if v is not None:
                    e[i.id] = v
                    changed.add(i.id)

    def _refine(self, o, val, F):
        """constants implied by SSA condition o == val"""
        r = {}
        if o[0] != 'v':
            return r
        r[o[1]] = val
        i = self.fn.I.get(o[1])
        if i is None:
            return r
        if i.op == 'icmp':
            p = i.d['pred']
            eq = (p == 'eq' and val) or (p == 'ne' and not val)
            if eq:
                for x, y in ((i.ops[0], i.ops[1]), (i.ops[1], i.ops[0])):
                    c = F.get(y)
                    if c is not None and x[0] == 'v':
                        r[x[1]] = c
                        self._back(x, c, r, F)
            elif p in ('eq', 'ne'):
                # x != c for a boolean-like value
                for x, y in ((i.ops[0], i.ops[1]), (i.ops[1], i.ops[0])):
                    c = F.get(y)
                    xi = self.fn.inst(x)
                    if c is not None and xi is not None and xi.op == 'zext' and bits_of(xi.d.get('sty')) == 1 and c in (0, 1):
                        r[x[1]] = 1 - c
                        r.update(self._refine(xi.ops[0], 1 - c, F))
        elif i.op == 'trunc' and bits_of(i.ty) == 1:
            s = self.fn.inst(i.ops[0])
            if s is not None and s.op == 'load' and bits_of(s.ty) == 8:
                r[s.id] = val
        elif i.op in ('xor',) and bits_of(i.ty) == 1:
            for x, y in ((i.ops[0], i.ops[1]), (i.ops[1], i.ops[0])):
                c = F.get(y)
                if c is not None:
                    r.update(self._refine(x, val ^ (c & 1), F))
        elif i.op == 'and' and bits_of(i.ty) == 1 and val:
            for x in i.ops:
                r.update(self._refine(x, 1, F))
        elif i.op == 'or' and bits_of(i.ty) == 1 and not val:
            for x in i.ops:
                r.update(self._refine(x, 0, F))
        return r

    def _back(self, x, c, r, F):
        i = self.fn.inst(x)
        if i is None:
            return
        if i.op in ('zext', 'sext') and i.ops[0][0] == 'v':
            w = bits_of(i.d.get('sty'))
            r[i.ops[0][1]] = mask(c, w)
            if w == 1:
                r.update(self._refine(i.ops[0], c & 1, F))

    def _objstore(self, i, F):
        k = F.cell(i.ops[1])
        f = F.fn.fieldof(i)
        if k is not None:
            v = F.val(i.ops[0])
            if v is None:
                F.mem.pop(k, None)
            else:
                F.mem[k] = v
            self.cellfield[k] = f
            return
        p = F.ptr(i.ops[1])
        lo = F.lower(i.ops[1])
        for q in [q for q in F.mem if type(q) is tuple and (q[0] == p[1] and (lo is None or q[1] >= lo) or self.cellfield.get(q) == f and f)]:
            F.mem.pop(q, None)

    def _objcall(self, i, F):
        c = i.callee or ''
        if c.startswith('llvm.memcpy') or c.startswith('llvm.memmove') or c in ('memcpy', 'memmove'):
            d, s = F.ptr(i.ops[0]), F.ptr(i.ops[1])
            n = F.get(i.ops[2])
            if d[2] is None or n is None:
                lo = F.lower(i.ops[0])
                for q in [q for q in F.mem if type(q) is tuple and q[0] == d[1] and (lo is None or q[1] >= lo)]:
                    F.mem.pop(q, None)
                return
            new = {}
            if s[2] is not None and type(s[1]) is tuple and s[1] in CONSTMEM:
                for o, v in CONSTMEM[s[1]].items():
                    if s[2] <= o < s[2] + n:
                        new[(d[1], o - s[2] + d[2])] = v
            if s[2] is not None:
                for q, v in F.mem.items():
                    if type(q) is tuple and q[0] == s[1] and s[2] <= q[1] < s[2] + n:
                        nk = (d[1], q[1] - s[2] + d[2])
                        new[nk] = v
                        self.cellfield.setdefault(nk, self.cellfield.get(q))
                if type(s[1]) is tuple and s[1] and s[1][0] == 's' and type(s[1][1]) is str and 0 <= s[2] and n <= 4096:
                    for k, ch in enumerate((s[1][1] + '\0')[s[2]:s[2] + n]):
                        new[(d[1], d[2] + k)] = ord(ch) & 255
            for q in [q for q in F.mem if type(q) is tuple and q[0] == d[1] and d[2] <= q[1] < d[2] + n]:
                F.mem.pop(q, None)
            F.mem.update(new)
            return
        if c.startswith('llvm.memset') or c == 'memset':
            d, n = F.ptr(i.ops[0]), F.get(i.ops[2])
            lo = F.lower(i.ops[0])
            for q in [q for q in F.mem if type(q) is tuple and q[0] == d[1] and (lo is None or q[1] >= lo) and (d[2] is None or n is None or d[2] <= q[1] < d[2] + n)]:
                F.mem.pop(q, None)
            v = F.get(i.ops[1])
            if d[2] is not None and n is not None and n <= 512 and v is not None and n % 4 == 0:
                for o in range(0, n, 4):
                    F.mem[(d[1], d[2] + o)] = (v & 255) * (0x0101010101010101 if n % 8 == 0 else 0x01010101)
            return
        if c.startswith('llvm.') or c.startswith('asm:') or c.startswith('pthread_') or c in KEEPS or c in self.keepcalls or (self.keeppfx and c.startswith(self.keeppfx)) or (i.d.get('callee') or [''])[0] == 'asm':
            return
        for o in i.ops:
            if o and o[0] in ('v', 'a'):
                v = F.val(o)
                if type(v) is tuple and not (type(v[1]) is tuple and v[1] and v[1][0] in ('g', 'f', 's')):
                    for q in [q for q in F.mem if type(q) is tuple and q[0] == v[1]]:
                        F.mem.pop(q, None)

    def _eval(self, i, F):
        if i.op == 'store':
            if self.cells is not None:
                k = self.cells(self.fn, i)
                if k is not None:
                    v = F.get(i.ops[0])
                    if v is None:
                        F.mem.pop(k, None)
                    else:
                        F.mem[k] = v
                    return
            if self.objmem:
                self._objstore(i, F)
            return
        if i.is_call and self.objmem:
            self._objcall(i, F)
        if i.op in ('atomicrmw', 'cmpxchg') and self.objmem:
            k = F.cell(i.ops[0])
            if k is not None and i.op == 'atomicrmw':
                old = F.mem.get(k)
                v = F.get(i.ops[1])
                if type(old) is int and v is not None and i.d.get('rmw') in ('add', 'sub', 'xchg'):
                    w = bits_of(i.ty)
                    F.mem[k] = v if i.d['rmw'] == 'xchg' else mask(old + v if i.d['rmw'] == 'add' else old - v, w)
                    F.env[i.id] = old
                    return
            if k is not None:
                F.mem.pop(k, None)
        if i.is_call and self.clobber is not None:
            for k in self.clobber(i) or ():
                F.mem.pop(k, None)
        if i.ty is None:
            return
        v = self._value(i, F)
        if v is None:
            F.env.pop(i.id, None)
        else:
            F.env[i.id] = v

    def _value(self, i, F):
        op = i.op
        if op == 'extractvalue' and 'ix' in i.d:
            t = F.env.get(i.ops[0][1]) if i.ops[0][0] == 'v' else None
            if type(t) is tuple and t[0] == 'agg':
                return t[1 + i.d['ix']]
        if op in ('load', 'call', 'invoke', 'atomicrmw', 'cmpxchg', 'extractvalue'):
            if op == 'load' and self.cells is not None:
                k = self.cells(self.fn, i)
                if k is not None:
                    if k in F.mem:
                        return F.mem[k]
                    return self.assume(self.fn, i) if self.assume is not None else None
            if op == 'load' and self.objmem:
                k = F.cell(i.ops[0])
                if k is not None and k in F.mem:
                    v = F.mem[k]
                    if type(v) is int and bits_of(i.ty) < 64:
                        v = mask(v, bits_of(i.ty))
                    return v
                if k is not None and k[0] in self.zero:
                    return 0
                if k is not None and type(k[0]) is tuple:
                    v = constcell(k, bits_of(i.ty))
                    if v is not None:
                        return v
                f = F.fn.fieldof(i)
                if f in self.fields:
                    return self.fields[f]
            if self.assume is not None:
                return self.assume(self.fn, i)
            return None
        if op == 'gep':
            o = i.ops[0]
            if (o[0] == 'v' and type(F.env.get(o[1])) is tuple) or any(x[0] == '[]' and x[1][0] != 'c' for x in i.d['path']):
                p = F._step(F.ptr(o), i.d['path'])
                if p[2] is not None:
                    return p
            return None
        if op == 'select':
            c = F.get(i.ops[0])
            a, b = F.val(i.ops[1]), F.val(i.ops[2])
            if c is not None:
                return a if c & 1 else b
            return a if a is not None and a == b else None
        if op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            a = F.get(i.ops[0])
            if a is None:
                return F.val(i.ops[0]) if op in ('freeze', 'bitcast', 'ptrtoint', 'inttoptr') else None
            if op == 'sext':
                return mask(sgn(a, bits_of(i.d.get('sty'))), bits_of(i.ty))
            return mask(a, bits_of(i.ty))
        if op in ('fpext', 'fptrunc'):
            a = F.get(i.ops[0])
            if a is None or i.ty not in ('double', 'float'):
                return None
            try:
                return struct.unpack('<Q', struct.pack('<d', struct.unpack('<f', struct.pack('<I', a & 0xffffffff))[0]))[0] if op == 'fpext' else \
                    struct.unpack('<I', struct.pack('<f', struct.unpack('<d', struct.pack('<Q', a))[0]))[0]
            except (OverflowError, struct.error):
                return None
        if op == 'icmp':
            a, b = F.get(i.ops[0]), F.get(i.ops[1])
            p = i.d['pred']
            if (a is None or b is None) and p in ('eq', 'ne'):
                x, y = F.val(i.ops[0]), F.val(i.ops[1])
                for u, w in ((x, y), (y, x)):
                    if type(u) is tuple and w == 0 and (type(u[1]) is str or u[1][0] in ('g', 'f', 's') or u[1] in NONNULL):
                        return int(p == 'ne')
                if type(x) is tuple and type(y) is tuple and x[2] is not None and y[2] is not None:
                    if x[1] == y[1] and (type(x[1]) is str or x[1][0] in ('g', 'f', 's', 'a') or self._local(F, x[1])):
                        return int((x[2] == y[2]) == (p == 'eq'))
                    if x[1] != y[1] and all(type(z) is str or z[0] in ('g', 'f', 's') for z in (x[1], y[1])):
                        return int(p == 'ne')
            if (a is None or b is None) and p in ('ult', 'ule', 'ugt', 'uge'):
                x, y = F.val(i.ops[0]), F.val(i.ops[1])
                if type(x) is tuple and type(y) is tuple and x[1] == y[1] and None not in (x[2], y[2]) and (type(x[1]) is str or self._local(F, x[1])):
                    return ir.icmp(p, x[2], y[2], 64)
            if a is None or b is None:
                nn = lambda o: o[0] in ('s', 'f', 'g') or (F.fn.inst(o) is not None and F.fn.inst(o).op == 'alloca')
                if p in ('eq', 'ne'):
                    if (b == 0 and nn(i.ops[0])) or (a == 0 and nn(i.ops[1])):
                        return int(p == 'ne')
                    if i.ops[0] == i.ops[1]:
                        return int(p == 'eq')
                if b == 0 and p == 'ult' or a == 0 and p == 'ugt':
                    return 0
                if b == 0 and p == 'uge' or a == 0 and p == 'ule':
                    return 1
                return None
            return ir.icmp(p, a, b, bits_of(i.d.get('sty')))
        if op in BINOPS:
            a, b = F.get(i.ops[0]), F.get(i.ops[1])
            w = bits_of(i.ty)
            if op in ('and', 'mul') and (a == 0 or b == 0):
                return 0
            if op == 'or' and w == 1 and (a == 1 or b == 1):
                return 1
            if a is None or b is None:
                if op in ('add', 'sub') and self.objmem:
                    x, y = F.val(i.ops[0]), F.val(i.ops[1])
                    if type(x) is tuple and type(y) is tuple and op == 'sub' and x[1] == y[1] and x[2] is not None and y[2] is not None:
                        return mask(x[2] - y[2], w)
                    if type(x) is tuple and type(y) is int and x[2] is not None:
                        return ('p', x[1], x[2] + (sgn(y, w) if op == 'add' else -sgn(y, w)))
                    if type(y) is tuple and type(x) is int and y[2] is not None and op == 'add':
                        return ('p', y[1], y[2] + sgn(x, w))
                return None
            return binop(op, a, b, w)
        return None
