"""Rule engine core: SSA functions exported by hx, access paths, conditional
constant propagation under assumptions, typestate automata and path queries."""
import itertools

MASK = {b: (1 << b) - 1 for b in (1, 8, 16, 32, 64, 128)}


def bits_of(ty):
    if ty and ty[0] == 'i' and ty[1:].isdigit():
        return int(ty[1:])
    return 64


def mask(v, b):
    return v & ((1 << b) - 1)


def sgn(v, b):
    v &= (1 << b) - 1
    return v - (1 << b) if v >> (b - 1) else v


class Inst:
    __slots__ = ('id', 'op', 'ty', 'ops', 'blk', 'idx', 'd', 'fn', '_cal')

    def __init__(self, d, fn):
        self.d = d
        self.fn = fn
        self.id = d['i']
        self.op = d['op']
        self.ty = d.get('ty')
        self.ops = d.get('ops', [])
        self.blk = None
        self.idx = None
        self._cal = None

    # location ------------------------------------------------------------
    @property
    def line(self):
        return self.d.get('ln', 0)

    @property
    def file(self):
        ch = self.d.get('ch')
        return ch[0] if ch else self.fn.file

    @property
    def where(self):
        f = self.file or '?'
        for p in ('/repo/',):
            if f.startswith(p):
                f = f[len(p):]
        return '%s:%d' % (f, self.line)

    @property
    def chain(self):
        """inline chain, innermost first: [(qname, line)...]"""
        ch = self.d.get('ch') or []
        return [(c[0], c[1]) for c in ch[1:]]

    @property
    def func(self):
        c = self.chain
        return c[0][0] if c else self.fn.qname

    def within(self, q):
        return any(c[0] == q for c in self.chain)

    # calls ---------------------------------------------------------------
    @property
    def callee(self):
        """qualified name of the called function, 'asm:<text>' or None"""
        if self._cal is None:
            c = self.d.get('callee')
            r = ''
            if c:
                if c[0] == 'f':
                    r = c[1]
                elif c[0] == 'asm':
                    r = 'asm:' + c[1]
            self._cal = r
        return self._cal or None

    @property
    def is_call(self):
        return self.op in ('call', 'invoke')

    def __repr__(self):
        return '%%%d=%s@%s' % (self.id, self.op, self.where)


class Addr:
    """root operand + access path"""
    __slots__ = ('root', 'steps')

    def __init__(self, root, steps):
        self.root = root
        self.steps = steps

    @property
    def field(self):
        """last named member (class, member)"""
        for s in reversed(self.steps):
            if s[0] == '.':
                return (s[1], s[2])
        return None

    @property
    def fields(self):
        return [(s[1], s[2]) for s in self.steps if s[0] == '.']

    @property
    def first(self):
        for s in self.steps:
            if s[0] == '.':
                return (s[1], s[2])
        return None

    @property
    def names(self):
        return [s[2] for s in self.steps if s[0] == '.']

    def has(self, cls, mem):
        return (cls, mem) in self.fields


def decode_path(p, vars_):
    steps = []
    k = 0
    for s in p.split('|'):
        if not s:
            continue
        if s[0] == '.':
            cm, off = s[1:].rsplit('/', 1)
            c, m = cm.rsplit('/', 1)
            steps.append(('.', c, m, int(off)))
        elif s.startswith('[]'):
            ix, r = s[2:].split('*')
            sz, n = r.split('/')
            if ix == '$':
                o = vars_[k]
                k += 1
            else:
                o = ['c', int(ix), 64]
            steps.append(('[]', o, int(sz), int(n)))
        else:
            steps.append(('?',))
    return steps


def fix_operand(o):
    if o and o[0] == 'e':
        e = o[1]
        for x in e['ops']:
            fix_operand(x)
        if e['op'] == 'gep' and 'path' not in e:
            e['path'] = decode_path(e['p'], [])


class Fn:
    def __init__(self, d):
        self.d = d
        self.root = d['root']
        self.mangled = d['mangled']
        self.qname = d['qname']
        self.full = d.get('full', '')
        self.file = d.get('file', '')
        self.line = d.get('line', 0)
        self.args = d['args']
        self.ptypes = d.get('ptypes', [])
        self.blocks = []
        self.I = {}
        for b, insts in enumerate(d['blocks']):
            L = []
            for k, x in enumerate(insts):
                for o in x.get('ops', ()):
                    fix_operand(o)
                if x['op'] == 'gep':
                    x['path'] = decode_path(x['p'], x['ops'][1:])
                i = Inst(x, self)
                i.blk = b
                i.idx = k
                L.append(i)
                self.I[i.id] = i
            self.blocks.append(L)
        self.succ = []
        for L in self.blocks:
            t = L[-1] if L else None
            self.succ.append(list(t.d.get('succ', [])) if t is not None else [])
        self.pred = [[] for _ in self.blocks]
        for b, ss in enumerate(self.succ):
            for k, s in enumerate(ss):
                self.pred[s].append((b, k))
        self.users = {}
        for i in self.I.values():
            for o in i.ops:
                if o and o[0] == 'v':
                    self.users.setdefault(o[1], []).append(i)
            c = i.d.get('callee')
            if c and c[0] == 'v':
                self.users.setdefault(c[1], []).append(i)
            for s in i.d.get('path', []):
                if s[0] == '[]' and s[1][0] == 'v':
                    self.users.setdefault(s[1][1], []).append(i)
        self._dom = None
        self._addr = {}

    @property
    def where(self):
        return '%s:%d' % (self.file, self.line)

    @property
    def insts(self):
        for L in self.blocks:
            for i in L:
                yield i

    def calls(self, *names):
        s = set(names)
        return [i for i in self.insts if i.is_call and (i.callee in s if s else True)]

    def loads(self, fld=None):
        return [i for i in self.insts if i.op == 'load' and (fld is None or self.fieldof(i) == fld)]

    def stores(self, fld=None):
        return [i for i in self.insts if i.op == 'store' and (fld is None or self.fieldof(i) == fld)]

    # ---- operands ---------------------------------------------------------
    def inst(self, o):
        if o and o[0] == 'v':
            return self.I.get(o[1])
        return None

    def ptrop(self, i):
        if i.op == 'load':
            return i.ops[0]
        if i.op == 'store':
            return i.ops[1]
        if i.op in ('atomicrmw', 'cmpxchg'):
            return i.ops[0]
        return None

    def addr(self, o):
        key = repr(o)
        r = self._addr.get(key)
        if r is None:
            r = self._addr[key] = self._addr_of(o)
        return r

    def _addr_of(self, o):
        steps = []
        while True:
            if o[0] == 'e':
                e = o[1]
                if e['op'] == 'gep':
                    steps = [tuple(s) for s in e['path']] + steps
                    o = e['ops'][0]
                    continue
                break
            i = self.inst(o)
            if i is None:
                break
            if i.op == 'gep':
                steps = [tuple(s) for s in i.d['path']] + steps
                o = i.ops[0]
                continue
            if i.op in ('bitcast', 'addrspacecast'):
                o = i.ops[0]
                continue
            break
        return Addr(o, steps)

    def fieldof(self, i):
        p = self.ptrop(i)
        if p is None:
            return None
        return self.addr(p).field

    # ---- value expressions --------------------------------------------------
    def strip(self, o):
        """strip casts"""
        while True:
            i = self.inst(o)
            if i is not None and i.op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
                o = i.ops[0]
                continue
            return o

    COMM = {'add', 'mul', 'and', 'or', 'xor'}

    def expr(self, o, stable=None, depth=0, env=None):
        """canonical expression.  stable(field) -> True if loads of this field
        (through equal base expressions) always denote the same value."""
        if o[0] == 'c':
            return ('c', mask(int(o[1]), o[2]))
        if o[0] in ('null',):
            return ('c', 0)
        if o[0] in ('a', 's', 'fp', 'undef'):
            return tuple(o)
        if o[0] == 'g' or o[0] == 'f':
            return (o[0], o[2])
        if o[0] == 'e':
            e = o[1]
            if e['op'] == 'gep':
                return self._gepexpr(e, stable, depth)
            return ('ce', e['op']) + tuple(self.expr(x, stable, depth + 1) for x in e['ops'])
        i = self.inst(o)
        if i is None:
            return ('?', repr(o))
        if depth > 60:
            return ('id', i.id)
        if i.op == 'gep':
            return self._gepexpr(i.d, stable, depth)
        if i.op in ('zext', 'sext', 'trunc'):
            return (i.op, bits_of(i.ty), self.expr(i.ops[0], stable, depth + 1))
        if i.op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            return self.expr(i.ops[0], stable, depth + 1)
        if i.op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a = self.expr(i.ops[0], stable, depth + 1)
            b = self.expr(i.ops[1], stable, depth + 1)
            if i.op in self.COMM and repr(a) > repr(b):
                a, b = b, a
            return (i.op, bits_of(i.ty), a, b)
        if i.op == 'icmp':
            a = self.expr(i.ops[0], stable, depth + 1)
            b = self.expr(i.ops[1], stable, depth + 1)
            return ('icmp', i.d['pred'], a, b)
        if i.op == 'select':
            return ('select',) + tuple(self.expr(x, stable, depth + 1) for x in i.ops)
        if i.op == 'load' and stable is not None:
            ad = self.addr(i.ops[0])
            if ad.field and stable(ad.field):
                return ('ld', self._gepexpr_addr(ad, stable, depth + 1))
        return ('id', i.id)

    def _gepexpr_addr(self, ad, stable, depth):
        st = []
        for s in ad.steps:
            if s[0] == '.':
                st.append(('.', s[1], s[2]))
            elif s[0] == '[]':
                st.append(('[]', self.expr(s[1], stable, depth + 1), s[2]))
            else:
                st.append(('?',))
        return ('gep', self.expr(ad.root, stable, depth + 1)) + tuple(st)

    def _gepexpr(self, d, stable, depth):
        o = d['ops'][0]
        b = self.addr(o)
        return self._gepexpr_addr(Addr(b.root, b.steps + [tuple(s) for s in d['path']]), stable, depth)

    # ---- dominators ---------------------------------------------------------
    def dominators(self):
        if self._dom is not None:
            return self._dom
        n = len(self.blocks)
        order = self.rpo()
        pos = {b: k for k, b in enumerate(order)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p, _ in self.pred[b] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while pos[x] > pos[y]:
                            x = idom[x]
                        while pos[y] > pos[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        self._dom = idom
        return idom

    def rpo(self):
        seen, out = set(), []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]

    def dominates(self, a, b):
        """instruction a dominates instruction b"""
        if a.blk == b.blk:
            return a.idx < b.idx
        d = self.dominators()
        x = b.blk
        if x not in d:
            return True
        while x != 0:
            x = d[x]
            if x == a.blk:
                return True
        return False

    # ---- exits ---------------------------------------------------------------
    def rets(self):
        return [i for i in self.insts if i.op == 'ret']

    def dump(self, f=None):
        out = []

        def o(x):
            if not x:
                return str(x)
            k = x[0]
            if k == 'v':
                return '%%%d' % x[1]
            if k == 'a':
                return 'arg%d' % x[1]
            if k == 'c':
                return str(x[1])
            if k == 'e':
                return '(%s %s %s)' % (x[1]['op'], ' '.join(o(y) for y in x[1]['ops']), pth(x[1].get('path', [])))
            if k in ('f', 'g'):
                return '@' + x[1]
            if k == 's':
                return repr(x[1])
            return str(x[1:] or k)

        def pth(p):
            r = ''
            for s in p:
                if s[0] == '.':
                    r += '.' + s[1].replace('hogl::', '') + '/' + s[2]
                elif s[0] == '[]':
                    r += '[%s*%s]' % (o(s[1]), s[2])
                else:
                    r += '?'
            return r
        out.append('%s  args=%s' % (self.full, self.args))
        for b, L in enumerate(self.blocks):
            out.append('b%d:  <- %s' % (b, ' '.join('b%d' % p for p, _ in self.pred[b])))
            for i in L:
                s = '  '
                if i.ty:
                    s += '%%%d:%s = ' % (i.id, i.ty)
                s += i.op + ' '
                if i.op == 'gep':
                    s += o(i.ops[0]) + pth(i.d['path'])
                elif i.is_call:
                    s += '%s(%s)' % (o(i.d['callee']), ', '.join(o(x) for x in i.ops))
                elif i.op == 'phi':
                    s += ', '.join('b%d:%s' % (f_, o(v)) for v, f_ in zip(i.ops, i.d['from']))
                elif i.op == 'icmp':
                    s += '%s %s' % (i.d['pred'], ', '.join(o(x) for x in i.ops))
                elif i.op in ('br', 'switch'):
                    s += '%s -> %s %s' % (', '.join(o(x) for x in i.ops), i.d['succ'], [c[1] for c in i.d.get('cases', [])] or '')
                else:
                    s += ', '.join(o(x) for x in i.ops)
                    if i.d.get('rmw'):
                        s += ' ' + i.d['rmw']
                if i.d.get('vol'):
                    s += ' !vol'
                s += '   ; %s %s' % (i.where, '<'.join(c[0].replace('hogl::', '') for c in i.chain[:3]))
                out.append(s)
        return '\n'.join(out)


# ---------------------------------------------------------------------------
# Conditional constant propagation under assumptions.
TOP = ('top',)
BOT = None


class View:
    """A function specialised under an assumption: which edges/blocks are
    feasible, and which SSA values are constant.

    assume(fn, inst) -> int or None gives the value of a load / call result.
    args: {argno: int}"""

    def __init__(self, fn, assume=None, args=None, values=None, start=0):
        self.fn = fn
        self.assume = assume
        self.args = args or {}
        self.values = values or {}
        self.val = {}
        self.edges = set()   # (block, succ index)
        self.reach = set()
        self._run(start)

    def get(self, o):
        k = o[0]
        if k == 'c':
            return mask(int(o[1]), o[2])
        if k == 'null':
            return 0
        if k == 'a':
            return self.args.get(o[1], BOT)
        if k == 'v':
            if o[1] in self.values:
                return self.values[o[1]]
            return self.val.get(o[1], TOP)
        if k in ('s', 'f', 'g'):
            return BOT
        return BOT

    def nonnull(self, o):
        return o[0] in ('s', 'f', 'g') or (self.fn.inst(o) is not None and self.fn.inst(o).op == 'alloca')

    def _run(self, start):
        fn = self.fn
        bw = [start]
        sw = []
        self.reach.add(start)
        pend = set()
        while bw or sw:
            if sw:
                i = sw.pop()
                pend.discard(i.id)
                if i.blk in self.reach:
                    self._visit(i, bw, sw, pend)
                continue
            b = bw.pop()
            for i in fn.blocks[b]:
                self._visit(i, bw, sw, pend)

    def _edge(self, b, k, bw, sw, pend):
        if (b, k) in self.edges:
            return
        self.edges.add((b, k))
        s = self.fn.succ[b][k]
        if s not in self.reach:
            self.reach.add(s)
            bw.append(s)
        else:
            for i in self.fn.blocks[s]:
                if i.op != 'phi':
                    break
                if i.id not in pend:
                    pend.add(i.id)
                    sw.append(i)

    def _visit(self, i, bw, sw, pend):
        fn = self.fn
        if i.op in ('br', 'switch', 'invoke'):
            n = len(fn.succ[i.blk])
            if i.op == 'br' and n == 2:
                c = self.get(i.ops[0])
                if c is TOP:
                    return
                ks = [0, 1] if c is BOT else ([0] if c & 1 else [1])
            elif i.op == 'switch':
                c = self.get(i.ops[0])
                if c is TOP:
                    return
                if c is BOT:
                    ks = range(n)
                else:
                    ks = [0]
                    for k, cv in enumerate(i.d['cases']):
                        if mask(int(cv[1]), cv[2]) == c:
                            ks = [k + 1]
            else:
                ks = range(n)
            for k in ks:
                self._edge(i.blk, k, bw, sw, pend)
            if i.op != 'invoke':
                return
        if i.ty is None:
            return
        old = self.val.get(i.id, TOP)
        new = self._eval(i)
        if new is TOP or new == old and not (old is BOT and new is not BOT):
            if new is TOP:
                return
            if old is not TOP and new == old:
                return
        if old is BOT and old is not TOP and i.id in self.val:
            return
        if old is not TOP and new != old:
            new = BOT
        self.val[i.id] = new
        for u in fn.users.get(i.id, []):
            if u.blk in self.reach and u.id not in pend:
                pend.add(u.id)
                sw.append(u)

    def _eval(self, i):
        fn = self.fn
        op = i.op
        if i.id in self.values:
            return self.values[i.id]
        if op == 'phi':
            r = TOP
            for o, f in zip(i.ops, i.d['from']):
                live = any((f, k) in self.edges for k, s in enumerate(fn.succ[f]) if s == i.blk)
                if not live:
                    continue
                v = self.get(o)
                if v is TOP:
                    continue
                if v is BOT:
                    return BOT
                if r is TOP:
                    r = v
                elif r != v:
                    return BOT
            return r
        if op in ('load', 'call', 'invoke', 'atomicrmw', 'cmpxchg', 'extractvalue'):
            if self.assume is not None:
                return self.assume(fn, i)
            return BOT
        if op == 'select':
            c = self.get(i.ops[0])
            if c is TOP:
                return TOP
            a, b = self.get(i.ops[1]), self.get(i.ops[2])
            if c is not BOT:
                return a if c & 1 else b
            if a is TOP or b is TOP:
                return TOP
            return a if a == b else BOT
        if op in ('alloca', 'gep'):
            return BOT
        if op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            a = self.get(i.ops[0])
            if a is TOP or a is BOT:
                return a
            if op == 'sext':
                return mask(sgn(a, bits_of(i.d.get('sty'))), bits_of(i.ty))
            return mask(a, bits_of(i.ty))
        if op == 'icmp':
            a, b = self.get(i.ops[0]), self.get(i.ops[1])
            if a is TOP or b is TOP:
                return TOP
            if a is BOT or b is BOT:
                if i.d['pred'] in ('eq', 'ne'):
                    if (b == 0 and self.nonnull(i.ops[0])) or (a == 0 and self.nonnull(i.ops[1])):
                        return 1 if i.d['pred'] == 'ne' else 0
                    if fn.expr(i.ops[0]) == fn.expr(i.ops[1]):
                        return 0 if i.d['pred'] == 'ne' else 1
                return self._cmp_known(i, a, b)
            return icmp(i.d['pred'], a, b, bits_of(i.d.get('sty')))
        if op in BINOPS:
            a, b = self.get(i.ops[0]), self.get(i.ops[1])
            if a is TOP or b is TOP:
                return TOP
            w = bits_of(i.ty)
            if op == 'and' and (a == 0 or b == 0):
                return 0
            if op == 'mul' and (a == 0 or b == 0):
                return 0
            if op == 'or' and w == 1 and (a == 1 or b == 1):
                return 1
            if a is BOT or b is BOT:
                return BOT
            return binop(op, a, b, w)
        return BOT

    def _cmp_known(self, i, a, b):
        p = i.d['pred']
        # unsigned comparisons that do not depend on the unknown side
        if b == 0 and p == 'ult':
            return 0
        if b == 0 and p == 'uge':
            return 1
        if a == 0 and p == 'ugt':
            return 0
        if a == 0 and p == 'ule':
            return 1
        return BOT

    # ------------------------------------------------------------------
    def const(self, o):
        v = self.get(o)
        return None if v is TOP else v

    def live(self, i):
        return i.blk in self.reach

    def insts(self):
        for b in sorted(self.reach):
            for i in self.fn.blocks[b]:
                yield i

    def succs(self, b):
        return [self.fn.succ[b][k] for k in range(len(self.fn.succ[b])) if (b, k) in self.edges]


BINOPS = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'}


def binop(op, a, b, w):
    M = (1 << w) - 1
    if op == 'add':
        return (a + b) & M
    if op == 'sub':
        return (a - b) & M
    if op == 'mul':
        return (a * b) & M
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op == 'shl':
        return (a << b) & M if b < w else None
    if op == 'lshr':
        return a >> b if b < w else None
    if op == 'ashr':
        return (sgn(a, w) >> b) & M if b < w else None
    if op == 'udiv':
        return a // b if b else None
    if op == 'urem':
        return a % b if b else None
    if op in ('sdiv', 'srem'):
        x, y = sgn(a, w), sgn(b, w)
        if not y:
            return None
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return (q if op == 'sdiv' else x - q * y) & M
    return None


def icmp(p, a, b, w):
    if p == 'eq':
        return int(a == b)
    if p == 'ne':
        return int(a != b)
    if p[0] == 's':
        a, b = sgn(a, w), sgn(b, w)
    q = p[1:]
    return int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[q])


# ---------------------------------------------------------------------------
# Typestate: forward dataflow of a set of automaton states over a view.
class Trace:
    """result of run(): states before each instruction / at exits, and for each
    recorded problem a path of blocks."""


NORETURN = {'abort', 'exit', '_exit', '__assert_fail', 'std::terminate', '__cxa_throw', '__cxa_rethrow',
            'std::__throw_logic_error', '__clang_call_terminate', '__cxa_call_unexpected', 'llvm.trap'}


def run(view, init, step, edge=None, maxstates=4096):
    """Propagate automaton states.  step(inst, state) -> state | [states] | None (state dies)
    edge(block, succ index, state) -> same.  Returns (before, exits): before[inst id] = set of
    states, exits = {ret inst id: set}."""
    fn = view.fn
    inb = {0: set([init])}
    work = [0]
    before = {}
    exits = {}
    origin = {}
    while work:
        b = work.pop()
        states = inb[b]
        cur = set(states)
        dead = False
        for i in fn.blocks[b]:
            s = before.setdefault(i.id, set())
            s |= cur
            if i.op == 'ret':
                exits.setdefault(i.id, set()).update(cur)
                break
            nxt = set()
            for st in cur:
                r = step(i, st)
                if r is None:
                    continue
                if isinstance(r, list):
                    nxt.update(r)
                else:
                    nxt.add(r)
            cur = nxt
            if len(cur) > maxstates:
                raise RuntimeError('state explosion in %s' % fn.qname)
            if i.is_call and (i.d.get('noret') or i.callee in NORETURN):
                dead = True
                break
        if dead:
            continue
        for k, s in enumerate(fn.succ[b]):
            if (b, k) not in view.edges:
                continue
            out = cur
            if edge is not None:
                out = set()
                for st in cur:
                    r = edge(b, k, st)
                    if r is None:
                        continue
                    if isinstance(r, list):
                        out.update(r)
                    else:
                        out.add(r)
            t = inb.setdefault(s, set())
            new = out - t
            if new or (s not in origin):
                origin.setdefault(s, b)
                if new:
                    t |= new
                    if s not in work:
                        work.append(s)
    return before, exits


def path_to(view, target, avoid=lambda i: False, start=None, edge_ok=None):
    """shortest instruction path (as list of block ids) from start (entry or just
    after an instruction) to an instruction satisfying target, without passing an
    instruction satisfying avoid.  None if there is none."""
    fn = view.fn
    from collections import deque
    q = deque()
    seen = set()

    def scan(b, k0):
        for i in fn.blocks[b][k0:]:
            if target(i):
                return 'hit', i
            if avoid(i):
                return 'stop', i
            if i.is_call and (i.d.get('noret') or i.callee in NORETURN):
                return 'stop', i
        return 'fall', None
    if start is None:
        q.append((0, 0, [0]))
    else:
        q.append((start.blk, start.idx + 1, [start.blk]))
    while q:
        b, k0, path = q.popleft()
        if k0 == 0:
            if b in seen:
                continue
            seen.add(b)
        r, i = scan(b, k0)
        if r == 'hit':
            return path, i
        if r == 'stop':
            continue
        for k, s in enumerate(fn.succ[b]):
            if (b, k) in view.edges and s not in seen and (edge_ok is None or edge_ok(b, k)):
                q.append((s, 0, path + [s]))
    return None


def is_ret(i):
    return i.op == 'ret'
