"""Shared abstract model of one engine pass (process_rings flattened)."""
from rules.common import *
EN = 'hogl::engine'
ENT = EN + '::ring_index::entry'
STOPS = ('hogl::output::process', 'hogl::output::flush', 'hogl::tsobuf::pop')
PASS = Root('pass', EN + '::process_rings', stop=STOPS)
PI = 'hogl::ringbuf::pop_iterator'


def fake_root(fn, root):
    """points-to root is a local record (a record injected by the engine)"""
    if type(root) is tuple and root and root[0] == 'v':
        i = fn.I.get(int(root[1]))
        return i is not None and i.op == 'alloca'
    return False


def layout_off(ctx, cls, m):
    for f in ctx.layout.get(cls, []):
        if f[0] == m:
            return f[2] // 8
    raise AnalysisBroken('layout of %s::%s' % (cls, m))


class Pass:
    """abstract cells: every record in a ring has sequence word `rword`, area `rarea`
    and type `rtype`; the index entry a pass works on has expected number `eseq`"""

    def __init__(self, ctx, fn):
        self.ctx, self.fn = ctx, fn
        self.datarec = layout_off(ctx, 'hogl::format::data', 'record')
        self.seqoff = layout_off(ctx, REC, 'seqnum')
        self.valoff = layout_off(ctx, REC, 'argval')
        e = dict(ctx.enums.get('hogl::internal::section_ids', []))
        ctx.anchor('DROPMARK' in e and 'TSOFULLMARK' in e, 'internal section ids')
        self.DROPMARK, self.TSOFULL = e['DROPMARK'], e['TSOFULLMARK']
        self.cache = {}

    def local(self, i):
        root = self.fn.addr(self.fn.ptrop(i)).root
        ri = self.fn.inst(root)
        return ri is not None and ri.op == 'alloca'

    def cells(self, fn, i):
        if i.id in self.cache:
            return self.cache[i.id]
        f = fn.fieldof(i)
        k = None
        if f:
            if f[0] == REC and not self.local(i):
                k = {'seqnum': 'rword', 'section': 'rword', 'area': 'rarea', 'argtype': 'rtype'}.get(f[1])
                if k == 'rword' and ir.bits_of(i.ty if i.op == 'load' else i.d.get('sty')) != 64:
                    k = None
            elif f == (ENT, 'seqnum') and not self.local(i):
                k = 'eseq'
            elif f[0] == EN + '::stats' and f[1] in ('recs_dropped', 'recs_out', 'tso_full'):
                k = f[1]
            elif f[0] == EN + '::options' and f[1] == 'features' and not self.local(i):
                k = 'features'
            elif f == (EN + '::ring_index', 'dirty') and not self.local(i):
                k = 'dirty'
        self.cache[i.id] = k
        return k

    def assume(self, bits):
        """bits: value of every word of the internal area's section bitmap"""
        fn = self.fn

        def a(f, i):
            # read-modify-write of a bit-field word of a record under construction
            if i.op == 'load' and i.ty == 'i64' and fn.fieldof(i) in ((REC, 'seqnum'), (REC, 'section')) and self.local(i):
                return 0
            if i.op == 'load' and bits is not None and any(load_field(fn, r) == ('hogl::bitmap', '_data') for r in trace_roots(fn, i.ops[0])):
                return bits
            return None
        return a

    def handover(self, i, Fx):
        """classify an output::process call: ('rec',) or ('fake', section, {arg index: value})"""
        if not (i.is_call and i.callee == 'hogl::output::process'):
            return None
        p = Fx.ptr(i.ops[1])
        if p[2] is None:
            return ('rec',)
        v = Fx.mem.get((p[1], p[2] + self.datarec))
        if v == 0:
            return ('null',)
        if type(v) is tuple and fake_root(self.fn, v[1]):
            w = Fx.mem.get((v[1], v[2] + self.seqoff))
            args = {}
            for k in range(16):
                x = Fx.mem.get((v[1], v[2] + self.valoff + 8 * k))
                if x is not None:
                    args[k] = x
            return ('fake', None if type(w) is not int else w >> 52, args)
        return ('rec',)

    def is_ack(self, i, Fx=None):
        """store to argument 0 of a ring record"""
        if i.op != 'store' or self.local(i):
            return False
        ad = self.fn.addr(i.ops[1])
        f = [s for s in ad.steps if s[0] == '.']
        return any(s[1] == REC and s[2] == 'argval' for s in f)
