"""Abstract runs of the ring constructor for given options."""
from rules.engine import layout_off
from rules.common import *
from rules.obj import Obj


def ring_ctor(ctx, fn, tailroom, capacity, flags=0):
    """[(exit, getter of ring fields, allocated bytes)] of the exits with an allocated record area"""
    opt = [k for k in ctx.layout if k.startswith(RB) and 'option' in k]
    ctx.anchor(len(opt) == 1, 'ring options')
    q = lambda n: ('opt', layout_off(ctx, opt[0], n))
    m = {q('capacity'): capacity, q('prio'): 1, q('flags'): flags, q('record_tailroom'): tailroom}
    page = lambda i, v, Fx, ev: [(4096, (), {})]
    ob = Obj(ctx, calls={'sysconf': page, 'getpagesize': page}, limit=100)
    args = {0: ('p', 'ring', 0)}
    for j, p in enumerate(fn.ptypes[2:]):
        args[j + 1] = ('p', 'opt', 0) if 'option' in p else ('p', 'name', 0) if 'char' in p else 0
    out = []
    for inst, ev, ret, mem in ob.run(fn, args, m, cap=64):
        top = mem.get(('ring', layout_off(ctx, RB, '_rec_top')))
        if type(top) is tuple:
            al = [e[3] for e in ev if e[0] == 'new' and e[1] == top[1]]
            out.append((inst, lambda n, mem=mem: mem.get(('ring', layout_off(ctx, RB, n))), al[0] if al else None))
    return out
