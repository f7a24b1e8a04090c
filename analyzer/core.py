"""Check driver: compiles the current tree, exports the flattened functions a
property needs, runs its rules and reports obligations / violations."""
import os, sys, json, time, importlib, traceback, multiprocessing
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build, ir, sim
from build import AnalysisBroken, VERIF

KNOWN = os.path.join(VERIF, 'known-findings.txt')


class Root:
    """a function to flatten: qualified name, stop functions (kept as calls),
    optional parameter-type filter"""

    def __init__(self, rid, q, stop=(), ptypes=None, eh=False, optional=False):
        self.rid, self.q, self.stop, self.ptypes, self.eh, self.optional = rid, q, frozenset(stop), ptypes, eh, optional


_PCTX = None


def _pwork(k):
    ctx, items, func = _PCTX
    ctx.obl, ctx.viol, ctx.samples, ctx.functions, ctx.seen = {}, [], [], set(), set()
    err = None
    ret = None
    try:
        ret = func(items[k])
    except AnalysisBroken as e:
        err = str(e)
    except Exception:
        err = traceback.format_exc()
    return ctx.obl, ctx.viol, ctx.samples[:3], ctx.functions, err, ret


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.obl = {}        # rule -> count
        self.rules = {}      # rule -> text
        self.viol = []       # (rule, where, msg, key)
        self.seen = set()
        self.functions = set()
        self.notes = []
        self.samples = []
        self.assumptions = []

    # ---- program ---------------------------------------------------------
    def load(self, roots, raw=False):
        ws = build.Workspace()
        ws.compile()
        self.units = ws.units
        sets = {}
        lines = ['index']
        if raw:
            lines.append('raw')
        for r in roots:
            if r.stop not in sets:
                sets[r.stop] = 's%d' % len(sets)
        for st, n in sets.items():
            lines.append('set\t' + n)
            lines += ['stop\t' + q for q in sorted(st)]
        for r in roots:
            lines.append('qflat\t%s\t%s\t%s\t%d' % (r.rid, r.q, sets[r.stop], int(r.eh)))
        self.data = ws.hx(lines)
        ws.close()
        if self.data.get('warnings'):
            self.notes += self.data['warnings'][:5]
        self.layout = self.data['layout']
        self.enums = self.data['enums']
        self.sizes = self.data['sizes']
        self.globals = self.data['globals']
        self.index = self.data['index']
        sim.load_constants(self.globals)
        self.byq = {}
        for f in self.index:
            self.byq.setdefault(f['q'], []).append(f)
        self.bym = {f['m']: f for f in self.index}
        self._flat = {}
        self._raw = None
        for d in self.data['flat']:
            self._flat.setdefault(d['root'], []).append(d)
        self._fn = {}
        self.rootspec = {r.rid: r for r in roots}

    def fns(self, rid):
        """all flattened functions of a root (overloads)"""
        if rid not in self._fn:
            r = self.rootspec[rid]
            L = []
            for d in self._flat.get(rid, []):
                f = ir.Fn(d)
                ix = self.bym.get(f.mangled, {})
                f.ptypes = ix.get('ptypes', [])
                if r.ptypes is not None and not r.ptypes(f.ptypes):
                    continue
                L.append(f)
                self.functions.add(f.qname)
                for i in f.insts:
                    for c in i.chain:
                        self.functions.add(c[0])
            if not L and not r.optional:
                raise AnalysisBroken('%s: function %s not found' % (rid, r.q))
            self._fn[rid] = L
        return self._fn[rid]

    def fn(self, rid):
        L = self.fns(rid)
        if len(L) != 1:
            raise AnalysisBroken('%s: %d candidates for %s' % (rid, len(L), self.rootspec[rid].q))
        return L[0]

    def raw(self):
        if self._raw is None:
            self._raw = [ir.Fn(d) for d in self.data['raw']]
            for f in self._raw:
                ix = self.bym.get(f.mangled, {})
                f.ptypes = ix.get('ptypes', [])
        return self._raw

    def pmap(self, items, func):
        """run func(item) for every item in forked workers; obligations and
        violations are merged in item order"""
        global _PCTX
        items = list(items)
        n = min(len(items), os.cpu_count() or 1, 8)
        if n <= 1:
            return [func(x) for x in items]
        _PCTX = (self, items, func)
        with multiprocessing.get_context('fork').Pool(n) as pool:
            res = pool.map(_pwork, range(len(items)), chunksize=1)
        for obl, viol, samples, functions, err, ret in res:
            for r, k in obl.items():
                self.obl[r] = self.obl.get(r, 0) + k
            for rule, where, msg, key in viol:
                if (rule, where, msg) not in self.seen:
                    self.seen.add((rule, where, msg))
                    self.viol.append((rule, where, msg, key))
            self.samples = (self.samples + samples)[:40]
            self.functions |= functions
        for r in res:
            if r[4]:
                raise AnalysisBroken(r[4])
        return [r[5] for r in res]

    # ---- reporting ---------------------------------------------------------
    def rule(self, rid, text):
        self.rules[rid] = text
        self.obl.setdefault(rid, 0)

    def ok(self, rule, sample=None, n=1):
        self.obl[rule] = self.obl.get(rule, 0) + n
        if sample and len(self.samples) < 40:
            self.samples.append('%s: %s' % (rule, sample))

    def bad(self, rule, where, msg, key=None):
        self.obl[rule] = self.obl.get(rule, 0) + 1
        k = key or '%s|%s' % (rule, msg)
        if (rule, str(where), msg) in self.seen:
            return
        self.seen.add((rule, str(where), msg))
        self.viol.append((rule, str(where), msg, k))

    def expect(self, cond, rule, where, msg, sample=None, key=None):
        if cond:
            self.ok(rule, sample)
        else:
            self.bad(rule, where, msg, key)
        return cond

    def anchor(self, cond, msg):
        if not cond:
            raise AnalysisBroken('anchor: ' + msg)


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split('key=', 1)[1]
                key, _, desc = rest.partition(' -- ')
                out[key.strip()] = desc
    return out


def main(pid, tier):
    t0 = time.time()
    ctx = Ctx(pid, tier)
    status = 0
    err = None
    try:
        mod = importlib.import_module('rules.' + pid.lower())
        ctx.load(mod.roots(ctx), raw=getattr(mod, 'RAW', False))
        mod.check(ctx)
        for r, n in ctx.obl.items():
            if n == 0:
                raise AnalysisBroken('rule %s examined nothing' % r)
    except AnalysisBroken as e:
        err = str(e)
    except Exception:
        err = traceback.format_exc()
    kf = known(pid)
    nviol = 0
    seed = int(os.environ.get('VERIF_SEED', '1'))
    edir = os.environ.get('HOGL_EVDIR') or os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(edir, 'replay'), exist_ok=True)
    rpath = os.path.join(edir, 'replay', pid + '.txt')
    lines = []
    for rule, where, msg, key in ctx.viol:
        if key in kf:
            print('KNOWN-FINDING: property=%s %s (%s)' % (pid, kf[key], where))
            continue
        nviol += 1
        lines.append('%s  [%s]  %s\n    rule: %s\n    key: %s' % (where, rule, msg, ctx.rules.get(rule, ''), key))
    with open(rpath, 'w') as fh:
        fh.write('property %s: violating constructs found by static analysis of %s\n' % (pid, build.REPO))
        fh.write('\n'.join(lines) + '\n')
    total = sum(ctx.obl.values())
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
          'coverage': {
              'explanation': 'static analysis of the LLVM IR of the current source tree; every obligation is a rule instance decided on every feasible path of the named functions',
              'obligations': total, 'discharged': total - len(ctx.viol),
              'rules': [{'rule': r, 'text': t, 'instances': ctx.obl.get(r, 0)} for r, t in sorted(ctx.rules.items())],
              'functions_analysed': sorted(ctx.functions),
              'n_functions': len(ctx.functions),
              'units': [u.replace(build.REPO + '/', '').replace(HERE + '/', '') for u in getattr(ctx, 'units', [])],
              'samples': ctx.samples[:40], 'notes': ctx.notes},
          'assumptions': ctx.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    with open(os.path.join(edir, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    if nviol:
        shown = [v for v in ctx.viol if v[3] not in kf]
        for rule, where, msg, key in shown[:15]:
            print(('%s: [%s] %s' % (where, rule, msg))[:400])
        if len(shown) > 15:
            print('... and %d more (see the replay file)' % (len(shown) - 15))
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(rpath, VERIF)))
        if err:
            print('note: analysis incomplete: ' + err.strip().splitlines()[-1])
        return 1
    if err:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, err))
        return 2
    print('OK property=%s obligations=%d functions=%d wall=%.1fs' % (pid, total, len(ctx.functions), time.time() - t0))
    return 0


if __name__ == '__main__':
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(main(pid, tier if tier in ('quick', 'thorough') else 'quick'))
