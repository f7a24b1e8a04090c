"""Models of the standard containers the repository uses, over the abstract memory
of a constant propagation: std::string is a content token, std::map<string, T*> and
std::list are finite sequences, iterators are positions."""
from rules.common import *
KEEPSTD = ('std::map::', 'std::_Rb_tree', 'std::operator', 'std::allocator', 'std::basic_string', 'std::__cxx11', 'std::pair::~', 'std::list::', 'std::_List', 'pthread_', 'fmt::')
STRCALLS = ('strdup', 'strcmp', 'strlen')


def content(v):
    """content token of a C string pointer"""
    if type(v) is not tuple:
        return None
    r = v[1]
    while type(r) is str and r.startswith('dup:'):
        r = r[4:]
    if type(r) is tuple and r and r[0] == 's':
        r = r[1]
    return r if v[2] == 0 else (r, v[2])


class Heap:
    """maps: {root+offset cell: name}; the content of map `name` is mem[('#map:name', 0)] = ('m', ((key, ptr), ...))"""

    def __init__(self, maps, fallible=True):
        self.maps = {k: v for k, v in maps.items()}
        self.isstr = {}

    def put(self, mem, name, items):
        mem[('#map:' + name, 0)] = ('m', tuple(items))
        for k, v in items:
            mem[('#node:%s:%s' % (name, k), 32)] = v
            mem[('#node:%s:%s' % (name, k), 0)] = ('p', '#str:%s' % (k,), 0)

    def items(self, mem, name):
        v = mem.get(('#map:' + name, 0))
        return v[1] if v else None

    def mapname(self, Fx, o):
        p = Fx.ptr(o)
        return self.maps.get((p[1], p[2]))

    def pos(self, name, L, k):
        return ('p', '#node:%s:%s' % (name, L[k][0]), 0) if k < len(L) else ('p', '#end:' + name, 0)

    def strtok(self, Fx, o):
        """content token of a std::string object or a C string"""
        p = Fx.ptr(o)
        if p[2] is not None:
            v = Fx.mem.get((p[1], p[2]))
            if type(v) is tuple and type(v[1]) is str and v[1].startswith('#str:'):
                return v[1][5:]
        v = Fx.val(o)
        c = content(v if type(v) is tuple else p)
        return c if type(c) is str else repr(c)

    def model(self, i, a, Fx):
        c = i.callee or ''
        if not c.startswith('std::') and c not in ('strdup', 'strcmp'):
            return None
        m = c.rsplit('::', 1)[-1]
        if c == 'strdup':
            v = Fx.val(i.ops[0])
            return [(('p', 'dup:%s' % (v[1] if type(v) is tuple else '?',), 0), a, {})]
        if c == 'strcmp':
            x, y = (self.strtok(Fx, o) for o in i.ops[:2])
            return [(0 if x == y else 1, a, {})]
        if c.startswith('std::basic_string::basic_string'):
            p = Fx.ptr(i.ops[0])
            t = self.strtok(Fx, i.ops[1]) if len(i.ops) > 1 else ''
            return [(None, a, {(p[1], p[2]): ('p', '#str:%s' % t, 0)})] if p[2] is not None else None
        if c.startswith('std::map::'):
            n = self.mapname(Fx, i.ops[0])
            if n is None or m == 'map' or m == '~map':
                return None
            L = self.items(Fx.mem, n)
            if L is None:
                return None
            if m in ('begin', 'cbegin'):
                return [(self.pos(n, L, 0), a, {})]
            if m in ('end', 'cend'):
                return [(self.pos(n, L, len(L)), a, {})]
            if m == 'size':
                return [(len(L), a, {})]
            if m == 'empty':
                return [(int(not L), a, {})]
            if m in ('find', 'count', 'erase', 'at', 'operator[]'):
                p = Fx.ptr(i.ops[1])
                v = Fx.mem.get((p[1], p[2])) if p[2] is not None else None
                it = Fx.val(i.ops[1])
                node = None
                for x in (v, it):
                    if type(x) is tuple and type(x[1]) is str and x[1].startswith('#node:%s:' % n):
                        node = x[1].split(':', 2)[2]
                k = node if node is not None else self.strtok(Fx, i.ops[1])
                ix = [j for j, x in enumerate(L) if x[0] == k]
                if m == 'find':
                    return [(self.pos(n, L, ix[0] if ix else len(L)), a, {})]
                if m == 'count':
                    return [(len(ix), a, {})]
                if m == 'erase':
                    up = {('#map:' + n, 0): ('m', tuple(x for x in L if x[0] != k))}
                    r = len(ix)
                    if node is not None:
                        r = self.pos(n, L, ix[0] + 1 if ix else len(L))
                    return [(r, a, up)]
                if not ix:
                    if m == 'at':
                        return []
                    up = self.added(n, L, k, 0)
                    return [(('p', '#node:%s:%s' % (n, k), 32), a, up)]
                return [(('p', '#node:%s:%s' % (n, k), 32), a, {})]
            if m in ('insert', 'emplace'):
                p = Fx.ptr(i.ops[1])
                if p[2] is None:
                    return None
                k = self.strtok(Fx, i.ops[1])
                v = Fx.mem.get((p[1], p[2] + 32))
                if m == 'emplace' and len(i.ops) > 2:
                    q = Fx.ptr(i.ops[2])
                    v = Fx.mem.get((q[1], q[2]))
                ix = [j for j, x in enumerate(L) if x[0] == k]
                if ix:
                    return [(('agg', self.pos(n, L, ix[0]), 0), a, {})]
                up = self.added(n, L, k, v)
                return [(('agg', ('p', '#node:%s:%s' % (n, k), 0), 1), a, up)]
            if m == 'clear':
                return [(None, a, {('#map:' + n, 0): ('m', ())})]
            return None
        if c.startswith(('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::_List_iterator', 'std::_List_const_iterator')):
            if m.startswith('_Rb_tree') or m.startswith('_List'):
                p = Fx.ptr(i.ops[0])
                if p[2] is None:
                    return None
                v = None
                if len(i.ops) > 1:
                    q = Fx.ptr(i.ops[1])
                    v = Fx.mem.get((q[1], q[2]))
                return [(None, a, {(p[1], p[2]): v} if v is not None else {})]
            p = Fx.ptr(i.ops[0])
            v = Fx.mem.get((p[1], p[2])) if p[2] is not None else None
            if type(v) is not tuple or not str(v[1]).startswith(('#node:', '#end:')):
                return None
            if m in ('operator->', 'operator*'):
                return [(v, a, {})] if v[1].startswith('#node:') else []
            if m in ('operator++', 'operator--'):
                n = v[1].split(':', 2)[1]
                L = self.items(Fx.mem, n)
                if L is None or v[1].startswith('#end:'):
                    return []
                ks = [x[0] for x in L]
                k = v[1].split(':', 2)[2]
                if k not in ks:
                    return []          # erased element: undefined
                nv = self.pos(n, L, ks.index(k) + 1) if m == 'operator++' else self.pos(n, L, ks.index(k) - 1)
                return [(v if len(i.ops) > 1 else ('p',) + Fx.ptr(i.ops[0])[1:], a, {(p[1], p[2]): nv})]
        if c in ('std::operator!=', 'std::operator==') and len(i.ops) == 2:
            w = []
            for o in i.ops:
                p = Fx.ptr(o)
                w.append(Fx.mem.get((p[1], p[2])) if p[2] is not None else None)
            if all(type(x) is tuple and str(x[1]).startswith(('#node:', '#end:')) for x in w):
                return [(int((w[0] == w[1]) == (m == 'operator==')), a, {})]
        return None

    def added(self, n, L, k, v):
        up = {('#map:' + n, 0): ('m', tuple(sorted(L + ((k, v),), key=lambda x: str(x[0]))))}
        if v is not None:
            up[('#node:%s:%s' % (n, k), 32)] = v
        up[('#node:%s:%s' % (n, k), 0)] = ('p', '#str:%s' % (k,), 0)
        return up
