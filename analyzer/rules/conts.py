"""Standard sets, multisets, maps and lists of the recovery tool as finite sequences in the abstract memory."""
ITERS = ('std::_Rb_tree_const_iterator', 'std::_Rb_tree_iterator', 'std::_List_const_iterator', 'std::_List_iterator')
CONT = ('std::set', 'std::multiset', 'std::map', 'std::multimap', 'std::list', 'std::vector')
W = 64


class Conts:
    """less(name, a, b, mem) -> bool orders the elements of the sets; an element is the tuple of its cells"""

    def __init__(self, width, less):
        self.width, self.less = width, less      # width: {container cell: cells of an element}

    @staticmethod
    def key(p):
        return '#c:%s:%s' % (p[1], p[2])

    def items(self, mem, p):
        v = mem.get((self.key(p), -1))
        return v[1] if v else ()

    def put(self, p, L):
        k = self.key(p)
        up = {(k, -1): ('L', tuple(L))}
        for n, e in enumerate(L):
            for c, x in enumerate(e):
                up[(k, n * W + 8 * c)] = x
        return up

    def elem(self, Fx, p, q):
        return tuple(Fx.mem.get((q[1], q[2] + 8 * c)) for c in range(self.width.get((p[1], p[2]), 1)))

    def model(self, i, v, Fx, ev):
        c = i.callee or ''
        cls, _, m = c.rpartition('::')
        if c in ('std::operator!=', 'std::operator=='):
            a, b = (Fx.mem.get((x[1], x[2])) if type(x) is tuple else None for x in v[:2])
            return [(int((a == b) == c.endswith('==')), (), {})] if a is not None and b is not None else None
        if cls in ITERS:
            p = v[0]
            if type(p) is not tuple or p[2] is None:
                return None
            it = Fx.mem.get((p[1], p[2]))
            if m == cls.split('::')[1] or m.endswith('iterator'):
                if len(v) == 1:
                    return [(None, (), {(p[1], p[2]): 0})]
                x = v[1]
                if type(x) is tuple and str(x[1]).startswith('#c:'):
                    return [(None, (), {(p[1], p[2]): x})]
                if type(x) is tuple and x[2] is not None:
                    return [(None, (), {(p[1], p[2]): Fx.mem.get((x[1], x[2]))})]
                return None
            if type(it) is not tuple:
                return None
            if m in ('operator*', 'operator->'):
                return [(it, (), {})]
            if m in ('operator++', 'operator--'):
                n = ('p', it[1], it[2] + (W if m == 'operator++' else -W))
                return [(p if len(v) == 1 else it, (), {(p[1], p[2]): n})]
            return None
        if cls not in CONT:
            return None
        p = v[0]
        if type(p) is not tuple or p[2] is None:
            return None
        k, L = self.key(p), self.items(Fx.mem, p)
        short = cls.split('::')[1]
        if m == short and len(v) == 1:
            return [(None, (), self.put(p, ()))]
        if m == '~' + short:
            return [(None, (), {})]
        if m in ('begin', 'cbegin'):
            return [(('p', k, 0), (), {})]
        if m in ('end', 'cend'):
            return [(('p', k, len(L) * W), (), {})]
        if m == 'empty':
            return [(int(not L), (), {})]
        if m == 'size':
            return [(len(L), (), {})]
        if m == 'clear':
            return [(None, (), self.put(p, ()))]
        if m == 'operator=' or m == short and len(v) == 2:
            q = v[1]
            if type(q) is tuple and q[2] is not None:
                return [(p, (), self.put(p, self.items(Fx.mem, q)))]
            return None
        q = v[1] if len(v) > 1 else None
        if m == 'erase' and type(q) is tuple and q[1] == k:
            n = q[2] // W
            return [(('p', k, q[2]), (('erase', k, L[n] if n < len(L) else None),), self.put(p, L[:n] + L[n + 1:]))]
        if type(q) is not tuple or q[2] is None:
            return None
        if m in ('push_back', 'push_front', 'emplace_back'):
            e = self.elem(Fx, p, q)
            return [(None, (('put', k, e),), self.put(p, L + (e,) if 'back' in m else (e,) + L))]
        if m in ('find', 'count', 'operator[]', 'at'):
            x = Fx.mem.get((q[1], q[2]))
            if x is None:
                return None
            n = [j for j, e in enumerate(L) if e[0] == x]
            if m == 'count':
                return [(len(n), (), {})]
            if m == 'find':
                return [(('p', k, (n[0] if n else len(L)) * W), (), {})]
            if n:
                return [(('p', k, n[0] * W + 8), (), {})]
            return [(('p', k, len(L) * W + 8), (), self.put(p, L + ((x, 0),)))]
        if m in ('insert', 'emplace'):
            e = self.elem(Fx, p, q)
            multi = 'multi' in short
            if short in ('map',):
                n = [j for j, x in enumerate(L) if x[0] == e[0]]
                if n:
                    return [(('agg', ('p', k, n[0] * W), 0), (), {})]
                return [(('agg', ('p', k, len(L) * W), 1), (('put', k, e),), self.put(p, L + (e,)))]
            n = 0
            while n < len(L):
                r = self.less(k, e, L[n], Fx.mem)
                if r is None:
                    return None
                if r:
                    break
                n += 1
            if not multi and n and not self.less(k, L[n - 1], e, Fx.mem):
                return [(('agg', ('p', k, (n - 1) * W), 0), (('dup', k, e),), {})]
            r = ('p', k, n * W)
            return [(r if multi else ('agg', r, 1), (('put', k, e),), self.put(p, L[:n] + (e,) + L[n:]))]
        return None
