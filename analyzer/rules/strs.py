"""std::string, std::list and std::regex over the abstract memory: a string is a
sequence of literal characters and opaque tokens (of known length), a list a sequence
of nodes, a regex its pattern and flags."""
NPOS = (1 << 64) - 1


def lit(s):
    return tuple((c, 1) for c in s)


def opaque(name, n=100):
    return (('<%s>' % name, n),)


def slen(segs):
    return sum(n for _, n in segs)


class Strs:
    def __init__(self, names=None):
        self.tab, self.ids = [], {}
        self.names = dict(names or {})      # memory root of a C string -> segments

    def root(self, segs):
        segs = tuple(segs)
        if segs not in self.ids:
            self.ids[segs] = '#S%d' % len(self.tab)
            self.tab.append(segs)
        return self.ids[segs]

    def ptr(self, segs):
        return ('p', self.root(segs), 0)

    def chars(self, segs):
        """cells with the characters of a string; 127 stands for a character the code does not test for"""
        r, k, out = self.root(segs), 0, {}
        for t, n in segs:
            for j in range(n):
                out[(r, k + j)] = ord(t) if len(t) == 1 else 127
            k += n
        out[(r, k)] = 0
        return out

    def byroot(self, r, off=0):
        if type(r) is str and r.startswith('dup:'):
            return self.byroot(r[4:], off)
        if type(r) is tuple and r and r[0] == 's':
            s = lit(r[1]) if type(r[1]) is str else None
        elif type(r) is str and r.startswith('#S') and r[2:].isdigit():
            s = self.tab[int(r[2:])]
        else:
            s = self.names.get(r)
        return self.cut(s, off) if s is not None and off else s

    def raw(self, Fx, o, n):
        """n characters at an address, when all are known"""
        v = Fx.val(o)
        p = v if type(v) is tuple else Fx.ptr(o)
        if p[2] is None or n > 4096:
            return None
        c = [Fx.mem.get((p[1], p[2] + k)) for k in range(n)]
        return tuple((chr(x & 255), 1) for x in c) if all(type(x) is int for x in c) else None

    def of(self, Fx, o):
        """segments of a std::string object or a C string operand"""
        v = Fx.val(o)
        p = v if type(v) is tuple else Fx.ptr(o)
        if p[2] is None:
            return None
        c = Fx.mem.get((p[1], p[2]))
        if type(c) is tuple and type(c[1]) is str and c[1].startswith('#S') and c[2] == 0:
            return self.byroot(c[1])
        return self.byroot(p[1], p[2])

    def cut(self, s, a, n=NPOS):
        """substring; None when it splits an opaque token"""
        out, k = [], 0
        b = min(slen(s), a + n)
        if a > slen(s):
            return None
        for t, m in s:
            if k >= a and k + m <= b:
                out.append((t, m))
            elif k + m <= a or k >= b:
                pass
            else:
                lo, hi = max(k, a) - k, min(k + m, b) - k
                out.append(('%s[%d:%d]' % (t, lo, hi), hi - lo))
            k += m
        return tuple(out)

    def find(self, s, what, start):
        """first position >= start; None unknown"""
        k = 0
        L = []
        for t, m in s:
            L.append((k, t, m))
            k += m
        if all(m == 1 and len(x) == 1 for x, m in s + what) and what:
            k = ''.join(x for x, _ in s).find(''.join(x for x, _ in what), start)
            return NPOS if k < 0 else k
        if len(what) != 1 or what[0][1] != 1:
            return None
        c = what[0][0]
        for k, t, m in L:
            if k + m <= start:
                continue
            if m == 1 and t == c:
                return k
            if (m > 1 or len(t) > 1) and c not in ':!\n#.$':
                return None
        return NPOS

    def same(self, x, y):
        if x is None or y is None:
            return None
        if x == y:
            return 1
        if all(n == 1 and len(t) == 1 for t, n in x + y) or not x or not y:
            return 0
        return None

    def eq(self, x, y):
        r = self.same(x, y)
        return (0, 1) if r is None else (r,)

    def model(self, i, a, Fx):
        c = i.callee or ''
        m = c.rsplit('::', 1)[-1]
        ops = i.ops
        if c in ('std::operator==', 'std::operator!=') and len(ops) == 2:
            x, y = self.of(Fx, ops[0]), self.of(Fx, ops[1])
            if x is None or y is None:
                return None
            return [(int(r == (m == 'operator==')), a, {}) for r in self.eq(x, y)]
        if (c == 'std::operator+' or c.startswith('std::operator+<')) and len(ops) == 3:
            p = Fx.ptr(ops[0])
            w = []
            for o in ops[1:]:
                v = Fx.get(o)
                w.append(lit(chr(v & 255)) if type(v) is int and o[0] == 'c' else self.of(Fx, o))
            if None in w or p[2] is None:
                return None
            return [(None, a, {(p[1], p[2]): self.ptr(w[0] + w[1])})]
        if c in ('strncmp', 'strncasecmp') and Fx.get(ops[2]) is not None:
            x, y = (self.of(Fx, o) for o in ops[:2])
            x, y = (self.cut(z, 0, Fx.get(ops[2])) if z is not None else None for z in (x, y))
            return [(0 if r else 1, a, {}) for r in self.eq(x, y)] if x is not None and y is not None else None
        if c in ('strlen', 'strcmp', 'strchr', 'strdup'):
            s = self.of(Fx, ops[0])
            if s is None:
                return None
            if c == 'strlen':
                return [(slen(s), a, {})]
            if c == 'strcmp':
                y = self.of(Fx, ops[1])
                return [(0 if r else 1, a, {}) for r in self.eq(s, y)] if y is not None else None
            if c == 'strdup':
                return [(('p', 'dup:' + self.root(s), 0), a, {})]
            v = Fx.get(ops[1])
            k = self.find(s, lit(chr(v & 255)), 0) if v is not None else None
            if k is None:
                return None
            q = Fx.val(ops[0])
            return [(0 if k == NPOS else ('p', q[1], q[2] + k), a, {})]
        if not c.startswith('std::basic_string::'):
            return None
        p = Fx.ptr(ops[0])
        cell = (p[1], p[2]) if p[2] is not None else None
        if cell is None:
            return None
        put = lambda s: [(('p',) + cell if i.ty == 'ptr' else None, a, {cell: self.ptr(s)})] if s is not None else [(None, a, {cell: ('p', '#unknown', 0)})]
        if m == 'basic_string':
            if len(ops) == 1 or len(ops) == 2 and Fx.val(ops[1]) is None and self.of(Fx, ops[1]) is None and ops[1][0] == 'v' and Fx.fn.inst(ops[1]) is not None and Fx.fn.inst(ops[1]).op == 'alloca':
                return put(())
            s = self.of(Fx, ops[1])
            n = [Fx.get(o) for o in ops[2:]]
            if s is None and n and type(n[0]) is int:
                s = self.raw(Fx, ops[1], n[0])
                n = n[1:] if s is not None else n
            if s is not None and n and type(n[0]) is int:
                s = self.cut(s, n[0], n[1]) if len(n) > 1 and type(n[1]) is int else self.cut(s, 0, n[0])
            return put(s)
        if m == '~basic_string':
            return [(None, a, {})]
        s = self.of(Fx, ops[0])
        if m in ('operator=', 'assign'):
            s = self.of(Fx, ops[1])
            n = [Fx.get(o) for o in ops[2:]]
            if s is not None and n:
                s = self.cut(s, n[0], n[1]) if len(n) > 1 else self.cut(s, 0, n[0])
            if s is None and Fx.get(ops[1]) is not None:
                s = lit(chr(Fx.get(ops[1]) & 255))
            return put(s)
        if m == 'clear':
            return [(None, a, {cell: self.ptr(())})]
        if m == 'substr':
            s = self.of(Fx, ops[1])
            x, n = Fx.get(ops[2]) if len(ops) > 2 else 0, Fx.get(ops[3]) if len(ops) > 3 else NPOS
            if s is None or x is None or n is None:
                return put(None)
            if x > slen(s):
                return []
            return put(self.cut(s, x, n))
        if s is None:
            return None
        if m == 'empty':
            return [(int(not s), a, {})]
        if m in ('size', 'length'):
            return [(slen(s), a, {})]
        if m in ('c_str', 'data'):
            return [(self.ptr(s), a, self.chars(s))]
        if m in ('operator[]', 'at', 'front', 'back'):
            k = Fx.get(ops[1]) if len(ops) > 1 else 0 if m == 'front' else slen(s) - 1
            if k is None or k > slen(s):
                return None
            return [(('p', self.root(s), k), a, self.chars(s))]
        if m in ('find', 'find_first_of'):
            v = Fx.get(ops[1])
            w = lit(chr(v & 255)) if type(v) is int else self.of(Fx, ops[1])
            st = Fx.get(ops[2]) if len(ops) > 2 else 0
            k = self.find(s, w, st) if w is not None and st is not None else None
            return [(k, a, {})] if k is not None else None
        if m in ('rfind', 'find_last_of') and (len(ops) < 3 or Fx.get(ops[2]) == NPOS):
            v = Fx.get(ops[1])
            w = lit(chr(v & 255)) if type(v) is int else self.of(Fx, ops[1])
            k, r = (self.find(s, w, 0) if w else None), NPOS
            while k is not None and k != NPOS:
                r, k = k, self.find(s, w, k + 1)
            return [(r, a, {})] if k is not None else None
        if m in ('operator+=', 'append', 'push_back'):
            v = Fx.get(ops[1])
            w = lit(chr(v & 255)) if type(v) is int else self.of(Fx, ops[1])
            return put(s + w if w is not None else None)
        if m == 'erase':
            k = [Fx.get(o) for o in ops[1:]]
            if None in k:
                return None
            k = (k + [0, NPOS][len(k):])[:2]
            x, y = self.cut(s, 0, k[0]), self.cut(s, min(slen(s), k[0] + k[1]))
            return put(x + y)
        if m == 'compare' and len(ops) in (4, 5):
            w, k, n = self.of(Fx, ops[3]), Fx.get(ops[1]), Fx.get(ops[2])
            if len(ops) == 5 and w is not None:
                w = self.cut(w, 0, Fx.get(ops[4])) if Fx.get(ops[4]) is not None else None
            if w is None or k is None or n is None:
                return None
            if k > slen(s):
                return []
            y = self.cut(s, k, n)
            return [(0 if r else 1, a, {}) for r in self.eq(y, w)] if y is not None else None
        if m == 'compare' and len(ops) == 2:
            w = self.of(Fx, ops[1])
            return [(0 if r else 1, a, {}) for r in self.eq(s, w)] if w is not None else None
        return None


class Regex:
    """regex objects: cell -> ('p', '#R<k>', 0), table of (pattern segments, flags)"""

    def __init__(self, strs):
        self.strs, self.tab = strs, []

    def ptr(self, pat, flags):
        x = (pat, flags)
        if x not in self.tab:
            self.tab.append(x)
        return ('p', '#R%d' % self.tab.index(x), 0)

    def of(self, Fx, o):
        p = Fx.ptr(o)
        c = Fx.mem.get((p[1], p[2])) if p[2] is not None else None
        return self.tab[int(c[1][2:])] if type(c) is tuple and str(c[1]).startswith('#R') else None

    def model(self, i, a, Fx):
        c = i.callee or ''
        m = c.rsplit('::', 1)[-1]
        if c.startswith('std::regex_constants::operator'):
            x, y = Fx.get(i.ops[0]), Fx.get(i.ops[1]) if len(i.ops) > 1 else 0
            if x is None or y is None:
                return None
            return [({'operator|': x | y, 'operator&': x & y, 'operator^': x ^ y}.get(m), a, {})]
        if c.startswith('std::basic_regex::'):
            p = Fx.ptr(i.ops[0])
            if p[2] is None:
                return None
            if m == '~basic_regex':
                return [(None, a, {})]
            if m in ('basic_regex', 'operator=', 'assign'):
                r = self.of(Fx, i.ops[1]) if len(i.ops) > 1 else ((), 16)
                if r is None:
                    s = self.strs.of(Fx, i.ops[1])
                    f = Fx.get(i.ops[2]) if len(i.ops) > 2 else 16
                    if s is None or f is None:
                        return [(None, a, {(p[1], p[2]): ('p', '#unknown', 0)})]
                    r = (s, f)
                return [(('p', p[1], p[2]) if i.ty == 'ptr' else None, a, {(p[1], p[2]): self.ptr(*r)})]
            return None
        if c in ('std::regex_match', 'std::regex_search'):
            r, s = self.of(Fx, i.ops[1]), self.strs.of(Fx, i.ops[0])
            if r is None or s is None:
                return None
            k = ('match' if c == 'std::regex_match' else 'search', s, r)
            for e in a:
                if e[:3] == k:
                    return [(e[3], a, {})]
            if c == 'std::regex_match' and r[0] == lit('.*'):
                return [(1, a, {})]
            return [(v, a + (k + (v,),), {}) for v in (0, 1)]
        return None


class Lists:
    """std::list objects at any address: ('#list', address) -> ('m', nodes); nodes are memory roots"""

    def __init__(self, size):
        self.size = size

    def key(self, p):
        return (('#list', p[1], p[2]), 0)

    def items(self, mem, p):
        v = mem.get(self.key(p))
        return v[1] if v else None

    def put(self, mem, p, nodes):
        mem[self.key(p)] = ('m', tuple(nodes))

    def pos(self, p, L, k):
        return ('p', L[k], 0) if k < len(L) else ('p', '#end:%s:%s' % (p[1], p[2]), 0)

    def copy(self, Fx, src, dst, up):
        for (r, o), v in list(Fx.mem.items()):
            if r == src[1] and src[2] <= o < src[2] + self.size:
                up[(dst, o - src[2])] = v

    def model(self, i, a, Fx):
        c = i.callee or ''
        m = c.rsplit('::', 1)[-1]
        if c.startswith('std::list::'):
            p = Fx.ptr(i.ops[0])
            if p[2] is None:
                return None
            L = self.items(Fx.mem, p)
            fresh = lambda n: ['#ln%d' % (len([e for e in a if e[0] == 'node']) + k) for k in range(n)]
            if m in ('list', 'operator='):
                if len(i.ops) == 1:
                    return [(None, a, {self.key(p): ('m', ())})]
                q = Fx.ptr(i.ops[1])
                S = self.items(Fx.mem, q) if q[2] is not None else None
                if S is None:
                    return None
                if m == 'operator=' and q == p:
                    return [(('p',) + p[1:], a, {})]
                N, up = fresh(len(S)), {}
                for x, y in zip(S, N):
                    self.copy(Fx, ('p', x, 0), y, up)
                up[self.key(p)] = ('m', tuple(N))
                return [(('p',) + p[1:] if i.ty == 'ptr' else None, a + tuple(('node', x) for x in N), up)]
            if L is None:
                return None
            if m in ('~list', 'clear'):
                return [(None, a + ((m, p[1], p[2], i.where),), {self.key(p): ('m', ()) if m == 'clear' else ('p', '#dead', 0)})]
            if m in ('push_back', 'push_front', 'insert'):
                src = Fx.ptr(i.ops[-1])
                if src[2] is None:
                    return None
                n, up = fresh(1)[0], {}
                self.copy(Fx, src, n, up)
                k = len(L) if m == 'push_back' else 0
                if m == 'insert':
                    return None
                up[self.key(p)] = ('m', L[:k] + (n,) + L[k:])
                return [(None, a + (('node', n),), up)]
            if m in ('emplace_back', 'emplace_front'):
                n, up = fresh(1)[0], {}
                if len(i.ops) - 1 != len(self.fields):
                    return None
                for (off, kind), o in zip(self.fields, i.ops[1:]):
                    q = Fx.ptr(o)
                    v = Fx.mem.get((q[1], q[2]))
                    if v is None:
                        return None
                    up[(n, off)] = v
                up[self.key(p)] = ('m', L + (n,) if m == 'emplace_back' else (n,) + L)
                return [(('p', n, 0) if i.ty == 'ptr' else None, a + (('node', n),), up)]
            if m == 'swap':
                q = Fx.ptr(i.ops[1])
                S = self.items(Fx.mem, q)
                if S is None:
                    return None
                return [(None, a, {self.key(p): ('m', S), self.key(q): ('m', L)})]
            if m in ('begin', 'cbegin'):
                return [(self.pos(p, L, 0), a, {})]
            if m in ('end', 'cend'):
                return [(self.pos(p, L, len(L)), a, {})]
            if m == 'size':
                return [(len(L), a, {})]
            if m == 'empty':
                return [(int(not L), a, {})]
            if m in ('front', 'back'):
                return [(('p', L[0 if m == 'front' else -1], 0), a, {})] if L else []
            return None
        if c.startswith(('std::_List_iterator', 'std::_List_const_iterator')):
            p = Fx.ptr(i.ops[0])
            if p[2] is None:
                return None
            if m.startswith('_List'):
                if len(i.ops) == 1:
                    return [(None, a, {})]
                q = Fx.ptr(i.ops[1])
                v = Fx.mem.get((q[1], q[2]))
                return [(None, a, {(p[1], p[2]): v} if v is not None else {})]
            v = Fx.mem.get((p[1], p[2]))
            if type(v) is not tuple or not str(v[1]).startswith(('#ln', '#end:')):
                return None
            if m in ('operator->', 'operator*'):
                return [(v, a, {})] if v[1].startswith('#ln') else []
            if m in ('operator++', 'operator--'):
                for k, x in Fx.mem.items():
                    if type(k[0]) is tuple and k[0][0] == '#list' and type(x) is tuple and x[0] == 'm':
                        lp = ('p', k[0][1], k[0][2])
                        if v[1] in x[1]:
                            j = x[1].index(v[1]) + (1 if m == 'operator++' else -1)
                        elif m == 'operator--' and v == self.pos(lp, x[1], len(x[1])):
                            j = len(x[1]) - 1
                        else:
                            continue
                        if j < 0:
                            return []
                        nv = self.pos(lp, x[1], j)
                        return [(v if len(i.ops) > 1 else ('p', p[1], p[2]), a, {(p[1], p[2]): nv})]
                return []
        if c in ('std::operator!=', 'std::operator==') and len(i.ops) == 2:
            w = []
            for o in i.ops:
                p = Fx.ptr(o)
                w.append(Fx.mem.get((p[1], p[2])) if p[2] is not None else None)
            if all(type(x) is tuple and str(x[1]).startswith(('#ln', '#end:')) for x in w):
                return [(int((w[0] == w[1]) == (m == 'operator==')), a, {})]
        return None
