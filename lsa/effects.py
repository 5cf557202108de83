"""Modification effects: which memory reachable from its parameters may a function write?

Bottom-up summaries over the whole call graph (fixpoint, flow-insensitive inside of a function).  An origin is
  ('a', k, 0, off)   a pointer into the object parameter k points to (off: byte offset or None)
  ('a', k, 1, None)  memory reached through at least one pointer stored in that object
  ('L', id)          a local or a fresh heap object
"""
MEMW = {'memcpy': 0, 'memmove': 0, 'memset': 0, 'strcpy': 0, 'strcat': 0, 'strncpy': 0, 'snprintf': 0, 'sprintf': 0, 'vsnprintf': 0,
        'read': 1, 'recv': 1, 'recvfrom': 1, 'pread': 1, 'wcscpy': 0, 'readlink': 1, 'poll': 0, 'epoll_wait': 1, 'stat': 1, 'fstat': 1, 'lstat': 1,
        'gettimeofday': 0, 'localtime_r': 1, 'gmtime_r': 1, 'clock_gettime': 1, 'sigfillset': 0, 'time': 0,
        'pthread_mutex_lock': 0, 'pthread_mutex_unlock': 0, 'pthread_mutex_trylock': 0, 'pthread_cond_wait': 0, 'pthread_cond_signal': 0}
FRESH = ('_Znwm', '_Znam', 'malloc', 'calloc', 'realloc', '__cxa_allocate_exception')


class Summary(object):
    __slots__ = ('w', 'ret', 'flow')

    def __init__(self):
        self.w = {}        # (k, lvl, off, kind) -> (fn, line, callee or None)
        self.ret = set()
        self.flow = set()  # ((k,lvl), (j,lvl,off))

    def size(self):
        return len(self.w) + len(self.ret) + len(self.flow)


def deref(o):
    return ('a', o[1], 1, None) if o[0] == 'a' else None


class Effects(object):
    def __init__(self, P, skip=lambda n: False):
        self.P = P
        self.skip = skip
        self.S = {}
        self.cg = P.callgraph()
        self.visits = 0
        self.comp = {}
        self.tg = {}
        for scc in self.sccs():
            for n in scc:
                self.comp[n] = id(scc)
            work = list(scc)
            for rounds in range(6):
                ch = False
                for n in work:
                    self.visits += 1
                    if self.analyse(P.F[n]):
                        ch = True
                if not ch or len(scc) == 1 and n not in self.cg.get(n, ()):
                    break

    def sccs(self):
        """strongly connected components, callees first (iterative Tarjan)"""
        P = self.P
        idx, low, on, st, out, cnt = {}, {}, set(), [], [], 0
        for root in P.F:
            if root in idx:
                continue
            stack = [(root, iter([b for b in self.cg.get(root, ()) if b in P.F]))]
            idx[root] = low[root] = cnt
            cnt += 1
            st.append(root)
            on.add(root)
            while stack:
                n, it = stack[-1]
                for b in it:
                    if b not in idx:
                        idx[b] = low[b] = cnt
                        cnt += 1
                        st.append(b)
                        on.add(b)
                        stack.append((b, iter([x for x in self.cg.get(b, ()) if x in P.F])))
                        break
                    if b in on:
                        low[n] = min(low[n], idx[b])
                else:
                    stack.pop()
                    if stack:
                        low[stack[-1][0]] = min(low[stack[-1][0]], low[n])
                    if low[n] == idx[n]:
                        c = []
                        while True:
                            x = st.pop()
                            on.discard(x)
                            c.append(x)
                            if x == n:
                                break
                        out.append(c)
        return out

    def targets(self, f, i):
        P = self.P
        c = i[3]
        if isinstance(c, list) and c[0] == 'g':
            return [P.alias.get(c[1], c[1])]
        k = (f.n, i[0], i[2], id(i))
        r = self.tg.get(k)
        if r is None:
            v = P.vclass(f, i)
            r = self.tg[k] = P.vcall_targets(*v) if v else []
        return r

    def analyse(self, f):
        s = self.S.get(f.n)
        if s is None:
            s = self.S[f.n] = Summary()
        before = s.size()
        if self.skip(f.n):
            return False
        org = {}
        mem = {}          # base -> {offset: origins}
        ins = list(f.instrs())

        def o(v):
            if isinstance(v, list):
                if v[0] == 'a':
                    return {('a', v[1], 0, 0)}
                if v[0] == 'e' and len(v) > 2 and v[1] in ('bitcast', 'inttoptr', 'ptrtoint'):
                    return o(v[2])
                return ()
            return org.get(v, ())

        def add(r, vs):
            x = org.get(r)
            if x is None:
                x = org[r] = set()
            if vs <= x if isinstance(vs, set) else all(v in x for v in vs):
                return False
            new = x | set(vs)
            if len(new) > 16:      # collapse offsets
                new = {e[:-1] + (None,) for e in new}
            if new == x:
                return False
            org[r] = new
            return True

        def key(p):
            """memory cell designated by the origin"""
            if p[0] == 'L':
                return p[:2], p[2]
            if p[2] == 0:
                return p[:3], p[3]
            return p[:3] + (p[3],), None

        def madd(p, vs):
            b, off = key(p)
            d = mem.setdefault(b, {})
            if off is not None and off not in d and len(d) > 24:
                off = None
            x = d.setdefault(off, set())
            n = len(x)
            x.update(vs)
            return len(x) != n

        def cell(p):
            b, off = key(p)
            d = mem.get(b)
            if not d:
                return ()
            if off is None:
                return {v for vs in d.values() for v in vs}
            r = d.get(off, set())
            n = d.get(None)
            return r | n if n else r

        def copy(p):
            """(offset relative to p, contents) of the memory p points to"""
            b, off = key(p)
            d = mem.get(b) or {}
            return [(k - off if k is not None and off is not None else None, set(v)) for k, v in d.items() if k is None or off is None or k >= off]

        def loadfrom(os):
            r = set()
            for p in os:
                if p[0] == 'a':
                    r.add(('a', p[1], min(p[2] + 1, 2), p[3]))
                r.update(cell(p))
            return r

        def write(os, kind, i, callee=None):
            for p in os:
                if p[0] == 'a':
                    k = (p[1], p[2], p[3], kind)
                    if k not in s.w and (p[1], p[2], None, kind) not in s.w:
                        if sum(1 for q in s.w if q[0] == p[1]) > 24:
                            k = (p[1], p[2], None, kind)
                        s.w.setdefault(k, (f.n, i[2], callee))

        ch = True
        rounds = 0
        while ch and rounds < 12:
            ch = False
            rounds += 1
            for i in ins:
                op = i[1]
                if op == 'gep':
                    vs = set()
                    for p in o(i[3]):
                        if p[0] == 'L' or p[2] == 0:
                            off = p[-1]
                            off = off + i[4] if off is not None and not i[5] else None
                            vs.add(p[:-1] + (off,))
                        else:
                            vs.add(p)
                    ch |= add(i[0], vs)
                elif op == 'cast':
                    ch |= add(i[0], o(i[4]))
                elif op == 'phi':
                    for v, b in i[3]:
                        ch |= add(i[0], o(v))
                elif op == 'select':
                    ch |= add(i[0], o(i[4]))
                    ch |= add(i[0], o(i[5]))
                elif op == 'xv':
                    ch |= add(i[0], o(i[3]))
                elif op == 'iv':
                    ch |= add(i[0], o(i[3]))
                    ch |= add(i[0], o(i[4]))
                elif op == 'alloca':
                    ch |= add(i[0], {('L', i[0], 0)})
                elif op == 'load':
                    if i[4] in ('ptr',) or i[4].startswith('{'):
                        ch |= add(i[0], loadfrom(o(i[3])))
                elif op == 'store':
                    d = o(i[4])
                    vs = o(i[3])
                    if vs:
                        for p in d:
                            ch |= madd(p, vs)
                    write(d, 'a' if len(i) > 6 and i[6] else 'w', i)
                elif op == 'rmw':
                    write(o(i[4]), 'a', i)
                elif op == 'cmpxchg':
                    write(o(i[3]), 'a', i)
                elif op == 'call':
                    ch |= self.call(f, s, i, o, add, madd, write, loadfrom, copy)
                elif op == 'ret' and i[3] is not None:
                    for p in o(i[3]):
                        if p[0] == 'a':
                            s.ret.add(p)
                        else:
                            s.ret.add(('N',))
                            for vs in mem.get(p[:2], {}).values():
                                for q in vs:
                                    if q[0] == 'a':
                                        s.ret.add(q)
        for b, d in mem.items():
            if b[0] == 'a':
                for off, vs in d.items():
                    for v in vs:
                        if v[0] == 'a' and v[1] != b[1]:
                            s.flow.add(((b[1], b[2], off if b[2] == 0 else b[3]), v[1:]))
        return s.size() != before

    def call(self, f, s, i, o, add, madd, write, loadfrom, copy):
        ch = False
        args = i[4]
        c = i[3]
        if isinstance(c, list) and c[0] == 'g':
            n = c[1]
            if n.startswith('llvm.mem'):
                write(o(args[0]), 'w', i)
                if 'cpy' in n or 'move' in n:
                    for p in o(args[1]):
                        if p[0] == 'a':
                            cells = [(None, {('a', p[1], min(p[2] + 1, 2), p[3])})]
                        else:
                            cells = []
                        cells += copy(p)
                        for off, vs in cells:
                            for q in o(args[0]):
                                if q[0] == 'L' or q[2] == 0:
                                    q = q[:-1] + (q[-1] + off if q[-1] is not None and off is not None else None,)
                                ch |= madd(q, vs)
                return ch
            if n in FRESH:
                return add(i[0], {('L', i[0], 0)})
            if n in MEMW and n not in self.P.F:
                if MEMW[n] < len(args):
                    write(o(args[MEMW[n]]), 'w', i)
                return ch
        for n in self.targets(f, i):
            t = self.S.get(n)
            if t is None:
                continue
            rec = n in self.comp and self.comp.get(n) == self.comp.get(f.n)

            def shift(p, off):
                if p[0] == 'L' or p[2] == 0:
                    if rec and p[-1] != 0:      # keeps the offsets of recursive calls bounded
                        off = None
                    return p[:-1] + (p[-1] + off if p[-1] is not None and off is not None else None,)
                return p

            def tr(k, l, off):
                """origins of the caller which (level l, offset off) of parameter k of the callee stands for"""
                if k >= len(args):
                    return ()
                if l == 0:
                    return {shift(p, off) for p in o(args[k])}
                r = loadfrom({shift(p, off) for p in o(args[k])})
                if l > 1:
                    r = set(loadfrom(r))
                # anything inside of the object that was reached
                return {p[:-1] + (None,) if p[0] == 'L' or p[2] == 0 else p for p in r}

            for (k, l, off, kind) in list(t.w):
                write(tr(k, l, off), kind, i, n)
            for r in list(t.ret):
                if r[0] == 'N':
                    ch |= add(i[0], {('L', i[0], 0)})
                    continue
                vs = tr(r[1], r[2], r[3])
                if vs:
                    ch |= add(i[0], set(vs))
                    if ('N',) in t.ret:
                        ch |= madd(('L', i[0], None), vs)
            for (dk, dl, do), (vk, vl, vo) in list(t.flow):
                vs = tr(vk, vl, vo)
                if vs:
                    for p in tr(dk, dl, do):
                        ch |= madd(p, vs)
        return ch
