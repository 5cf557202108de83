"""Which exception classes may leave a function (flow-insensitive in values, exact in handlers).

For every function, and separately for the case that it is called while another exception is being propagated ('u'), the set of
type_infos ('?' = unknown) that may escape is computed as a fixpoint over the call graph.  A typed catch clause stops the class and
everything derived from it, catch(...) and exception filters stop everything; what a handler throws again is what its landing pads
received.  A branch on std::uncaught_exception() is resolved where it is known that an exception is on the way."""

ALLOC = ('_Znwm', '_Znam', '__cxa_throw_bad_array_new_length', '__cxa_bad_typeid')
UNC = ('_ZSt18uncaught_exceptionv', '_ZSt19uncaught_exceptionsv')


class Throws(object):
    def __init__(self, P, skip=()):
        """`skip`: short names of functions considered never to throw"""
        self.P = P
        self.skip = set(skip)
        self.esc = {(n, u): frozenset() for n in P.F for u in (0, 1)}
        self.site = {}
        self.info = {}
        self._lp = {}
        rev = {}
        for f in P.F.values():
            for u in (0, 1):
                l = self._calls(f, u)
                self.info[f.n, u] = l
                for i, names, cu in l:
                    for x in names:
                        if x in P.F:
                            rev.setdefault((x, cu), set()).add((f.n, u))
        work = set(self.esc)
        while work:
            k = work.pop()
            e = self._one(*k)
            if e != self.esc[k]:
                self.esc[k] = e
                work |= rev.get(k, set())

    def _calls(self, f, u):
        """(call, targets, context) of all reachable calls: forward over the blocks, mode 1 = an exception is on the way"""
        P = self.P
        seen = {}
        wl = [(0, u)]
        unc = {i[0] for i in f.instrs() if i[1] == 'call' and (P.callees(f, i)[0] or [''])[0] in UNC}
        while wl:
            b, m = wl.pop()
            if m in seen.get(b, ()):
                continue
            seen.setdefault(b, set()).add(m)
            cur = m
            for i in f.b[b]:
                if i[1] == 'lpad':
                    cur = 1
                elif i[1] == 'call' and (P.callees(f, i)[0] or [''])[0] == '__cxa_begin_catch':
                    cur = u
            t = f.b[b][-1]
            if t[1] == 'br' and cur and unc:
                v = self._uncval(f, t[3], unc)
                if v is not None:
                    wl.append((t[4] if v else t[5], cur))
                    continue
            for s in f.succs(b):
                nm = cur
                if t[1] == 'call' and s == t[7] != t[8]:
                    nm = cur
                wl.append((s, nm))
        r = []
        for b, ms in seen.items():
            for m in sorted(ms):
                cur = m
                for i in f.b[b]:
                    if i[1] == 'lpad':
                        cur = 1
                    elif i[1] == 'call' and not i[5]:
                        ns = P.callees(f, i)[0]
                        if ns and ns[0] == '__cxa_begin_catch':
                            cur = u
                        x = (i, ns, cur)
                        if x not in r:
                            r.append(x)
        return r

    def _uncval(self, f, c, unc):
        """truth of a condition given that std::uncaught_exception() is true"""
        if not isinstance(c, int):
            return None
        if c in unc:
            return True
        d = f.defs().get(c)
        if d is None:
            return None
        if d[1] == 'cast':
            return self._uncval(f, d[4], unc)
        if d[1] == 'bin' and d[3] == 'xor':
            v = self._uncval(f, d[4], unc)
            return None if v is None else (not v)
        return None

    def thrown(self, f, i, names, u):
        """types raised by this call instruction (before the landing pad); None for a re-throw"""
        P = self.P
        n = names[0] if names else ''
        if n == '__cxa_throw':
            t = i[4][1]
            return {t[1]} if isinstance(t, list) and t[0] == 'g' else {'?'}
        if n == '__cxa_rethrow':
            return None
        if n == '__cxa_bad_cast':
            return {'_ZTISt8bad_cast'}
        if not names:
            return {'?'}
        r = set()
        for n in names:
            if n in P.F:
                r |= self.esc[n, u]
            elif n in ALLOC:
                pass
            elif P.name_throws(n, (), False):
                r.add('?')
        return r

    def caught(self, f, bi):
        """classes of the catch clauses before a filter, '*' for catch(...); 'F' for a filter"""
        k = (f.n, bi)
        if k not in self._lp:
            c = []
            for i in f.b[bi]:
                if i[1] == 'lpad':
                    for x in i[4]:
                        if x[0] == 'filter':
                            c.append('F')
                        elif isinstance(x[1], list) and x[1][0] == 'g':
                            c.append(x[1][1])
                        else:
                            c.append('*')
            self._lp[k] = c
        return self._lp[k]

    def split(self, f, bi, types):
        """(stopped by a handler, passing) at the landing pad"""
        cl = self.caught(f, bi)
        st, ps = set(), set(types)
        for c in cl:
            if c == 'F':
                break
            if c == '*':
                return st | ps, set()
            for t in list(ps):
                if t == '?':
                    st.add(t)
                elif c == t or c in self.P.ti_bases(t):
                    st.add(t)
                    ps.discard(t)
        return st, ps

    def rethrown(self, n, u):
        f = self.P.F[n]
        st = set()
        for i, names, cu in self.info[n, u]:
            if i[8] >= 0:
                t = self.thrown(f, i, names, cu)
                if t:
                    st |= self.split(f, i[8], t)[0]
        return st

    def _one(self, n, u):
        f = self.P.F[n]
        if f.nothrow or f.short in self.skip:
            return frozenset()
        out = set()
        stopped = set()
        retl = []
        for i, names, cu in self.info[n, u]:
            t = self.thrown(f, i, names, cu)
            if t is None:
                retl.append(i)
                continue
            if i[8] >= 0:
                st, t = self.split(f, i[8], t)
                stopped |= st
                if 'F' in self.caught(f, i[8]):
                    t = set()
            for x in t - out:
                self.site.setdefault((n, u, x), (i[2], names, cu))
            out |= t
        for i in retl:
            t = set(stopped)
            if i[8] >= 0:
                _, t = self.split(f, i[8], t)
                if 'F' in self.caught(f, i[8]):
                    t = set()
            for x in t - out:
                self.site.setdefault((n, u, x), (i[2], (), 0))
            out |= t
        return frozenset(out)

    def path(self, n, u, t, lim=10):
        """why may type t leave function n"""
        r = []
        while n is not None and lim:
            lim -= 1
            s = self.site.get((n, u, t))
            if s is None:
                break
            f = self.P.F[n]
            r.append('%s:%s %s' % (f.file.split('/')[-1], s[0], f.short))
            nx = None
            for x in s[1]:
                if x in self.P.F and t in self.esc[x, s[2]]:
                    nx = x
                    break
            n, u = nx, s[2]
        return r
