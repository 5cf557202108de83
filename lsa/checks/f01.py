"""Ownership of operating-system descriptors. Every call that creates a descriptor starts an ownership obligation that is followed on all
paths, all failures of later system calls and all exception edges: the descriptor has to be closed exactly once, stored into an
object that owns it (and whose construction completes), or returned to the caller, where the analysis continues. Closing a
descriptor that is still stored in a living object is reported too: its destructor would close a foreign descriptor."""
from ..sysm import SysClient, CALLS, rev_callers, SAMPLES
from ..engine import PINF
from ..locks import is_ctor, is_dtor
from .f02 import child_only

CREATE = ('open', 'open64', 'openat', 'creat', 'socket', 'accept', 'accept4', 'dup', 'epoll_create', 'epoll_create1', 'eventfd',
          'inotify_init1', 'signalfd', 'timerfd_create', 'memfd_create', 'mkstemp')
PAIR = ('pipe', 'pipe2', 'socketpair')
PTRC = {'opendir': 'closedir', 'fdopendir': 'closedir', 'iconv_open': 'iconv_close', 'fopen': 'fclose', 'fopen64': 'fclose', 'getaddrinfo': 'freeaddrinfo',
        'mmap': 'munmap', 'mmap64': 'munmap'}
CLOSE = ('close',) + tuple(sorted(set(PTRC.values())))


def in_dtor(fr):
    while fr is not None:
        if is_dtor(fr.fn):
            return True
        fr = fr.parent
    return False


class C(SysClient):
    exitcap = 16
    maxdepth = 7
    cap = 12

    def __init__(self, P, cx, closers):
        SysClient.__init__(self, P, {})
        self.cx = cx
        self.closers = closers
        self.created = set()
        self.reports = []
        self.exits = []
        self._t = False
        self.owners = {}
        self.closedat = set()
        self.elems = {}
        self.clears = {}
        self.conts = set()
        self.watch = frozenset()
        self.picked = set()

    def clobbers(self, n):
        return False

    def syms(self, cl):
        r = []
        for f in cl:
            if f[0] in 'OWC':
                r.append(f[1])
            elif f[0] == 'X':
                r.append(f[1])
        return r

    def find(self, st, v, kinds='OW'):
        if isinstance(v, tuple) and v[0] == 'p':
            for f in st.cl:
                if f[0] in kinds and f[1] == v[1] and v[2] == 0:
                    return f
        return None

    def want_inline(self, en, name):
        if self._t:
            return True
        f = self.P.F.get(name)
        return True if name in self.closers else None

    def start(self, fr, st, i, n, sym):
        site = (fr.fn.n, i[0])
        self.created.add((site, n))
        for f in st.cl:
            if f[1] == sym:
                if f[0] == 'O':
                    self.reports.append(('leak', fr.fn, i, f[2], 'a second descriptor is created while the previous one is lost'))
        self.setfact(st, lambda f: f[1] == sym, ('O', sym, n, site))

    def call(self, en, fr, st, i, names, args):
        n = names[0] if names else ''
        self._t = False
        f = self.P.F.get(n)
        sh = f.short.rsplit('::', 1)[-1] if f is not None else ''
        if sh in ('operator[]', 'operator()', 'clear') and args and isinstance(args[0], tuple) and args[0][0] == 'p' and args[0][1][0] == 'A':
            if sh == 'clear':
                k = [g for g in st.cl if g[0] == 'K' and g[1:3] == args[0][1:3]]
                if not in_dtor(fr):
                    self.clears.setdefault((fr.fn.n, i[2], args[0][2]), set()).add(bool(k))
                self.setfact(st, lambda g: g in k)
                if not in_dtor(fr):
                    # the descriptor that was left open is owned by this function from now on
                    self.setfact(st, lambda g: g[0] == 'Z', ('Z', (fr.fn.n, i[2])))
                    for w, at in self.watch:
                        x = at == (fr.fn.n, i[2]) and st.mem.get(w)
                        if isinstance(x, tuple) and x[0] == 'p' and x[2] == 0 and x[1][0] == 'S' and not self.find(st, x, 'OWC'):
                            self.setfact(st, lambda g: False, ('O', x[1], 'socket', (fr.fn.n, i[0])))
                            st.cons[x[1]] = (1, PINF, ())
                            # (emptying an array of numbers does not fail)
                            return [('ret', 0, st)]
            else:
                self.elems[(fr.fn.n, i[0])] = args[0][1:3]
        if n in CREATE or n in ('fcntl', 'fcntl64') and len(args) > 1 and args[1] in (0, 1030):
            v = en.newsym(fr, st, i)
            s1 = st.copy()
            self.start(fr, s1, i, n, v[1])
            s1.cons[v[1]] = (0, PINF, ())
            if n.startswith('accept') and len(args) > 2:
                self.havoc_out(en, fr, s1, i, n, args)
            s2 = st.copy()
            self.setfact(s2, lambda f: f[1] == v[1])
            s2.cons[v[1]] = (-1, -1, ())
            return [('ret', v, s1), ('ret', v, s2)]
        if n in PAIR:
            p = args[-1] if n == 'socketpair' else args[0]
            v = en.newsym(fr, st, i)
            s1 = st.copy()
            s1.cons[v[1]] = (0, 0, ())
            if isinstance(p, tuple) and p[0] == 'p':
                for k in (0, 1):
                    b = ('S', 'fd', fr.ctx, fr.fn.n, i[0], k)
                    self.start(fr, s1, i, n, b)
                    s1.cons[b] = (0, PINF, ())
                    s1.mem[(p[1], p[2] + 4 * k)] = ('p', b, 0)
                    self.stored(en, fr, s1, ('p', b, 0), ('p', p[1], p[2] + 4 * k))
            s2 = st.copy()
            s2.cons[v[1]] = (-1, -1, ())
            return [('ret', v, s1), ('ret', v, s2)]
        if n == 'getaddrinfo' and isinstance(args[3], tuple) and args[3][0] == 'p':
            v = en.newsym(fr, st, i)
            s1 = st.copy()
            s1.cons[v[1]] = (0, 0, ())
            b = ('S', 'fd', fr.ctx, fr.fn.n, i[0], 0)
            self.start(fr, s1, i, n, b)
            s1.cons[b] = (1, PINF, ())
            s1.mem[(args[3][1], args[3][2])] = ('p', b, 0)
            self.stored(en, fr, s1, ('p', b, 0), args[3])
            s2 = st.copy()
            s2.cons[v[1]] = (-(1 << 31), 1 << 31, (0,))
            return [('ret', v, s1), ('ret', v, s2)]
        if n in PTRC:
            v = en.newsym(fr, st, i)
            s1 = st.copy()
            self.start(fr, s1, i, n, v[1])
            bad = 0 if n in ('opendir', 'fdopendir', 'fopen', 'fopen64') else -1
            s1.cons[v[1]] = (1, PINF, ()) if bad == 0 else (-(1 << 63), PINF, (-1,))
            s2 = st.copy()
            self.setfact(s2, lambda f: f[1] == v[1])
            s2.cons[v[1]] = (bad, bad, ())
            return [('ret', v, s1), ('ret', v, s2)]
        if n in CLOSE:
            v = args[0]
            if isinstance(v, tuple) and v[0] == 'p' and v[1][0] == 'S' and v[1][1] == 'ld' and v[1][2][0] == 'A' and not in_dtor(fr):
                self.picked |= {(v[1][2:4], g[1]) for g in st.cl if g[0] == 'Z'}
            f = self.find(st, v)
            if f:
                new = [('C', f[1], f[2], f[3])]
                if f[0] == 'W' and f[4] is not None and f[4][0][0] != 'L' and not in_dtor(fr):
                    new.append(('X', f[4][0], f[4][1], f[2], (fr.fn.n, i[0])))
                self.setfact(st, lambda g: g == f, *new)
            elif self.find(st, v, 'C'):
                self.reports.append(('twice', fr.fn, i, 'close', 'the descriptor was already closed on this path'))
            elif isinstance(v, tuple) and v[0] == 'p' and v[1][0] == 'S' and v[1][1] == 'ld' and v[2] == 0:
                # a descriptor stored in an object: where?
                o = v[1][2]
                if o[0] == 'S' and o[1] == 'r' and self.elems.get(o[3:5]):
                    k = self.elems[o[3:5]]
                    self.conts.add(k[1])
                    if not in_dtor(fr):
                        self.setfact(st, lambda g: g[0] == 'K' and g[1:3] == k, ('K',) + tuple(k) + ((fr.fn.n, i[0]),))
                src = () if in_dtor(fr) else self.source(st, v)
                for b, o in src:
                    self.setfact(st, lambda g: g[0] == 'X' and g[1:3] == (b, o), ('X', b, o, 'close', (fr.fn.n, i[0])))
            return [('ret', en.newsym(fr, st, i), st)]
        if f is not None and f.short.rsplit('::', 1)[0] == fr.fn.short.rsplit('::', 1)[0] and any(g[0] == 'K' for g in st.cl):
            self._t = True
        # a call that looks at the owned descriptor
        for a in args:
            if self.find(st, a) or isinstance(a, tuple) and a[0] == 'p' and a[1][0] == 'L' and any(
                    k[0] == a[1] and self.find(st, v, 'O') for k, v in st.mem.items()):
                self._t = True
        if n and n not in self.P.F:
            if n in CALLS:
                self.havoc_out(en, fr, st, i, n, args)
                v = en.newsym(fr, st, i)
                return [('ret', v, st)]
        return None

    def source(self, st, v):
        return [k for k, x in st.mem.items() if x == v and k[0] != 'HV' and k[0][0] in ('A', 'S', 'G')]

    def stored(self, en, fr, st, val, ptr):
        if not (isinstance(ptr, tuple) and ptr[0] == 'p'):
            return
        # the field gets another value: whatever was closed is not referenced from there any more
        for f in st.cl:
            if f[0] == 'X' and f[1] == ptr[1] and f[2] == ptr[2]:
                self.setfact(st, lambda g: g == f)
        if ptr[1][0] == 'L':
            f = self.find(st, val, 'O')
            if f and self.owner_local(en, fr, ptr):
                self.setfact(st, lambda g: g == f, ('W', f[1], f[2], f[3], (ptr[1], ptr[2])))
            return
        f = self.find(st, val, 'O')
        if f:
            self.owner(fr, ptr, f)
            self.setfact(st, lambda g: g == f, ('W', f[1], f[2], f[3], (ptr[1], ptr[2])))

    def owner(self, fr, ptr, f):
        # the outermost object whose constructor or method stores the descriptor in itself
        got = None
        if ptr[1][0] == 'S' and ptr[1][1] == 'ix':
            while fr.parent is not None:
                fr = fr.parent
            if '::' in fr.fn.short:
                self.owners.setdefault((fr.fn.short.rsplit('::', 1)[0], 'elements', False), (f[2], f[3]))
            return
        while fr is not None:
            a = fr.args[0] if fr.args else None
            if isinstance(a, tuple) and a[0] == 'p' and a[1] == ptr[1] and a[2] <= ptr[2] and '::' in fr.fn.short:
                got = (fr.fn.short.rsplit('::', 1)[0], ptr[2] - a[2], is_ctor(fr.fn))
            fr = fr.parent
        if got:
            self.owners.setdefault(got, (f[2], f[3]))

    def owner_local(self, en, fr, ptr):
        return False

    def store(self, en, fr, st, i, val, ptr):
        self.stored(en, fr, st, val, ptr)

    def opaque(self, en, fr, st, i, names, args):
        # not looked into (virtual or too deep): the callee may keep the descriptor
        if names and names[0] in ('sprintf', 'snprintf', 'printf', 'fprintf'):
            return
        for a in args:
            f = self.find(st, a, 'O')
            if f:
                self.cx.count('descriptors handed to unknown code')
                self.setfact(st, lambda g: g == f, ('W', f[1], f[2], f[3], None))

    def frame_exit(self, en, fr, kind, ret, st):
        if kind == 'unw' and is_ctor(fr.fn) and fr.args and isinstance(fr.args[0], tuple) and fr.args[0][0] == 'p':
            base, off = fr.args[0][1], fr.args[0][2]
            for f in list(st.cl):
                if f[0] == 'W' and f[4] is not None and f[4][0] == base and f[4][1] >= off:
                    self.setfact(st, lambda g: g == f, ('O', f[1], f[2], f[3]))
        if (is_dtor(fr.fn) or kind == 'unw' and is_ctor(fr.fn)) and fr.args and isinstance(fr.args[0], tuple) and fr.args[0][0] == 'p':
            base, off = fr.args[0][1], fr.args[0][2]
            self.setfact(st, lambda g: g[0] == 'X' and g[1] == base and g[2] >= off)

    def root_exit(self, en, fr, kind, ret, st):
        self.exits.append((kind, ret, st))


class D(C):
    """destructor: which fields of the object are closed"""
    def want_inline(self, en, name):
        f = self.P.F.get(name)
        return True if name in self.closers or f is not None and is_dtor(f) else None

    def call(self, en, fr, st, i, names, args):
        n = names[0] if names else ''
        if n in CLOSE or not names:
            for a in args:
                if isinstance(a, tuple) and a[0] == 'p' and a[2] == 0 and a[1][0] == 'S' and a[1][1] == 'ld':
                    self.closedat.add(a[1][2:4])
                    if a[1][2][0] == 'S':
                        self.closedat.add((('A', 0), 'elements'))
        return C.call(self, en, fr, st, i, names, args)


def destroyers(cx, P, closers, owners):
    cx.rule('a class whose constructor or method stores a created descriptor closes that field in its destructor')
    dt = {}
    for f in P.F.values():
        if is_dtor(f) and f.file.startswith('lightspeed/'):
            dt.setdefault(f.short.rsplit('::', 1)[0], []).append(f)
    for (cls, off, ctor), (n, site) in sorted(owners.items(), key=str):
        ds = [f for f in dt.get(cls, ()) if 'D2Ev' in f.n or 'D1Ev' in f.n]
        closed = set()
        for f in ds:
            c = D(P, cx, closers)
            c.cx = cx
            if cx.run(c, f, set()) is None:
                closed.add(off)
                continue
            closed |= {o for b, o in c.closedat if b == ('A', 0)}
        what = '%s+%s holding the result of %s' % (cls, off, n)
        if not ds and not ctor:
            continue
        if off in closed:
            cx.instance('destructor of %s: closed' % what)
            cx.count('owning fields closed by the destructor')
        else:
            fn = ds[0] if ds else P.F[site[0]]
            cx.violation('dtor:%s:%s' % (cls, n), 'the descriptor stored in %s is not closed by its destructor' % what, fn, None,
                         ['created in ' + P.F[site[0]].short])
    cx.floor('owning fields closed by the destructor', 5)


def run(cx):
    P = cx.P
    rev = rev_callers(P)
    cx.rule('obligation per creating call: on every path and exception edge the descriptor is closed once, owned by a completely constructed object, or returned')
    cx.rule('a descriptor field closed outside of a destructor is overwritten before the function ends')
    # functions that close something, with their direct callers (destructors, close helpers)
    direct = set()
    sites = []
    closesites = 0
    for f in cx.ours(True):
        for i in f.instrs():
            if i[1] == 'call':
                ns = P.callees(f, i)[0]
                if set(ns) & (set(CLOSE) | set(CREATE) | set(PAIR) | {'fcntl', 'fcntl64'}) and child_only(P, f, i, rev):
                    cx.count('calls in the child between fork and exec (exempt)')
                    continue
                if set(ns) & set(CLOSE):
                    direct.add(f.n)
                    closesites += 1
                if set(ns) & (set(CREATE) | set(PAIR) | set(PTRC)):
                    sites.append((f, i))
                elif set(ns) & {'fcntl', 'fcntl64'}:
                    sites.append((f, i))
    closers = set(direct)
    for n in list(direct):
        f = P.F[n]
        if is_dtor(f) or f.ninstr() < 60:
            closers |= {a for a in rev.get(n, ()) if is_dtor(P.F[a])}
    cx.count('closing calls', closesites)
    work = [(P.F[n], frozenset()) for n in sorted({f.n for f, i in sites} | direct)]
    seen = set()
    created = set()
    owners = {}
    conts = {}
    clears = {}
    while work:
        root, inl = work.pop()
        if (root.n, inl) in seen or len(inl) > 3:
            continue
        seen.add((root.n, inl))
        c = C(P, cx, closers)
        c.cx = cx
        if cx.run(c, root, set(inl)) is None:
            continue
        if c.conts and c.clears and c.picked:
            w = frozenset(c.picked)
            c = C(P, cx, closers)
            c.watch = w
            if cx.run(c, root, set(inl)) is None:
                continue
        cx.count('functions examined')
        if c.conts or c.clears:
            cls = root.short.rsplit('::', 1)[0]
            conts.setdefault(cls, set()).update(c.conts)
            for k, x in c.clears.items():
                clears.setdefault((cls,) + k, set()).update(x)
        for k, x in c.owners.items():
            owners.setdefault(k, x)
        created |= {s for s, n in c.created}
        handed = False
        for how, fn, i, name, msg in c.reports:
            cx.violation('%s:%s:%s' % (how, root.short, name), msg, fn, i[2], ['analysed from ' + root.short])
        for kind, ret, st in c.exits:
            for f in st.cl:
                if f[0] == 'O':
                    if kind == 'ret' and isinstance(ret, tuple) and ret[0] == 'p' and ret[1] == f[1]:
                        handed = True
                        continue
                    fn = P.F[f[3][0]]
                    cx.violation('leak:%s:%s' % (root.short, f[2]), 'the descriptor created by %s() is not closed when %s %s'
                                 % (f[2], root.short, 'is left by an exception' if kind == 'unw' else 'returns'), fn,
                                 next((i[2] for i in fn.instrs() if i[0] == f[3][1]), None), ['analysed from ' + root.short])
                elif f[0] == 'W' and f[4] is not None and f[4][0][0] == 'A' and '::' not in root.short and kind == 'ret':
                    handed = True
                elif f[0] == 'W' and f[4] is not None and f[4][0][0] == 'L' and f[4][0][1] == ():
                    pass
                elif f[0] == 'K' and not is_dtor(root):
                    cls = root.short.rsplit('::', 1)[0]
                    up = [a for a in rev.get(root.n, ()) if P.F[a].short.rsplit('::', 1)[0] == cls]
                    if up:
                        work += [(P.F[a], inl | {root.n}) for a in sorted(up) if not is_dtor(P.F[a])]
                        continue
                    fn = P.F[f[3][0]]
                    cx.violation('stale-elements:%s' % fn.short, 'closed descriptors stay stored in a container of the object: they are used or closed again later',
                                 fn, next((i[2] for i in fn.instrs() if i[0] == f[3][1]), None), ['analysed from ' + root.short])
                elif f[0] == 'X' and not is_dtor(root):
                    fn = P.F[f[4][0]]
                    if f[1] != ('A', 0):
                        continue
                    cx.violation('stale:%s' % fn.short, 'a closed descriptor stays stored in the object: a later destructor or close closes a foreign descriptor',
                                 fn, next((i[2] for i in fn.instrs() if i[0] == f[4][1]), None), ['analysed from ' + root.short])
        if handed:
            cx.count('descriptors returned to callers')
            for a in sorted(rev.get(root.n, ())):
                if P.F[a].file.startswith('lightspeed/'):
                    work.append((P.F[a], inl | {root.n}))
    for (cls, fn, i, off), x in sorted(clears.items(), key=str):
        if off not in conts.get(cls, ()):
            continue
        if True in x:
            cx.instance('%s: the elements are closed before the container is emptied' % P.F[fn].short)
        else:
            cx.violation('unclosed-elements:%s' % P.F[fn].short, 'a container of descriptors is emptied without closing them', P.F[fn],
                         i, [])
    cx.count('containers of descriptors', sum(len(x) for x in conts.values()))
    destroyers(cx, P, closers, owners)
    for f, i in sites:
        cx.instance('%s created in %s (%s)' % (P.callees(f, i)[0][0], f.short, 'followed' if (f.n, i[0]) in created else 'not a creation on any path'))
    cx.count('creating calls followed', len(created))
    cx.floor('creating calls followed', 10)
    cx.floor('closing calls', 10)
