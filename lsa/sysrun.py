"""Runs the outcome analysis for every (function, system call site) and resolves failures handed to callers."""
from .sysm import OutcomeClient, CALLS, BEST_EFFORT, TRANSFER, SAMPLES, direct_roots, rev_callers
from .ir import operands


class C(OutcomeClient):
    exitcap = 12
    errfns = ()

    def call(self, en, fr, st, i, names, args):
        self._t = False
        pend = [f for f in st.cl if f[0] in 'FN']
        if pend:
            site = pend[0][1]
            ev = [('S', 'errv', site[2], site[0], site[1], e) for e in (0, 1)]
            if any(isinstance(a, tuple) and a[0] == 'p' and a[1] in ev for a in args):
                self._t = True
        if pend and pend[0][0] == 'F':
            b = pend[0][3]
            for a in args:
                if isinstance(a, tuple) and a[0] == 'p':
                    if a[1] == b:
                        self._t = True
                    elif a[1][0] in ('L', 'A', 'S') and any(k[0] == a[1] and isinstance(v, tuple) and v[0] == 'p' and v[1] == b
                                                           for k, v in st.mem.items()):
                        self._t = True
                elif isinstance(a, tuple) and a[0] in ('cmp', 'bin', 'not') and mentions(a, b):
                    self._t = True
        return OutcomeClient.call(self, en, fr, st, i, names, args)

    def want_inline(self, en, name):
        if self._t or name in self.errfns:
            return True
        return None


def mentions(v, b):
    if isinstance(v, tuple):
        if v and v[0] == 'p':
            return v[1] == b
        return any(mentions(x, b) for x in v[1:])
    return False


class Result(object):
    __slots__ = ('root', 'site', 'instr', 'name', 'exits', 'args', 'via')

    def __init__(self, root, site, instr, name, exits, args, via):
        self.root, self.site, self.instr, self.name, self.exits, self.args, self.via = root, site, instr, name, exits, args, via


def errno_helpers(P):
    r = set()
    for f in P.F.values():
        if f.file.startswith('lightspeed/') and f.ninstr() <= 80:
            ns = set()
            for i in f.instrs():
                if i[1] == 'call':
                    ns |= set(P.callees(f, i)[0])
            if '__errno_location' in ns and not ns & set(CALLS):
                r.add(f.n)
    return r


def propagates(x):
    """exits where the failure leaves the function only as its return value"""
    kind, ret, st = x
    return kind == 'ret' and any(f[0] == 'F' and isinstance(ret, tuple) and ret[0] == 'p' and ret[1] == f[3] for f in st.cl)


def run(cx, skip=()):
    P = cx.P
    c = C(P)
    c.errfns = errno_helpers(P)
    rev = rev_callers(P)
    nsite = 0
    for f, i, names in direct_roots(P):
        n = names[0]
        if n in skip:
            continue
        nsite += 1
        work = [(f, frozenset())]
        seen = set()
        while work:
            root, inl = work.pop()
            if (root.n, inl) in seen or len(inl) > 2:
                continue
            seen.add((root.n, inl))
            c.focus = (f.n, i[0])
            c.exits = []
            c.args = None
            r = cx.run(c, root, set(inl))
            if r is None:
                continue
            if c.args is None:
                continue
            res = Result(root, f, i, n, c.exits, c.args, inl)
            if any(propagates(x) for x in c.exits):
                callers = [P.F[a] for a in rev.get(root.n, ()) if P.F[a].file.startswith('lightspeed/') and a != root.n]
                if callers:
                    cx.count('failures handed to callers')
                    for a in sorted(callers, key=lambda a: a.n):
                        work.append((a, inl | {root.n}))
                res.exits = [x for x in c.exits if not propagates(x)]
            yield res
    cx.count('system call sites', nsite)


def only_destructors(P, f, rev):
    """the function runs only while something is being destroyed: there is nobody to report to"""
    seen = set()
    wl = [f]
    while wl:
        g = wl.pop()
        if g.n in seen:
            continue
        seen.add(g.n)
        if g.short.split('::')[-1].startswith('~'):
            continue
        cs = [P.F[a] for a in rev.get(g.n, ())]
        if not cs or g.virt or len(seen) > 12:
            return False
        wl.extend(cs)
    return True
