"""Nothing the library opens leaks into a child program: every call that creates a descriptor is enumerated in the compiled
program and the value of its flags is computed by the interprocedural analysis on every path that reaches it. The close-on-exec
flag must be set by the creating call itself (atomically); creators without a flags argument are forbidden outside of the
code that runs between fork and exec."""
from ..sysm import SysClient, rev_callers
from ..engine import ormask

O_CLOEXEC = 0o2000000
# name -> index of the flags argument (None: creates an inheritable descriptor, always)
CREATE = {'open': (1, O_CLOEXEC), 'open64': (1, O_CLOEXEC), 'openat': (2, O_CLOEXEC), 'openat64': (2, O_CLOEXEC),
          'socket': (1, O_CLOEXEC), 'socketpair': (1, O_CLOEXEC), 'accept4': (3, O_CLOEXEC), 'pipe2': (1, O_CLOEXEC),
          'epoll_create1': (0, O_CLOEXEC), 'eventfd': (1, O_CLOEXEC), 'inotify_init1': (0, O_CLOEXEC), 'dup3': (2, O_CLOEXEC),
          'signalfd': (2, O_CLOEXEC), 'timerfd_create': (1, O_CLOEXEC), 'memfd_create': (1, 1),
          'pipe': None, 'accept': None, 'epoll_create': None, 'dup': None, 'creat': None, 'creat64': None, 'inotify_init': None,
          'opendir': True, 'fopen': 'mode', 'fopen64': 'mode', 'mkstemp': None, 'tmpfile': None}
F_DUPFD, F_DUPFD_CLOEXEC, F_SETFD = 0, 1030, 2


def bits(v, want):
    """does the abstract value certainly contain the bit?"""
    return bool(ormask(v) & want)


class C(SysClient):
    exitcap = 8
    maxdepth = 4

    def __init__(self, P):
        SysClient.__init__(self, P, {})
        self.seen = {}

    def clobbers(self, n):
        return False

    def call(self, en, fr, st, i, names, args):
        for n in names:
            if n in CREATE or n in ('fcntl', 'fcntl64'):
                self.seen.setdefault((fr.fn.n, i[0]), []).append((n, args, fr, st.copy()))
        return None


def ends_here(P, f, ins):
    """no path from this instruction leaves the function: the process is replaced or ends (code of a forked child)"""
    nr = P.never_returns()
    start = next((bi, k) for bi, blk in enumerate(f.b) for k, i in enumerate(blk) if i[0] == ins[0])
    wl = [(start[0], start[1] + 1)]
    seen = set()
    while wl:
        bi, k = wl.pop()
        stop = False
        for i in f.b[bi][k:]:
            if i[1] in ('ret', 'resume'):
                return False
            if i[1] == 'call':
                ns = P.callees(f, i)[0]
                if i[6] or ns and all(n in nr for n in ns):
                    stop = True
                    break
        if not stop:
            last = f.b[bi][-1]
            nothrow = last[1] == 'call' and last[8] >= 0 and not any(P.name_throws(n, P.compute_maythrow(), False) for n in P.callees(f, last)[0])
            for s in f.succs(bi):
                if nothrow and s == last[8]:
                    continue
                if s not in seen:
                    seen.add(s)
                    wl.append((s, 0))
    return True


def child_only(P, f, ins, rev, depth=0):
    """runs only in a forked child that never returns to the caller"""
    if depth > 6:
        return False
    if ends_here(P, f, ins) and any(i[1] == 'call' and set(P.callees(f, i)[0]) & {'fork', 'vfork'} for i in f.instrs()):
        return True
    cs = rev.get(f.n, ())
    if not cs:
        return False
    for a in cs:
        g = P.F[a]
        for i in g.instrs():
            if i[1] == 'call' and f.n in P.callees(g, i)[0] and not child_only(P, g, i, rev, depth + 1):
                return False
    return True


def run(cx):
    P = cx.P
    rev = rev_callers(P)
    cx.rule('every descriptor-creating call passes the close-on-exec flag on every path (open, socket, accept4, pipe2, ...); creators that '
            'cannot do so are not used; fcntl(F_DUPFD) only below the fork of a child that never returns; descriptors are never '
            'made inheritable with fcntl(F_SETFD, 0) in the parent')
    c = C(P)
    sites = []
    for f in cx.ours(True):
        for i in f.instrs():
            if i[1] == 'call':
                ns = [n for n in P.callees(f, i)[0] if n in CREATE or n in ('fcntl', 'fcntl64')]
                if ns:
                    sites.append((f, i, ns[0]))
    for f in sorted({s[0].n for s in sites}):
        cx.run(c, P.F[f], set())
    # the flags may come from a parameter: judge such sites in the callers
    callers_done = set()
    for f, i, n in sorted(sites, key=lambda s: (s[0].short, s[1][0])):
        where = '%s in %s' % (n, f.short)
        obs = c.seen.get((f.n, i[0]), [])
        if not obs:
            cx.count('unreachable sites')
            continue
        if n in ('fcntl', 'fcntl64'):
            cmds = {o[1][1] if len(o[1]) > 1 else None for o in obs}
            if F_DUPFD in cmds and not child_only(P, f, i, rev):
                cx.violation('dupfd:' + f.short, 'fcntl(F_DUPFD) duplicates a descriptor without close-on-exec', f, i[2])
            if F_SETFD in cmds and not child_only(P, f, i, rev):
                for o in obs:
                    if o[1][1] == F_SETFD and not (len(o[1]) > 2 and bits(o[1][2], 1)):
                        cx.violation('setfd:' + f.short, 'close-on-exec is removed from a descriptor of the running process', f, i[2])
            if cmds & {F_DUPFD, F_DUPFD_CLOEXEC, F_SETFD}:
                cx.count('fcntl sites')
                cx.instance(where)
            continue
        cx.count('creating sites')
        cx.instance(where)
        spec = CREATE[n]
        if spec is True:
            continue
        if spec is None:
            if not child_only(P, f, i, rev):
                cx.violation('noflag:%s:%s' % (f.short, n), '%s() creates a descriptor that every child program inherits' % n, f, i[2])
            continue
        if spec == 'mode':
            m = obs[0][1][1]
            s = P.cstring(m[1][1]) if isinstance(m, tuple) and m[0] == 'p' and m[1][0] == 'G' and hasattr(P, 'cstring') else None
            if s is None or 'e' not in s:
                cx.violation('noflag:%s:%s' % (f.short, n), '%s() without mode "e" creates a descriptor that every child program inherits' % n, f, i[2])
            continue
        idx, want = spec
        for n2, args, fr, st in obs:
            v = args[idx]
            ok = bits(v, want)
            if not ok and isinstance(v, tuple) and v[0] == 'p' and v[1][0] == 'A':
                # flags given by the caller
                up = 0
                for a in sorted(rev.get(f.n, ())):
                    if P.F[a].file.startswith('lightspeed/'):
                        up += 1
                        c2 = C(P)
                        cx.run(c2, P.F[a], {f.n})
                        for o in c2.seen.get((f.n, i[0]), []):
                            if not bits(o[1][idx], want):
                                cx.violation('noflag:%s:%s' % (P.F[a].short, n), '%s() is reached without the close-on-exec flag' % n, P.F[a])
                ok = up > 0
            if not ok:
                cx.violation('noflag:%s:%s' % (f.short, n), '%s() is called without the close-on-exec flag' % n, f, i[2])
    cx.floor('creating sites', 10)
