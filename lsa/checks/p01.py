"""The child between fork and exec. Every fork()/vfork() whose child goes on to replace itself by another program is found; the branch with
result 0 is followed on all paths through all called functions. Until exec or _exit only async-signal-safe functions
are called, nothing is thrown, control never gets back to the caller, and - because the memory is shared after vfork - nothing but
local variables is written."""
from ..engine import Client, PINF
from ..core import Vanished

FORK = ('fork', 'vfork', '__fork')
EXEC = {'execve', 'execv', 'execvp', 'execvpe', 'fexecve', 'execl', 'execle', 'execlp'}
END = {'_exit', '_Exit', 'abort'}
# POSIX.1-2017 XSH 2.4.3 (the part that may appear in a child), plus pure memory helpers and compiler intrinsics
SAFE = set('''_Exit _exit abort accept access aio_suspend alarm bind chdir chmod chown clock_gettime close connect creat dup dup2 dup3 execl execle execv execve
faccessat fchdir fchmod fchown fcntl fcntl64 fdatasync fexecve fork fstat fstat64 fsync ftruncate ftruncate64 getegid geteuid getgid getgroups getpeername getpgrp getpid
getppid getsockname getsockopt getuid kill link listen lseek lseek64 lstat lstat64 memccpy memchr memcmp memcpy memmove memset mkdir mkdirat mkfifo mknod open open64 openat openat64
pause pipe pipe2 poll pselect pthread_kill pthread_self pthread_sigmask raise read readlink recv recvfrom recvmsg rename rmdir select sem_post send sendmsg sendto
setgid setpgid setsid setsockopt setuid setgroups initgroups shutdown sigaction sigaddset sigdelset sigemptyset sigfillset sigismember signal sigpending sigprocmask sigsuspend sleep
sockatmark socket socketpair stat stat64 strcat strchr strcmp strcpy strcspn strlen strncat strncmp strncpy strrchr strspn strstr symlink time times umask uname unlink
utime wait waitpid write close_range __errno_location nice setpriority prctl setresuid setresgid setrlimit'''.split()) - {'initgroups'}


class C(Client):
    maxdepth = 8
    small = 0
    max_steps = 120000
    cap = 8

    def __init__(self, P):
        self.P = P
        self.rep = []
        self.calls = set()
        self.execs = set()
        self.sites = {}
        self.stores = 0
        self.exits = []

    def init(self):
        return ()

    def want_inline(self, en, name):
        return True if self._child else None

    def call(self, en, fr, st, i, names, args):
        n = names[0] if names else ''
        self._child = bool(st.cl)
        if n in FORK and not st.cl:
            v = en.newsym(fr, st, i)
            child = st.copy()
            child.cl = ((n, (fr.fn.n, i[0]), fr.ctx),)
            child.cons[v[1]] = (0, 0, ())
            self.sites[(fr.fn.n, i[0])] = (n, fr.fn, i)
            return [('ret', v, child)]     # the parent is not of interest
        if not st.cl:
            return None
        site = st.cl[0][1]
        if not names:
            self.rep.append((site, fr.fn, i, 'unknown', 'an unknown function (pointer) is called'))
            return None
        for x in names:
            if x in self.P.F:
                continue
            if x.startswith('llvm.'):
                continue
            self.calls.add((site, x))
            if x in EXEC:
                self.execs.add(site)
            elif x not in SAFE and x not in END:
                self.rep.append((site, fr.fn, i, x, '%s() is called, which is not async-signal-safe' % self.P.demangle(x) if hasattr(self.P, 'demangle') else '%s() is called, which is not async-signal-safe' % x))
        if len(names) > 1 or self.P.vcalls(fr.fn).get(id(i)):
            self.rep.append((site, fr.fn, i, 'virtual', 'a virtual function is called'))
        return None

    def opaque(self, en, fr, st, i, names, args):
        if not st.cl:
            return
        site = st.cl[0][1]
        cg = self.P.callgraph()
        for n in names:
            if n in self.P.F:
                seen, wl = {n}, [n]
                while wl:
                    a = wl.pop()
                    for f in (self.P.F[a],):
                        for j in f.instrs():
                            if j[1] == 'call':
                                for b in self.P.callees(f, j)[0]:
                                    if b in self.P.F:
                                        if b not in seen:
                                            seen.add(b)
                                            wl.append(b)
                                    elif not b.startswith('llvm.') and b not in SAFE and b not in END and b not in EXEC:
                                        self.rep.append((site, fr.fn, i, self.P.F[n].short, '%s is called, which can reach %s()' % (self.P.F[n].short, b)))
                                        return

    def store(self, en, fr, st, i, val, ptr):
        if st.cl:
            self.stores += 1
            if not (isinstance(ptr, tuple) and ptr[0] == 'p' and ptr[1][0] == 'L'):
                if st.cl[0][0] == 'vfork':
                    # writes through a pointer into a local array are writes to local memory
                    b = ptr[1] if isinstance(ptr, tuple) and ptr[0] == 'p' else None
                    while b is not None and b[0] == 'S' and b[1] == 'ix':
                        b = b[2]
                    if b is None or b[0] != 'L':
                        self.rep.append((st.cl[0][1], fr.fn, i, 'store', 'memory shared with the parent is modified'))

    def root_exit(self, en, fr, kind, ret, st):
        if st.cl:
            self.exits.append((st.cl[0][1], kind))


def reaches_exec(P, f):
    seen, wl = {f.n}, [f]
    while wl:
        g = wl.pop()
        for i in g.instrs():
            if i[1] == 'call':
                for n in P.callees(g, i)[0]:
                    if n in EXEC:
                        return True
                    if n in P.F and n not in seen and len(seen) < 400:
                        seen.add(n)
                        wl.append(P.F[n])
    return False


def run(cx):
    P = cx.P
    cx.rule('in the child of fork/vfork before exec: only async-signal-safe calls, no virtual or unknown calls, no exception, no return from the forking function, no store to non-local memory after vfork')
    n = 0
    for f in cx.ours(True):
        sites = [i for i in f.instrs() if i[1] == 'call' and set(P.callees(f, i)[0]) & set(FORK)]
        if not sites:
            continue
        if not reaches_exec(P, f):
            cx.count('forks without exec (out of scope)')
            if any('vfork' in P.callees(f, i)[0] for i in sites):
                cx.violation('vfork:' + f.short, 'the child of vfork() never replaces itself', f)
            continue
        c = C(P)
        c._child = False
        if cx.run(c, f, set()) is None:
            raise Vanished('the child code of %s is too complex to be followed' % f.short)
        for s, (name, fn, i) in sorted(c.sites.items()):
            if s not in c.execs:
                # the child does not replace itself: it goes on as a copy of the program
                cx.count('forks without exec (out of scope)')
                # ... unless vfork is used, which must never do that
                if name == 'vfork':
                    cx.violation('vfork:' + fn.short, 'the child of vfork() never replaces itself', fn, i[2])
                continue
            n += 1
            cx.instance('%s in %s: child calls %s' % (name, fn.short, ', '.join(sorted({x for a, x in c.calls if a == s}))))
            cx.count('external functions called in the child', len({x for a, x in c.calls if a == s}))
            for site, g, j, what, msg in c.rep:
                if site == s:
                    cx.violation('%s:%s:%s' % (fn.short, g.short, what), 'child between %s and exec: %s' % (name, msg), g, j[2])
            for site, kind in c.exits:
                if site == s:
                    cx.violation('escape:%s:%s' % (fn.short, kind), 'the child of %s() %s from %s' % (name, 'throws' if kind == 'unw' else 'returns', fn.short), fn, i[2])
        cx.count('stores in the child', c.stores)
    cx.count('forks followed by exec', n)
    cx.floor('forks followed by exec', 1)
