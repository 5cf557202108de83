"""Model of the operating-system calls: outcome split into success / interrupted / failed.

Client state (cl): sorted tuple of facts
  ('F', site, name, symbase, remaining success samples, eintr, ctx)   a failed call not (fully) noticed yet
  ('N', site, name, eintr)                        a failed call whose failure was noticed
  ('E', how, name)                                provenance of errno
"""
from .engine import Client, S, PINF, evalc

# name -> (kind, may be interrupted)
NEG, ZERO, NULL, MAPF, NZ = 'neg', 'zero', 'null', 'mapf', 'nz'
CALLS = {
    'open': (NEG, 0), 'open64': (NEG, 0), 'openat': (NEG, 0), 'creat': (NEG, 0),
    'read': (NEG, 1), 'write': (NEG, 1), 'pread': (NEG, 1), 'pwrite': (NEG, 1), 'pread64': (NEG, 1), 'pwrite64': (NEG, 1),
    'readv': (NEG, 1), 'writev': (NEG, 1),
    'lseek': (NEG, 0), 'lseek64': (NEG, 0), 'ftruncate': (ZERO, 0), 'ftruncate64': (ZERO, 0),
    'fstat': (ZERO, 0), 'fstat64': (ZERO, 0), 'stat': (ZERO, 0), 'stat64': (ZERO, 0), 'lstat': (ZERO, 0), 'lstat64': (ZERO, 0),
    'fsync': (ZERO, 0), 'fdatasync': (ZERO, 0), 'mmap': (MAPF, 0), 'mmap64': (MAPF, 0),
    'pipe': (ZERO, 0), 'pipe2': (ZERO, 0), 'socketpair': (ZERO, 0),
    'socket': (NEG, 0), 'bind': (ZERO, 0), 'listen': (ZERO, 0), 'connect': (ZERO, 0),
    'accept': (NEG, 1), 'accept4': (NEG, 1),
    'recv': (NEG, 1), 'send': (NEG, 1), 'recvfrom': (NEG, 1), 'sendto': (NEG, 1), 'recvmsg': (NEG, 1), 'sendmsg': (NEG, 1),
    'sendfile': (NEG, 0), 'sendfile64': (NEG, 0),
    'rename': (ZERO, 0), 'remove': (ZERO, 0), 'mkdir': (ZERO, 0), 'rmdir': (ZERO, 0), 'unlink': (ZERO, 0),
    'symlink': (ZERO, 0), 'link': (ZERO, 0), 'chdir': (ZERO, 0), 'access': (ZERO, 0),
    'dup': (NEG, 0), 'dup2': (NEG, 0), 'dup3': (NEG, 0),
    'waitpid': (NEG, 1),
    'poll': (NEG, 1), 'ppoll': (NEG, 1), 'select': (NEG, 1), 'epoll_wait': (NEG, 1), 'epoll_pwait': (NEG, 1),
    'epoll_ctl': (ZERO, 0), 'epoll_create': (NEG, 0), 'epoll_create1': (NEG, 0), 'eventfd': (NEG, 0),
    'getsockopt': (ZERO, 0), 'setsockopt': (ZERO, 0), 'getsockname': (ZERO, 0), 'getpeername': (ZERO, 0),
    'opendir': (NULL, 0), 'getcwd': (NULL, 0), 'flock': (ZERO, 1), 'shutdown': (ZERO, 0),
    'sem_init': (ZERO, 0), 'sem_wait': (ZERO, 1), 'sem_timedwait': (ZERO, 1), 'sem_trywait': (ZERO, 0), 'sem_post': (ZERO, 0),
    'ioctl': (NEG, 0), 'fcntl': (NEG, 0), 'kill': (ZERO, 0), 'close': (ZERO, 0), 'munmap': (ZERO, 0), 'msync': (ZERO, 0),
    'mlock': (ZERO, 0), 'fork': (NEG, 0), 'vfork': (NEG, 0), 'daemon': (ZERO, 0), 'execve': (NEG, 0),
    'readdir_r': (NZ, 0), 'pthread_create': (NZ, 0), 'getaddrinfo': (NZ, 0), 'getnameinfo': (NZ, 0),
    'sigaction': (ZERO, 0), 'sigprocmask': (ZERO, 0), 'nanosleep': (ZERO, 1), 'usleep': (ZERO, 0),
    'getcontext': (ZERO, 0), 'swapcontext': (ZERO, 0), 'iconv': (NEG, 0), 'sigtimedwait': (NEG, 1),
    'pathconf': (NEG, 0), 'sysconf': (NEG, 0), 'utime': (ZERO, 0), 'utimes': (ZERO, 0), 'chmod': (ZERO, 0),
    'fopen': (NULL, 0), 'iconv_open': (MAPF, 0), 'timegm': (NEG, 0),
}
SAMPLES = {NEG: (0, 1, 4096), ZERO: (0,), NULL: (1,), MAPF: (4096,), NZ: (0,)}
FAILV = {NEG: -1, ZERO: -1, NULL: 0, MAPF: -1, NZ: 5}
EINTR = 4
# calls that do not disturb errno on any glibc we support (or whose failure is not observable here)
KEEP_ERRNO = set('''free malloc calloc realloc _Znwm _Znam _ZdlPv _ZdaPv _ZdlPvm _ZdlPvSt11align_val_t memcpy memmove memset memcmp strlen strcmp strcpy strncpy
strchr strrchr strncmp __errno_location pthread_self pthread_equal getpid htons __cxa_allocate_exception __cxa_free_exception __cxa_throw __cxa_begin_catch
__cxa_end_catch __cxa_rethrow __cxa_get_exception_ptr __dynamic_cast abort _exit sigemptyset sigfillset sigaddset sigdelset sigismember _ZSt9terminatev __clang_call_terminate
_ZNSt9exceptionD2Ev _ZNKSt9exception4whatEv isspace isdigit tolower toupper gettimeofday time __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort _ZSt18uncaught_exceptionv
__cxa_atexit __cxa_pure_virtual _Unwind_Resume wcslen backtrace'''.split())
ERRNO = ('S', 'errno')


ALLOCFN = ('alloc', 'dealloc', 'alloc_hint', 'operator new', 'operator delete', 'allocFactory', 'allocBlock', 'freeBlock')


def reaching_cut(P, targets, cut):
    rev = {}
    for a, s in P.callgraph().items():
        if a in cut:
            continue
        for b in s:
            rev.setdefault(b, set()).add(a)
    seen = set(targets)
    st = list(targets)
    while st:
        x = st.pop()
        for y in rev.get(x, ()):
            if y not in seen:
                seen.add(y)
                st.append(y)
    return seen


def is_sys(n):
    return n in CALLS


class SysClient(Client):
    maxdepth = 6
    small = 0
    exitcap = 6

    def __init__(self, P, calls=None):
        self.P = P
        self.calls = calls if calls is not None else CALLS
        self._clob = None
        self.focus = None       # (function, instruction id): only this call is split into outcomes

    def init(self):
        return ()

    # which library functions may reach an errno-setting external call
    def clobbers(self, n):
        if self._clob is None:
            ext = set()
            for f in self.P.F.values():
                for i in f.instrs():
                    if i[1] == 'call':
                        for x in self.P.callees(f, i)[0]:
                            if x not in self.P.F and x not in KEEP_ERRNO and not x.startswith('llvm.') and not x.startswith('_ZNSt') and not x.startswith('_ZSt'):
                                ext.add(x)
            # allocators are taken to preserve errno
            alloc = {f.n for f in self.P.F.values() if f.short.split('::')[-1] in ALLOCFN}
            self._clob = reaching_cut(self.P, ext, alloc)
        if n in self.P.F:
            return n in self._clob
        return n not in KEEP_ERRNO and not n.startswith('llvm.') and not n.startswith('_ZNSt')

    def syms(self, cl):
        return [f[3] for f in cl if f[0] == 'F'] + [f[4] for f in cl if f[0] == 'E' and len(f) > 4 and f[4] is not None]

    @staticmethod
    def setfact(st, drop, *new):
        st.cl = tuple(sorted([f for f in st.cl if not drop(f)] + list(new), key=repr))

    def want_inline(self, en, name):
        return None

    def call(self, en, fr, st, i, names, args):
        n = names[0] if names else ''
        if n == '__errno_location':
            return [('ret', ('p', ERRNO, 0), st)]
        if n not in self.calls:
            # errno provenance through other calls
            if n and n not in self.P.F and self.clobbers(n):
                self.clobber(st, n)
            return None
        kind, intr = self.calls[n]
        site = (fr.fn.n, i[0], fr.ctx)
        self.oncall(en, fr, st, i, n, args)
        outs = []
        if self.focus is not None and self.focus != (fr.fn.n, i[0]):
            v = en.newsym(fr, st, i)
            if self.clobbers(n):
                self.clobber(st, n, v[1])
            if kind == NEG:
                st.cons[v[1]] = (-1, PINF, ())
            elif kind == ZERO:
                st.cons[v[1]] = (-1, 0, ())
            self.havoc_out(en, fr, st, i, n, args)
            if kind != NZ:
                st.mem[(ERRNO, 0)] = ('p', ('S', 'erru', fr.ctx, fr.fn.n, i[0]), 0)
            return [('ret', v, st)]
        isF = lambda f: f[0] in ('F', 'N') and f[1] == site
        for f in st.cl:
            if f[0] == 'F' and f[1] == site:
                self.lost(fr, st)
        # success
        s = st.copy()
        self.setfact(s, lambda f: isF(f) or f[0] == 'E', ('E', 'ok', n))
        v = en.newsym(fr, s, i)
        if kind in (ZERO, NZ):
            s.cons[v[1]] = (0, 0, ())
        elif kind == NEG:
            s.cons[v[1]] = (0, PINF, ())
        elif kind == NULL:
            s.cons[v[1]] = (1, PINF, ())
        else:
            s.cons[v[1]] = (-(1 << 63), PINF, (-1,))
        self.havoc_out(en, fr, s, i, n, args)
        outs.append(('ret', v, s))
        fv = FAILV[kind]
        for e in ((0, 1) if intr else (0,)):
            s = st.copy()
            self.setfact(s, lambda f: isF(f) or f[0] == 'E', ('E', 'fail', n),
                         ('F', site, n, v[1], SAMPLES[kind], e, fr.ctx))
            s.cons.pop(v[1], None)
            s.cons[v[1]] = (fv, fv, ())
            self.havoc_out(en, fr, s, i, n, args)
            if kind != NZ:
                b = ('S', 'errv', fr.ctx, fr.fn.n, i[0], e)
                s.cons[b] = (EINTR, EINTR, ()) if e else (1, PINF, (EINTR,))
                s.mem[(ERRNO, 0)] = ('p', b, 0)
            outs.append(('ret', v, s))
        return outs

    def oncall(self, en, fr, st, i, n, args):
        pass

    def lost(self, fr, st):
        """the call is executed again while its failure has not been looked at"""

    def havoc_out(self, en, fr, st, i, n, args):
        for a in args[1:]:
            if isinstance(a, tuple) and a[0] == 'p' and a[1][0] in ('L', 'S'):
                en.havoc_base(st, a[1], (fr.fn.n, i[2]))

    def clobber(self, st, n, sym=None):
        e = [f for f in st.cl if f[0] == 'E']
        if e and e[0][1] == 'fail' or e and e[0][1] == 'clob' and sym is not None:
            self.setfact(st, lambda f: f[0] == 'E', ('E', 'clob', e[0][2], n, sym))
        elif e and e[0][1] == 'ok':
            self.setfact(st, lambda f: f[0] == 'E')

    def opaque(self, en, fr, st, i, names, args):
        for n in names:
            if n in self.P.F and self.clobbers(n):
                self.clobber(st, self.P.F[n].short)
                return

    def cmp(self, en, fr, st, i, pred, a, b):
        for x, y, p in ((a, b, pred), (b, a, {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(pred))):
            if isinstance(x, tuple) and x[0] == 'p' and x[2] == 0:
                for f in st.cl:
                    if f[0] == 'F' and f[3] == x[1]:
                        lo, hi, ne = en.cons_of(st, x[1])
                        if lo != hi:
                            continue
                        if isinstance(y, int):
                            k = evalc(p, lo, y)
                            rem = tuple(s for s in f[4] if evalc(p, s, y) == k)
                        else:
                            rem = f[4]
                        if rem != f[4]:
                            if rem:
                                self.setfact(st, lambda g: g == f, f[:4] + (rem,) + f[5:])
                            else:
                                self.setfact(st, lambda g: g == f, ('N', f[1], f[2], f[5]))
                        return


class ErrnoClient(SysClient):
    """Value-based provenance of errno: the symbol stored in errno names the call that set it."""

    def __init__(self, P):
        SysClient.__init__(self, P)
        self.reports = []       # (fn, instr, how, call)
        self.uses = 0

    def syms(self, cl):
        return [f[1] for f in cl if f[0] == 'R']

    def call(self, en, fr, st, i, names, args):
        n = names[0] if names else ''
        if n == '__errno_location':
            return [('ret', ('p', ERRNO, 0), st)]
        if n not in self.calls:
            for a in args:
                if isinstance(a, tuple) and a[0] == 'p' and a[1][0] == 'S' and a[1][1] in ('erru', 'errc'):
                    self.use(en, fr, st, i, a[1])
            if n and n not in self.P.F and self.clobbers(n):
                self.clob(st, n)
            return None
        kind, intr = self.calls[n]
        v = en.newsym(fr, st, i)
        if kind == NEG:
            st.cons[v[1]] = (-1, PINF, ())
        elif kind == ZERO:
            st.cons[v[1]] = (-1, 0, ())
        self.havoc_out(en, fr, st, i, n, args)
        keep = [f for f in st.cl if f[0] == 'R' and f[1] != v[1]][-3:]
        if n in ('poll', 'ppoll') and isinstance(args[1], int):
            st.cons[v[1]] = (-1, args[1], ())
        if kind == NZ:
            st.mem[(ERRNO, 0)] = ('p', ('S', 'errc', n, v[1]), 0)
            st.cl = tuple(keep + [('R', v[1])])
        else:
            st.mem[(ERRNO, 0)] = ('p', ('S', 'erru', n, v[1]), 0)
            st.cl = tuple(keep + [('R', v[1])])
        return [('ret', v, st)]

    def clob(self, st, n):
        st.mem[(ERRNO, 0)] = ('p', ('S', 'errc', n), 0)

    def opaque(self, en, fr, st, i, names, args):
        for n in names:
            if n in self.P.F and self.clobbers(n):
                self.clob(st, self.P.F[n].short)
                return

    def use(self, en, fr, st, i, b):
        self.uses += 1
        if b[1] == 'errc':
            if b[2] in ('getaddrinfo', 'getnameinfo') and len(b) > 3 and en.cons_of(st, b[3])[:2] == (-11, -11):
                return      # EAI_SYSTEM: the reason is in errno
            self.reports.append((fr.fn, i, 'clobbered by', b[2]))
            return
        kind = CALLS[b[2]][0]
        lo, hi, ne = en.cons_of(st, b[3])
        fv = FAILV[kind]
        if (lo, hi) == (fv, fv):
            return
        if kind == NEG and hi < 64 and lo >= -1 and all(x in ne for x in range(0, hi + 1)):
            return
        if kind == NEG and hi == -1 or kind == ZERO and (0 in ne or hi < 0 or lo > 0):
            return
        if b[2] == 'execve':
            return
        self.reports.append((fr.fn, i, 'not known to have failed:', b[2]))


# calls whose failure carries no information the user could act on
BEST_EFFORT = {
    'close': 'nothing can be done about a failed close',
    'munmap': 'fails only for invalid arguments',
    'munlock': 'advisory', 'mlock': 'advisory: the caller cannot rely on locked memory',
    'kill': 'used as a liveness probe', 'ioctl': 'FIONBIO/FIONREAD on an own socket',
    'fcntl': 'flags of an own descriptor', 'setsockopt': 'socket tuning', 'shutdown': 'tearing a connection down',
    'sigprocmask': 'fails only for invalid arguments', 'sigaction': 'fails only for invalid signal numbers',
    'sem_init': 'fails only for invalid arguments', 'sem_post': 'fails only on overflow of the counter',
    'sysconf': 'probe', 'pathconf': 'probe', 'usleep': 'delay', 'access': 'probe', 'unlink': 'clean-up of a stale lock file',
    'sem_wait': 'fails only when interrupted (see the signal property)', 'sem_trywait': 'the failure is the answer of the probe', 'gettimeofday': 'cannot fail',
}
TRANSFER = ('read', 'write', 'pread', 'pwrite', 'pread64', 'pwrite64', 'readv', 'writev', 'recv', 'send', 'recvfrom', 'sendto', 'recvmsg',
            'sendmsg', 'accept', 'accept4', 'waitpid')


class OutcomeClient(SysClient):
    """One system call of the root is split into its outcomes; the exits are recorded."""
    maxdepth = 6

    def __init__(self, P):
        SysClient.__init__(self, P)
        self.exits = []
        self.args = None
        self.again = False

    def syms(self, cl):
        r = SysClient.syms(self, cl)
        for f in cl:
            if f[0] in ('F', 'N'):
                site = f[1]
                for e in (0, 1):
                    r.append(('S', 'errv', site[2], site[0], site[1], e))
        return r

    def oncall(self, en, fr, st, i, n, args):
        if self.focus == (fr.fn.n, i[0]):
            self.args = args
        else:
            # another attempt of a call of the same kind
            for f in st.cl:
                if f[0] == 'N' and f[2] == n and 'again' not in f:
                    self.setfact(st, lambda g: g == f, f + ('again',))

    def frame_exit(self, en, fr, kind, ret, st):
        # a failure that was looked at but is handed on as the result has to be noticed by the caller
        if kind == 'ret' and isinstance(ret, tuple) and ret[0] == 'p':
            for f in st.cl:
                if f[0] == 'N' and ret[1] == ('S', 'r', f[1][2], f[1][0], f[1][1]):
                    lo, hi, ne = en.cons_of(st, ret[1])
                    if lo == hi:
                        self.setfact(st, lambda g: g == f, ('F', f[1], f[2], ret[1], SAMPLES[CALLS[f[2]][0]], f[3], f[1][2]))

    def cmp(self, en, fr, st, i, pred, a, b):
        SysClient.cmp(self, en, fr, st, i, pred, a, b)
        for x, y in ((a, b), (b, a)):
            if y == EINTR and isinstance(x, tuple) and x[0] == 'p' and x[1][1:2] == ('errv',) and x[1][5]:
                for f in st.cl:
                    if f[0] == 'N' and f[3] == 1 and 'seen' not in f:
                        self.setfact(st, lambda g: g == f, f + ('seen',))

    def lost(self, fr, st):
        self.exits.append(('loop', None, st))

    def root_exit(self, en, fr, kind, ret, st):
        self.exits.append((kind, ret, st))


def direct_roots(P):
    """library functions that contain a modelled system call -> [(fn, instr, names)]"""
    r = []
    for f in sorted(P.F.values(), key=lambda f: (f.short, f.n)):
        if not f.file.startswith('lightspeed/'):
            continue
        for i in f.instrs():
            if i[1] == 'call':
                ns = set(P.callees(f, i)[0]) & set(CALLS)
                if ns:
                    r.append((f, i, sorted(ns)))
    return r


def rev_callers(P):
    rev = {}
    for a, s in P.callgraph().items():
        for b in s:
            rev.setdefault(b, set()).add(a)
    return rev
