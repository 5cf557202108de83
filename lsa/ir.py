"""Program model over the facts emitted by tool/extract.cpp.

Instruction tuples are the JSON lists of the extractor:  [id, op, line, ...].
"""
import json, glob, os, re, collections


class Fn(object):
    __slots__ = ('n', 'd', 'file', 'line', 'lk', 'nothrow', 'sret', 'cls', 'sn', 'art',
                 'virt', 'scope', 'acc', 'ret', 'dir', 'args', 'b', '_defs', '_vc', '_live', '_preds',
                 '_defblk', 'short', 'cst')

    def __init__(self, o):
        for k in ('n', 'd', 'file', 'line', 'lk', 'nothrow', 'sret', 'cls', 'sn', 'art', 'virt',
                  'scope', 'acc', 'ret', 'dir', 'args', 'b', 'cst'):
            setattr(self, k, o[k])
        self._defs = None
        self._vc = None
        self._live = None
        self._preds = None
        self._defblk = None
        self.short = short(self.d)

    # -- lookups ------------------------------------------------------------
    def defs(self):
        if self._defs is None:
            d = {}
            for b in self.b:
                for i in b:
                    if i[0] >= 0:
                        d[i[0]] = i
            self._defs = d
        return self._defs

    def instrs(self):
        for b in self.b:
            for i in b:
                yield i

    def ninstr(self):
        return sum(len(b) for b in self.b)

    def succs(self, bi):
        t = self.b[bi][-1]
        op = t[1]
        if op == 'br':
            return [t[4], t[5]]
        if op == 'jmp':
            return [t[3]]
        if op == 'switch':
            return [t[4]] + [c[1] for c in t[5]]
        if op == 'call' and t[7] >= 0:
            return [t[7], t[8]]
        return []

    def preds(self):
        if self._preds is None:
            p = [[] for _ in self.b]
            for i in range(len(self.b)):
                for s in self.succs(i):
                    p[s].append(i)
            self._preds = p
        return self._preds

    def live_in(self):
        """SSA ids live at entry of each block (phi operands count at the edge)."""
        if self._live is None:
            n = len(self.b)
            use = [set() for _ in range(n)]
            deff = [set() for _ in range(n)]
            phiuse = [set() for _ in range(n)]   # live-out contributions of a block
            for bi, b in enumerate(self.b):
                for i in b:
                    if i[1] == 'phi':
                        for v, p in i[3]:
                            if isinstance(v, int):
                                phiuse[p].add(v)
                    else:
                        for v in operands(i):
                            if isinstance(v, int) and v not in deff[bi]:
                                use[bi].add(v)
                    if i[0] >= 0:
                        deff[bi].add(i[0])
            live = [set(u) for u in use]
            ch = True
            while ch:
                ch = False
                for bi in range(n - 1, -1, -1):
                    out = set(phiuse[bi])
                    for s in self.succs(bi):
                        out |= live[s]
                    nw = use[bi] | (out - deff[bi])
                    if nw - live[bi]:
                        live[bi] |= nw
                        ch = True
            # phi ids of a block are live at its entry after phi evaluation
            for bi, b in enumerate(self.b):
                for i in b:
                    if i[1] == 'phi':
                        live[bi].add(i[0])
            self._live = live
        return self._live


def operands(i):
    op = i[1]
    if op == 'load':
        return [i[3]]
    if op == 'store':
        return [i[3], i[4]]
    if op == 'gep':
        return [i[3]] + [v for v, s in i[5]]
    if op == 'call':
        return [i[3]] + list(i[4])
    if op == 'br' or op == 'switch' or op == 'ret' or op == 'resume':
        return [i[3]] if i[3] is not None else []
    if op == 'cmp':
        return [i[4], i[5]]
    if op == 'bin':
        return [i[4], i[5]]
    if op == 'cast':
        return [i[4]]
    if op == 'select':
        return [i[3], i[4], i[5]]
    if op == 'phi':
        return [v for v, b in i[3]]
    if op == 'xv':
        return [i[3]]
    if op == 'iv':
        return [i[3], i[4]]
    if op == 'cmpxchg':
        return [i[3], i[4], i[5]]
    if op == 'rmw':
        return [i[4], i[5]]
    if op == 'un':
        return [i[3]]
    return []


def strip_targs(s):
    """Remove balanced <...> groups (template arguments), keeping operator names."""
    if '<' not in s:
        return s
    s = s.replace('operator<<', 'operator@SHL').replace('operator<=', 'operator@LE').replace('operator<', 'operator@LT')
    s = s.replace('operator->', 'operator@ARROW').replace('operator>>', 'operator@SHR').replace('operator>', 'operator@GT')
    out = []
    depth = 0
    for c in s:
        if c == '<':
            depth += 1
        elif c == '>':
            if depth:
                depth -= 1
        elif depth == 0:
            out.append(c)
    r = ''.join(out)
    return (r.replace('operator@SHL', 'operator<<').replace('operator@LE', 'operator<=').replace('operator@LT', 'operator<')
             .replace('operator@ARROW', 'operator->').replace('operator@SHR', 'operator>>').replace('operator@GT', 'operator>'))


def short(d):
    """Qualified function name without template args, params, return type and LightSpeed::."""
    s = strip_targs(d)
    # cut parameter list: last top-level '(' group which is the params
    s = s.replace('(anonymous namespace)', '{anon}')
    m = s.find('operator()')
    if m >= 0 and s.find('(', 0, m) < 0:
        head = s[:m + len('operator()')]
        s = head
    else:
        # parameter lists of enclosing functions (local classes) are dropped, the last one ends the name
        p = s.find('(')
        while p > 0:
            q, d = p, 0
            while q < len(s):
                d += (s[q] == '(') - (s[q] == ')')
                q += 1
                if d == 0:
                    break
            r = re.match(r'(?: const| volatile| throw\(\))*::', s[q:])
            if not r:
                s = s[:p]
                break
            s = s[:p] + s[q + r.end() - 2:]
            p = s.find('(', p)
    s = s.strip()
    # drop leading return type
    if ' ' in s:
        mo = re.search(r'operator (?!\()', s)
        if mo:
            pre = s[:mo.start()]
            sp = pre.rfind(' ')
            s = s[sp + 1:]
        else:
            s = s[s.rfind(' ') + 1:]
    s = s.lstrip('*&')
    return s.replace('LightSpeed::', '')


class Cls(object):
    __slots__ = ('n', 'file', 'line', 'size', 'm', 'bases', 'meth')

    def __init__(self, o):
        for k in self.__slots__:
            setattr(self, k, o[k])


class Prog(object):
    def __init__(self, factdir):
        self.F = {}
        self.C = {}
        self.E = {}
        self.G = {}
        self.nothrow_decl = set()
        self.alias = {}
        for f in sorted(glob.glob(os.path.join(factdir, 'facts.*.jsonl'))):
            with open(f) as fh:
                for l in fh:
                    o = json.loads(l)
                    k = o['k']
                    if k == 'fn':
                        self.F[o['n']] = Fn(o)
                    elif k == 'cls':
                        self.C[o['n']] = Cls(o)
                    elif k == 'enum':
                        self.E[o['n']] = o
                    elif k == 'gv':
                        self.G[o['n']] = o
                    elif k == 'alias':
                        self.alias[o['n']] = o['to']
                    elif k == 'decl':
                        self.nothrow_decl.add(o['n'])
        self.by_short = collections.defaultdict(list)
        for f in self.F.values():
            self.by_short[f.short].append(f)
        for k in self.by_short:
            self.by_short[k].sort(key=lambda f: (f.file, f.line, f.n))
        self._vt = None
        self._cg = None
        self._mt = {}
        self._tib = None
        self._addr_taken = None

    # ---- vtables / virtual calls ------------------------------------------
    def _vtables(self):
        if self._vt is None:
            vt = collections.defaultdict(list)
            for g in self.G.values():
                if 'vt' not in g:
                    continue
                slots = {}
                off = [0]

                def walk(c):
                    if c[0] == 'l':
                        for x in c[1]:
                            walk(x)
                    else:
                        if c[0] == 'z':
                            off[0] += c[1]
                            return
                        slots[off[0]] = c
                        off[0] += 8
                walk(g['init'])
                seen = set()
                for o, tid in g['vt']:
                    if tid.endswith('.virtual'):
                        continue
                    if (o, tid) in seen:
                        continue
                    seen.add((o, tid))
                    vt[tid].append((g['n'], o, slots))
            self._vt = vt
        return self._vt

    def vcall_targets(self, tid, slot):
        r = []
        for n, o, slots in self._vtables().get(tid, ()):
            c = slots.get(o + slot)
            if c and c[0] == 'g':
                n2 = self.alias.get(c[1], c[1])
                if n2 not in r:
                    r.append(n2)
        return r

    def vcalls(self, fn):
        """map instr -> (tid, slot) for virtual calls in fn, keyed by id(instr)"""
        if fn._vc is None:
            d = fn.defs()
            tests = {}
            for i in fn.instrs():
                if i[1] == 'call' and isinstance(i[3], list) and i[3][0] == 'g' and 'type.test' in i[3][1]:
                    if isinstance(i[4][0], int) and i[4][1][0] == 'm':
                        tests[i[4][0]] = i[4][1][1]
            vc = {}
            for i in fn.instrs():
                if i[1] == 'call' and isinstance(i[3], int):
                    ld = d.get(i[3])
                    if ld and ld[1] == 'load':
                        p = ld[3]
                        slot = 0
                        if isinstance(p, int):
                            g = d.get(p)
                            if g and g[1] == 'gep':
                                slot = g[4]
                                p = g[3]
                            if isinstance(p, int) and p in tests:
                                vc[id(i)] = (tests[p], slot)
            fn._vc = vc
        return fn._vc

    def callees(self, fn, i):
        """resolved callee names of call instr i: (list, exact?)"""
        c = i[3]
        if isinstance(c, list) and c[0] == 'g':
            return [self.alias.get(c[1], c[1])], True
        v = self.vcalls(fn).get(id(i))
        if v:
            return self.vcall_targets(*v), True
        return [], False

    def vclass(self, fn, i):
        v = self.vcalls(fn).get(id(i))
        return v

    # ---- call graph ---------------------------------------------------------
    def callgraph(self):
        if self._cg is None:
            cg = {}
            for f in self.F.values():
                s = set()
                for i in f.instrs():
                    if i[1] == 'call':
                        s.update(self.callees(f, i)[0])
                cg[f.n] = s
            self._cg = cg
        return self._cg

    def reaching(self, targets):
        """names of all functions that can reach any of `targets` (names) by calls"""
        rev = collections.defaultdict(set)
        for a, s in self.callgraph().items():
            for b in s:
                rev[b].add(a)
        seen = set(targets)
        st = list(targets)
        while st:
            x = st.pop()
            for y in rev.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen

    def reachable(self, roots):
        cg = self.callgraph()
        seen = set(roots)
        st = list(roots)
        while st:
            x = st.pop()
            for y in cg.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen

    # ---- typeinfo hierarchy -------------------------------------------------
    def ti_bases(self, ti):
        """all transitive base typeinfos (names) of typeinfo symbol ti, incl. itself; None if unknown"""
        if self._tib is None:
            self._tib = {}
        if ti in self._tib:
            return self._tib[ti]
        out = {ti}
        g = self.G.get(ti)
        if g is not None:
            def walk(c):
                if c[0] == 'l':
                    for x in c[1]:
                        walk(x)
                elif c[0] == 'g' and c[1].startswith('_ZTI') and c[1] != ti:
                    out.update(self.ti_bases(c[1]))
            self._tib[ti] = out
            walk(g['init'])
        self._tib[ti] = out
        return out

    # ---- may-throw ----------------------------------------------------------
    def compute_maythrow(self, oom=False):
        """set of function names (defined) that may exit by exception.
        Known-nothrow externals: declared nounwind.  `oom`: operator new may throw."""
        key = oom
        if key in self._mt:
            return self._mt[key]
        newfn = ('_Znwm', '_Znam')
        mt = set()
        # iterate to fixpoint (start: nothing throws)
        funcs = list(self.F.values())
        # precompute call lists
        info = {}
        for f in funcs:
            calls = []
            for b in f.b:
                for i in b:
                    if i[1] != 'call' or i[5]:
                        continue
                    names, known = self.callees(f, i)
                    calls.append((i, names, known))
            info[f.n] = calls
        ch = True
        while ch:
            ch = False
            for f in funcs:
                if f.n in mt or f.nothrow:
                    continue
                if self._fn_throws(f, info[f.n], mt, oom, newfn):
                    mt.add(f.n)
                    ch = True
        self._mt[key] = mt
        return mt

    def never_returns(self):
        """functions of the program without a path to a return"""
        if getattr(self, '_nr', None) is not None:
            return self._nr
        nr = {'__cxa_pure_virtual'}
        while True:
            new = set()
            for f in self.F.values():
                if f.n in nr:
                    continue
                seen = {0}
                wl = [0]
                rets = False
                while wl and not rets:
                    bi = wl.pop()
                    dead = False
                    for i in f.b[bi]:
                        if i[1] == 'call':
                            ns = self.callees(f, i)[0]
                            if i[6] or ns and all(n in nr for n in ns):
                                dead = True
                                if i[8] >= 0 and i[8] not in seen:
                                    seen.add(i[8])
                                    wl.append(i[8])
                                break
                        elif i[1] == 'ret':
                            rets = True
                    if not dead:
                        for s in f.succs(bi):
                            if s not in seen:
                                seen.add(s)
                                wl.append(s)
                if not rets:
                    new.add(f.n)
            if not new:
                break
            nr |= new
        self._nr = nr
        return nr

    def name_throws(self, n, mt, oom):
        if n in self.F:
            return n in mt
        if n in ('_Znwm', '_Znam'):
            return oom
        if n in self.nothrow_decl:
            return False
        if n.startswith('llvm.'):
            return False
        if n in NOTHROW_EXT or n.startswith('_ZNSt8ios_base') or n.startswith('__cxa_guard'):
            return False
        if n == '__cxa_pure_virtual':
            return False
        return True

    def _fn_throws(self, f, calls, mt, oom, newfn):
        for i, names, known in calls:
            thr = False
            if names and names[0] in ('__cxa_throw', '__cxa_rethrow', '__cxa_bad_cast', '__cxa_bad_typeid', '__cxa_throw_bad_array_new_length'):
                thr = True
            elif not names:
                thr = True       # unknown function pointer / pure virtual without implementation
            else:
                thr = any(self.name_throws(n, mt, oom) for n in names)
            if not thr:
                continue
            if i[8] < 0:
                return True
            # goes to a landing pad: can it get out?
            if self._lp_escapes(f, i[8]):
                return True
        return False

    def _lp_escapes(self, f, bi):
        for i in f.b[bi]:
            if i[1] == 'lpad':
                for c in i[4]:
                    if c[0] == 'catch' and c[1] == ['c', 0]:
                        # catch-all: escapes only if handler rethrows; handled as separate call
                        return False
                    if c[0] == 'filter':
                        return False
        return True


NOTHROW_EXT = set('''
free malloc realloc calloc memcpy memmove memset memcmp strlen strcmp strncmp strcpy strchr strrchr
close read write open fcntl ioctl poll dup dup2 pipe pipe2 fork vfork execve execvpe _exit waitpid kill
lseek lseek64 pread pwrite pread64 pwrite64 ftruncate ftruncate64 fstat stat lstat mmap munmap msync unlink rename mkdir rmdir link symlink
opendir readdir closedir fsync fdatasync access realpath getcwd chdir select epoll_wait epoll_ctl recv send recvfrom sendto accept accept4 connect
pthread_mutex_lock pthread_mutex_unlock pthread_cond_wait pthread_cond_timedwait pthread_create pthread_join sem_wait sem_timedwait nanosleep usleep sleep
gettimeofday time clock_gettime abort exit printf fprintf sprintf snprintf vfprintf fputs fputc fwrite fflush puts putchar
sendfile sendfile64 utime utimes system daemon sigaction backtrace backtrace_symbols iconv iconv_open iconv_close getaddrinfo getnameinfo
ungetc getc fgetc fopen fclose fread dlopen dlsym dlclose syslog openlog closelog statvfs readlink tempnam mkstemp
_ZdlPv _ZdaPv _ZdlPvm __cxa_free_exception __cxa_end_catch __cxa_begin_catch __cxa_allocate_exception __cxa_get_exception_ptr
__errno_location _ZSt9terminatev __clang_call_terminate _ZSt18uncaught_exceptionv __cxa_atexit __dynamic_cast pthread_once
pthread_getspecific pthread_setspecific pthread_key_create pthread_self pthread_detach
_Unwind_Resume __cxa_call_unexpected __cxa_thread_atexit swapcontext getcontext setcontext makecontext sigprocmask
__xpg_strerror_r strerror_r strerror wcslen wmemcpy toupper tolower isspace rand srand qsort
_ZNSt9exceptionD2Ev _ZNSt9exceptionD1Ev _ZNKSt9exception4whatEv _ZNSt8bad_castD1Ev __isoc99_sscanf
readdir_r sigtimedwait __cxa_demangle siglongjmp __sigsetjmp signal prctl syscall eventfd utimensat chmod __fxstat
'''.split())
