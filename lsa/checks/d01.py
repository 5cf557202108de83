"""Time limits.  An operation given a limit measures it once: no wait of it is restarted in full, unlimited, or repeated once the limit has passed."""
import re
import subprocess
from ..engine import Client

# blocking system calls: argument with the limit, its kind (ms: relative number, rel/abs: timespec), result that says 'timed out'
PRIM = {'poll': (2, 'ms', 0), 'epoll_wait': (3, 'ms', 0), 'nanosleep': (0, 'rel', None), 'sigtimedwait': (2, 'rel', None), 'sem_timedwait': (1, 'abs', None),
        'pthread_cond_timedwait': (2, 'abs', None), 'pthread_mutex_timedlock': (1, 'abs', None), 'usleep': (0, 'ms', None), 'sleep': (0, 'ms', None),
        'select': (4, 'rel', 0), 'ppoll': (2, 'rel', 0)}
NOLIMIT = ('sem_wait', 'pthread_cond_wait', 'sigwait', 'sigwaitinfo', 'pause', 'sigsuspend', 'pthread_join')
# (function, argument, flag which makes it non-blocking)
FLAGGED = {'waitpid': (2, 1), 'flock': (1, 4)}
WAITS = ('wait', 'sleep', 'deepSleep', 'impSleep', 'lock', 'join', 'stop', 'doWaitPoll', 'waitForEvent', 'threadSleep')
# operations of the library with a limit in milliseconds: index of the argument (without this)
MS = {'safeSelect': 2, 'doWait': 1, 'wait': 1, 'stopAll': 0, 'sem_wait': 1, 'waitForRequest': 0, 'request': 4, 'waitForTerminate': 0, 'waitForTerminateSt': 0,
      'lock': 1, 'lockShared': 0, 'lockExclusive': 0}
# these say by true that the time is over, the others by false; None: by a code
TRUE = ('sleep', 'impSleep', 'threadSleep', 'doWaitPoll', 'waitForEvent')
CODED = ('PollSelect::wait', 'IOSleep::sleep')
# operations limited by a member of the object
# (True: it never waits without one; the executor does once its action has been taken)
MEMBER = {'AbstractResourcePool::acquire': True, 'ParallelExecutor::execute': False}
# the limit does not apply any more once this has been called: the result is just being delivered
ENDING = {'Future::wait': 'unregisterObserver'}
# a limit these cannot keep, as documented
EXEMPT = ('MsgQueue::stopAll', 'Scheduler::schedule')
LOCKS = re.compile(r'^(FastLock|MicroLock|SpinLock|RWLock|FastRWLock|Synchronized|SyncReleased|TrySynchronized|Exception|Singleton)|Exception$|::~|notify|wakeUp|RefCntPtr|AllocPointer')


def demangle(names):
    out = subprocess.run(['c++filt'], input='\n'.join(n.split('@@')[0] for n in names), capture_output=True, text=True).stdout.split('\n')
    return dict(zip(names, out))


def params(sig):
    """parameters of a demangled signature"""
    d, k = 0, len(sig.rstrip())
    sig = re.sub(r'\)[ a-z]*$', ')', sig)
    e = len(sig) - 1
    for k in range(e, -1, -1):
        if sig[k] == ')': d += 1
        elif sig[k] == '(':
            d -= 1
            if d == 0:
                break
    out, d, cur = [], 0, ''
    for c in sig[k + 1:e]:
        if c in '(<': d += 1
        if c in ')>': d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class Sig(object):
    """which arguments of the compiled function are limits"""

    def __init__(self, P):
        self.P = P
        self.tab = {}
        sl = lambda f: f.short.split('::')[-1]
        names = [n for n, f in P.F.items() if 'NS_7TimeoutE' in n or sl(f) in MS]
        dem = demangle(names)
        for n in names:
            f = P.F[n]
            ps = params(dem[n])
            pos = 1 if f.sret else 0
            method = 1 if (f.cls or n.startswith(('_ZTh', '_ZTv'))) and len(f.args) - pos - sum(2 if p == 'LightSpeed::Timeout' else 1 for p in ps) == 1 else 0
            pos += method
            for k, p in enumerate(ps):
                if p.startswith('LightSpeed::Timeout'):
                    self.tab[n] = (pos, 'ref' if '&' in p else 'val')
                    break
                if p in ('unsigned long', 'unsigned int') and sl(f) in MS and MS[sl(f)] == k and sl(f) not in ('lock',) + (() if len(ps) == k + 1 else (sl(f),)):
                    self.tab[n] = (pos, 'ms')
                    break
                if p in ('unsigned long',) and sl(f) == 'lock' and k == 1 and 'FileDescriptor' in f.short:
                    self.tab[n] = (pos, 'ms')
                    break
                pos += 2 if p == 'LightSpeed::Timeout' else 1

    def waits(self, n):
        f = self.P.F.get(n)
        if f is None or n not in self.tab:
            return None
        s = f.short.split('::')[-1]
        if s not in WAITS and s not in MS:
            return None
        tv = None if f.short.endswith(CODED) else 'always' if s == 'deepSleep' else 1 if s in TRUE and f.ret == 'i1' else 0
        return self.tab[n] + (tv,)


class D(Client):
    small = 0
    maxdepth = 7
    cap = 12
    capx = 8
    max_steps = 250000

    def __init__(self, cx, sig):
        self.cx = cx
        self.P = cx.P
        self.sig = sig
        self.bad = {}
        self.nwait = 0
        self.pos = {}

    # state: origins of symbols, relative values used by a wait, limits for whose timeouts a wait has been done, last fact of each limit,
    # tests for infinity, comparisons, waits with an unrelated limit since the last test, the limit is over
    def init(self):
        return (frozenset(), frozenset(), frozenset(), frozenset(), frozenset(), frozenset(), 0, 0)

    def get(self, st, k):
        return st.cl[k]

    def put(self, st, k, v):
        c = list(st.cl)
        c[k] = v
        st.cl = tuple(c)

    def syms(self, cl):
        out = []
        for x in cl[:6]:
            for e in x:
                for y in e if isinstance(e, tuple) else (e,):
                    if isinstance(y, tuple) and y and y[0] in ('S', 'A'):
                        out.append(y)
                    elif isinstance(y, tuple) and y and y[0] == 'p':
                        out.append(y[1])
        return out

    def norm(self, v):
        """identity of a value: what is loaded from an argument or an object stays the same value"""
        if isinstance(v, tuple) and v[0] == 'p' and isinstance(v[1], tuple) and v[1][:2] == ('S', 'ld'):
            return ('L', v[1][2], v[1][3])
        return v

    def forget(self, st, v):
        """the symbol gets a new value"""
        n = self.norm(v)
        has = lambda e: e == n or isinstance(e, tuple) and n in e
        for k in range(6):
            if any(has(e) for e in st.cl[k]):
                self.put(st, k, frozenset(e for e in st.cl[k] if not has(e)))

    def org(self, st, v):
        n = self.norm(v)
        for a, o in st.cl[0]:
            if a == n:
                return o
        return None

    def setorg(self, st, v, o):
        self.forget(st, v)
        self.put(st, 0, st.cl[0] | {(self.norm(v), o)})

    def content(self, en, fr, st, i, p):
        return en.mload(st, p, fr, i) if isinstance(p, tuple) and p[0] == 'p' else None

    def has_limit(self, v):
        """is this number the limit the operation was given, or computed of it?"""
        if self.kind not in ('ms', 'member'):
            return False
        n = self.norm(v)
        if self.kind == 'ms' and n == ('p', ('A', self.lim), 0):
            return True
        if self.kind == 'member' and isinstance(n, tuple) and n[0] == 'L' and n[1] == ('A', 0):
            return True
        if isinstance(v, tuple) and v[0] == 'bin':
            return any(self.has_limit(x) for x in v[2:])
        return False

    def is_limit(self, st, t):
        """does this point in time come from the limit?"""
        if self.kind == 'ref' and t == ('L', ('A', self.lim), 0) or self.kind == 'val' and t == ('p', ('A', self.lim), 0):
            return True
        o = self.org(st, t)
        return bool(o) and o[0] == 'ms'

    def infinite(self, en, st):
        if self.kind == 'member':
            return True
        if self.kind == 'ms' and en.known(st, 'eq', ('p', ('A', self.lim), 0), -1) is True:
            return True
        return any(en.known(st, 'ne', s, 0) is True for t, s in st.cl[4] if self.is_limit(st, t))

    def tested(self, st, t):
        if self.is_limit(st, t):
            self.put(st, 6, 0)

    def report(self, what, msg, fr, i):
        f = fr.fn
        self.bad.setdefault((self.root.short, what), (msg, f, i[2]))

    def over(self, en, st, t):
        """has the limit passed?  True, False, or None when nobody has asked"""
        for k, s, tv in st.cl[3]:
            if k == t:
                if tv == 'always':
                    return True
                if tv is None:
                    return False
                r = en.known(st, 'eq', s, tv)
                return r
        return False

    def setfact(self, st, t, s, tv):
        if self.kind == 'member' or self.is_limit(st, t):
            self.put(st, 3, frozenset(e for e in st.cl[3] if e[0] != t) | {(t, self.norm(s), tv)})

    def wait(self, en, fr, st, i, kind, v, tv):
        """a wait limited by v; returns its result"""
        t = self.judge(en, fr, st, i, kind, v)
        res = en.newsym(fr, st, i)
        self.forget_fact(st, res)
        if t is not None:
            self.setfact(st, t, res, tv)
        return res

    def judge(self, en, fr, st, i, kind, v):
        self.nwait += 1
        if st.cl[7]:
            return
        if v is None or v == -1 and kind == 'ms':
            o = ('inf',)
        elif isinstance(v, int):
            o = ('const',)
        else:
            o = self.org(st, v)
        t = None
        strict = self.kind != 'member'
        if kind in ('ref', 'val'):
            n = self.norm(v)
            if self.is_limit(st, n) or o and o[0] != 'inf':
                t = n
            if o and o[0] == 'ms' and o[1] == 'again':
                self.report('restart', 'waits for the whole limit again after it has waited before', fr, i)
                return n
            if o and o[0] == 'ms':
                self.put(st, 2, st.cl[2] | {'L'})
            if t is None and not (o and o[0] in ('inf', 'poll')):
                t = n
                if strict and not self.merged(n) and not self.below(en, st, n):
                    self.report('other', 'waits for a time which does not come from the limit it was given', fr, i)
                    return n
            if o and o[0] == 'poll':
                self.unrelated(en, fr, st, i)
        elif o and o[0] in ('rem', 'lim') and self.org(st, o[1]) == ('inf',):
            o = ('inf',)
        elif o and o[0] in ('rem', 'lim'):
            t = o[1]
            q = self.org(st, t)
            if q and q[:2] == ('ms', 'again'):
                self.report('restart', 'waits for the whole limit again after it has waited before', fr, i)
                return t
            if strict and not self.is_limit(st, t) and not (q and q[0] == 'poll') and not self.merged(t) and not self.below(en, st, t) and not self.below_ms(en, st, v):
                self.report('other', 'waits for a time which does not come from the limit it was given', fr, i)
                return t
            if kind in ('ms', 'rel'):
                if self.norm(v) in st.cl[1]:
                    if self.infinite(en, st):
                        return t
                    self.report('restart', 'waits again for the same number of milliseconds, which does not count the time already spent', fr, i)
                    return
                self.put(st, 1, st.cl[1] | {self.norm(v)})
        elif self.has_limit(v):
            if 'L' in st.cl[2]:
                if self.infinite(en, st):
                    return
                self.report('restart', 'waits for the whole limit again after it has waited before', fr, i)
                return
            self.put(st, 2, st.cl[2] | {'L'})
        elif o == ('const',):
            if v != 0:
                self.unrelated(en, fr, st, i)
        elif o != ('inf',) and kind == 'ms' and strict:
            if not self.below_ms(en, st, v) and not self.infinite(en, st):
                self.report('other', 'waits for a time which does not come from the limit it was given', fr, i)
        if o == ('inf',):
            # -1 may be the rest of no limit
            rest = kind == 'ms' and any(o[0] == 'rem' and self.is_limit(st, o[1]) and en.known(st, 'ne', x, -1) is not True for x, o in st.cl[0])
            if self.strictinf and not rest and not (strict and self.infinite(en, st)):
                self.report('unlimited', 'waits without any limit although it was given one', fr, i)
            return
        if t is not None:
            q = self.over(en, st, t)
            if q is not False and not self.infinite(en, st):
                self.report('again', 'waits again %s' % ('although the limit has passed' if q else 'without noticing whether the limit has passed'), fr, i)
                return
            return t

    def forget_fact(self, st, s):
        n = self.norm(s)
        self.put(st, 3, frozenset(e for e in st.cl[3] if e[1] != n))

    def below(self, en, st, t):
        """is this time known to come before the limit?"""
        for a, b, op, s in st.cl[5]:
            r = en.known(st, 'ne', s, 0)
            if r is None:
                continue
            lt = op in ('lt', 'le') and r or op in ('gt', 'ge') and not r
            gt = op in ('gt', 'ge') and r or op in ('lt', 'le') and not r
            if lt and a == t and self.is_limit(st, b) or gt and b == t and self.is_limit(st, a):
                return True
        return self.infinite(en, st)

    def below_ms(self, en, st, v):
        return any(o[0] == 'rem' and self.is_limit(st, o[1]) and (en.known(st, 'ule', v, r) or en.known(st, 'uge', r, v)) for r, o in st.cl[0])

    def merged(self, t):
        """a local variable whose value differs between merged paths"""
        return isinstance(t, tuple) and t[0] == 'L' and isinstance(t[1], tuple) and t[1][0] == 'L' or isinstance(t, tuple) and t[0] == 'p' and t[1][:2] == ('S', 'w')

    def unrelated(self, en, fr, st, i):
        if self.kind == 'member' or self.infinite(en, st):
            return
        if st.cl[6]:
            self.report('unrelated', 'keeps waiting without looking at the limit it was given', fr, i)
        self.put(st, 6, 1)

    def cmp(self, en, fr, st, i, pred, a, b):
        if self.kind == 'ms' and st.cl[6] and (self.has_limit(a) or self.has_limit(b)):
            self.put(st, 6, 0)

    def rebound(self, st, base):
        self.forget(st, ('p', base, 0))

    def havoced(self, st, base, site):
        pass

    def want_inline(self, en, name):
        f = self.P.F.get(name)
        if f is None:
            return None
        if f.short.startswith(('Timeout::', 'SysTime::')) or LOCKS.search(f.short) or 'Exception' in f.short:
            return False
        return None

    def call(self, en, fr, st, i, names, args):
        if len(names) == 0:
            return None
        n = names[0]
        f = self.P.F.get(n)
        if f is None:
            if n in PRIM:
                a, kind, tv = PRIM[n]
                v = args[a]
                if kind in ('rel', 'abs'):
                    v = None if v == 0 else self.content(en, fr, st, i, v)
                res = self.wait(en, fr, st, i, kind, v, tv)
                return [('ret', res, st)]
            if n in NOLIMIT:
                self.wait(en, fr, st, i, 'abs', None, None)
            if n in FLAGGED:
                a, bit = FLAGGED[n]
                from ..engine import ormask
                v = args[a]
                m = v if isinstance(v, int) else ormask(v)
                if not m & bit:
                    self.wait(en, fr, st, i, 'abs', None, None)
            return None
        sh = f.short
        last = sh.split('::')[-1]
        if self.root.short.endswith(tuple(ENDING)) and last == next(v for k, v in ENDING.items() if self.root.short.endswith(k)):
            self.put(st, 7, 1)
            return None
        if f.cls and f.cls.endswith('Timeout') and sh.startswith('Timeout::') or last in ('operator<', 'operator>', 'operator<=', 'operator>=', 'operator==') and 'INS_7TimeoutEE' in n:
            return self.timeout(en, fr, st, i, n, last, args)
        if sh.startswith('SysTime::'):
            return self.systime(en, fr, st, i, n, last, args)
        if sh.startswith('SyncPt::Slot::') or sh == 'SyncPt::remove':
            # the slot says how its wait has ended
            self.put(st, 3, frozenset(e for e in st.cl[3] if e[2] != 0))
            return None
        if sh == 'Thread::join':
            # the thread is known to be over
            if not any(tv == 0 and en.known(st, 'ne', s, 0) for t, s, tv in st.cl[3]):
                self.wait(en, fr, st, i, 'abs', None, None)
            return [('ret', None, st)]
        w = None
        for x in names:
            w = w or self.sig.waits(x)
        if w is None:
            return None
        a, kind, tv = w
        if a >= len(args):
            return None
        v = args[a]
        if kind == 'ref':
            v = self.content(en, fr, st, i, v)
        res = self.wait(en, fr, st, i, kind, v, tv)
        outs = [('ret', res, st)]
        if not i[5] and any(self.P.name_throws(x, en.mt, self.oom) for x in names):
            s2 = st.copy()
            s2.exc = None
            outs.append(('unw', None, s2))
        return outs

    def timeout(self, en, fr, st, i, n, last, args):
        this = args[0] if args else None
        if last == 'Timeout':
            if 'RKS0_' in n or 'OS0_' in n:
                return None
            # a call without a result has no number of its own
            k = self.pos.get(fr.fn.n)
            if k is None:
                k = self.pos[fr.fn.n] = {id(x): j for j, x in enumerate(fr.fn.instrs())}
            s2 = ('p', ('S', 'tm', fr.ctx, fr.fn.n, k.get(id(i), -1)), 0)
            st.cons.pop(s2[1], None)
            if 'SysTimeEm' in n:
                ms = args[2]
            elif n.endswith('Em'):
                ms = args[1]
            elif n.endswith('Ev') or 'Null' in n:
                ms = -1
            else:
                ms = None
            self.forget(st, s2)
            if n.endswith('Emmmm'):
                self.setorg(st, s2, ('poll',))
            elif ms is not None:
                if ms == -1:
                    self.setorg(st, s2, ('inf',))
                elif isinstance(ms, int):
                    self.setorg(st, s2, ('poll',))
                elif self.has_limit(ms):
                    k = repr(self.norm(ms)) if self.kind == 'member' else 'L'
                    self.setorg(st, s2, ('ms', 'again' if 'L' in st.cl[2] else 'first', k))
                elif (self.org(st, ms) or (0,))[0] == 'rem':
                    self.setorg(st, s2, ('ms', 'first', 'rem'))
            if isinstance(this, tuple) and this[0] == 'p':
                en.mstore(st, this, s2)
                en.mstore(st, ('p', this[1], this[2] + 8), s2)
            return [('ret', None, st)]
        t = self.norm(self.content(en, fr, st, i, this)) if this is not None else None
        s = en.newsym(fr, st, i)
        if last in ('expired', 'isInfinite', 'getRemain') or last.startswith('operator'):
            self.forget(st, s)
        if t is not None:
            self.tested(st, t)
        if last == 'expired':
            self.setfact(st, t, s, 1)
            return [('ret', s, st)]
        if last == 'isInfinite':
            self.put(st, 4, st.cl[4] | {(t, s)})
            return [('ret', s, st)]
        if last == 'getRemain':
            s2 = ('p', ('S', 'rm') + s[1][1:], 0)
            self.setorg(st, s2, ('rem', t))
            self.put(st, 3, frozenset(e for e in st.cl[3] if e[0] != t or en.known(st, 'eq', e[1], e[2]) is not False))
            return [('ret', ('agg', (s2, s2)), st)]
        if last == 'getExpireTime':
            return [('ret', this, st)]
        if last == 'infinite':
            s2 = ('p', ('S', 'tm') + s[1][1:], 0)
            self.setorg(st, s2, ('inf',))
            return [('ret', ('agg', (s2, s2)), st)]
        if last.startswith('operator') and len(args) > 1:
            op = {'operator<': 'lt', 'operator>': 'gt', 'operator<=': 'le', 'operator>=': 'ge'}.get(last)
            b = self.norm(self.content(en, fr, st, i, args[1]))
            if b is not None:
                self.tested(st, b)
            if op and b is not None:
                self.put(st, 5, st.cl[5] | {(t, b, op, s)})
            return [('ret', s, st)]
        return None

    def systime(self, en, fr, st, i, n, last, args):
        if last == 'msecs':
            v = self.content(en, fr, st, i, args[0])
            s = en.newsym(fr, st, i)
            self.forget(st, s)
            if v is not None:
                o = self.org(st, v)
                if o and o[0] == 'rem':
                    self.setorg(st, s, o)
            return [('ret', s, st)]
        if last == 'getTimeSpec':
            v = self.content(en, fr, st, i, args[0])
            s = en.newsym(fr, st, i)
            s2 = ('p', ('S', 'ts') + s[1][1:], 0)
            self.forget(st, s2)
            o = self.org(st, v) if v is not None else None
            if o and o[0] == 'rem':
                self.setorg(st, s2, o)
            elif v is not None:
                self.setorg(st, s2, ('lim', self.norm(v)))
            return [('ret', ('agg', (s2, s2)), st)]
        s = en.newsym(fr, st, i)
        self.forget(st, s)
        return None


def run(cx):
    P = cx.P
    sig = Sig(P)
    h = D(cx, sig)
    prims = set(PRIM) | set(NOLIMIT) | set(FLAGGED)
    hot = set()
    for f in P.F.values():
        for i in f.instrs():
            if i[1] == 'call' and any(n in prims or sig.waits(n) for n in P.callees(f, i)[0]):
                hot.add(f.n)
                break
    cx.rule('every wait of an operation with a limit is limited by what remains of it, and none follows once it has passed')
    seen = set()
    for f in sorted(cx.ours(), key=lambda f: f.n):
        member = f.short in MEMBER
        if f.n not in sig.tab and not member:
            continue
        if f.short.startswith(('Timeout::', 'SysTime::')) or 'Exception' in f.short or f.n.startswith(('_ZTh', '_ZTv')):
            continue
        if f.short in EXEMPT:
            continue
        h.root = f
        if member:
            h.lim, h.kind, h.strictinf = 0, 'member', MEMBER[f.short]
        else:
            (h.lim, h.kind), h.strictinf = sig.tab[f.n], True
        n0 = h.nwait
        if cx.run(h, f, {f.n} | hot) is None:
            continue
        if h.nwait == n0:
            continue
        if f.short not in seen:
            seen.add(f.short)
            cx.instance(f.short)
        cx.count('operations with a limit')
        cx.count('waits of these operations', h.nwait - n0)
    for (root, what), (msg, f, line) in sorted(h.bad.items()):
        cx.violation('%s:%s' % (what, root), '%s %s' % (root, msg), f, line)
    cx.floor('operations with a limit', 20)
