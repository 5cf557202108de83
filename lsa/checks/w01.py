"""Wake-ups.  A table names, per class, the changes other threads may be waiting for (a message put in a queue, a finish flag, an opened gate, a waiter taken
from a waiting queue, ...) and the calls that wake the waiters.  Every path that makes such a change must reach a waking call afterwards, on normal and exceptional exits,
unless the path has established that nobody can be waiting.  The waiting side registers before it tests the condition for the last time and tests in a loop."""
import re
from ..engine import Client, collect
from ..sysm import rev_callers
from ..locks import is_ctor, is_dtor
from ..ir import strip_targs

WAKE = r'wakeUp|notify\w*|wakeThread|open|onNewMessage|finishThread|postMessage|resolve|sem_post|setState'


def E(id, what, ev, need, unless=(), when='ru', root=None, notroot=None):
    return dict(id=id, what=what, ev=ev, need=need, unless=unless, when=when, root=root, notroot=notroot)


# event:  store CLS FIELD nz|z|any   a value is stored (non-zero, zero, any) outside of constructors and destructors
#         call CLS FIELD NAMES       an operation with one of the names is called on the member
#         enter FUNCTION             the function is entered
#         result FUNCTION nz         a call of the function returned non-zero; the value itself has to reach the waking call
#         xchg CLS FIELD             a non-zero value was taken out by an atomic exchange
# need:   one of  call FIELD|'' NAMES / store CLS FIELD / read CLS FIELD / arg NAMES (the value of the event is passed to it)
# unless: null|nz|neg CLS FIELD (its last known value) / false|true|nonzero|pos|ne NAME (the result of the last call) / res0 (the function returns false)
TABLE = [
    E('queue-push', 'an action was added to the queue', ('call', 'QueueExecutor', 'queue', 'push'), [('call', 'semaphore', 'unlock')]),
    E('queue-finish', 'the executor was told to finish', ('store', 'QueueExecutor', 'finishFlag', 'nz'), [('call', 'semaphore', 'unlock')]),
    E('queue-leave', 'a serving thread has left', ('store', 'QueueExecutor', 'threadsIn', 'any'), [('call', 'noThreads', 'open'), ('call', 'semaphore', 'unlock')],
      root=r'~'),
    E('queue-last', 'the last serving thread has left', ('store', 'QueueExecutor', 'threadsIn', 'any'), [('call', 'noThreads', 'open')], [('nz', 'QueueExecutor', 'threadsIn')], root=r'~'),
    E('par-action', 'an action was published', ('store', 'ParallelExecutor', 'curAction', 'nz'), [('call', 'waitPt', r'notify\w+')]),
    E('par-stop', 'the executor was told to stop', ('store', 'ParallelExecutor', 'orderStop', 'nz'), [('call', 'waitPt', 'notifyAll')]),
    E('par-limit', 'the limit of threads was changed', ('store', 'ParallelExecutor', 'maxThreads', 'any'), [('call', 'waitPt', 'notifyAll')]),
    E('par-taken', 'the action was taken by a worker', ('xchg', 'ParallelExecutor', 'curAction'), [('call', '', 'wakeUp'), ('store', 'ParallelExecutor', 'callerNtf')]),
    E('par-run', 'the caller waits until its action is taken over', ('enter', 'ParallelExecutor::Worker::runAction'), [('call', '', 'wakeUp')], when='r'),
    E('disp-push', 'an action was added to the queue', ('call', 'Dispatcher', 'queue', 'push'), [('call', '', 'onNewMessage|wakeUp')], [('false', 'empty')]),
    E('disp-stop', 'the dispatcher was told to stop', ('store', 'Dispatcher', 'needstop', 'nz'), [('call', '', 'onNewMessage|wakeUp')]),
    E('disp-wake', 'a new message was announced', ('enter', 'Dispatcher::onNewMessage'), [('call', '', 'wakeUp')], [('null', 'Dispatcher', 'currentThread')]),
    E('disp-run', 'the dispatcher was marked running', ('call', 'Dispatcher', 'running', 'close'), [('call', 'running', 'open')]),
    E('gate-open', 'the gate was opened', ('store', 'Gate', 'state', 'z'), [('call', 'sp', 'notifyAll')]),
    E('sync-pop', 'a waiter was taken from the waiting queue', ('result', 'SyncPt::popSlot_lk', 'nz'), [('arg', r'notify\w*|wakeUp')]),
    E('sync-all', 'all waiters were taken from the waiting queue', ('store', 'SyncPt', 'curQueue', 'z'), [('call', '', r'notify|wakeUp')], [('null', 'SyncPt', 'curQueue')],
      root=r'notifyAll'),
    E('sync-slot', 'a waiter has to be woken', ('enter', 'SyncPt::notifySlot_lk'), [('call', '', r'notify|wakeUp')]),
    E('slot', 'a waiter has to be woken', ('enter', 'SyncPt::Slot::notify'), [('call', '', r'wakeUp')]),
    E('notifier', 'the notifier was signaled', ('store', 'Notifier', 'signaled', 'nz'), [('call', '', 'wakeUp')]),
    E('notifier-set', 'the notifier is woken', ('enter', 'Notifier::wakeUp'), [('store', 'Notifier', 'signaled')]),
    E('sem-unlock', 'the semaphore is unlocked', ('enter', 'Semaphore::unlock'), [('store', 'Semaphore', 'counter'), ('call', '', r'notify\w*|wakeUp')]),
    E('fast-unlock', 'the lock is released', ('enter', 'FastLock::unlock'), [('store', 'FastLock', 'queue'), ('call', '', 'wakeUp')]),
    E('fast-owner', 'the ownership is passed', ('store', 'FastLock', 'owner', 'nz'), [('call', '', 'wakeUp')], root=r'::unlock$'),
    E('level-pass', 'the lock is passed to a waiter', ('enter', 'LevelLock::releaseTopThread'), [('call', '', 'wakeUp')]),
    E('level-unlock', 'the lock is released', ('enter', 'LevelLock::unlock'), [('call', '', 'wakeUp|releaseTopThread')], [('nz', 'LevelLock', 'useCount'), ('null', 'LevelLock', 'qtop')]),
    E('mutex-free', 'the mutex was released', ('store', 'Mutex', 'owner', 'z'), [('read', 'SyncPt', 'curQueue')], when='r'),
    E('mutex-unlock', 'the mutex is unlocked', ('enter', 'Mutex::unlock'), [('call', 'waitPt', 'notifyOne'), ('store', 'Mutex', 'recursion')], when='r'),
    E('thread-finish', 'the thread was told to finish', ('store', 'Thread', 'flags', 'any'), [('call', '', 'wakeUp')], root=r'::finish$'),
    E('thread-wake', 'the thread is woken', ('enter', 'Thread::wakeUp'), [('call', '', 'wakeUp')], [('null', 'Thread', 'sleeper')]),
    E('sleeper', 'the sleeping thread is woken', ('enter', 'ThreadSleeper::wakeUp'), [('call', '', 'sem_post')], [('pos', 'sem_getvalue')]),
    E('thread-up', 'the new thread runs', ('enter', 'ThreadContext::bootstrap'), [('call', '', 'wakeUp')], when='r'),
    E('thread-end', 'the thread ends', ('enter', 'ThreadContext::bootstrap'), [('call', '', 'finishThread|open'), ('call', '', 'handleException')], when='r'),
    E('thread-fin', 'the thread ends', ('enter', 'ThreadContext::finishThread'), [('call', '', 'open')], [('null', 'ThreadContext', 'owner')], when='r'),
    E('job-wake', 'the sleeping job became ready', ('enter', 'Job::wakeUp'), [('call', '', 'wakeUp|execute|run')], [('ne', 'setState')]),
    E('msg-queued', 'a message was added to the queue', ('call', None, None, 'queued'), [('call', '', 'notify')], root=r'^MsgQueue::post'),
    E('msg-done', 'the notification message is disposed', ('enter', 'MsgQueue::NotifyMsg::done'), [('call', '', 'wakeUp')]),
    E('listener-notify', 'a request was added', ('enter', 'LinuxNetworkEventListener::notify'), [('call', '', 'wakeUp')]),
    E('listener-stop', 'the worker was told to finish', ('call', 'LinuxNetworkEventListener', 'worker', 'finish'), [('call', '', 'notify|wakeUp')]),
    E('listener-set', 'a request is accepted', ('enter', 'LinuxNetworkEventListener::set'), [('call', '', 'wakeUp'), ('call', '', 'postMessage')],
      [('null', 'INetworkEventListener::Request', 'reqNotify')], when='r'),
    E('listener-done', 'a request was processed', ('enter', 'LinuxNetworkEventListener::RequestMsg::done'), [('call', '', 'wakeUp')], [('null', 'INetworkEventListener::Request', 'reqNotify')]),
    E('poll-wake', 'the waiting thread is woken', ('enter', 'LinuxFdSelect::wakeUp'), [('call', '', 'write')], [('nonzero', 'lockInc')]),
    E('pool-release', 'a resource is returned', ('enter', 'AbstractResourcePool::release'), [('store', 'AbstractResourcePool', 'pool'), ('call', '', r'notify\w*|wakeUp')],
      [('neg', 'AbstractResourcePool', 'curLimit')]),
    E('promise', 'the promise was resolved', ('store', 'Future::Value', 'resolving', 'nz'), [], [('true', 'empty')]),
    E('observer', 'an observer was taken from the promise', ('call', 'Future::Value', 'observers', r'popFront|popBack'), [('call', '', 'resolve|pushFront|pushBack')],
      root=r'resolve'),
    E('register', 'an observer is registered', ('enter', 'Future::Value::registerObserver'), [('call', '', 'resolve'), ('call', 'observers', 'pushBack|pushFront')]),
    E('sigchild', 'the watcher of child processes leaves', ('call', 'GlobalSigChildWait', 'lock', 'unlock'), [('call', 'syncPt', r'notify\w+')]),
    E('sigchild-event', 'a child process event was counted', ('rmw', 'GlobalSigChildWait', 'eventNumber'), [('call', 'syncPt', 'notifyAll')]),
    E('join', 'the process has ended', ('store', 'LinuxProcessContext', 'pid', 'any'), [('call', '', 'open')], unless=[('res0',)], root=r'WaitPid|join$', when='r'),
    E('reply', 'a reply was placed', ('store', 'ProgInstanceBuffer', 'curRequestSize', 'any'), [('call', 'semReply', 'sem_post'), ('call', 'semRequest', 'sem_post')]),
    E('access', 'the buffer was reserved for one client', ('semwait', 'ProgInstanceBuffer', 'semAccess'), [('call', 'semAccess', 'sem_post')]),
    E('inprogress', 'the buffer was locked', ('semwait', 'ProgInstanceBuffer', 'semInProgress'), [('call', 'semInProgress', 'sem_post')], root='request$'),
]


LOCKS = {'FastLock::lock', 'FastLock::unlock', 'SpinLock::unlock', 'LLMutex::lock', 'LLMutex::unlock', 'FastLock::lockSlow', 'Semaphore::tryLock', 'Synchronized::Synchronized', 'Synchronized::~Synchronized',
         'SyncPt::remove'}
RESULTS = ('empty', 'setState', 'lockInc', 'sem_getvalue')


def norm(n):
    return strip_targs(n).replace('LightSpeed::', '').replace(' ', '')


def fields(P):
    """{class key: {field: (offset, end)}} per full class name"""
    want = {}
    for e in TABLE:
        for t in (e['ev'],) + tuple(e['need']) + tuple(e['unless']):
            if len(t) >= 3 and t[0] in ('store', 'rmw', 'xchg', 'call', 'semwait', 'read', 'null', 'nz', 'neg') and t[1] and t[1][0].isupper() and t[2]:
                want.setdefault(t[1], set()).add(t[2])
        own = e['ev'][1].rsplit('::', 1)[0] if e['ev'][0] == 'enter' else e['ev'][1]
        if own:
            for t in e['need']:
                if t[0] == 'call' and t[1]:
                    want.setdefault(own, set()).add(t[1])
    for w in WAITS:
        for c, f in (w['field'],) + ((w['payload'],) if w['payload'] else ()):
            want.setdefault(c, set()).add(f)
    out = {}
    for n, c in P.C.items():
        k = norm(n)
        if k in want:
            out[n] = (k, {m[0]: (m[1], m[1] + max(m[3], 1)) for m in c.m if m[0] in want[k]})
    return out, want


class W(Client):
    small = 8
    max_steps = 300000
    maxdepth = 7
    wantgep = True

    def __init__(self, cx, fl):
        self.cx = cx
        self.P = cx.P
        self.fl = fl
        self.names = {}
        for n in fl:
            self.names.setdefault(n.replace(' ', ''), n)
        self.cname = {}
        self.tags = {}
        self.hits = {}
        self.bad = {}

    def init(self):
        cl = []
        for e in self._enter:
            self.hits.setdefault(e['id'], set()).add((self.root.n, self.root.line))
            cl.append(('P', e['id'], ('A', 0), 0, None, self.root.n, self.root.line))
        return tuple(sorted(cl, key=repr))

    def syms(self, cl):
        out = set()
        for f in cl:
            if f[0] == 'P':
                out.add(f[2])
            for x in f[2:]:
                if isinstance(x, tuple):
                    collect(x, out)
        return out

    # -- which member is it ------------------------------------------------------
    def clsof(self, n):
        if n not in self.cname:
            m = n.split('.', 1)[-1]
            r = self.names.get(m.replace(' ', ''))
            if r is None and '.' in m and m.rsplit('.', 1)[1].isdigit():
                r = self.names.get(m.rsplit('.', 1)[0].replace(' ', ''))
            self.cname[n] = r
        return self.cname[n]

    def gep(self, en, fr, st, i, p):
        n = i[6]
        if isinstance(p, tuple) and p[0] == 'p' and n[:6] in ('class.', 'struct'):
            c = self.clsof(n)
            if c:
                self.tags.setdefault(p[1], set()).add((p[2], c))

    def anyfield(self, i):
        k, fs = self.fl[self.clsof(i[6])]
        return any(a <= i[4] < b for a, b in fs.values())

    def eventfield(self, f, i):
        k, fs = self.fl[self.clsof(i[6])]
        for e in TABLE:
            ev = e['ev']
            if ev[0] in ('store', 'rmw', 'xchg', 'call', 'semwait') and ev[1] == k and ev[2] in fs and fs[ev[2]][0] <= i[4] < fs[ev[2]][1] and (
                    not e['root'] or re.search(e['root'], f.short)):
                return True
        return False

    def member(self, p):
        if isinstance(p, tuple) and p[0] == 'p':
            for o, c in self.tags.get(p[1], ()):
                k, fs = self.fl[c]
                for f, (a, b) in fs.items():
                    if o + a <= p[2] < o + b:
                        yield k, f, o

    def infield(self, p, base, off, cls, f):
        if not f:
            return True
        for k, g, o in self.member(p):
            if g == f and p[1] == base and o == off:
                return True
        return False

    # -- facts ---------------------------------------------------------------------
    @staticmethod
    def setf(st, drop, *new):
        st.cl = tuple(sorted({f for f in st.cl if not drop(f)} | set(new), key=repr))

    def event(self, fr, st, i, e, base, off, arg=None):
        self.hits.setdefault(e['id'], set()).add((fr.fn.n, i[2] if i else fr.fn.line))
        self.setf(st, lambda f: f[0] == 'P' and f[1] == e['id'] and f[2] == base, ('P', e['id'], base, off, arg, fr.fn.n, i[2] if i else fr.fn.line))

    def active(self, e):
        r = e['root']
        return not r or re.search(r, self.root.short)

    def done(self, st, test):
        if any(f[0] == 'P' and test(f) for f in st.cl):
            self.setf(st, lambda f: f[0] == 'P' and test(f))

    def building(self, fr, base):
        x = fr
        while x is not None:
            if (is_ctor(x.fn) or is_dtor(x.fn) and x.fn.cls and norm(x.fn.cls) == 'Notifier') and x.args and isinstance(x.args[0], tuple) and x.args[0][0] == 'p' and x.args[0][1] == base:
                return True
            x = x.parent
        return False

    def touched(self, en, fr, st, i, ptr, kind, val=None):
        for cls, f, o in list(self.member(ptr)):
            if kind == 'read':
                self.done(st, lambda p: any(n[0] == 'read' and n[1:] == (cls, f) for n in BY[p[1]]['need']))
                v = en.mload(st, ptr, fr, i)
            else:
                self.done(st, lambda p: any(n[0] == 'store' and n[1:] == (cls, f) for n in BY[p[1]]['need']))
                v = val
            if (cls, f) in self.unl and isinstance(v, (tuple, int)):
                self.setf(st, lambda g: g[0] == 'V' and g[1:3] == (cls, f), ('V', cls, f, v))
            if kind == 'read' or self.building(fr, ptr[1]):
                continue
            for e in TABLE:
                ev = e['ev']
                if ev[0] in ('store', 'rmw', 'xchg') and ev[1] == cls and ev[2] == f and self.active(e):
                    if ev[0] == 'store' and not (ev[3] == 'any' or en.known(st, 'eq', v, 0) is not (ev[3] == 'nz')):
                        continue
                    if ev[0] == 'store' and ev[3] == 'z' and en.known(st, 'eq', v, 0) is not True:
                        continue
                    if ev[0] in ('rmw', 'xchg') and i[1] not in ('rmw', 'cmpxchg'):
                        continue
                    arg = ('p', ('S', 'x', fr.ctx, fr.fn.n, i[0], 'rmw'), 0) if ev[0] == 'xchg' else None
                    self.event(fr, st, i, e, ptr[1], o, arg)

    def load(self, en, fr, st, i, ptr):
        self.touched(en, fr, st, i, ptr, 'read')

    def store(self, en, fr, st, i, val, ptr):
        self.touched(en, fr, st, i, ptr, 'write', val)

    def want_inline(self, en, name):
        f = self.P.F.get(name)
        if f is None or f.n in self.rel and self.rel[f.n] & self.rel.get(self.root.n, set()):
            return True if f is not None and f.ninstr() < 200 else None
        if 'atomic' in f.file:
            return True
        if f.n not in self.waking:
            return None
        if f is not None and self.root.cls and f.cls and (norm(f.cls) + '::').startswith(norm(self.root.cls) + '::') and f.ninstr() < 400:
            return True
        return None

    def call(self, en, fr, st, i, names, args):
        if not names:
            return None
        P = self.P
        names = [n for n in names if n != '__cxa_pure_virtual']
        if not names:
            return None
        ms = {P.F[n].short.split('::')[-1] if n in P.F else n for n in names}
        ms = {m.split('<')[0] for m in ms}
        m = ms.pop() if len(ms) == 1 else ''
        shorts = {P.F[n].short for n in names if n in P.F}
        woke = False
        s0 = None
        for f in list(st.cl):
            if f[0] != 'P':
                continue
            for n in BY[f[1]]['need']:
                if n[0] == 'call' and re.fullmatch(n[2], m) and args and self.infield(args[0], f[2], f[3], None, n[1]) or \
                        n[0] == 'arg' and re.fullmatch(n[1], m) and any(a == f[4] for a in args):
                    woke = True
                    self.done(st, lambda g: g == f)
        for e in TABLE:
            ev = e['ev']
            if not self.active(e):
                continue
            if ev[0] == 'call' and re.fullmatch(ev[3], m):
                if ev[1] is None:
                    self.event(fr, st, i, e, args[0][1] if isinstance(args[0], tuple) and args[0][0] == 'p' else ('-',), 0)
                else:
                    for cls, f, o in list(self.member(args[0] if args else None)):
                        if cls == ev[1] and f == ev[2]:
                            if s0 is None:
                                s0 = st.copy()
                            self.event(fr, st, i, e, args[0][1], o)
            elif ev[0] == 'result' and ev[1] in shorts:
                v = en.newsym(fr, st, i)
                self.event(fr, st, i, e, v[1], 0, v)
                return [('ret', v, st)]
            elif ev[0] == 'semwait' and m in ('sem_wait', 'sem_trywait', 'sem_timedwait'):
                for cls, f, o in list(self.member(args[0])):
                    if cls == ev[1] and f == ev[2]:
                        s2 = st.copy()
                        self.event(fr, st, i, e, args[0][1], o)
                        ok, no = (0, -1) if names[0] == m else (1, 0)
                        return [('ret', ok, st), ('ret', no, s2)]
        if s0 is not None and not woke:
            # the change happens unless the operation throws
            en.havoc_args(st, args[:1], (fr.fn.n, i[2]))
            outs = [('ret', en.newsym(fr, st, i), st)]
            if not i[5] and m == 'push':
                s0.exc = None
                outs.append(('unw', None, s0))
            return outs
        if 'LinuxSEH::enter' in shorts:
            return [('ret', 1, st)]
        if not woke and shorts and shorts <= LOCKS and not (self.root.short in LOCKS):
            return [('ret', en.newsym(fr, st, i), st)]
        if (m in self.res or m == 'lockInc') and 'SyncPt::empty' not in shorts:
            v = en.newsym(fr, st, i)
            extra = args[1] if len(args) > 1 and isinstance(args[1], int) else None
            if m == 'sem_getvalue' and isinstance(args[1], tuple) and args[1][0] == 'p':
                x = ('p', ('S', 'semval', fr.ctx, i[0]), 0)
                st.cons.pop(x[1], None)
                st.mem[(args[1][1], args[1][2])] = x
                self.setf(st, lambda f: f[0] == 'C' and f[1] == m, ('C', m, x, extra))
            elif m in self.res:
                self.setf(st, lambda f: f[0] == 'C' and f[1] == m, ('C', m, v, extra))
            if m == 'lockInc':
                for cls, f, o in list(self.member(args[0])):
                    for e in TABLE:
                        if e['ev'][0] == 'rmw' and e['ev'][1:3] == (cls, f) and self.active(e):
                            self.event(fr, st, i, e, args[0][1], o)
            return [('ret', v, st)]
        if woke and m in ('wakeUp', 'notify', 'notifyAll', 'notifyOne', 'notifySlot_lk', 'resolve', 'sem_post', 'write', 'open', 'onNewMessage', 'unlock'):
            return [('ret', en.newsym(fr, st, i), st)]
        return None

    def excused(self, en, st, f, e, kind, ret):
        facts = st.cl
        if f[4] is not None and en.known(st, 'eq', f[4], 0) is True:
            return True
        for u in e['unless']:
            if u[0] == 'res0':
                if ret == 0 or isinstance(ret, tuple) and en.known(st, 'eq', ret, 0) is True:
                    return True
            elif u[0] in ('null', 'nz', 'neg'):
                for g in facts:
                    if g[0] == 'V' and g[1:3] == u[1:3]:
                        pred, want = {'null': ('eq', True), 'nz': ('ne', True), 'neg': ('slt', True)}[u[0]]
                        if en.known(st, pred, g[3], 0) is want:
                            return True
            else:
                for g in facts:
                    if g[0] == 'C' and g[1] == u[1]:
                        if u[0] == 'ne':
                            r = g[3] is not None and en.known(st, 'ne', g[2], g[3])
                        elif u[0] == 'pos':
                            r = en.known(st, 'sge', g[2], 1)
                        else:
                            r = en.known(st, 'ne' if u[0] in ('nonzero', 'true') else 'eq', g[2], 0)
                        if r is True:
                            return True
        return False

    def root_exit(self, en, fr, kind, ret, st):
        for f in st.cl:
            if f[0] != 'P':
                continue
            e = BY[f[1]]
            if ('r' if kind == 'ret' else 'u') not in e['when'] or self.excused(en, st, f, e, kind, ret):
                continue
            self.bad.setdefault((self.root.n, e['id']), (f, kind))


BY = {e['id']: e for e in TABLE}
UNLESS = {u[1:] for e in TABLE for u in e['unless'] if len(u) == 3}


# -- the waiting side --------------------------------------------------------------------
# id, the waiting function, the field it waits for, the value which means "not yet" (None: any), other side of the comparison,
# slot: a slot is registered first and the field is read after that / where the thread blocks / must: the function returns only when the field says so
def WT(id, what, root, field, pred, other=0, slot=False, at='wait', must=False, payload=None):
    return dict(payload=payload, id=id, what=what, root=root, field=field, pred=pred, other=other, slot=slot, at=at, must=must)


BLOCK = r'sleep|threadHalt|impSleep'
WAITS = [
    WT('gate-wait', 'the gate', r'Gate::waitAsync', ('Gate', 'state'), 'ne', slot=True, at='return'),
    WT('mutex-wait', 'the owner of the mutex', r'Mutex::lock', ('Mutex', 'owner'), 'ne', slot=True, payload=('Mutex::MutexData', 'threadId')),
    WT('mutex-async', 'the owner of the mutex', r'Mutex::lockAsync', ('Mutex', 'owner'), 'ne', slot=True, at='return', payload=('Mutex::MutexData', 'threadId')),
    WT('par-wait', 'the published action', r'ParallelExecutor::Worker::run', ('ParallelExecutor', 'curAction'), 'eq', slot=True),
    WT('sigchild-wait', 'the number of events', r'GlobalSigChildWait::wait', ('GlobalSigChildWait', 'eventNumber'), 'eq', 'arg', slot=True),
    WT('sync-sleep', 'the slot', r'SyncPt::wait', ('Notifier', 'signaled'), 'eq'),
    WT('notifier-sleep', 'the notifier', r'Notifier::wait', ('Notifier', 'signaled'), 'eq'),
    WT('msg-sleep', 'the notification', r'MsgQueue::(flush|finish|waitForFinishMsg|syncToQueue|cancelMessage)', ('Notifier', 'signaled'), 'eq', must=True),
    WT('fastlock-sleep', 'the owner of the lock', r'FastLock::(lockSlow|Async::~Async)', ('FastLock', 'owner'), None),
    WT('level-sleep', 'the slot', r'LevelLock::lock', ('LevelLock::Slot', 'signaled'), 'eq', must=True),
    WT('thread-up-wait', 'the new thread', r'Thread::start', ('Notifier', 'signaled'), 'eq'),
]


def has(k, x):
    return k == x or isinstance(k, tuple) and any(has(y, x) for y in k)


class V(W):
    """Facts: R class field value (last read since registration or the last wake), G (a slot is registered), H (woken, nothing read since), Y (its data are stored)"""

    def init(self):
        return ()

    def event(self, *a, **k):
        pass

    def syms(self, cl):
        out = set()
        for f in cl:
            for x in f[1:]:
                collect(x, out)
        return out

    def load(self, en, fr, st, i, ptr):
        w = self.row
        for cls, f, o in list(self.member(ptr)):
            if (cls, f) != w['field']:
                continue
            if i[1] in ('rmw', 'cmpxchg'):
                v = ('p', ('S', 'x', fr.ctx, fr.fn.n, i[0], 'rmw' if i[1] == 'rmw' else 'cx'), 0)
            else:
                v = en.mload(st, ptr, fr, i)
            self.setf(st, lambda g: g[0] in 'RH', ('R', v))
            self.seen = True

    def store(self, en, fr, st, i, val, ptr):
        w = self.row
        for cls, f, o in list(self.member(ptr)):
            if (cls, f) == w['payload']:
                self.setf(st, lambda g: False, ('Y',))
            if (cls, f) == w['field'] and i[1] == 'cmpxchg':
                self.setf(st, lambda g: g[0] in 'RH', ('R', self.val0(en, fr, i)))

    def val0(self, en, fr, i):
        return i[4][1] if isinstance(i[4], (list, tuple)) and i[4][0] == 'c' else ('p', ('S', 'any', fr.fn.n, i[0]), 0)

    def notyet(self, en, fr, st):
        w = self.row
        r = [g for g in st.cl if g[0] == 'R']
        if not r:
            return False
        if w['pred'] is None:
            return True
        o = w['other']
        if o == 'arg':
            # the value one of the parameters refers to
            return any(en.known(st, w['pred'], g[1], en.mload(st, ('p', ('A', k), 0), fr, (0,))) is True for g in r for k in range(1, 6))
        return any(en.known(st, w['pred'], g[1], o) is True for g in r)

    def report(self, what, fr, i, key):
        self.bad.setdefault((self.root.n, self.row['id'], key), (what, fr.fn.n, i[2] if i else fr.fn.line))

    def call(self, en, fr, st, i, names, args):
        if not names:
            return None
        P = self.P
        names = [n for n in names if n != '__cxa_pure_virtual']
        ms = {(P.F[n].short.split('::')[-1] if n in P.F else n).split('<')[0] for n in names}
        m = ms.pop() if len(ms) == 1 else ''
        w = self.row
        shorts = {P.F[n].short for n in names if n in P.F}
        isblock = re.fullmatch(BLOCK, m) or w['slot'] and w['at'] == 'wait' and (m == 'wait' and any('SyncPt' in s for s in shorts)) or \
            w['id'] == 'thread-up-wait' and m == 'wait' and 'Notifier::wait' in shorts
        if isblock:
            self.blocks += 1
            if w['slot'] and not any(g[0] == 'G' for g in st.cl):
                self.report('blocks without having registered for a wake-up', fr, i, 'reg')
            elif w['id'] != 'thread-up-wait' and not self.notyet(en, fr, st):
                self.report('blocks although the last test of %s %sdoes not say it has to wait' % (w['what'], 'after the registration ' if w['slot'] else ''), fr, i, 'test')
            self.forget(en, fr, st, i)
            if w['id'] != 'thread-up-wait':
                self.setf(st, lambda g: g[0] in 'RH', ('H',))
            return [('ret', en.newsym(fr, st, i), st)]
        if m in ('add', 'add_lk') and any('SyncPt' in s for s in shorts):
            if w['payload'] and not any(g == ('Y',) for g in st.cl):
                self.report('registers the slot before storing the data the waking thread takes from it', fr, i, 'payload')
            self.forget(en, fr, st, i)
            self.setf(st, lambda g: g[0] in 'RHG', ('G',))
            return [('ret', en.newsym(fr, st, i), st)]
        if m == 'remove' and any('SyncPt' in s for s in shorts):
            self.setf(st, lambda g: g[0] == 'G')
            return [('ret', en.newsym(fr, st, i), st)]
        if w['slot'] and w['at'] == 'return' and m == 'notify' and w['id'] == 'gate-wait':
            return [('ret', en.newsym(fr, st, i), st)]
        return None

    def forget(self, en, fr, st, i):
        """other threads may have changed the field in the meantime"""
        for base, l in list(self.tags.items()):
            for o, c in l:
                k, fs = self.fl[c]
                if k == self.row['field'][0] and self.row['field'][1] in fs:
                    x = ('S', 'fresh', fr.fn.n, i[0], base, o)
                    st.mem[(base, o + fs[self.row['field'][1]][0])] = ('p', x, 0)
                    st.cons.pop(x, None)
                    for k2 in [k2 for k2 in st.cons if k2[0] in ('rel', 'tv') and has(k2, x)]:
                        del st.cons[k2]

    def root_exit(self, en, fr, kind, ret, st):
        w = self.row
        if kind != 'ret':
            return
        if w['at'] == 'return' and any(g[0] == 'G' for g in st.cl) and not self.notyet(en, fr, st):
            self.report('leaves the slot registered although the last test of %s after the registration does not say it has to wait' % w['what'], fr, None, 'test')
        if any(g[0] == 'H' for g in st.cl) and w['id'] not in NORETEST:
            self.report('returns after a wake-up without testing %s again' % w['what'], fr, None, 'again')
        if w['must']:
            r = [g for g in st.cl if g[0] == 'R']
            if not any(en.known(st, 'ne', g[1], w['other']) for g in r) and any(g[0] in 'RH' for g in st.cl):
                self.report('returns although %s has not been signaled' % w['what'], fr, None, 'must')


NORETEST = {'gate-wait', 'mutex-wait', 'mutex-async', 'par-wait', 'sigchild-wait', 'thread-up-wait'}


def waits(cx, fl, rel, waking):
    P = cx.P
    v = V(cx, fl)
    v.rel, v.waking = rel, waking
    v.unl, v.res = set(), set()
    cx.rule('a waiting thread registers first, tests the condition last and tests it again after every wake-up')
    for w in WAITS:
        roots = [f for f in cx.ours() if re.fullmatch(w['root'], f.short)]
        n = 0
        for f in roots:
            v.root, v.row, v.tags, v.bad, v.seen, v.blocks = f, w, {}, {}, False, 0
            if cx.run(v, f, {f.n}) is None:
                continue
            if not v.blocks and w['at'] == 'wait':
                continue
            n += 1
            cx.count('waiting functions examined')
            cx.instance('wait %s: %s' % (w['id'], f.short))
            for (rn, id, key), (what, fn, line) in v.bad.items():
                cx.violation('%s-%s:%s' % (id, key, f.short), '%s %s' % (f.short, what), P.F[fn], line, ['analysed from ' + f.short])
        if not n:
            cx.instance('wait %s: not found' % w['id'])


def run(cx):
    P = cx.P
    fl, want = fields(P)
    rev = rev_callers(P)
    w = W(cx, fl)
    cx.rule('a change others may wait for is followed by a wake-up on every path')
    enter = {}
    for e in TABLE:
        if e['ev'][0] == 'enter':
            enter.setdefault(e['ev'][1], []).append(e)
    res = {e['ev'][1] for e in TABLE if e['ev'][0] == 'result'}
    roots = {}
    w.rel = {}
    for f in cx.ours():
        if not is_ctor(f):
            r = {w.fl[w.clsof(i[6])][0] for i in f.instrs() if i[1] == 'gep' and w.clsof(i[6]) and w.anyfield(i)}
            if r:
                w.rel[f.n] = r
    w.waking = set()
    for f in cx.ours():
        for i in f.instrs():
            if i[1] == 'call' and any(re.fullmatch(WAKE, (P.F[x].short.split('::')[-1] if x in P.F else x)) for x in P.callees(f, i)[0]):
                w.waking.add(f.n)
                break
    for f in cx.ours():
        if f.short in enter:
            roots[f.n] = set()
        for i in f.instrs():
            if i[1] == 'gep' and w.clsof(i[6]) and not is_ctor(f) and w.eventfield(f, i):
                roots[f.n] = set()
                break
            if i[1] == 'call' and (any(n in P.F and P.F[n].short in res for n in P.callees(f, i)[0])):
                roots[f.n] = set()
                break
        if re.search(r'^MsgQueue::post', f.short):
            roots[f.n] = set()
    todo = [(n, frozenset()) for n in sorted(roots)]
    seen = set()
    while todo:
        n, inl = todo.pop()
        if (n, inl) in seen:
            continue
        seen.add((n, inl))
        root = P.F[n]
        w.root = root
        w.tags = {}
        w.bad = {}
        mine = w.rel.get(n, set()) | {norm(root.cls) if root.cls else '-'}
        rows = [e for e in TABLE if w.active(e) and (e in enter.get(root.short, ()) or e['ev'][0] != 'enter' and (e['ev'][1] is None or e['ev'][1] in mine))]
        w.unl = {u[1:] for e in rows for u in e['unless'] if len(u) == 3}
        w.res = {u[1] for e in rows for u in e['unless'] if len(u) == 2}
        w._enter = [e for e in enter.get(root.short, ()) if w.active(e)]
        z = cx.run(w, root, set(inl))
        if z is None:
            continue
        cx.count('functions examined')
        for (rn, id), (f, kind) in w.bad.items():
            e = BY[id]
            ups = [a for a in rev.get(n, ()) if a != n and P.F[a].file.startswith('lightspeed/')]
            own = root.cls and norm(root.cls).startswith(e['ev'][1] or '-') if e['ev'][0] != 'enter' else False
            if e['ev'][0] != 'enter' and ups and len(inl) < 3 and root.acc != 3 and not is_dtor(root):
                for a in ups:
                    todo.append((a, inl | {n}))
                cx.count('helpers examined in their callers')
                continue
            fn = P.F[f[5]]
            cx.violation('%s:%s' % (id, root.short), '%s in %s, but %s without waking who waits for it' % (
                e['what'], fn.short, 'an exception leaves %s' % root.short if kind == 'unw' else '%s returns' % root.short), fn, f[6], ['analysed from ' + root.short])
    for e in TABLE:
        h = w.hits.get(e['id'], ())
        cx.stats.setdefault('changes found', 0)
        cx.stats['changes found'] += len(h)
        for n, l in sorted(h):
            cx.instance('%s: %s:%s' % (e['id'], P.F[n].short, l))
        if not h:
            cx.instance('%s: not found' % e['id'])
    waits(cx, fl, w.rel, w.waking)
    cx.floor('changes found', 30)
    cx.floor('waiting functions examined', 6)
