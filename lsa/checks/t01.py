"""Tasks.  A task (action, message, observer) taken out of a queue is executed or rejected exactly once and then released, on every path; a task handed over is stored, or
released when an exception is thrown; the promise kept by an observer or by a dispatched action is settled exactly once; a queue is drained before it disappears."""
import re
from ..engine import Client
from ..locks import is_dtor
from .w01 import norm

TASKS = {'IDispatcher::AbstractAction': ('run', 'reject'), 'MsgQueue::AbstractMsg': ('run', 'reject'), 'Future::IObserver': ('resolve',), 'IMessage': ('operator()', 'deliver')}
# functions which take one task out of a queue
TAKES = ('Dispatcher::getNextAction', 'MsgQueue::getNextMsg')
# containers of tasks: class which owns them; values are taken in two steps
OWNERS = ('Dispatcher', 'QueueExecutor', 'Future::Value')
PUT = ('push', 'pushBack', 'pushFront', 'add')
TOP = ('top', 'front', 'getFirst')
QUEUES = ('Queue', 'Deque')
POP = ('pop', 'popFront', 'popBack')
# the observer asked for is taken out on purpose, the others are put back
EXEMPT = ('Future::Value::unregisterObserver',)
# functions which become the owner of a task: parameter
GIVEN = {'Dispatcher::dispatch': 1, 'MsgQueue::postMessage': 1, 'MsgQueue::postPriorityMessage': 1, 'Future::Value::registerObserver': 1}
# every exit of the function, once `after` was called, needs the call
DRAINS = [('Dispatcher::~Dispatcher', None, 'rejectQueue'), ('Dispatcher::finishRun', None, 'rejectQueue'), ('Dispatcher::run', 'close', 'finishRun'),
          ('MsgQueue::~MsgQueue', None, 'wtFlush'), ('MsgQueue::FlushMsg::run', None, 'wtFlush'), ('MsgQueue::wtFinish', None, 'wtFlush'), ('MsgQueue::FinishMsg::run', None, 'wtFlush')]
# these return only when the queue is empty
EMPTIES = ('Dispatcher::rejectQueue', 'MsgQueue::wtFlush')
# functions which execute one task: call after which it has to happen
STARTS = {'ParallelExecutor::Worker::runAction': 'clone', 'ThreadContext::bootstrap': 'close'}
# functions that take one given task out of the queue
REMOVES = ('MsgQueue::wtCancelMessage',)
SETTLE = ('resolve', 'reject', 'callAndResolve', 'cancel')

NONE, GOT, DONE, PUTTED = 0, 1, 2, 3


class T(Client):
    small = 12
    max_steps = 12000
    maxdepth = 6

    def __init__(self, cx):
        self.cx = cx
        self.P = cx.P
        self.tn = {}
        self.bad = {}
        self.n = {}
        self.given = None
        self.drain = None
        self.settle = self.start = self.removes = None

    def init(self):
        # current task, executed tasks not released yet, the drain has been called, result of the last take, promises settled
        return (GOT if self.given else NONE, 0, 0, None, (), 0)

    def want_inline(self, en, name):
        f = self.P.F.get(name)
        if f is None:
            return None
        if 'AllocPointer' in f.short or 'lockCompareExchange' in f.short or 'destroyInstance' in f.short or 'SyncReleased' in f.short or f.short.endswith(TAKES):
            return not f.short.endswith(TAKES)
        if f.short.split('::')[-1] in SETTLE or f.short.startswith('Promise::'):
            return False
        return None

    def tname(self, t):
        if t not in self.tn:
            import subprocess
            d = subprocess.run(['c++filt', t.replace('_ZTS', '_ZTI', 1)], capture_output=True, text=True).stdout.strip()
            self.tn[t] = norm(d.replace('typeinfo for ', ''))
        return self.tn[t]

    def report(self, what, fr, line):
        self.bad.setdefault((self.root.n, what), (fr.fn, line))

    def set(self, st, **k):
        c = list(st.cl)
        for n, v in k.items():
            c[('cur', 'old', 'drained', 'last', 'settled', 'gen').index(n)] = v
        st.cl = tuple(c)

    def took(self, fr, st, i):
        cur, old = st.cl[:2]
        if cur == PUTTED:
            self.set(st, cur=NONE)
            return
        if cur == GOT:
            self.report('takes another task while the one it took before is neither executed nor rejected', fr, i[2])
        self.set(st, cur=GOT, old=1 if cur == DONE else old)

    def fresh(self, st):
        # a task which differs from the one taken before
        g = 1 - st.cl[5]
        self.set(st, gen=g)
        return ('p', ('S', 'new', 'task', g), 0)

    def mine(self, st, v):
        return self.given is None or v[:2] == ('p', ('A', self.given))

    def call(self, en, fr, st, i, names, args):
        if not names:
            return None
        P = self.P
        names = [n for n in names if n != '__cxa_pure_virtual']
        if not names:
            return None
        shorts = [P.F[n].short for n in names if n in P.F]
        ms = {s.split('::')[-1].split('<')[0] for s in shorts}
        m = ms.pop() if len(ms) == 1 else ''
        v = P.vclass(fr.fn, i)
        if self.start and fr.parent is None:
            if m == self.start and not (st.exc and st.exc[0]):
                self.cnt('tasks taken', fr, i)
                en.havoc_args(st, args, (fr.fn.n, i[2]))
                s2 = st.copy()
                self.took(fr, st, i)
                return [('ret', en.newsym(fr, st, i), st)] + ([] if i[5] else [('unw', None, s2)])
            if m in ('deliver', 'operator()'):
                self.exec(en, fr, st, i)
                self.set(st, cur=NONE)
                en.havoc_args(st, args, (fr.fn.n, i[2]))
                return [('ret', en.newsym(fr, st, i), st)] + ([] if i[5] else [('unw', None, st.copy())])
        t = self.tname(v[0]) if v else None
        if shorts and all(s.endswith(TAKES) for s in shorts) and not fr.fn.short.endswith(TAKES):
            self.cnt('tasks taken', fr, i)
            s2 = st.copy()
            r = self.fresh(s2)
            self.took(fr, s2, i)
            self.set(s2, last=1)
            self.set(st, last=0)
            return [('ret', 0, st), ('ret', r, s2)]
        if m == 'lockExchangePtr' and 'Worker' in fr.fn.short:
            self.cnt('tasks taken', fr, i)
            s2 = st.copy()
            r = self.fresh(s2)
            self.took(fr, s2, i)
            return [('ret', 0, st), ('ret', r, s2)]
        if m == 'throwNullPointerException':
            # the value of a resolved promise is there
            return []
        if shorts and all(x.startswith(('FastLock::', 'SyncPt::')) for x in shorts) or m == 'lockSlow':
            en.havoc_args(st, args, (fr.fn.n, i[2]))
            return [('ret', en.newsym(fr, st, i), st)]
        if m == 'queued' and fr.parent is None:
            self.set(st, drained=1)
        own = norm(fr.fn.cls or '').split('::Server')[0] in OWNERS and fr.parent is None
        if own and m in POP and shorts[0].split('::')[-2] not in ('AutoArray',):
            self.cnt('tasks taken', fr, i)
            en.havoc_args(st, args, (fr.fn.n, i[2]))
            self.took(fr, st, i)
            if st.cl[3] == 'top':
                self.set(st, last=None)
            return [('ret', en.newsym(fr, st, i), st)]
        if own and m in TOP and shorts[0].split('::')[-2] in QUEUES:
            self.set(st, last='top')
        if own and m in PUT and st.cl[0] in (GOT, NONE):
            self.cnt('tasks stored', fr, i)
            en.havoc_args(st, args, (fr.fn.n, i[2]))
            s2 = st.copy() if not i[5] and any(P.F[n].n in en.mt for n in names if n in P.F) else None
            self.set(st, cur=NONE if st.cl[0] == GOT else PUTTED)
            return [('ret', en.newsym(fr, st, i), st)] + ([('unw', None, s2)] if s2 else [])
        if m == 'runAction' and st.cl[0] == GOT:
            self.exec(en, fr, st, i)
            self.set(st, cur=NONE)
            return None
        if self.removes and t in TASKS and fr.parent is None and isinstance(args[0], tuple) and args[0][0] == 'p' and m in ('run', 'reject', 'done'):
            self.cnt('tasks executed or rejected', fr, i)
            d = dict(st.cl[4])
            k = d.get(args[0][1], 0)
            if m == 'done' and k != 1:
                self.report('releases a task which was neither executed nor rejected', fr, i[2])
            elif m != 'done' and k:
                self.report('executes or rejects a task twice', fr, i[2])
            d[args[0][1]] = 2 if m == 'done' else 1
            self.set(st, settled=tuple(sorted(d.items(), key=repr)))
            return [('ret', en.newsym(fr, st, i), st)]
        if t in TASKS:
            if m in TASKS[t] and self.mine(st, args[0]):
                self.exec(en, fr, st, i)
                if t in ('Future::IObserver', 'IMessage'):
                    # observers release themselves, jobs are released by their pointer
                    self.set(st, cur=NONE)
                en.havoc_args(st, args, (fr.fn.n, i[2]))
                return [('ret', en.newsym(fr, st, i), st)] + ([] if i[5] else [('unw', None, st.copy())])
            if (m == 'done' or all(s.split('::')[-1].startswith('~') for s in shorts)) and self.mine(st, args[0]):
                cur, old = st.cl[:2]
                if old:
                    self.set(st, old=0)
                elif cur == GOT and self.given is None:
                    self.report('releases a task which was neither executed nor rejected', fr, i[2])
                    self.set(st, cur=NONE)
                else:
                    self.set(st, cur=NONE)
                return [('ret', en.newsym(fr, st, i), st)]
        if self.drain and m == self.drain[2]:
            self.set(st, drained=2)
        elif self.drain and m == self.drain[1] and st.cl[2] == 0:
            self.set(st, drained=1)
        if self.settle is not None:
            if m in SETTLE and shorts[0].startswith(('Promise::', 'Future::Resolution::')) and isinstance(args[0], tuple) and args[0][:2] == ('p', ('A', 0)):
                self.cnt('promises settled', fr, i)
                d = dict(st.cl[4])
                o = args[0][2]
                s2 = st.copy() if not i[5] and any(n in en.mt for n in names) else None
                d[o] = 1 if d.get(o, 0) in (0, 9) else 2
                self.set(st, settled=tuple(sorted(d.items())))
                en.havoc_args(st, args, (fr.fn.n, i[2]))
                return [('ret', en.newsym(fr, st, i), st)] + ([('unw', None, s2)] if s2 else [])
            if fr.parent is None and shorts and m == (['', ''] + shorts[0].split('::'))[-2].split('<')[0]:
                # the promise is handed over to another task
                d = dict(st.cl[4])
                for a in args[1:]:
                    if isinstance(a, tuple) and a[:2] == ('p', ('A', 0)) and a[2] > 0:
                        d.setdefault(a[2], 9)
                self.set(st, settled=tuple(sorted(d.items())))
            if args and args[0] == ('p', ('A', 0), 0) and (all(x.split('::')[-1].startswith('~') for x in shorts) and shorts or m in ('_ZdlPv', '_ZdlPvm', 'operator delete')):
                if m.startswith('~') or v:
                    d = dict(st.cl[4])
                    d[0] = min(2, d.get(0, 0) + 1)
                    self.set(st, settled=tuple(sorted(d.items())))
                    return [('ret', en.newsym(fr, st, i), st)]
        return None

    def cnt(self, what, fr, i):
        self.n.setdefault(what, set()).add((fr.fn.n, i[2]))

    def exec(self, en, fr, st, i):
        self.cnt('tasks executed or rejected', fr, i)
        if st.cl[0] == DONE:
            self.report('executes or rejects a task twice', fr, i[2])
        if st.cl[3] == 'top':
            self.report('executes a task while it is still in the queue, it can be taken again', fr, i[2])
        if st.cl[0] == GOT:
            self.set(st, cur=DONE)

    def store(self, en, fr, st, i, val, ptr):
        # published in a lock-free queue
        if self.given is not None and isinstance(val, tuple) and val[:2] == ('p', ('A', self.given)) and isinstance(ptr, tuple) and ptr[0] == 'p' and ptr[1] == ('A', 0):
            self.set(st, cur=NONE)

    def root_exit(self, en, fr, kind, ret, st):
        self.res.setdefault((kind, st.cl), (en, st, ret))


def run(cx):
    P = cx.P
    h = T(cx)
    roots = {}
    for f in sorted(cx.ours(), key=lambda f: f.n):
        sh = f.short
        give = next((k for k in GIVEN if sh == k), None)
        drain = next((d for d in DRAINS if d[0] == sh), None)
        hit = give or drain or sh in EMPTIES or sh in STARTS or sh in REMOVES
        for i in f.instrs():
            if i[1] != 'call' or hit:
                continue
            for n in P.callees(f, i)[0]:
                if n in P.F:
                    s = P.F[n].short
                    if s.endswith(TAKES) or s.split('::')[-1] == 'lockExchangePtr' and 'Worker' in sh:
                        hit = True
                    if norm(f.cls or '').split('::Server')[0] in OWNERS and s.split('::')[-1] in POP + TOP:
                        hit = True
        if hit and not sh.endswith(EXEMPT) and not sh.endswith(TAKES):
            roots[f.n] = (f, give, drain)
    cx.rule('a task taken out of a queue is executed or rejected once and released; a task handed over is stored; queues are drained')
    for n, (f, give, drain) in sorted(roots.items()):
        h.root, h.given, h.drain, h.settle, h.res, h.start, h.removes = f, GIVEN.get(give), drain, None, {}, STARTS.get(f.short), f.short in REMOVES
        if cx.run(h, f, {f.n}) is None:
            continue
        cx.count('functions handling tasks')
        cx.instance(f.short)
        for (kind, cl), (en, st, ret) in sorted(h.res.items(), key=repr):
            cur, old, drained, last = cl[:4]
            left = 'returns' if kind == 'ret' else 'is left by an exception'
            if give:
                if cur != GOT or en.known(st, 'eq', ('p', ('A', h.given), 0), 0) is True:
                    continue
                if kind == 'ret' and not (f.short.startswith('MsgQueue') and drained == 0) or kind == 'unw' and give == 'Dispatcher::dispatch':
                    cx.violation('given:' + give, '%s %s without having stored, executed or released the task it was given' % (f.short, left), f, f.line)
                continue
            if cur == GOT:
                cx.violation('lost:' + f.short, '%s %s while a task it took out of the queue is neither executed nor rejected' % (f.short, left), f, f.line)
            elif cur == DONE or old:
                cx.violation('leak:' + f.short, '%s %s without releasing a task it has executed or rejected' % (f.short, left), f, f.line)
            if h.removes and any(v == 1 for k, v in cl[4]):
                cx.violation('leak:' + f.short, '%s %s without releasing a task it has executed or rejected' % (f.short, left), f, f.line)
            if f.short.endswith(EMPTIES) and kind == 'ret' and last != 0:
                cx.violation('empty:' + f.short, '%s returns before the queue is empty' % f.short, f, f.line)
            if drain and (drained == 1 or drained == 0 and drain[1] is None and kind == 'ret'):
                cx.violation('drain:' + f.short, '%s %s without %s: tasks stay in the queue' % (f.short, left, drain[2]), f, f.line)
    cx.rule('an observer or action that settles a promise does so exactly once whichever way it is completed, and releases itself the same way')
    groups = {}
    for f in sorted(cx.ours(), key=lambda f: f.n):
        m = re.match(r'(.*)(?:7resolve|3run|6reject)E', f.n)
        if m and f.short.split('::')[-1] in ('run', 'reject', 'resolve') and f.file.endswith(('promise.tcc', 'promise.h', 'idispatcher.tcc', 'idispatcher.cpp', 'promise.cpp')) and not f.short.startswith(('Future::Value', 'Promise::', 'Future::Resolution::resolve<')) and \
                f.short.split('::')[-2] not in ('Resolution', 'Value', 'Promise'):
            groups.setdefault(m.group(1), []).append(f)
    for g, fs in sorted(groups.items()):
        res = []
        for f in fs:
            h.root, h.given, h.drain, h.settle, h.res, h.start, h.removes = f, None, None, 1, {}, None, None
            if cx.run(h, f, {f.n}) is None:
                continue
            cx.count('completions of observers and actions')
            res.append((f, [dict(cl[4]) for (kind, cl), (en, st, ret) in h.res.items() if kind == 'ret' and en.known(st, 'eq', ('p', ('A', 0), 0), 0) is not True]))
        offs = {o for f, r in res for d in r for o in d if d[o] != 9}
        for f, r in res:
            for o in sorted(offs):
                if any(d.get(o, 0) == 0 for d in r):
                    cx.violation('settle:%s:%d' % (f.short, f.line), '%s is left without %s on some path, unlike other ways to complete it' % (
                        f.short, 'settling its promise' if o else 'releasing the object'), f, f.line)
                if any(d.get(o, 0) == 2 for d in r):
                    cx.violation('settle2:%s:%d' % (f.short, f.line), '%s %s twice' % (f.short, 'settles its promise' if o else 'releases the object'), f, f.line)
    for (rn, what), (fn, line) in sorted(h.bad.items(), key=repr):
        cx.violation('%s:%s' % (what.split(' ')[0], P.F[rn].short), '%s %s' % (P.F[rn].short, what), fn, line)
    for k, v in sorted(h.n.items()):
        cx.stats[k] = len(v)
    for need in sorted(set(GIVEN) | {d[0] for d in DRAINS} | set(EMPTIES) | set(STARTS) | set(REMOVES)):
        if not any(f.short == need for f, g, d in roots.values()):
            cx.stats['not found: ' + need] = 1
    cx.floor('functions handling tasks', 12)
