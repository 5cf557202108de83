"""An exception never terminates the program. Exceptions which report a failure of the environment (system errors, I/O, network,
timeouts) are followed from every throw through all callers, with the classes of handlers taken into account and separately for
code that runs while another exception is being propagated. None of them may arrive at a place where the language terminates the
program: a destructor, an operation declared as not throwing, the start function of a thread. The bare re-throw may be executed
only while an exception is being handled."""
from ..throws import Throws
from ..sysm import rev_callers

FAM = ('_ZTIN10LightSpeed14ErrNoExceptionE', '_ZTIN10LightSpeed11IOExceptionE', '_ZTIN10LightSpeed16NetworkExceptionE',
       '_ZTIN10LightSpeed16TimeoutExceptionE')
# Not followed: primitives of the scheduler whose failure leaves no way to continue, and the invocation of callables supplied by the user
SKIP = ('ThreadSleeper::sleep', 'ThreadSleeper::wakeUp', 'Fiber::switchFibers', 'Message::operator()', 'Message::deliver')
TERM = ('__clang_call_terminate', '_ZSt9terminatev', '_ZSt10unexpectedv')
# Operations documented to be called from handlers
HANDLER_API = ('Exception::rethrow', 'Exception::getCurrentException', 'Exception::trackThrow', 'Promise::rejectInCatch',
               'IDispatcher::throwFn', 'AppBase::handleException', 'ServiceApp::onStartError', 'exceptionRethrow')

EXEMPT = {'TestApp::runTest': 'reads and prints an in-memory file only',
          'safeGetPointerValue': 'the statement follows a signal-guarded block which always returns'}


def env(P, t):
    return t.startswith('_ZTI') and (t in FAM or any(x in FAM for x in P.ti_bases(t)))


def term_blocks(P, f):
    r = set()
    for bi, b in enumerate(f.b):
        for i in b:
            if i[1] == 'call' and (P.callees(f, i)[0] or [''])[0] in TERM:
                r.add(bi)
    return r


def handler_depth(P, f):
    """for every call: is an exception being handled on every path to it (within this function)"""
    depth = {}
    wl = [(0, 0)]
    nr = P.never_returns()
    r = {}
    while wl:
        b, d = wl.pop()
        if b in depth and depth[b] <= d:
            continue
        depth[b] = d
        dead = False
        for i in f.b[b]:
            if i[1] != 'call':
                continue
            ns = P.callees(f, i)[0]
            r[i[0] if i[0] >= 0 else ('l', b, f.b[b].index(i))] = (i, ns, d)
            if ns and ns[0] == '__cxa_begin_catch':
                d += 1
            elif ns and ns[0] == '__cxa_end_catch':
                d = max(0, d - 1)
            if i[6] or ns and all(n in nr for n in ns):
                dead = True
                if i[8] >= 0:
                    wl.append((i[8], d))
                break
        if not dead:
            for s in live_succs(f, b):
                wl.append((s, d))
    return list(r.values())


def live_succs(f, b):
    t = f.b[b][-1]
    if t[1] == 'br' and isinstance(t[3], list) and t[3][0] == 'c':
        return [t[4] if t[3][1] else t[5]]
    return f.succs(b)


def refs(i):
    """functions whose address is mentioned by an instruction"""
    out = []

    def walk(x):
        if isinstance(x, list):
            if len(x) >= 2 and x[0] in ('g', 'f') and isinstance(x[1], str):
                out.append(x[1])
            else:
                for y in x:
                    walk(y)
    for k in i[3:]:
        walk(k)
    return out


def run(cx):
    P = cx.P
    cx.rule('no exception of the families %s reaches a boundary where the program is terminated (terminating landing pad, exception specification, thread start function)' % ', '.join(x[17:-1] for x in FAM))
    cx.rule('"throw;" only where an exception is being handled: inside a handler, or in a function whose every use is inside a handler')
    T = Throws(P, SKIP)
    nt = sum(1 for n, u in T.esc if u == 0 and any(env(P, t) for t in T.esc[n, 0]))
    cx.count('functions which may report an environment failure', nt)
    seen = set()
    for f in cx.ours(True):
        tb = term_blocks(P, f)
        filt = {bi for bi in range(len(f.b)) if any(i[1] == 'lpad' and any(c[0] == 'filter' for c in i[4]) for i in f.b[bi])}
        if not tb and not filt:
            continue
        cx.count('functions with a terminating boundary')
        cx.instance(f.short)
        # a block that leads to termination without any handler in between
        bad = set()
        for bi in range(len(f.b)):
            st, vis = [bi], {bi}
            while st:
                x = st.pop()
                if x in tb:
                    bad.add(bi)
                    break
                t = f.b[x][-1]
                if any(i[1] == 'call' and (P.callees(f, i)[0] or [''])[0] in ('__cxa_end_catch',) for i in f.b[x]):
                    continue
                for s in f.succs(x):
                    if s not in vis and t[1] != 'call':
                        vis.add(s)
                        st.append(s)
        done = set()
        for u in (0, 1):
            for i, names, cu in T.info[f.n, u]:
                if i[8] < 0:
                    continue
                ty = T.thrown(f, i, names, cu)
                if ty is None:
                    ty = T.rethrown(f.n, u)
                l = i[8]
                if l in filt:
                    ty = T.split(f, l, ty)[1] if any(c == 'F' for c in T.caught(f, l)) else set()
                elif l in bad:
                    pass
                else:
                    continue
                cx.count('calls guarded by a terminating boundary')
                for t in sorted(ty):
                    if env(P, t) and (f.short, t) not in done:
                        done.add((f.short, t))
                        if f.short in seen or f.short in EXEMPT:
                            continue
                        seen.add(f.short)
                        tr = []
                        for n in names:
                            if n in P.F and t in T.esc[n, cu]:
                                tr = T.path(n, cu, t)
                                break
                        cx.violation('term:%s' % f.short, 'an exception %s cannot leave this operation, the program is terminated' % t[4:], f, i[2], tr)
    # thread and fiber start functions
    for f in cx.ours(True):
        for i in f.instrs():
            if i[1] == 'call' and (P.callees(f, i)[0] or [''])[0] in ('pthread_create', 'makecontext'):
                for n in refs(i):
                    if n in P.F:
                        cx.count('start functions of threads and fibers')
                        for t in sorted(T.esc[n, 0]):
                            if env(P, t):
                                cx.violation('start:%s' % P.F[n].short, 'an exception %s leaves the start function, the program is terminated' % t[4:], P.F[n], None, T.path(n, 0, t))
    # bare re-throw
    info = {}
    for f in cx.ours(True):
        info[f.n] = handler_depth(P, f)
    bare = {}
    for n, l in info.items():
        for i, ns, d in l:
            if ns and ns[0] == '__cxa_rethrow':
                cx.count('re-throw statements')
                if d == 0:
                    bare[n] = i[2]
    uses = {}
    for f in cx.ours(False):
        l = info.get(f.n)
        if l is None:
            l = handler_depth(P, f)
        for i, ns, d in l:
            for x in set(ns) | set(refs(i)):
                uses.setdefault(x, []).append((f, i, d))
        for i in f.instrs():
            if i[1] == 'store':
                for x in refs(i):
                    uses.setdefault(x, []).append((f, i, 0))
    ok = {}

    def helper(n, stack):
        """every use of the function is inside a handler"""
        if n in ok:
            return ok[n]
        if n in stack:
            return True
        f = P.F[n]
        us = uses.get(n, [])
        r = bool(us) and not f.virt or f.short in HANDLER_API
        for g, i, d in us:
            if d == 0 and not helper(g.n, stack | {n}):
                r = False
                if f.short in HANDLER_API or not f.virt:
                    ok.setdefault('why', {}).setdefault(n, (g, i[2]))
                break
        ok[n] = r
        return r
    for n, line in sorted(bare.items()):
        f = P.F[n]
        cx.count('re-throw statements outside of a handler')
        if f.short not in EXEMPT and not helper(n, frozenset()):
            w = ok.get('why', {}).get(n)
            cx.violation('bare:%s' % f.short, 'an exception is thrown again although none is being handled: the program is terminated'
                         + (' (called from %s:%s)' % (w[0].short, w[1]) if w else ''), f, line)
    cx.floor('functions with a terminating boundary', 200)
    cx.floor('functions which may report an environment failure', 100)
    cx.floor('re-throw statements', 20)
