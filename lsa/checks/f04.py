"""The reported reason is the real one: at every place where an errno value enters an exception (or any other call), the value is
traced back to the system call that set it. It must belong to a call that is known to have failed on that path, with no other
errno-changing call in between."""
from ..sysm import ErrnoClient, CALLS, direct_roots


class C(ErrnoClient):
    maxdepth = 5
    exitcap = 6


def run(cx):
    P = cx.P
    cx.rule('value flow of errno: every errno value handed to an exception constructor or another function was set by a call that failed '
            'on this path and was not overwritten by a later call')
    roots = {f.n: f for f, i, ns in direct_roots(P)}
    for f in cx.ours(True):
        for i in f.instrs():
            if i[1] == 'call' and '__errno_location' in P.callees(f, i)[0]:
                roots[f.n] = f
    # helpers that wrap a single system call are looked into
    helpers = {n for n in roots if roots[n].ninstr() <= 60}
    for n in sorted(roots):
        f = roots[n]
        c = C(P)
        c.small = 6
        ex = cx.run(c, f, helpers - {n})
        if ex is None:
            continue
        cx.count('functions examined')
        if c.uses:
            cx.count('uses of errno', c.uses)
            cx.instance('%s: %d use(s) on explored paths' % (f.short, c.uses))
        for fn, i, how, call in c.reports:
            cx.violation('errno:%s:%s' % (f.short, call), 'the reported error code is %s %s' % (how, call), fn, i[2], ['analysed from ' + f.short])
    cx.floor('functions examined', 40)
