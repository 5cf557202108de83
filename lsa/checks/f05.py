"""A signal never breaks an operation: for every interruptible OS call in the library, the outcome 'interrupted by a
signal' is followed over all paths. It must not leave the function as an exception or as the operation's result; transfers
must be restarted, waits may end early or continue. The documented interruption exception of the service instance is exempt."""
from ..sysm import CALLS, TRANSFER
from ..sysrun import run as sysrun, only_destructors
from ..sysm import rev_callers


def run(cx):
    P = cx.P
    rev = rev_callers(P)
    cx.rule('for every interruptible call site: the EINTR outcome never ends in an exception; a transfer (read/write/recv/send/accept/waitpid) '
            'is executed again before the function returns')
    skip = [n for n, k in CALLS.items() if not k[1]]
    for r in sysrun(cx, skip=skip):
        if only_destructors(P, r.root, rev):
            cx.count('sites in destructors (exempt)')
            continue
        if r.name == 'write' and len(r.args) > 2 and r.args[2] == 1:
            cx.count('one byte wake-up writes (exempt)')
            continue
        cx.instance('%s in %s' % (r.name, r.root.short))
        for kind, ret, st in r.exits:
            for f in st.cl:
                if f[0] == 'N' and f[3] == 1 or f[0] == 'F' and f[5] == 1:
                    site = f[1]
                    if 'again' in f:
                        cx.count('paths on which the call was repeated')
                        continue    # restarted: what happens to the next attempt is judged there
                    if kind == 'unw':
                        if st.exc and 'InterruptedWaitingException' in st.exc:
                            cx.count('documented interruption exceptions')
                            continue
                        if 'seen' in f and st.exc is None:
                            continue    # an unrelated exception of a call made after the interruption was handled
                        cx.violation('exception:%s:%s' % (r.root.short, r.name),
                                     'a signal delivered during %s() makes %s throw' % (r.name, r.root.short), r.site, r.instr[2])
                    elif f[0] == 'F' and r.name not in TRANSFER:
                        continue        # a wait that ends early
                    elif f[0] == 'F':
                        cx.violation('unnoticed:%s:%s' % (r.root.short, r.name),
                                     'a signal delivered during %s() is not noticed by %s' % (r.name, r.root.short), r.site, r.instr[2])
                    elif r.name in TRANSFER:
                        cx.violation('notrestarted:%s:%s' % (r.root.short, r.name),
                                     'a %s() interrupted by a signal is not restarted by %s' % (r.name, r.root.short), r.site, r.instr[2])
    cx.floor('system call sites', 15)
