"""Every failed operating-system call is surfaced: for each call site of a failing OS primitive in the library the
failure outcome is followed over all paths to the function's exits (and into callers when the result is handed on).
A path on which the failure was never distinguished from success, or was noticed and then reported as plain success,
is a violation. Clean-up, probing and tuning calls are exempt (table BEST_EFFORT in lsa/sysm.py)."""
from ..sysm import BEST_EFFORT, SAMPLES, CALLS
from ..sysrun import run as sysrun, only_destructors
from ..sysm import rev_callers


# (function, call): why the failure may end there
ACCEPTED = {
    ('LinuxNetConnect::setupSocket', 'socket'): 'a further address of the target; a connection to a previous one is already in progress',
    ('LinuxNetConnect::setupSocket', 'connect'): 'a further address of the target; a connection to a previous one is already in progress',
    ('writeChildStatus', 'write'): 'runs in the forked child just before _exit: there is nobody left to tell',
}


def is_sym(v):
    return isinstance(v, tuple) and v[0] == 'p'


def run(cx):
    P = cx.P
    rev = rev_callers(P)
    cx.rule('for every call site of a failing OS primitive: on every path the failed outcome ends in an exception, in a result that '
            'differs from success, in a retry of the call, or in handling selected by a specific error number')
    for r in sysrun(cx, skip=BEST_EFFORT):
        if r.name == 'write' and len(r.args) > 2 and r.args[2] == 1:
            cx.count('one byte wake-up writes (exempt)')
            continue
        if only_destructors(P, r.root, rev):
            cx.count('sites in destructors (exempt)')
            continue
        cx.instance('%s in %s' % (r.name, r.root.short))
        if (r.root.short, r.name) in ACCEPTED:
            cx.count('accepted sites (table)')
            continue
        full = SAMPLES[CALLS[r.name][0]]
        okrets = [x[1] for x in r.exits if x[0] == 'ret' and not any(f[0] in 'FN' for f in x[2].cl)]
        # site facts carry the name of the focused call
        for kind, ret, st in r.exits:
            for f in st.cl:
                if f[0] == 'F' and kind in ('ret', 'loop'):
                    what = 'is ignored' if f[4] == full else 'is not told apart from a success'
                    cx.violation('%s:%s:%s' % ('ignored' if f[4] == full else 'conflated', r.root.short, r.name),
                                 'a failed %s() %s: %s returns normally' % (r.name, what, r.root.short), r.site, r.instr[2])
                elif f[0] == 'N' and kind == 'ret':
                    if 'again' in f:
                        continue        # another attempt followed
                    # selected by a specific error number?
                    site = f[1]
                    b = ('S', 'errv', site[2], site[0], site[1], f[3])
                    c = st.cons.get(b)
                    if f[3] or c and c[0] == c[1]:
                        continue
                    if isinstance(ret, int) or ret is None and r.root.ret != 'void':
                        pass
                    if isinstance(ret, int) and any((isinstance(o, int) and o != ret) or (is_sym(o) and not (o[1][1:2] == ('r',) and o[1][3:5] == (site[0], site[1])))
                                                    for o in okrets):
                        continue
                    if is_sym(ret) and ret not in okrets and ret[1][0] == 'S' and ret[1][1] == 'errv':
                        continue        # the error number itself is returned
                    cx.violation('swallowed:%s:%s' % (r.root.short, r.name),
                                 'a failed %s() is noticed but %s then returns as if it had succeeded' % (r.name, r.root.short),
                                 r.site, r.instr[2])
    cx.floor('system call sites', 50)
