"""Lock model shared by the lock-related checks.

Client state: sorted tuple of (lock base, lock offset, depth) currently held by this path.
"""
from .engine import Client, S, St

LOCKCLS = ('FastLock', 'FastLockR', 'Mutex', 'SpinLock', 'SpinLockRecursive', 'LLMutex',
           'LevelLock', 'RWLockBase', 'RWLockBase::WriteLock', 'RWLockBase::ReadLock', 'ProgressMonitor')
ACQ = {'lock', 'lockR'}
TRY = {'tryLock'}
REL = {'unlock'}
# pieces of the lock implementations themselves: their own effect is the acquisition
IMPL = {'RWLockBase::lockRead', 'RWLockBase::lockWrite', 'RWLockBase::unlockRead', 'RWLockBase::unlockWrite',
        'RWLockBase::tryLockRead', 'RWLockBase::tryLockWrite', 'FastLockR::unlockSaveRecusion',
        'FastLockR::lockRestoreRecursion'}


def lock_api(P):
    """{function name: kind} for the primitives present in this program"""
    api = {}
    for f in P.F.values():
        if '::' not in f.short:
            continue
        c, m = f.short.rsplit('::', 1)
        if c in LOCKCLS:
            if m in ACQ:
                # a timed lock() reports success by its result
                api[f.n] = 'try' if f.ret == 'i1' else 'acq'
            elif m in TRY:
                api[f.n] = 'try'
            elif m in REL:
                api[f.n] = 'rel'
        elif c == 'Synchronized' and m in ('lock', 'unlock'):
            api[f.n] = 'acqi' if m == 'lock' else 'reli'
    api['pthread_mutex_lock'] = 'acq'
    api['pthread_mutex_trylock'] = 'try0'
    api['pthread_mutex_timedlock'] = 'try0'
    api['pthread_mutex_unlock'] = 'rel'
    return api


def add(cl, key, d):
    r = dict(cl)
    n = r.get(key, 0) + d
    if n:
        r[key] = n
    else:
        r.pop(key, None)
    return tuple(sorted(r.items(), key=repr))


def is_dtor(f):
    return '::~' in f.short


class LockClient(Client):
    """tracks the held locks; subclass for rules"""
    maxdepth = 8
    small = 0

    def __init__(self, P):
        self.P = P
        self.api = lock_api(P)
        self.viol = {}
        self.root = None

    def init(self):
        return ()

    def lockkey(self, v):
        if isinstance(v, tuple) and v[0] == 'p':
            return (v[1], v[2])
        return ('?', 0)

    def frame_post(self, en, fr, outs):
        # a lock inside the object being destroyed ceases to exist with it
        if is_dtor(fr.fn) and fr.args and isinstance(fr.args[0], tuple) and fr.args[0][0] == 'p':
            base, off = fr.args[0][1], fr.args[0][2]
            r = []
            for kind, ret, st in outs:
                cl = tuple(x for x in st.cl if not (x[0][0] == base and x[0][1] >= off and x[1] > 0))
                if cl != st.cl:
                    st = st.copy()
                    st.cl = cl
                r.append((kind, ret, st))
            return r
        return outs

    def syms(self, cl):
        return [k[0] for k, n in cl]

    def on_acquire(self, en, fr, st, i, key):
        pass

    def call(self, en, fr, st, i, names, args):
        n = names[0] if names else ''
        k = self.api.get(n)
        if k is None:
            return None
        if k in ('acqi', 'reli'):
            # Synchronized<MicroLock>: the guard object stands for the lock
            key = self.lockkey(args[0])
            k = k[:3]
        else:
            key = self.lockkey(args[0])
        outs = []
        if k == 'acq':
            self.on_acquire(en, fr, st, i, key)
            s = st.copy()
            s.cl = add(st.cl, key, 1)
            outs.append(('ret', None, s))
        elif k == 'rel':
            s = st.copy()
            s.cl = add(st.cl, key, -1)
            outs.append(('ret', None, s))
        else:
            ok, bad = (1, 0) if k == 'try' else (0, 16)
            self.on_acquire(en, fr, st, i, key)
            s = st.copy()
            s.cl = add(st.cl, key, 1)
            outs.append(('ret', ok, s))
            outs.append(('ret', bad, st.copy()))
        return outs


# asynchronous lock API: cancelling a request that was already granted releases the lock
ASYNC = ('cancelAsync', 'lockAsync', 'cancelLockAsync')


def is_ctor(f):
    p = f.short.split('::')
    return len(p) > 1 and p[-1] == p[-2]


def is_impl(f):
    if f.short in IMPL:
        return True
    return f.short.split('::')[-1] in ASYNC and f.short.split('::')[0] in ('Mutex', 'LevelLock', 'Semaphore')



def lock_effects(cx, c, lib):
    """fixpoint over guard constructors/destructors and lock implementation pieces.
    returns ({name: exits} of functions with a lock effect of their own, {name: exits} of all examined)"""
    cg = cx.P.callgraph()
    rev = {}
    for a in lib:
        for b in cg[a]:
            rev.setdefault(b, set()).add(a)
    todo = {a for n in c.api for a in rev.get(n, ())}
    todo -= set(c.api)
    eff = {}
    res = {}
    rounds = 0
    while todo and rounds < 12:
        rounds += 1
        nxt = set()
        for n in sorted(todo):
            f = lib[n]
            ex = cx.run(c, f, set(eff))
            if ex is None:
                continue
            effs = {(k, s.cl) for k, r, s in ex}
            res[n] = effs
            e2 = any(cl for k, cl in effs)
            guardish = is_ctor(f) or is_dtor(f) or is_impl(f)
            if e2 and guardish and eff.get(n) != effs:
                eff[n] = effs
                nxt |= rev.get(n, set()) - set(c.api)
        todo = nxt
    return eff, res
