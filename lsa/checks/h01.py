"""Hand-off.  The record of a waiting thread (slot, notifier, notification message, start-up record) usually lives on its stack and is gone as soon as the waiter
sees that it was signaled.  After the store or call that signals it, the waking thread must not load from it, store to it or pass it on."""
import re
from ..engine import Client, collect
from ..locks import is_ctor, is_dtor
from .w01 import norm

# member whose store releases the record: class, field, 'self' (the record that contains it) or 'value' (the record stored there)
STORES = [('Notifier', 'signaled', 'self'), ('LevelLock::Slot', 'signaled', 'self'), ('FastLock', 'owner', 'value'),
          ('Ntf', 'result', 'self'), ('Ntf', 'exception', 'self')]
# operations called by the owner of the record
# value and exception of a promise are never both set
# FastLock only compares the addresses in its queue; the context of a thread lives in the frame of its start function and is used only while the thread runs
STACKED = ('FastLock::', 'ThreadContext::bootstrap')
EXEMPT = ('Future::tryObserver',)
OWN = ('lockAsync', 'waitAsync', 'tryLock', 'reset')
# calls which release their receiver
CALLS = r'wakeUp|notify|done|resolve|notifySlot_lk'
# calls which register a record
FILES = ('syncPt.h', 'syncPt.cpp', 'gate.h', 'semaphore.h', 'mutex.cpp', 'mutex.h', 'rwlock.h', 'promise.tcc')
REGS = r'add|add_lk|lockAsync|waitAsync|registerObserver'


# classes whose virtual calls release the receiver
RECORDS = ('SyncPt::Slot', 'Notifier', 'MsgQueue::AbstractMsg', 'MsgQueue::NotifyMsg', 'Future::IObserver')
# records which contain the notifier
WHOLE = ('ThreadBootstrap',)
# objects released by opening a gate they contain
GATED = ('Thread',)


def under(b, base):
    while True:
        if b == base:
            return True
        if b[0] == 'S' and b[1] in ('ld', 'ix'):
            b = b[2]
        else:
            return False


class H(Client):
    small = 8
    max_steps = 12000
    maxdepth = 6
    wantgep = True

    def __init__(self, cx):
        self.cx = cx
        self.P = cx.P
        self.fl = {}
        for n, c in self.P.C.items():
            for cls, f, how in STORES:
                if norm(n) == cls:
                    self.fl.setdefault(n.replace(' ', ''), []).extend((m[1], m[1] + max(m[3], 1), how) for m in c.m if m[0] == f)
        self.cn = {}
        self.tn = {}
        self.tags = {}
        self.whole = {}
        self.inf = set()
        self.bad = {}
        self.events = {}
        self.left = {}
        self.dang = {}
        self.stacked = set()
        self.regs = set()

    def init(self):
        return ()

    def want_inline(self, en, name):
        f = self.P.F.get(name)
        if f is not None and is_dtor(f) and f.file == self.root.file and f.ninstr() < 80:
            return True
        return None

    def rebound(self, st, base):
        st.cl = tuple(f for f in st.cl if not under(f[1], base))

    def havoced(self, st, base, site):
        st.cl = tuple(f for f in st.cl if not (f[1] != base and under(f[1], base)))

    def syms(self, cl):
        out = set()
        for f in cl:
            out.add(f[1])
            b = f[1]
            while b[0] == 'S' and b[1] in ('ld', 'ix'):
                b = b[2]
                out.add(b)
        return out

    def clsof(self, n):
        if n not in self.cn:
            m = n.split('.', 1)[-1].replace(' ', '')
            self.cn[n] = m if m in self.fl else m.rsplit('.', 1)[0] if m.rsplit('.', 1)[0] in self.fl else None
        return self.cn[n]

    def gep(self, en, fr, st, i, p):
        if isinstance(p, tuple) and p[0] == 'p' and i[6][:6] in ('class.', 'struct'):
            n = norm(i[6].split('.', 1)[-1])
            if n in WHOLE + GATED and p[1][0] != 'L':
                self.whole.setdefault(n in GATED, set()).add(p[1])
            c = self.clsof(i[6])
            if c:
                self.tags.setdefault(p[1], set()).add((p[2], c))

    def gone(self, st, fr, i, base, lo, hi):
        if base[0] in ('L', 'G') or repr(base).find("'deep'") >= 0 or base[0] == 'S' and base[1] == 'new':
            return
        self.events.setdefault((fr.fn.n, i[2]), 0)
        if base in self.whole.get(False, ()):
            lo, hi = 0, 1 << 20
        st.cl = tuple(sorted({f for f in st.cl if f[1] != base} | {('X', base, lo, hi, fr.fn.n, i[2])}, key=repr))

    def leaving(self, en, fr, st):
        for f in st.cl:
            if f[0] == 'D' and en.known(st, 'eq', en.mload(st, ('p', f[1], f[2]), fr, (0,)), 0) is True:
                # the variable is known to have been cleared meanwhile
                st.cl = tuple(g for g in st.cl if g != f)

    def root_exit(self, en, fr, kind, ret, st):
        for f in st.cl:
            if f[0] == 'D' and en.known(st, 'eq', en.mload(st, ('p', f[1], f[2]), fr, (0,)), 0) is not True:
                self.dang.setdefault((self.root.n, kind), f)
            if f[0] == 'Q' and f[1][0] == 'L' and en.known(st, 'ne', f[2], 0) is not True:
                self.left.setdefault((self.root.n, kind), f)

    def touch(self, fr, st, i, p, what):
        if not (isinstance(p, tuple) and p[0] == 'p'):
            return
        for f in st.cl:
            if f[0] == 'X' and f[1] == p[1] and f[2] <= p[2] < f[3]:
                self.bad.setdefault((self.root.n, fr.fn.n, i[2]), (what, f))

    def load(self, en, fr, st, i, ptr):
        if isinstance(ptr, tuple) and ptr[0] == 'p' and ptr[1][0] == 'L':
            for f in st.cl:
                if f[0] == 'Q' and f[1] == ptr[1]:
                    for o, c in self.tags.get(ptr[1], ()):
                        if any(o + a <= ptr[2] < o + b for a, b, how in self.fl[c]):
                            v = en.mload(st, ptr, fr, i)
                            st.cl = tuple(sorted({g for g in st.cl if g != f} | {f[:2] + (v,) + f[3:]}, key=repr))
        if not fr.fn.n.startswith('__'):
            self.touch(fr, st, i, ptr, 'read')

    def store(self, en, fr, st, i, val, ptr):
        self.touch(fr, st, i, ptr, 'written')
        if not (isinstance(ptr, tuple) and ptr[0] == 'p'):
            return
        k = (ptr[1], ptr[2])
        if any(f[0] == 'D' and (f[1], f[2]) == k for f in st.cl):
            st.cl = tuple(f for f in st.cl if not (f[0] == 'D' and (f[1], f[2]) == k))
        if isinstance(val, tuple) and val[0] == 'p' and val[1][0] == 'L' and val[1][1] == () and ptr[1][0] != 'L' and not (ptr[1][0] == 'S' and ptr[1][1] == 'new'):
            self.stacked.add((fr.fn.n, i[2]))
            st.cl = tuple(sorted(set(st.cl) | {('D', ptr[1], ptr[2], val[1], fr.fn.n, i[2])}, key=repr))
        # a new value in the variable the record was reached through
        st.cl = tuple(f for f in st.cl if not (f[1][0] == 'S' and f[1][1] == 'ld' and f[1][2] == ptr[1] and f[1][3] == ptr[2]))
        for o, c in self.tags.get(ptr[1], ()):
            for a, b, how in self.fl[c]:
                if o + a <= ptr[2] < o + b and en.known(st, 'eq', val, 0) is not True:
                    x = fr
                    while x is not None:
                        if is_ctor(x.fn) or is_dtor(x.fn) or x.fn.short.split('::')[-1] in OWN:
                            return
                        x = x.parent
                    if how == 'self':
                        self.gone(st, fr, i, ptr[1], o, o + self.P.C[self.full(c)].size)
                    elif isinstance(val, tuple) and val[0] == 'p':
                        self.gone(st, fr, i, val[1], 0, 1 << 20)

    def tname(self, t):
        if t not in self.tn:
            import subprocess
            d = subprocess.run(['c++filt', t.replace('_ZTS', '_ZTI', 1)], capture_output=True, text=True).stdout.strip()
            self.tn[t] = norm(d.replace('typeinfo for ', ''))
        return self.tn[t]

    def full(self, c):
        for n in self.P.C:
            if n.replace(' ', '') == c:
                return n

    def call(self, en, fr, st, i, names, args):
        self.leaving(en, fr, st)
        if names and '7TimeoutC' in names[0] and ('Null_t' in names[0] or 'NullType' in names[0]) and isinstance(args[0], tuple) and args[0][0] == 'p':
            # waits without a limit end when the record is signaled
            self.inf.add(args[0][1])
        if not names:
            return None
        P = self.P
        names = [n for n in names if n != '__cxa_pure_virtual']
        ms = {(P.F[n].short.split('::')[-1] if n in P.F else n).split('<')[0] for n in names}
        m = ms.pop() if len(ms) == 1 else ''
        if m.startswith('llvm.') or m in ('free', '_ZdlPv', '_ZdlPvm', '__assert_fail'):
            return None
        if re.fullmatch(REGS, m) and len(args) > 1 and isinstance(args[1], tuple) and args[1][0] == 'p' and args[1][1][0] == 'L':
            if self.P.F[names[0]].file.endswith(FILES):
                self.regs.add((fr.fn.n, i[2]))
                q = ('Q', args[1][1], 0, fr.fn.n, i[2])
                st.cl = tuple(sorted({f for f in st.cl if f[:2] != q[:2]} | {q}, key=repr))
                en.havoc_args(st, args, (fr.fn.n, i[2]))
                return [('ret', en.newsym(fr, st, i), st)]
        if any(f[0] == 'Q' for f in st.cl):
            if m in ('remove', 'cancelLockAsync', 'cancelWaitAsync', 'cancelAsync', 'unregisterObserver') and len(args) > 1:
                st.cl = tuple(f for f in st.cl if f[0] != 'Q' or ('p', f[1]) != args[1][:2])
                return [('ret', en.newsym(fr, st, i), st)]
            q = [f for f in st.cl if f[0] == 'Q' and any(isinstance(a, tuple) and a[:2] == ('p', f[1]) for a in args)]
            if m == 'wait' and q:
                s2 = st.copy()
                st.cl = tuple(f for f in st.cl if f not in q)
                if any(isinstance(a, tuple) and a[:1] == ('p',) and a[1] in self.inf for a in args[1:]):
                    return [('ret', 1, st)]
                return [('ret', 1, st), ('ret', 0, s2)]
        if m.startswith('~') and args and isinstance(args[0], tuple) and args[0][0] == 'p' and args[0][1][0] == 'L':
            for f in st.cl:
                if f[0] == 'Q' and f[1] == args[0][1] and en.known(st, 'ne', f[2], 0) is not True:
                    self.left.setdefault((self.root.n, 'ret'), f)
        for a in args if m != 'resolve' else ():
            self.touch(fr, st, i, a, 'passed to %s' % (m or 'a call'))
        if m == 'operator=' and isinstance(args[0], tuple) and args[0][0] == 'p':
            # a smart pointer member is assigned
            for o, c in self.tags.get(args[0][1], ()):
                if any(o + a <= args[0][2] < o + b and how == 'self' for a, b, how in self.fl[c]):
                    self.gone(st, fr, i, args[0][1], o, o + self.P.C[self.full(c)].size)
                    return [('ret', en.newsym(fr, st, i), st)]
        if m == 'open' and any(P.F[n].short == 'Gate::open' for n in names if n in P.F) and args and isinstance(args[0], tuple) and args[0][0] == 'p' \
                and args[0][1] in self.whole.get(True, ()):
            self.gone(st, fr, i, args[0][1], 0, 1 << 20)
            return [('ret', en.newsym(fr, st, i), st)]
        if m == 'wakeUp' and args and isinstance(args[0], tuple) and args[0][0] == 'p' and args[0][1] in self.whole.get(False, ()):
            self.gone(st, fr, i, args[0][1], 0, 1 << 20)
            return [('ret', en.newsym(fr, st, i), st)]
        v = P.vclass(fr.fn, i)
        # a value renewed by this call
        r = en.newsym(fr, st, i)
        if isinstance(r, tuple) and r[0] == 'p' and any(under(f[1], r[1]) for f in st.cl):
            st.cl = tuple(f for f in st.cl if not under(f[1], r[1]))
        if re.fullmatch(CALLS, m) and args and (m == 'notifySlot_lk' or v and (self.tname(v[0]) in RECORDS or self.tname(v[0]) == 'ISleepingObject' and 'ParallelExecutor' in fr.fn.short)):
            a = args[1] if m == 'notifySlot_lk' else args[0]
            if isinstance(a, tuple) and a[0] == 'p':
                self.gone(st, fr, i, a[1], 0, 1 << 20)
            if fr.fn.short.endswith('Worker::runAction') and isinstance(fr.args[1], tuple) and fr.args[1][0] == 'p':
                # the action belongs to the caller which has just been released
                self.gone(st, fr, i, fr.args[1][1], 0, 1 << 20)
            return [('ret', en.newsym(fr, st, i), st)]
        return None


def run(cx):
    P = cx.P
    h = H(cx)
    cx.rule('the record of a waiter is not touched after it was signaled')
    for f in sorted(cx.ours(), key=lambda f: f.n):
        hit = False
        loc = set()
        for i in f.instrs():
            if i[1] == 'call':
                ms = {(P.F[n].short.split('::')[-1] if n in P.F else n).split('<')[0] for n in P.callees(f, i)[0]}
                hit = any(re.fullmatch(CALLS + '|open', m) for m in ms) or any(
                    n in P.F and re.fullmatch(REGS, P.F[n].short.split('::')[-1]) and P.F[n].file.endswith(FILES) for n in P.callees(f, i)[0])
            elif i[1] == 'gep' and h.clsof(i[6]):
                hit = True
            elif i[1] == 'alloca':
                loc.add(i[0])
            if i[1] == 'gep' and isinstance(i[3], int) and i[3] in loc:
                loc.add(i[0])
            if i[1] == 'store' and isinstance(i[3], int) and i[3] in loc and (isinstance(i[4], list) or i[4] not in loc):
                hit = True
            if i[1] == 'call' and any(isinstance(a, int) and a in loc for a in i[4]) and any('atomic' in P.F[n].file for n in P.callees(f, i)[0] if n in P.F):
                hit = True
            if hit:
                break
        if not hit or f.short in EXEMPT:
            continue
        h.root, h.tags, h.whole = f, {}, {}
        if cx.run(h, f, {f.n}) is None:
            continue
        cx.count('functions examined')
        cx.instance(f.short)
    cx.stats['releases found'] = len(h.events)
    seen = set()
    for (rn, fn, line), (what, x) in sorted(h.bad.items(), key=repr):
        k = '%s:%s' % (P.F[fn].short, x[4])
        if k in seen:
            continue
        seen.add(k)
        cx.violation(k, 'the record of the waiter is %s after it was signaled at %s:%d, it may be gone' % (what, P.F[x[4]].file, x[5]), P.F[fn], line,
                     ['analysed from ' + P.F[rn].short])
    cx.rule('no record on the stack is left registered')
    cx.stats['registrations found'] = len(h.regs)
    for (rn, kind), f in sorted(h.left.items()):
        cx.violation('left:%s' % P.F[rn].short, '%s registered a record on its stack and %s while it may still be registered' % (
            P.F[rn].short, 'returns' if kind == 'ret' else 'is left by an exception'), P.F[f[3]], f[4])
    cx.stats['addresses of locals stored'] = len(h.stacked)
    for (rn, kind), f in sorted(h.dang.items()):
        if P.F[rn].short.startswith(STACKED):
            continue
        cx.violation('local:%s' % P.F[rn].short, '%s stores the address of a local variable in an object and %s without taking it back' % (
            P.F[rn].short, 'returns' if kind == 'ret' else 'is left by an exception'), P.F[f[4]], f[5])
    cx.floor('functions examined', 20)
