"""Deadlock freedom of the internal locks.  (a) order: an edge A > B is recorded when B may be acquired - directly or anywhere below a direct call - while A is
held; the graph has to be acyclic (recursive locks may be re-entered).  (b) no path acquires a non-recursive lock which it already holds, directly or through an operation called on the
same object.  (c) code supplied by the user (actions, observers, messages) is not called while a non-recursive lock is held."""
import re
from ..locks import LockClient, lock_effects, is_ctor, is_dtor, is_impl, LOCKCLS
from ..ir import strip_targs
from .l02 import norm
from .u01 import ptrmap

LT = {'LightSpeed::' + x for x in LOCKCLS}
RECURSIVE = {'LightSpeed::FastLockR', 'LightSpeed::Mutex', 'LightSpeed::SpinLockRecursive', 'LightSpeed::ProgressMonitor'}
USER = re.compile('9IObserverE|8IMessageI|14AbstractActionE|11AbstractMsgE|11AbstractAPCE|11WaitHandlerE')

# operations in which user code does its work (destruction and cloning of its objects are not restricted)
EXEC = ('operator()', 'resolve', 'run', 'reject', 'done', 'rejected', 'wakeUp')


def runs_user(P, f, i):
    v = P.vclass(f, i)
    if not v or not USER.search(str(v[0])):
        return False
    ns = P.vcall_targets(*v)
    return not ns or any(P.F[n].short.split('::')[-1] in EXEC for n in ns if n in P.F) or not any(n in P.F for n in ns)


class O(LockClient):
    wantgep = True
    small = 0

    def __init__(self, cx):
        LockClient.__init__(self, cx.P)
        self.cx = cx
        self.names = {}
        self.recursive = set()
        for n, c in cx.P.C.items():
            l = [(m[1], m[0], m[2]) for m in c.m if m[2] in LT]
            if l:
                k = strip_targs(n).replace('LightSpeed::', '', 1)
                self.names[norm(n)] = (k, [(o, m) for o, m, t in l])
                for o_, m, t in l:
                    if t in RECURSIVE:
                        self.recursive.add(k + '.' + m)
        self.tags = {}
        self.acq = {}       # function -> {lock id}
        self.own = {}       # function -> {offset in arg0}
        self.edges = {}     # (held, acquired) -> [(function, line, callee)]
        self.calls = {}     # (function, line, callee) -> {held ids}
        self.user = set()
        self.inl = set()

    def want_inline(self, en, name):
        return True if name in self.inl else None

    def gep(self, en, fr, st, i, p):
        n = i[6]
        if not (isinstance(p, tuple) and p[0] == 'p') or '.' not in n:
            return
        n = n.split('.', 1)[1]
        if n[-1:].isdigit() and '.' in n:
            n = n.rsplit('.', 1)[0]
        r = self.names.get(norm(n))
        if r:
            for o, m in r[1]:
                self.tags[(p[1], p[2] + o)] = r[0] + '.' + m

    def ident(self, key):
        t = self.tags.get(key)
        if t:
            return t
        if key[0][0] == 'G':
            return 'global ' + key[0][1]
        return None

    def on_acquire(self, en, fr, st, i, key):
        t = self.ident(key)
        f = fr
        while f.parent is not None and (is_ctor(f.fn) or is_dtor(f.fn)) and f.fn.n in self.eff:
            f = f.parent
        if t:
            self.acq.setdefault(f.fn.n, {})[t] = i[2]
        if f.args and isinstance(f.args[0], tuple) and f.args[0][0] == 'p' and f.args[0][1] == key[0]:
            if is_ctor(f.fn) or t is None:
                return
            self.own.setdefault(f.fn.n, set()).add((key[1] - f.args[0][2], t))
        for k, n in st.cl:
            if n <= 0:
                continue
            h = self.ident(k)
            if k == key:
                if t and t not in self.recursive and not is_dtor(self.root):
                    self.cx.violation('relock %s in %s' % (t, f.fn.short), 'the lock %s is acquired while this thread already holds it' % t, fr.fn, i[2], fr.chain(i))
            elif h and t:
                self.edges.setdefault((h, t), []).append((f.fn, f.site[2] if f.site else i[2], None))

    def call(self, en, fr, st, i, names, args):
        held = [(k, self.ident(k)) for k, n in st.cl if n > 0]
        held = [(k, t) for k, t in held if t]
        direct = isinstance(i[3], list) and i[3][0] == 'g'
        if held and direct:
            for nm in names:
                self.calls.setdefault((fr.fn.n, i[2], nm), set()).update(t for k, t in held)
                if nm in self.inl or is_dtor(self.root):
                    continue
                for off, t in self.ownstar.get(nm, ()):
                    a0 = args[0] if args else None
                    if isinstance(a0, tuple) and a0[0] == 'p' and t not in self.recursive:
                        if any(k == (a0[1], a0[2] + off) for k, _ in held):
                            self.cx.violation('relock %s in %s' % (t, fr.fn.short), 'the lock %s is held while %s is called, which acquires it' % (t, self.P.F[nm].short),
                                              fr.fn, i[2], fr.chain(i))
        if not direct and runs_user(self.P, fr.fn, i) and not fr.fn.short.endswith('::destroyInstance'):
            self.user.add((fr.fn.n, i[2]))
            for k, t in held:
                if t not in self.recursive and not is_dtor(self.root):
                    self.cx.violation('callback under %s in %s' % (t, fr.fn.short), 'user code is called while the lock %s is held' % t, fr.fn, i[2], fr.chain(i))
        return LockClient.call(self, en, fr, st, i, names, args)


def run(cx):
    P = cx.P
    cx.rule('lock acquisition order is acyclic; no path re-acquires a held non-recursive lock; no user code runs under a non-recursive lock')
    lib = {f.n: f for f in cx.ours()}
    eff, res = lock_effects(cx, LockClient(P), lib)
    cg = {n: {i[3][1] for i in f.instrs() if i[1] == 'call' and isinstance(i[3], list) and i[3][0] == 'g'} for n, f in lib.items()}
    rev = {}
    for a in lib:
        for b in cg[a]:
            rev.setdefault(b, set()).add(a)
    # functions below which user code runs
    todo = []
    for n, f in lib.items():
        for i in f.instrs():
            if i[1] == 'call' and not (isinstance(i[3], list) and i[3][0] == 'g'):
                if runs_user(P, f, i):
                    todo.append(n)
                    cx.count('calls of user code')
    reach = set(todo)
    while todo:
        for a in rev.get(todo.pop(), ()):
            if a not in reach:
                reach.add(a)
                todo.append(a)
    roots = [lib[n] for n in sorted(res) if not is_impl(lib[n]) and n not in eff]
    # pass 1: which locks does each function acquire itself
    o = O(cx)
    o.eff = eff
    o.ownstar = {}
    quiet = cx.violation
    cx.violation = lambda *a, **k: None
    for f in roots:
        o.root = f
        o.tags = {}
        cx.run(o, f, set(eff))
    cx.violation = quiet
    own = {n: set(s) for n, s in o.own.items()}
    ch = True
    while ch:
        ch = False
        for n in sorted({a for b in own for a in rev.get(b, ())}):
            f = lib[n]
            m = None
            for i in f.instrs():
                if i[1] == 'call' and isinstance(i[3], list) and i[3][0] == 'g' and i[3][1] in own and i[4] and i[3][1] != n:
                    m = m or ptrmap(f, 0)
                    a0 = i[4][0]
                    k = m.get(a0) if isinstance(a0, int) else 0 if a0[0] == 'a' and a0[1] == 0 else None
                    if k is None:
                        continue
                    for off, t in own[i[3][1]]:
                        if (off + k, t) not in own.setdefault(n, set()):
                            own[n].add((off + k, t))
                            ch = True
    # pass 2
    acq = o.acq
    o2 = O(cx)
    o2.eff = eff
    o2.ownstar = own
    o2.inl = {n for n in reach if n not in eff and lib[n].ninstr() < 150}
    for f in roots:
        o2.root = f
        o2.tags = {}
        cx.count('functions examined')
        cx.run(o2, f, set(eff))
    # order
    star = {n: set(s) for n, s in acq.items()}
    why = {}
    todo = list(star)
    while todo:
        b = todo.pop()
        for a in rev.get(b, ()):
            new = star[b] - star.setdefault(a, set())
            if new:
                star[a] |= new
                for x in new:
                    why[(a, x)] = b
                todo.append(a)
    ed = {k: [(f.short, f, ln, None) for f, ln, _ in v] for k, v in o2.edges.items()}
    for (f, ln, nm), hs in sorted(o2.calls.items()):
        for x in sorted(star.get(nm, ())):
            for h in hs:
                if h != x:
                    ed.setdefault((h, x), []).append((P.F[f].short, P.F[f], ln, nm))

    def chain(n, x):
        r = []
        while n and len(r) < 12:
            r.append(P.F[n].short)
            n = why.get((n, x))
        return r
    succ = {}
    for (h, x), v in sorted(ed.items()):
        succ.setdefault(h, set()).add(x)
        s = v[0]
        cx.instance('%s > %s: %d places, e.g. %s line %d%s' % (h, x, len(v), s[0], s[2], (' calling ' + ' > '.join(chain(s[3], x)[:6])) if s[3] else ''))
    for h, x in sorted(ed):
        # is h reachable from x?
        seen, todo = {x}, [x]
        while todo:
            for y in succ.get(todo.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        if h in seen:
            s = ed[(h, x)][0]
            a, b = sorted((h, x))
            cx.violation('order %s %s' % (a, b), '%s is acquired while %s is held, elsewhere they are acquired in the opposite order' % (x, h), s[1], s[2], chain(s[3], x) if s[3] else None)
    for k in sorted(o2.user):
        cx.instance('call of user code in %s line %d' % (P.F[k[0]].short, k[1]))
    for n in sorted(own):
        cx.instance('%s acquires %s of its object' % (lib[n].short, sorted(t for _, t in own[n])))
    cx.stats['lock order edges'] = len(ed)
    cx.stats['locks'] = len({t for s in acq.values() for t in s})
    cx.floor('locks', 8)
    cx.floor('functions examined', 50)
    cx.floor('calls of user code', 15)
