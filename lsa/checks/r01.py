"""Reference counting.  Every function of a counting handle (smart pointers, promises, locked weak references) changes the count of each object by
exactly the number of references the handle gains or loses, with the same handle on both sides too; the object is destroyed when and only when the
count it releases was the last one; nothing of the handles is used afterwards. Objects that do not live on the heap are pinned before a counted
reference to them is made."""
import re
from ..engine import Client, Engine
from ..locks import is_ctor, is_dtor
from .w01 import norm

INC = {'RefCntObj::addRef': ('o', 1), 'RefCntObj::setStaticObj': ('o', 1), 'RefCntObj::release': ('o', -1), 'Future::Value::addResultRef': ('r', 1),
       'Future::Value::releaseResultRef': ('r', -1), 'WeakRef::lockInternal': ('w', 1), 'WeakRef::unlockInternal': ('w', -1)}
# these change the count on purpose: class of the count, change
MANUAL = {'manualAddRef': 1, 'addRefPtr': 1, 'manualRelease': -1, 'releasePtrNoDetach': -1}
KEEPS = ('detach',)
WHAT = {'o': 'reference count', 'r': 'count of promises', 'w': 'count of locks'}
# functions of the counters: change of the counter, wanted result or call when it reaches zero
COUNTERS = {'RefCntObj::addRef': (1, None), 'RefCntObj::release': (-1, 'result'), 'Future::Value::addResultRef': (1, None), 'Future::Value::releaseResultRef': (-1, 'cancel'),
            'WeakRef::lockInternal': (1, None), 'WeakRef::unlockInternal': (-1, 'wakeUp'), 'PoolAlloc::alloc': (1, None), 'PoolAlloc::dealloc': (-1, None),
            'PoolAlloc::release': (-1, 'freeExtra')}


STEPS = {'lockInc': 1, 'lockDec': -1, 'lockExchangeAdd': 1, 'lockExchangeSub': -1}


def base(v):
    b = v[1] if isinstance(v, tuple) and v[0] == 'p' else None
    # base classes are reached by a variable offset
    while b is not None and b[:2] == ('S', 'ix') and len(b) > 4:
        b = b[2]
    return b


class R(Client):
    small = 30
    max_steps = 12000
    maxdepth = 9

    def __init__(self, cx):
        self.cx = cx
        self.P = cx.P
        self.bad = {}
        self.cells = {}
        self.weak = None

    def init(self):
        # counts, objects whose last reference is gone, destroyed objects, results of locks
        return ((), (), (), ())

    def syms(self, cl):
        return [k[1] for k, d in cl[0]] + list(cl[1]) + list(cl[2])

    def want_inline(self, en, name):
        f = self.P.F.get(name)
        if f is None:
            return None
        if f.short in INC or f.short.split('::')[-1] in ('destroyInstance', 'debugClear', 'createInstance'):
            return False
        if f.short.startswith(('RefCntPtr::', 'AllocPointer::', 'Pointer::', 'Promise::', 'WeakRefPtr::', 'WeakRef::')) or 'swap' in f.short:
            return True
        return None

    def report(self, what, fr, line):
        self.bad.setdefault(what, (fr.fn, line))

    def minimum(self, en, st, X):
        """references to X the handles given to the function hold when it starts"""
        n = 0
        for b, off in self.before:
            if ('S', 'ld', b, off, None) == X:
                n += 1
        return n

    def count(self, st, kind, X, d):
        m = dict(st.cl[0])
        m[(kind, X)] = m.get((kind, X), 0) + d
        st.cl = (tuple(sorted(m.items(), key=repr)),) + st.cl[1:]
        return m[(kind, X)]

    def call(self, en, fr, st, i, names, args):
        P = self.P
        fs = [P.F[n] for n in names or [] if n in P.F]
        if not fs:
            return None
        s = fs[0].short
        m = s.split('::')[-1]
        if s in INC:
            kind, d = INC[s]
            X = base(args[0])
            if kind == 'w':
                X = base(en.mload(st, ('p', X, args[0][2] + self.weak), fr, i)) if X else None
            if X is None:
                self.report('changes the %s of an object that cannot be told' % WHAT[kind], fr, i[2])
                return None
            if X in st.cl[1] or X in st.cl[2]:
                self.report('changes the %s of an object after its last reference was released' % WHAT[kind], fr, i[2])
            self.cx.stats['count operations followed'] = self.cx.stats.get('count operations followed', 0) + 1
            left = self.count(st, kind, X, d)
            if kind == 'w':
                r = ('p', ('S', 'locked', X), 0)
                if d > 0:
                    st.cl = st.cl[:3] + (tuple(sorted(set(st.cl[3]) | {X}, key=repr)),)
                return [('ret', r, st)]
            if m != 'release':
                return [('ret', en.newsym(fr, st, i), st)]
            if self.minimum(en, st, X) + left > 0:
                return [('ret', 0, st)]
            s2 = st.copy()
            s2.cl = (s2.cl[0], s2.cl[1] + (X,)) + s2.cl[2:]
            return [('ret', 0, st), ('ret', 1, s2)]
        if m == 'destroyInstance' or m.startswith('~') and self.P.vclass(fr.fn, i):
            X = next((base(a) for a in args[::-1] if base(a) and base(a)[0] in 'SA'), None)
            if X is None:
                return None
            if X in st.cl[2]:
                self.report('destroys an object twice', fr, i[2])
            elif X not in st.cl[1] and self.raw(X) is False:
                self.report('destroys an object without having released its last reference', fr, i[2])
            st.cl = st.cl[:2] + (st.cl[2] + (X,),) + st.cl[3:]
            return [('ret', en.newsym(fr, st, i), st)]
        if m in ('debugClear',):
            return [('ret', 0, st)]
        if m == 'createInstance':
            r = ('p', ('S', 'new', 'object', i[2]), 0)
            s2 = st.copy()
            return [('ret', r, st), ('unw', None, s2)]
        if m == 'lockCompareExchangePtr' and len(args) == 3:
            cur = en.mload(st, args[0], fr, i)
            s2 = st.copy()
            s2 = en._assume_cmp(s2, 'eq', cur, args[1])
            s1 = en._assume_cmp(st, 'ne', cur, args[1])
            if s2 is not None:
                en.mstore(s2, args[0], args[2])
            return ([('ret', cur, s1)] if s1 is not None else []) + ([('ret', args[1], s2)] if s2 is not None else [])
        return None

    def raw(self, X):
        # given by a plain pointer: the caller owned it
        return X[0] == 'A'

    def touch(self, fr, st, i, ptr):
        if self.f.sn == 'operator=' and st.cl[2] and base(ptr) in (('A', 0), ('A', 1)) and not (st.exc and st.exc[0]):
            self.report('uses a handle after the object released by the assignment was destroyed (the handle can be a part of it)', fr, i[2])

    def load(self, en, fr, st, i, ptr):
        self.touch(fr, st, i, ptr)

    def store(self, en, fr, st, i, val, ptr):
        self.touch(fr, st, i, ptr)

    def root_exit(self, en, fr, kind, ret, st):
        f = self.f
        m = f.sn
        left = '' if kind == 'ret' else ' when it is left by an exception'
        for k in sorted(self.cells):
            cells = self.cells[k]
            diff = {}
            final = set()

            def add(v, d, fin=False):
                X = base(v)
                if X is None or en.known(st, 'eq', v, 0) is True or X[0] in 'GL':
                    return
                if fin:
                    final.add(X)
                diff[X] = diff.get(X, 0) + d
            t = 1 if f.sret else 0
            alias = self.alias
            for a in range(len(f.args)):
                b = ('A', 0) if alias and a == t + 1 else ('A', a)
                if alias and a == t + 1:
                    continue
                mine = a == t and f.cls and not self.static
                for off in cells if (mine or f.sret and a == 0) else sorted({o for (bb, o) in st.mem if bb == b and isinstance(o, int) and o in cells}):
                    v0 = ('p', ('S', 'ld', b, off, None), 0)
                    v1 = st.mem.get((b, off), v0)
                    if f.sret and a == 0:
                        v0 = None
                        if kind != 'ret' or (b, off) not in st.mem:
                            v1 = None
                    if mine and is_ctor(f):
                        v0 = None
                        if kind != 'ret':
                            v1 = None
                    if mine and is_dtor(f):
                        v1 = None
                    if v0 == v1:
                        if v1 is not None:
                            final.add(base(v1))
                        continue
                    add(v0, -1)
                    add(v1, 1, True)
            cnt = {X: d for (kk, X), d in st.cl[0] if kk == k}
            if m in MANUAL:
                for X in list(cnt):
                    if X not in st.cl[1]:
                        diff[X] = diff.get(X, 0) + MANUAL[m]
            # objects known to be the same one
            for X in sorted(set(diff) | set(cnt), key=repr):
                v = ('p', X, 0)
                if en.known(st, 'eq', v, 0) is True or X == ('S', 'locked') or X in st.cl[2] and self.raw(X):
                    continue
                same = [Y for Y in set(diff) | set(cnt) if Y == X or en.known(st, 'eq', v, ('p', Y, 0)) is True]
                c = sum(cnt.get(Y, 0) for Y in same)
                d = sum(diff.get(Y, 0) for Y in same)
                if c != d:
                    what = '%s%s the %s of the object by %+d, the number of references it makes or gives up is %+d%s' % (
                        'changes', left, WHAT[k], c, d, ' (the same handle on both sides)' if alias else '')
                    self.report(what, fr, f.line)
            if k == 'o':
                for X in st.cl[1]:
                    if X not in st.cl[2] and m not in KEEPS:
                        self.report('does not destroy the object when its last reference is released', fr, f.line)
                for X in st.cl[2]:
                    if X in final:
                        self.report('keeps a reference to an object it has destroyed', fr, f.line)
            if k == 'w' and kind == 'ret' and not is_dtor(f):
                for off in cells:
                    X = base(st.mem.get((('A', t), off)))
                    p = st.mem.get((('A', t), self.target))
                    if X is not None and base(p) != ('S', 'locked', X):
                        self.report('keeps a pointer which is not the one obtained by the lock it holds', fr, f.line)


class K(Client):
    """functions of the counters"""
    small = 25
    max_steps = 8000
    maxdepth = 5

    def init(self):
        return (0, 0, ())

    def call(self, en, fr, st, i, names, args):
        P = self.P
        fs = [P.F[n] for n in names or [] if n in P.F]
        ms = {f.short.split('::')[-1] for f in fs}
        if self.zero and self.zero in ms:
            st.cl = (st.cl[0], 1, st.cl[2])
            return [('ret', en.newsym(fr, st, i), st)]
        if fr.parent is not None and fs and fs[0].short in COUNTERS or fs and fs[0].short in COUNTERS and fr.parent is None and fs[0].short.split('::')[0] == 'PoolAlloc':
            st.cl = (st.cl[0] + COUNTERS[fs[0].short][0],) + st.cl[1:]
            return [('ret', en.newsym(fr, st, i), st)]
        if len(ms) == 1 and min(ms) in STEPS:
            m = min(ms)
            d = 1 if len(args) < 2 else args[1] if isinstance(args[1], int) else 99
            st.cl = (st.cl[0] + STEPS[m] * d,) + st.cl[1:]
            return [('ret', en.newsym(fr, st, i), st)]
        if ms & {'debugBreak', 'readAcquire'}:
            return [('ret', en.newsym(fr, st, i), st)]
        return None

    def want_inline(self, en, name):
        return None

    def load(self, en, fr, st, i, ptr):
        if i[1] == 'rmw' and i[3] in ('add', 'sub'):
            v = i[5]
            d = v[1] if isinstance(v, (list, tuple)) and v[0] == 'c' else 99
            if d >= 1 << 63:
                d -= 1 << 64
            st.cl = (st.cl[0] + (d if i[3] == 'add' else -d),) + st.cl[1:]

    def root_exit(self, en, fr, kind, ret, st):
        self.res.append((en, kind, ret, st))


def handles(cx):
    """classes which hold counted references: kind of the count -> offsets"""
    P = cx.P
    memo = {}

    def cells(c, depth=0):
        if c in memo:
            return memo[c]
        memo[c] = {}
        C = P.C.get(c)
        if C is None or depth > 6:
            return {}
        n = norm(c)
        out = {}

        def add(k, o):
            out.setdefault(k, set()).add(o)
        if n == 'RefCntPtr':
            add('o', 0)
            memo[c] = out
            return out
        for b in C.bases:
            bn, bo = (b[0], b[1]) if isinstance(b, (list, tuple)) else (b, 0)
            if isinstance(bo, int):
                for k, os in cells(bn, depth + 1).items():
                    for o in os:
                        add(k, o + bo)
        for mname, off, ty, size in C.m:
            t = re.sub(r'^(const |volatile )+', '', ty or '')
            if t in P.C:
                for k, os in cells(t, depth + 1).items():
                    for o in os:
                        add(k, o + off)
        if n == 'Promise' and out.get('o'):
            out['r'] = set(out['o'])
        if n == 'WeakRefPtr' and out.get('o'):
            out['w'] = set(out['o'])
        memo[c] = out
        return out
    for c in P.C:
        cells(c)
    return memo


class G(Client):
    """rings of shared resources: the links are followed"""
    small = 40
    max_steps = 20000
    maxdepth = 4

    def call(self, en, fr, st, i, names, args):
        fs = [self.P.F[n] for n in names or [] if n in self.P.F]
        if fs and fs[0].short.split('::')[-1] == 'destroyInstance':
            self.destroyed.append((en.known(st, 'eq', en.mload(st, ('p', ('A', 0), self.next), fr, i), ('p', ('A', 0), self.next)), fr, i[2]))
            return [('ret', 0, st)]
        return None

    def want_inline(self, en, name):
        return True if name in self.P.F and self.P.F[name].short.startswith(('SharedResource::', 'SharedPtr::', 'AllocPointer::', 'Pointer::')) else None

    def root_exit(self, en, fr, kind, ret, st):
        if kind == 'ret':
            self.res.append((en, st))


def rings(cx):
    P = cx.P
    from ..engine import St, Frame, Budget
    A, B, N, M = [('S', 'new', 'ring', k) for k in range(4)]

    def link(*rs):
        m = {}
        for r in rs:
            for x, y in zip(r, r[1:] + r[:1]):
                m[(x, 0)] = ('p', y, 0)
        return m

    def members(st, x):
        r = [x]
        while len(r) < 8:
            v = st.mem.get((r[-1], 0))
            y = base(v)
            if y is None or v[2] != 0:
                return None
            if y == x:
                return frozenset(r)
            if y in r:
                return None
            r.append(y)
        return None
    for f in sorted(cx.ours(), key=lambda f: f.n):
        if norm(f.cls or '') != 'SharedResource' or f.sret:
            continue
        two = is_ctor(f) or f.sn == 'operator='
        if not (two or is_dtor(f) or f.sn in ('removeItself', 'unshare')):
            continue
        cfg = []
        if is_ctor(f) and len(f.args) == 1:
            cfg = [([], [[A]])]
        elif is_ctor(f):
            cfg = [([[B]], [[A, B]]), ([[B, N]], [[A, B, N]]), ([[B, N, M]], [[A, B, N, M]])]
        elif f.sn == 'operator=':
            cfg = [([[A], [B]], [[A, B]]), ([[A, N], [B]], [[N], [A, B]]), ([[A, N], [B, M]], [[N], [A, B, M]]), ([[A, B]], [[A, B]]), ([[A, N, B]], [[A, N, B]]),
                   ([[A, B, N]], [[A, B, N]]), ([[A, N]], [[A, N]]), ([[A]], [[A]])]
        else:
            me = [[A]] if f.sn == 'unshare' else []
            cfg = [([[A]], me), ([[A, N]], [[N]] + me), ([[A, N, M]], [[N, M]] + me)]
        cx.count('functions of rings')
        cx.instance('%s (%d ring shapes)' % (f.short, len(cfg)))
        for before, after in cfg:
            h = G()
            h.P, h.res, h.destroyed, h.next = P, [], [], 0
            en = Engine(P, h, {f.n})
            args = [('p', (A, B)[k] if k < 2 and two else (A, ('A', 1))[k] if k < 2 else ('A', k), 0) for k in range(len(f.args))]
            if f.sn == 'operator=' and not any(B in r for r in before):
                args[1] = args[0]
            try:
                en.run_root(f, args, St(link(*before), {}, h.init()))
            except Budget:
                cx.count('roots over budget')
                continue
            for e, st in h.res:
                for r in after:
                    if members(st, r[0]) != frozenset(r):
                        cx.violation('ring:' + f.short + str(len(f.args)), '%s does not leave the sharing ring consistent: %s' % (
                            f.short, 'assigned to itself' if args[1:] == args[:1] else 'a member is lost, or one that left is still linked'), f, f.line)
    for f in sorted(cx.ours(), key=lambda f: f.n):
        if norm(f.cls or '') != 'SharedPtr' or not is_dtor(f):
            continue
        h = G()
        h.P, h.res, h.destroyed = P, [], []
        h.next = next((b[1] for b in P.C[f.cls].bases if norm(b[0]) == 'SharedResource'), 0)
        if cx.run(h, f, {f.n}) is None:
            continue
        cx.count('functions of rings')
        cx.instance(f.short)
        for known, fr, line in h.destroyed:
            if known is not True:
                cx.violation('shared:' + f.short, '%s destroys the object while other pointers share it' % f.short, fr.fn, line)
    for f in sorted(cx.ours(), key=lambda f: f.n):
        if not f.cls or not is_dtor(f) or norm(f.cls) == 'SharedResource' or f.art:
            continue
        o = ringoff(P, f.cls)
        if o is None:
            continue
        h = L()
        h.P, h.next, h.ev = P, o, {}
        if cx.run(h, f, {f.n}) is None:
            continue
        cx.count('destructors of shared objects')
        cx.instance(f.short)
        for (alone, what), (fr, line) in h.ev.items():
            cx.count('actions of the last sharer', 1)
            if not alone:
                cx.violation('shared:%s:%s' % (norm(f.cls), what), '%s does not check that no copy shares the object before it finishes it: %s' % (f.short, what), fr, line)


def ringoff(P, c, d=0):
    if norm(c) == 'SharedResource':
        return 0
    C = P.C.get(c)
    if C is None or d > 6:
        return None
    for b in C.bases:
        r = ringoff(P, b[0], d + 1)
        if r is not None and isinstance(b[1], int):
            return r + b[1]
    return None


class L(Client):
    """destructors of shared objects: what is done for all of the sharers"""
    small = 20
    max_steps = 8000
    maxdepth = 4

    def want_inline(self, en, name):
        return True if name in self.P.F and self.P.F[name].short.startswith('SharedResource::') else None

    def init(self):
        return 0

    def call(self, en, fr, st, i, names, args):
        # once the object has left the ring there is nothing to tell
        if any(n in self.P.F and norm(self.P.F[n].cls or '') == 'SharedResource' and is_dtor(self.P.F[n]) for n in names or []):
            st.cl = 1
        return None

    def opaque(self, en, fr, st, i, names, args):
        P = self.P
        if st.cl or st.exc and st.exc[0]:
            return
        x = fr
        while x is not None and x.parent is not None:
            if is_dtor(x.fn) or x.fn.sn == 'operator delete':
                return
            x = x.parent
        fs = [P.F[n] for n in names or [] if n in P.F]
        n0 = (names or ['?'])[0]
        if n0.startswith(('_ZNK', '_Zd', '__clang', '_ZSt')) or 'uncaught_exception' in n0:
            return
        if any(is_dtor(g) for g in fs):
            b = base(args[0]) if args else None
            if b is None or b[:2] != ('S', 'ld'):
                return
        p = ('p', ('A', 0), self.next)
        alone = en.known(st, 'eq', en.mload(st, p, fr, i), p) is True
        what = fs[0].short if fs else n0
        self.ev.setdefault((alone, what), (fr.fn, i[2]))


def pinned(cx):
    P = cx.P
    fns = cx.ours()
    defs = {}

    def origin(f, v, d=0):
        """('arg', k) / ('this', off) / ('local', id) / ('glob', name)"""
        if f.n not in defs:
            defs[f.n] = {i[0]: i for i in f.instrs() if i[0] >= 0}
        if d > 14:
            return None
        if isinstance(v, (list, tuple)):
            if v[0] == 'a':
                return ('this', 0) if v[1] == (1 if f.sret else 0) and f.cls else ('arg', v[1])
            if v[0] == 'g':
                return ('glob', v[1])
            return None
        i = defs[f.n].get(v)
        if i is None:
            return None
        if i[1] == 'alloca':
            return ('local', i[0])
        if i[1] == 'gep':
            o = origin(f, i[3], d + 1)
            if o and o[0] == 'this':
                return ('this', o[1] + i[4]) if not i[5] else o
            return o
        if i[1] == 'cast':
            return origin(f, i[4], d + 1)
        if i[1] == 'phi':
            for x, b in i[3]:
                if isinstance(x, (list, tuple)) and x[0] == 'c':
                    continue
                return origin(f, x, d + 1)
        return None
    rc = {c for c in P.C if norm(c) == 'RefCntPtr'}
    wraps = {}
    for f in P.F.values():
        if f.cls in rc and is_ctor(f) and len(f.args) == 2 and re.search(r'C[12]EPK?', f.n):
            wraps.setdefault(f.n, set()).add(1)
    calls = []
    for f in P.F.values():
        for i in f.instrs():
            if i[1] == 'call' and i[4] and any(i[4]):
                for n in P.callees(f, i)[0]:
                    if n in P.F and len(i[4]) <= 8:
                        calls.append((f, i, n))
    # `x.getMT()`-like temporaries do not matter: only parameters passed on
    changed = True
    while changed:
        changed = False
        for f, i, n in calls:
            for k in wraps.get(n, ()):
                if k < len(i[4]):
                    o = origin(f, i[4][k])
                    if o and o[0] == 'arg' and o[1] not in wraps.get(f.n, ()):
                        wraps.setdefault(f.n, set()).add(o[1])
                        changed = True
    def member(f, off):
        best = None
        C = P.C.get(f.cls)
        if C is None:
            return None
        for mname, o, ty, size in C.m:
            if o <= off < o + max(size, 1):
                best = (mname, ty)
        return best
    done = set()
    for f, i, n in calls:
        for k in wraps.get(n, ()):
            if k >= len(i[4]):
                continue
            o = origin(f, i[4][k])
            if not o or o[0] not in ('this', 'local', 'glob') or f.file.startswith('/verif'):
                continue
            if o[0] == 'this':
                mb = member(f, o[1])
                if o[1] == 0 or mb is None:
                    continue
                key, name = mb[0], 'member ' + mb[0]
            else:
                key, name = o, 'local object' if o[0] == 'local' else o[1]
            if (f.n, key) in done:
                continue
            done.add((f.n, key))
            cx.count('references to objects outside the heap')
            cx.instance('%s in %s' % (name, f.short))
            ok = False
            for i2 in f.instrs():
                if i2[1] == 'call' and i2[4]:
                    for n2 in P.callees(f, i2)[0]:
                        if n2 in P.F and P.F[n2].short.split('::')[-1] in ('setStaticObj', 'addRef', 'manualAddRef'):
                            o2 = origin(f, i2[4][0])
                            if o2 == o or o2 and o2[0] == 'this' and o[0] == 'this' and member(f, o2[1]) == member(f, o[1]):
                                ok = True
            if not ok:
                cx.violation('static:%s:%s' % (f.short, name), 'a counted reference is made to %s, which is not on the heap and is not pinned: it is destroyed when the '
                             'reference ends' % name, f, i[2])


def run(cx):
    P = cx.P
    cells = handles(cx)
    cx.rule('each function of a counting handle changes the count of every object by the number of references gained or lost; last reference <=> destroyed')
    wk = next((C for n, C in P.C.items() if norm(n) == 'WeakRefPtr'), None)
    seen = {}
    # classes derived from a handle which work with the counts themselves
    hs = {'RefCntPtr', 'ConstValue', 'JSON::ConstValue', 'Promise', 'WeakRefPtr'}
    for f in sorted(cx.ours(), key=lambda f: f.n):
        k = cells.get(f.cls)
        if not k:
            continue
        n = norm(f.cls)
        own = n in ('RefCntPtr', 'Promise', 'WeakRefPtr')
        direct = any(i[1] == 'call' and any(x in P.F and P.F[x].short in INC or x in P.F and P.F[x].short.endswith('lockCompareExchangePtr') for x in P.callees(f, i)[0])
                     for i in f.instrs()) if not own else True
        if not direct or not own and not any(norm(b[0] if isinstance(b, (list, tuple)) else b) in hs for b in P.C[f.cls].bases):
            continue
        if own and n == 'Promise' and not (is_ctor(f) or is_dtor(f) or f.sn in ('operator=', 'cleanup')):
            continue
        if f.sn == 'serialize':
            continue
        for alias in (0, 1):
            t = 1 if f.sret else 0
            if alias and not (len(f.args) == t + 2 and f.sn in ('operator=', 'swap')):
                continue
            h = R(cx)
            h.f, h.alias, h.cells, h.static = f, alias, k, False
            h.weak = min(k['w']) if 'w' in k else 0
            if 'w' in k:
                # offset of the counted pointer inside of the weak reference
                h.target = 0
                w = [m for m in P.C[f.cls].m if norm(m[2]) == 'WeakRef']
                h.weak = min(k['w']) - (w[0][1] if w else 0)
            h.before = [(('A', a), o) for a in range(len(f.args)) if not (f.sret and a == 0) and not (a == t and is_ctor(f)) for o in sorted(k.get('o', ()))]
            args = [('p', ('A', a), 0) for a in range(len(f.args))]
            if alias:
                args[t + 1] = args[t]
                h.before = [x for x in h.before if x[0] != ('A', t + 1)]
            if cx.run(h, f, {f.n}, args) is None:
                continue
            cx.count('functions of handles')
            seen.setdefault('%s::%s' % (n, f.sn if not is_dtor(f) else '~' + n), f)
            for what, (fn, line) in sorted(h.bad.items()):
                cx.violation('%s::%s:%s' % (n, f.sn, ' '.join(what.split(' ')[:2])), '%s::%s %s' % (n, f.sn, what), fn, line)
    for s in sorted(seen):
        cx.instance(s)
    cx.rule('the functions of the counters change them by exactly one, atomically, and act exactly when zero is reached')
    for f in sorted(cx.ours(), key=lambda f: f.n):
        if f.short not in COUNTERS:
            continue
        d, zero = COUNTERS[f.short]
        if f.short == 'PoolAlloc::alloc' and len(f.args) != 2:
            continue
        h = K()
        h.P, h.res, h.zero = P, [], zero if zero != 'result' else None
        if cx.run(h, f, {f.n}) is None:
            continue
        cx.count('functions of counters')
        cx.instance(f.short)
        for en, kind, ret, st in h.res:
            if kind != 'ret':
                continue
            if st.cl[0] != d:
                cx.violation('counter:' + f.short, '%s changes the counter by %+d instead of %+d' % (f.short, st.cl[0], d), f, f.line)
        if zero:
            acts(cx, P, f, zero)
    pinned(cx)
    rings(cx)
    for need in ('RefCntPtr::operator=', 'RefCntPtr::RefCntPtr', 'RefCntPtr::~RefCntPtr', 'Promise::Promise', 'Promise::~Promise'):
        if need not in seen:
            cx.stats['not found: ' + need] = 1
    cx.floor('functions of handles', 100)


def acts(cx, P, f, zero):
    """the decision taken on the new value of the counter: compare it with zero"""
    for i in f.instrs():
        if i[1] != 'cmp':
            continue
        ops = [i[4], i[5]]
        c = next((o for o in ops if isinstance(o, (list, tuple)) and o[0] == 'c'), None)
        v = next((o for o in ops if not isinstance(o, (list, tuple))), None)
        d = next((j for j in f.instrs() if j[0] == v), None) if v is not None else None
        if d is None or d[1] != 'call':
            continue
        names = [P.F[n].short for n in P.callees(f, d)[0] if n in P.F]
        if not any(n.endswith(('lockDec', 'lockExchangeSub', 'lockExchangeAdd')) for n in names):
            continue
        want = 0 if names[0].endswith('lockDec') else 1
        if c is None or (c[1] != want or i[3] not in ('eq', 'ne')) and not (c[1] == want + 1 and i[3] in ('slt', 'ult', 'sge', 'uge')):
            cx.violation('zero:' + f.short, '%s does not act exactly when the counter reaches zero' % f.short, f, i[2])
