"""Guarded members.  For each class in the table (the shared state of executors, promises, listeners, lock primitives, logs) every load and store of a
guarded member - directly, through an inlined container operation or by an operation called on it - is an obligation: the lock of the same object is held on
every path that reaches it.  Entry points are the public operations of the class and functions without a caller in the library; helpers are examined in the
context of their callers. Constructors and destructors are exempt (the object is not shared)."""
from ..locks import LockClient, lock_effects, is_ctor, is_dtor, LOCKCLS
from ..ir import strip_targs

LT = {'LightSpeed::' + x for x in LOCKCLS}

# class: (lock, members it guards). 'x=' marks a member which is written once under the lock and immutable afterwards: only writes are checked
TABLE = {
    'QueueExecutor': ('lock', ['queue', 'finishFlag', 'threadsIn', 'runningMessages']),
    'Future::Value': ('lock', ['observers', 'resolving', 'value=', 'exception=']),
    'Dispatcher': ('lock', ['queue']),
    'EventDB::EventLog': ('lock', ['listeners', 'writePos', 'writeState']),
    'ParallelExecutor': ('executeLock', ['topWorker']),
    'MTTLSAllocator': ('lock', ['allocator']),
    'SyncPt': ('queueLock', ['curQueue']),
    'TCPServer': ('lock', ['connList', 'otherPorts']),
    'LevelLock': ('protectInternals', ['qtop', 'qbot', 'curLevel', 'useCount']),
}
# operations of objects that hold the lock during their whole life (L01 checks that they do)
HOLDERS = ('EventDB::EventLog::Transaction',)
# (class, member, operation): not an access without the lock although it looks so
SKIP = {
    ('EventDB::EventLog', 'listeners', 'EventDB::EventLog::rescan', 'r'): 'the listeners are visited only when no single listener is given, which only the overload holding the lock does',
    ('EventDB::EventLog', 'listeners', 'EventDB::EventLog::addListenerAndSync', 'r'): 'as above',
}


def norm(n):
    return n.replace(' ', '')


SZ = {'ptr': 8, 'i64': 8, 'i32': 4, 'i16': 2, 'i8': 1, 'i1': 1}


class G(LockClient):
    small = 0
    wantgep = True

    def __init__(self, cx, lc):
        LockClient.__init__(self, cx.P)
        self.cx = cx
        self.lc = lc          # full class name -> (table key, lock member, lock offset, {offset range: member})
        self.acc = {}
        self.tags = {}
        self.calls = {}
        self.names = {}
        for c in lc:
            self.names.setdefault(norm(c), []).append(c)

    def tag(self, base, off, c):
        self.tags.setdefault(base, set()).add((off, c))

    def gep(self, en, fr, st, i, p):
        n = i[6]
        if not (isinstance(p, tuple) and p[0] == 'p') or not (n.startswith('class.') or n.startswith('struct.')):
            return
        c = self.cls_of(n)
        if c:
            self.tag(p[1], p[2], c)

    def cls_of(self, n):
        n = n.split('.', 1)[-1]
        if n[-1:].isdigit() and '.' in n:
            n = n.rsplit('.', 1)[0]
        cs = self.names.get(norm(n))
        return cs[0] if cs else None

    def want_inline(self, en, name):
        if name in self.roots:
            return False
        if name in self.users:
            return True
        return None

    def call(self, en, fr, st, i, names, args):
        for n in names[:1]:
            f = self.roots.get(n)
            if f:
                p = args[0] if args and isinstance(args[0], tuple) and args[0][0] == 'p' and f.cls in self.lc else None
                lo = self.lc[f.cls][2] if p else 0
                self.calls.setdefault(n, set()).add(any(k > 0 and (p is None or q == (p[1], p[2] + lo)) for q, k in st.cl) and self.key(fr.fn) == self.key(f))
        return LockClient.call(self, en, fr, st, i, names, args)

    def key(self, f):
        k = strip_targs(f.cls or '').replace('LightSpeed::', '', 1)
        for t in TABLE:
            if k == t or k.startswith(t + '::'):
                return t
        return None

    def hit(self, p):
        if not (isinstance(p, tuple) and p[0] == 'p'):
            return
        for (o, c) in self.tags.get(p[1], ()):
            lk, ln, lo, rng = self.lc[c]
            for a, b, m in rng:
                if o + a <= p[2] < o + b:
                    yield c, m, o + lo

    def building(self, fr, c, base):
        x = fr
        while x is not None:
            if (is_ctor(x.fn) or is_dtor(x.fn)) and x.args and isinstance(x.args[0], tuple) and x.args[0][0] == 'p' and x.args[0][1] == base:
                return True
            x = x.parent
        return False

    def note(self, fr, st, i, p, w, size=99):
        for c, m, lo in self.hit(p):
            if self.building(fr, c, p[1]):
                continue
            if m.endswith('='):
                # written once: reading is free
                if w != 'w':
                    continue
            w = w[0]
            held = any(q == (p[1], lo) and n > 0 for q, n in st.cl)
            self.acc.setdefault(self.root.n, {}).setdefault((self.lc[c][0], m.rstrip('='), held, w, fr.fn.n, i[2]), (fr.fn, i[2], fr.chain(i), size))

    def load(self, en, fr, st, i, ptr):
        self.note(fr, st, i, ptr, 'r', SZ.get(i[4], 99))

    def store(self, en, fr, st, i, val, ptr):
        self.note(fr, st, i, ptr, 'w')

    def opaque(self, en, fr, st, i, names, args):
        n = names[0] if names else ''
        if args and n not in self.roots and not (n in self.P.F and self.P.F[n].cls in self.lc):
            m = self.P.F[n].short.split('::') if n in self.P.F else ['?']
            self.note(fr, st, i, args[0], 'r' if n.startswith('_ZNK') else 'w' if m[-1] in ('operator=', 'init', 'reset', 'swap', 'set') else 'wm')


def tables(cx):
    P = cx.P
    lc = {}
    for n, c in P.C.items():
        key = strip_targs(n).replace('LightSpeed::', '', 1)
        if key not in TABLE:
            continue
        lk, ms = TABLE[key]
        off = {m[0]: (m[1], m[3]) for m in c.m}
        if lk not in off:
            # the lock was renamed: any member which is a lock
            l = [m[0] for m in c.m if m[2] in LT]
            if len(l) != 1:
                continue
            lk = l[0]
        lc[n] = (key, lk, off[lk][0], [(off[m.rstrip('=')][0], off[m.rstrip('=')][0] + max(off[m.rstrip('=')][1], 1), m) for m in ms if m.rstrip('=') in off])
    return lc


def run(cx):
    P = cx.P
    lc = tables(cx)
    lib = {f.n: f for f in cx.ours()}
    eff, res = lock_effects(cx, LockClient(P), lib)
    cx.rule('the lock of the object is held at every access to a guarded member')
    g = G(cx, lc)
    g.users, g.roots = entry_points(P, lib, g, eff)
    for f in g.roots.values():
        g.root = f
        g.tags = {}
        cx.count('entry points')
        cx.run(g, f, set(eff))
    keys = set()
    for n, d in g.acc.items():
        f = g.roots[n]
        cs = g.calls.get(n)
        # called inside of the class only, always with the lock held: a helper
        helper = cs == {True}
        # a query that reads a single word of the object
        snapshot = len(d) == 1 and all(k[3] == 'r' for k in d) and f.ninstr() <= 8 and not any(k[0] in NOSNAP for k in d)
        for (c, m, held, w, fn, ln), at in sorted(d.items()):
            keys.add((c, m))
            cx.instance('%s.%s %s in %s (%s): %s' % (c, m, 'read' if w == 'r' else 'written', f.short, at[0].short, 'lock held' if held else 'no lock'))
            if held:
                continue
            if helper:
                cx.count('accesses of helpers called with the lock held')
            elif snapshot:
                cx.count('snapshot queries')
            elif any(f.short.startswith(h) for h in HOLDERS):
                cx.count('accesses by lock holding objects')
            elif (c, m, f.short, w) in SKIP:
                cx.count('exempt accesses')
            else:
                cx.violation('%s::%s in %s' % (c, m, f.short), 'member %s of %s is %s without the lock %s of the object' % (m, c, 'read' if w == 'r' else 'modified', TABLE[c][0]), at[0], ln, at[2])
    cx.stats['guarded members'] = len(keys)
    cx.stats['classes'] = len({c for c, m in keys})
    cx.floor('classes', 6)
    cx.floor('guarded members', 10)
    cx.assumption('an object which is being constructed or destroyed is not shared')


NOSNAP = ('MTTLSAllocator',)     # the member is a reference to the guarded object


def entry_points(P, lib, g, eff):
    """(functions that lead to an access, {name: entry point})"""
    structs = {i[6][7:] for f in P.F.values() for i in f.instrs() if i[1] == 'gep' and i[6].startswith('struct.')}
    direct = set()
    for f in lib.values():
        if any(i[1] == 'gep' and g.cls_of(i[6]) for i in f.instrs()):
            direct.add(f.n)
    cg = P.callgraph()
    rev = {}
    for a in lib:
        for b in cg[a]:
            rev.setdefault(b, set()).add(a)
    users, roots, todo = set(), {}, sorted(direct)
    while todo:
        n = todo.pop()
        if n in users:
            continue
        f = lib[n]
        if (is_ctor(f) or is_dtor(f)) and f.cls in g.lc:
            continue
        users.add(n)
        own = f.cls and (f.acc == 3 or f.acc == 0 and strip_targs(f.cls) in structs)
        up = [a for a in rev.get(n, ()) if a != n]
        if (own or not up) and n not in eff:
            roots[n] = f
        else:
            todo += up
    return users, roots
