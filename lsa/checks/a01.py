"""Shared words.  A word updated with atomic operations is not updated by a plain read-modify-write elsewhere; a compare-and-swap installs a value derived from the one
it replaces, its outcome is read from a comparison of the returned value with the expected one, and a retry uses a fresh expected value; a decision about a shared
counter uses the value the atomic operation returned."""
import re
from ..engine import Client, collect, S
from ..locks import is_ctor, is_dtor
from .w01 import norm

WR = {'lockCompareExchange': 'cas', 'lockCompareExchangePtr': 'cas', 'lockExchangeAdd': 'add', 'lockExchangeSub': 'sub', 'lockInc': 'inc', 'lockDec': 'dec',
      'lockIncNoBarrier': 'inc', 'lockDecNoBarrier': 'dec', 'lockExchange': 'xchg', 'lockExchangePtr': 'xchg'}


# the value installed does not depend on the old one on purpose: catching up with another counter
CHOSEN = ('DbgLog::needRotateLogs',)
# a worker counts itself: the checks before are advisory
SINGLE = ('ParallelExecutor::Worker::run',)
# words changed by the owner of a lock only
OWNED = {('FastLockR', 'recursiveCount'), ('Mutex', 'recursion')}
# set up once by whichever thread needs them first
SHARED = {('TextField', 'utf'), ('TextFieldA', 'wide'), ('LeafNodeConvToStr', 'txtBackend'), ('Thread', 'threadContext'), ('TCPServer', 'shutdown')}
# gives up what only the owner could have changed
GIVEUP = ('SpinLock::unlock', 'SyncPtr::unlock', 'SyncPtr::release')


LOCKS = re.compile(r'(^|::)(Synchronized::Synchronized|SyncReleased::~SyncReleased|lock)$')
UNLOCKS = re.compile(r'(^|::)(Synchronized::~Synchronized|SyncReleased::SyncReleased|unlock)$')


def wrapper(f):
    return WR.get(f.short.split('::')[-1].split('<')[0]) if f is not None and 'atomic' in f.file else None


def clsname(t):
    return re.sub(r'\.\d+$', '', t.split('::')[-1].replace('class.', '').replace('struct.', ''))


def derived(v, e):
    """v is computed from e or loaded through it"""
    if v == e:
        return True
    if isinstance(v, tuple):
        return any(derived(x, e) for x in v)
    return False


class A(Client):
    small = 7
    max_steps = 20000
    wantgep = True
    maxdepth = 4

    def __init__(self, cx):
        self.cx = cx
        self.P = cx.P
        self.bad = {}
        self.sites = {}
        self.words = set()
        self.claimed = set()

    def init(self):
        # pending comparisons (result, expected, site), outdated (pointer, expected), words read and compared, a lock is held, words read
        return ((), (), (), 0, ())

    def want_inline(self, en, name):
        f = self.P.F.get(name)
        if f is not None and re.search(r'::(ptrToCookie|cookieToPtr)$', f.short):
            return True
        return None

    def gep(self, en, fr, st, i, p):
        if isinstance(p, tuple) and p[0] == 'p' and i[4] in self.vol.get(clsname(i[6]), ()):
            self.words.add(('p', p[1], p[2] + i[4]))
            if (clsname(i[6]), i[4]) in self.claims and self.vol[clsname(i[6])][i[4]] != 'owner':
                self.claimed.add(('p', p[1], p[2] + i[4]))

    def report(self, what, fr, i):
        fn, line = fr.fn, i[2]
        if wrapper(fn) or fn.short.startswith('writeRelease'):
            fn, line = fr.parent.fn if fr.parent else fn, fr.site[2] if fr.parent else line
        self.bad.setdefault((self.root.n, fn.n, line, what), fn)

    def syms(self, cl):
        out = set()
        for x in collect_all(cl):
            out.add(x)
        return out

    def set(self, st, **k):
        c = list(st.cl)
        for n, v in k.items():
            c[('pend', 'old', 'seen', 'lk', 'rd').index(n)] = v
        st.cl = tuple(c)

    def call(self, en, fr, st, i, names, args):
        P = self.P
        fs = [P.F[n] for n in names if n in P.F]
        w = wrapper(fs[0]) if len(fs) == 1 else None
        if not w and len(fs) == 1 and LOCKS.search(fs[0].short):
            self.set(st, lk=1)
        elif not w and len(fs) == 1 and UNLOCKS.search(fs[0].short):
            self.set(st, lk=0, seen=tuple((v, p, 1 if c else 0) for v, p, c in st.cl[2]))
        if not w and len(fs) == 1 and re.match(r'RefCntPtr::(operator=|~|clear|[A-Z])', fs[0].short) and args and fr.depth < 2:
            # a smart pointer changes itself only
            for a in args:
                if isinstance(a, tuple) and a[0] == 'p':
                    en.mstore(st, a, en.newsym(fr, st, i, 'sp'))
            return [('ret', en.newsym(fr, st, i), st)]
        if not w:
            return None
        ptr = args[0]
        self.sites.setdefault((fr.fn.n, i[2]), w)
        if w != 'cas':
            for v, p, c in st.cl[2]:
                if p == ptr and c == 1 and w in ('dec', 'sub') and not fr.fn.short.endswith(SINGLE):
                    self.report('decides about a shared counter from an earlier plain read and then updates it', fr, i)
            old = S('x', fr.ctx, fr.fn.n, i[0], 'rmw')
            st.cons.pop(old[1], None)
            if isinstance(ptr, tuple) and ptr[0] == 'p':
                en.mstore(st, ptr, ('p', ('S', 'reread', fr.fn.n, i[2]), 0))
            return [('ret', old, st)]
        exp, nv = args[1], args[2]
        pend, old, seen, lk, rd = st.cl
        for p, e in old:
            if p == ptr and e == exp and not isinstance(exp, int) and not (isinstance(exp, tuple) and exp[0] == 'p' and exp[1][0] == 'A'):
                self.report('retries a compare-and-swap with the expected value which was already found outdated', fr, i)
        e0 = exp[1] if isinstance(exp, tuple) and exp[0] == 'p' and exp[2] == 0 else exp
        ok = isinstance(nv, int) or isinstance(exp, int) or derived(nv, e0)
        for x in collect_all(nv) if ok and not isinstance(nv, int) and not isinstance(exp, int) else ():
            if x[0] == 'A' and x != ('A', 0) and nv[:2] != ('p', x):
                # a record packed into the new value is linked to the old one
                ok = any(isinstance(k, tuple) and k[0] == x and derived(v, e0) for k, v in st.mem.items())
        if not ok and isinstance(nv, tuple) and nv[0] == 'p':
            ok = any(isinstance(k, tuple) and k[0] == nv[1] and v == exp for k, v in st.mem.items())
        if not ok and 'Ptr' not in fs[0].short:
            # a change of state chosen by the caller
            bs = [x for x in collect_all(nv) if x[0] in ('A', 'S')]
            ok = bs and all(x[0] == 'A' for x in bs)
        if not ok and not fr.fn.short.endswith(CHOSEN):
            self.report('a compare-and-swap installs a value which does not depend on the value it replaces', fr, i)
        fresh = self.fresh(fr, st, i, ('cx', 'cy', 'cz', 'cw'), (exp, nv, ptr))
        s2 = st.copy()
        s2.cons.pop(fresh[1], None)
        s2 = en._assume_cmp(s2, 'ne', fresh, exp)
        outs = []
        if s2 is not None:
            en.mstore(s2, ptr, fresh)
            self.set(s2, pend=((fresh, exp, fr.fn.n, i[2]),), old=((ptr, exp),))
            outs.append(('ret', fresh, s2))
        en.mstore(st, ptr, nv)
        self.set(st, pend=(), old=())
        outs.append(('ret', exp, st))
        return outs

    def opaque(self, en, fr, st, i, names, args):
        for k in [k for k, v in st.mem.items() if isinstance(v, tuple) and v[:1] == ('p',) and v[1][:2] == ('S', 'reread')]:
            del st.mem[k]

    def havoced(self, st, base, site):
        self.set(st, old=tuple(o for o in st.cl[1] if base not in collect_all(o)), seen=tuple(o for o in st.cl[2] if o[2] or base not in collect_all(o)))

    def rebound(self, st, base):
        self.set(st, old=tuple(o for o in st.cl[1] if base not in collect_all(o)))

    def fresh(self, fr, st, i, tags, vals):
        used = {x for v in vals for x in collect_all(v)} | {x for v in st.mem.values() for x in collect_all(v)}
        used.update(collect_all(st.cl))
        for t in tags:
            s = ('S', 'x', fr.ctx, fr.fn.n, i[0], t)
            if s not in used:
                break
        else:
            self.set(st, old=tuple(o for o in st.cl[1] if s not in collect_all(o)))
        st.cons.pop(s, None)
        return ('p', s, 0)

    def shared(self, fr, ptr):
        if ptr in self.words:
            return True
        if isinstance(ptr, tuple) and ptr[0] == 'p' and ptr[2] == 0:
            if ptr[1][0] == 'G' and 'volatile' in self.P.G.get(ptr[1][1], {}).get('dt', '') or ptr[1][0] == 'A' and self.root.n in self.refs:
                self.words.add(ptr)
                self.claimed.add(ptr)
                return True
        return False

    def load(self, en, fr, st, i, ptr):
        if isinstance(ptr, tuple) and ptr[0] == 'p' and i[1] == 'load':
            if self.shared(fr, ptr) and ptr[1][0] != 'L':
                v = st.mem.get((ptr[1], ptr[2]))
                if not (isinstance(v, tuple) and v[0] == 'p' and v[1][:2] == ('S', 'reread')):
                    # every read can give another value
                    en.mstore(st, ptr, self.fresh(fr, st, i, ('vl', 'vm', 'vn', 'vo'), ()))
            v = en.mload(st, ptr, fr, i)
            if self.shared(fr, ptr) and ptr not in st.cl[4]:
                self.set(st, rd=(st.cl[4] + (ptr,))[-3:])
            if isinstance(v, tuple) and (v, ptr, 0) not in st.cl[2] and (v, ptr, 1) not in st.cl[2] and ptr in self.words:
                self.set(st, seen=tuple(x for x in st.cl[2] if x[2] and x[1] != ptr) + ((v, ptr, 0),))

    def cmp(self, en, fr, st, i, pred, a, b):
        for p in st.cl[0]:
            if p[0] in (a, b):
                o = b if p[0] == a else a
                if o != p[1] and not isinstance(o, int):
                    self.report('the outcome of a compare-and-swap is taken from a comparison with another value than the expected one', fr, i)
                if o == p[1] or not isinstance(o, int):
                    self.set(st, pend=tuple(q for q in st.cl[0] if q != p))
            elif any(derived(v, p[0]) for v in (a, b)):
                # some bits of the result are tested
                self.set(st, pend=tuple(q for q in st.cl[0] if q != p))
        self.set(st, seen=tuple((0 if c or hit else v, p, c or (2 if st.cl[3] else 1) if c or hit else 0) for v, p, c in st.cl[2] for hit in (pred not in ('eq', 'ne') and (v == a or v == b),)))
        for v in (a, b):
            for s in collect_all(v):
                if s[0] == 'S' and s[1] == 'reread':
                    self.report('decides from a second read of a shared counter after updating it', fr, i)

    def store(self, en, fr, st, i, val, ptr):
        if i[1] == 'store' and ptr in st.cl[4] and ptr in self.claimed:
            self.report('claims or changes a shared word by reading it and writing it separately', fr, i)

    def root_exit(self, en, fr, kind, ret, st):
        for x in collect_all(ret):
            if x[:2] == ('S', 'reread'):
                self.bad.setdefault((self.root.n, x[2], x[3], 'returns a second read of a shared counter instead of the value the update gave'), self.P.F[x[2]])
        for p in st.cl[0]:
            if ret != p[0] and not self.P.F[p[2]].short.endswith(GIVEUP):
                self.bad.setdefault((self.root.n, p[2], p[3], 'the outcome of a compare-and-swap is not looked at'), self.P.F[p[2]])


def collect_all(v):
    out = []

    def go(v):
        if isinstance(v, tuple):
            if v[:1] in (('S',), ('A',), ('L',), ('G',)):
                out.append(v)
            for x in v:
                go(x)
    go(v)
    return out


def addr(f, v, defs, d=0):
    """canonical address expression"""
    if isinstance(v, int) and v in defs and d < 12:
        i = defs[v]
        if i[1] == 'gep' and not i[5]:
            b = addr(f, i[3], defs, d + 1)
            return ('+', b, i[4]) if i[4] else b
        if i[1] == 'load':
            return ('*', addr(f, i[3], defs, d + 1))
        if i[1] == 'cast':
            return addr(f, i[4], defs, d + 1)
    return repr(v)


def word(v, defs, vol):
    """the shared word a pointer denotes"""
    while isinstance(v, int) and v in defs and defs[v][1] == 'cast':
        v = defs[v][4]
    if isinstance(v, list) and v[0] == 'g' and v[1] in vol['']:
        return '', v[1]
    g = defs.get(v) if isinstance(v, int) else None
    if g and g[1] == 'gep' and g[4] in vol.get(clsname(g[6]), {}):
        return clsname(g[6]), g[4]
    return None


def uses(i):
    out = set()

    def go(x):
        if isinstance(x, int):
            out.add(x)
        elif isinstance(x, (list, tuple)) and not (x and x[0] in ('c', 'a', 'g')):
            for y in x:
                go(y)
    for x in i[3:]:
        go(x)
    return out


def run(cx):
    P = cx.P
    vol = {'': {n: g['d'] for n, g in P.G.items() if 'volatile' in g.get('dt', '') and 'lightspeed' in g.get('file', '')}}
    for n, c in P.C.items():
        for m in c.m:
            if 'volatile' in m[2] or (norm(n).split('::')[-1], m[0]) in SHARED:
                vol.setdefault(norm(n).split('::')[-1], {})[m[1]] = m[0]
    cl = A(cx)
    cl.vol = vol
    cl.claims = {(c, o) for c, d in vol.items() for o, m in d.items() if (c, m) in SHARED}
    writes = set()
    roots = {}
    for f in sorted(cx.ours(), key=lambda f: f.n):
        defs = {i[0]: i for i in f.instrs() if isinstance(i[0], int) and i[0] >= 0}
        for i in f.instrs():
            if i[1] == 'call':
                for n in P.callees(f, i)[0]:
                    g = P.F.get(n)
                    if wrapper(g) and not wrapper(f):
                        roots[f.n] = f
                        if wrapper(g) == 'xchg' and not any(i[0] in uses(j) for j in f.instrs() if j is not i):
                            cx.violation('xchg:' + f.short, '%s throws away the value an atomic exchange took out of a shared word' % f.short, f, i[2])
                        w = word(i[4][0], defs, vol)
                        if w:
                            cl.claims.add(w)
                    if g is not None and g.short.startswith('writeRelease') and not is_ctor(f) and not is_dtor(f):
                        writes.add((word(i[4][0], defs, vol), f.n))
            if i[1] == 'store' and not is_ctor(f) and not is_dtor(f):
                writes.add((word(i[4], defs, vol), f.n))
            if i[1] == 'store' and isinstance(i[3], int) and i[3] in defs and not is_ctor(f) and not is_dtor(f):
                a = addr(f, i[4], defs)
                v, d = i[3], 0
                while isinstance(v, int) and v in defs and d < 6:
                    x = defs[v]
                    if x[1] == 'bin':
                        for o in (x[4], x[5]):
                            y = o
                            while isinstance(y, int) and y in defs and defs[y][1] == 'cast':
                                y = defs[y][4]
                            if isinstance(y, int) and y in defs and defs[y][1] == 'load' and addr(f, defs[y][3], defs) == a:
                                w = word(i[4], defs, vol)
                                if w and (w[0], vol[w[0]][w[1]]) not in OWNED:
                                    cx.violation('plain:%s:%s' % (f.short, vol[w[0]][w[1]]), '%s updates the shared word %s::%s with a plain read-modify-write' % (f.short, w[0], vol[w[0]][w[1]]), f, i[2])
                    break
    cl.refs = {f.n for f in cx.ours() if re.search(r'(RVl|PVl)', f.n.split('E', 1)[-1]) and not wrapper(f) and not re.match(r'(readAcquire|writeRelease)', f.short)}
    for n in cl.refs:
        roots[n] = P.F[n]
    for w, n in writes:
        if w in cl.claims:
            roots[n] = P.F[n]
    cx.rule('atomic operations')
    for n, f in sorted(roots.items()):
        cl.root = f
        cl.words, cl.claimed = set(), set()
        cl.res = {}
        if cx.run(cl, f, {f.n}) is None:
            continue
        cx.count('functions')
        cx.instance(f.short)
    ranks = {}
    for fn, line in cl.sites:
        ranks.setdefault(fn, set()).add(line)
    for (rn, fn, line, what), f in sorted(cl.bad.items(), key=repr):
        r = sorted(ranks.get(fn, ())).index(line) if line in ranks.get(fn, ()) else ''
        cx.violation('%s:%s:%s' % (P.F[fn].short, r, what[:60]), '%s: %s' % (P.F[fn].short, what), P.F[fn], line)
    cx.stats['sites'] = len({(P.F[a].file, b) for a, b in cl.sites})
    cx.rule('the atomic primitives perform one indivisible operation and return what they promise')
    wc = W()
    for f in sorted(P.F.values(), key=lambda f: f.n):
        w = wrapper(f)
        acc = re.match(r'(readAcquire|writeRelease)(Ptr)?$', f.short.split('<')[0])
        if w:
            ops = [i for i in f.instrs() if i[1] in ('rmw', 'cmpxchg')]
            cx.count('primitives')
            cx.instance(f.short)
            weak = not f.short.split('<')[0].endswith('NoBarrier')
            if not any(('acq_rel' in i or 'seq_cst' in i) or not weak for i in ops):
                cx.violation('prim:' + f.short, '%s does not use an indivisible, ordered operation' % f.short, f, f.line)
                continue
            wc.res = []
            if cx.run(wc, f, set()) is None:
                continue
            for en, st, ret, stored in wc.res:
                if w == 'cas':
                    good = ret == ('p', ('A', 1), 0) and stored == ('p', ('A', 2), 0) or stored is None and isinstance(ret, tuple) and ret[0] == 'p' and ret[1][-1] == 'cx'
                else:
                    op, ret2, old = ops[0][3], ret, None
                    isold = isinstance(ret, tuple) and ret[0] == 'p' and ret[1][-1] == 'rmw' and ret[2] == 0
                    isnew = not isold and any(x[-1] == 'rmw' for x in collect_all(ret))
                    good = op == {'inc': 'add', 'dec': 'sub'}.get(w, w) and (isnew if w in ('inc', 'dec') else isold)
                if not good:
                    cx.violation('primret:' + f.short, '%s does not return the value the callers decide from' % f.short, f, f.line)
        elif acc and 'atomic' in f.file:
            cx.count('primitives')
            cx.instance(f.short)
            k = 'load' if acc.group(1) == 'readAcquire' else 'store'
            if not any(i[1] == k and any(o in i for o in ('acquire', 'release', 'seq_cst')) for i in f.instrs()) and not any(i[1] == 'fence' for i in f.instrs()):
                cx.violation('prim:' + f.short, '%s is not ordered' % f.short, f, f.line)
    cx.floor('functions', 40)
    cx.floor('primitives', 8)


class W(Client):
    small = 0

    def init(self):
        return None

    def store(self, en, fr, st, i, val, ptr):
        if isinstance(ptr, tuple) and ptr[1] == ('A', 0):
            st.cl = val

    def syms(self, cl):
        return set(collect_all(cl))

    def root_exit(self, en, fr, kind, ret, st):
        self.res.append((en, st, ret, st.cl))
