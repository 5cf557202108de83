"""Nothing is used before it has a value. (a) Members: for every constructor the bytes of the object that are definitely given a value
on every path (through the constructors and helpers it calls) are computed; a scalar member outside of this set which some
operation of the class reads without having assigned it first is reported. (b) Locals: a value that has not been assigned on the path may not
decide a branch, be dereferenced or returned."""
import re, collections
from ..engine import Client, S
from ..ir import strip_targs

SCALAR = {'bool', 'int', 'long', 'unsigned long', 'unsigned int', 'char', 'unsigned char', 'signed char', 'short', 'unsigned short', 'long long',
          'unsigned long long', 'float', 'double', 'wchar_t'}
SZ = {'ptr': 8, 'i64': 8, 'i32': 4, 'i16': 2, 'i8': 1, 'i1': 1, 'float': 4, 'double': 8}
FILL = ('llvm.memcpy', 'llvm.memset', 'llvm.memmove', 'memset', 'memcpy', 'memmove')

# members which carry data only while another member of the same object says so; constructor leaves them open on purpose
GUARDED = {
    'StringBufferHdrBase::alloc': 'header of a string buffer; filled by the only factory function right after the allocation',
    'StringBufferHdrBase::charCount': 'as above',
    'StringBufferHdrBase::initCount': 'as above',
    'RangeException::rfrom': 'valid only when bfrom',
    'RangeException::rto': 'valid only when bto',
    'MicroLockData::next': 'written by lock() before the object gets into the queue',
    'Utf8ToWideConvert::outchar': 'valid while hasItems',
    'Base16ToByteConvert::outByte': 'valid while hasItems',
    'Base85ToByteConvert::maxreadpos': 'valid while hasItems',
    'XMLEntity::endTag': 'plain record filled by the parser',
    'XMLEntity::type': 'plain record filled by the parser',
    'TextParser::inclass': 'set when a pattern is started, before it is interpreted',
}


def off(m, v, k):
    if isinstance(v, int):
        return m.get(v)
    if v[0] == 'a' and v[1] == k:
        return 0
    return None


def ptrmap(f, k):
    """SSA values of f which are (argument k) + constant"""
    m = {}
    ins = [i for i in f.instrs() if i[1] in ('gep', 'cast', 'phi')]
    ch = True
    while ch:
        ch = False
        for i in ins:
            if i[0] in m:
                continue
            o = None
            if i[1] == 'gep':
                if not i[5]:
                    o = off(m, i[3], k)
                    o = None if o is None else o + i[4]
            elif i[1] == 'cast':
                o = off(m, i[4], k)
            else:
                os = {off(m, v, k) for v, _ in i[3]}
                if len(os) == 1:
                    o = os.pop()
            if o is not None:
                m[i[0]] = o
                ch = True
    return m


class Init(object):
    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.nr = P.never_returns()
        self.pm = {}

    def pmap(self, f, k):
        r = self.pm.get((f.n, k))
        if r is None:
            r = self.pm[(f.n, k)] = ptrmap(f, k)
        return r

    def flow(self, f, k, visit=None, stack=()):
        """must-initialised byte set of the object argument k points to at every normal return"""
        P = self.P
        m = self.pmap(f, k)
        st = {0: frozenset()}
        wl = [0]
        outs = {}
        while wl:
            b = wl.pop()
            s = set(st[b])
            dead = False
            for i in f.b[b]:
                op = i[1]
                if op == 'store':
                    o = off(m, i[4], k)
                    if o is not None:
                        s.update(range(o, o + SZ.get(i[5], 64)))
                elif op == 'load':
                    if visit:
                        o = off(m, i[3], k)
                        if o is not None:
                            visit(i, o, s, None)
                elif op in ('rmw', 'cmpxchg'):
                    if visit:
                        o = off(m, i[4] if op == 'rmw' else i[3], k)
                        if o is not None:
                            visit(i, o, s, None)
                elif op == 'call':
                    names = P.callees(f, i)[0]
                    n = names[0] if names else ''
                    for j, a in enumerate(i[4]):
                        if isinstance(a, list) and a[0] == 'm':
                            continue
                        o = off(m, a, k)
                        if o is None:
                            continue
                        if len(names) == 1 and n in P.F:
                            if visit:
                                visit(i, o, s, (P.F[n], j))
                            r = self.summ(P.F[n], j, stack + ((f.n, k),))
                            s.update(x + o for x in r)
                        elif n.startswith(FILL):
                            if j == 0:
                                if isinstance(i[4][2], list) and i[4][2][0] == 'c':
                                    s.update(range(o, o + min(i[4][2][1], 4096)))
                                else:
                                    s.update(range(o, o + 512))
                        elif not n.startswith('llvm.'):
                            s.update(range(o, o + 512))     # unknown code may fill it
                    if i[6] or names and all(x in self.nr for x in names):
                        dead = True
                elif op == 'ret':
                    outs[b] = frozenset(s)
            if dead:
                continue
            fs = frozenset(s)
            for x in f.succs(b):
                if x not in st:
                    st[x] = fs
                    wl.append(x)
                else:
                    n = st[x] & fs
                    if n != st[x]:
                        st[x] = n
                        wl.append(x)
        r = None
        for x in outs.values():
            r = x if r is None else r & x
        return r if r is not None else frozenset(range(0, 512))

    def summ(self, f, k, stack=()):
        key = (f.n, k)
        if key in self.memo:
            return self.memo[key]
        if key in stack or len(stack) > 14:
            return frozenset()
        r = self.flow(f, k, None, stack)
        self.memo[key] = r
        return r


def plain(t):
    return t.replace('volatile ', '').replace('const ', '').strip()


def cname(c):
    return re.sub('<.*', '', strip_targs(c).split('::')[-1])


def is_ctor(P, f):
    return bool(f.cls) and f.cls in P.C and f.sn == cname(f.cls)


def hasctor(c):
    nm = cname(c.n)
    return any(x[0] == nm or x[0].startswith(nm + '<') for x in c.meth)


def leaves(P, c, base=0):
    """scalar members which the constructors of class c are responsible for"""
    for n, o, t, sz in c.m:
        t = plain(t)
        if n.startswith('_vptr'):
            continue
        if t in P.C:
            if not hasctor(P.C[t]):
                for x in leaves(P, P.C[t], base + o):
                    yield x
        elif t.endswith('*') or t in SCALAR or t in P.E:
            yield n, base + o, sz
    for b in c.bases:
        if b[0] in P.C and not hasctor(P.C[b[0]]) and not b[2]:
            for x in leaves(P, P.C[b[0]], base + b[1]):
                yield x


def bases(P, c, base=0):
    yield c.n, base
    for b in c.bases:
        if b[0] in P.C and not b[2]:
            for x in bases(P, P.C[b[0]], base + b[1]):
                yield x


def called(P, f):
    me = {f.n, f.n.replace('C2E', 'C1E')}
    return any(c & me for n, c in P.callgraph().items() if n not in me)


def members(cx):
    P = cx.P
    I = Init(P)
    todo = []
    need = set()
    for f in cx.ours():
        if not is_ctor(P, f) or not re.search(r'C[12]E', f.n) or 'C1E' in f.n and f.n.replace('C1E', 'C2E') in P.F:
            continue
        c = P.C[f.cls]
        if not c.file.startswith('lightspeed/'):
            continue
        lv = list(leaves(P, c))
        if not lv:
            continue
        cx.instance('%s (%d members)' % (f.short, len(lv)))
        cx.count('constructors')
        cx.count('scalar members', len(lv))
        s = I.summ(f, 0)
        for nm, o, sz in lv:
            if not all(x in s for x in range(o, o + sz)):
                todo.append((f, nm, o))
                need.add(f.cls)
    # reads which are not preceded by an assignment within the operation
    derived = collections.defaultdict(list)
    for c in P.C.values():
        for n, o in bases(P, c):
            if n in need:
                derived[c.n].append((n, o))
    exposed = collections.defaultdict(list)
    for f in P.F.values():
        if not f.cls or f.cls not in derived or is_ctor(P, f):
            continue

        def visit(i, o, s, callee, f=f):
            if o in s:
                return
            if callee is not None:
                g, j = callee
                if g.cls in P.C and j == 0:
                    return      # a method of the object or of a member: analysed on its own
                if not reads(P, I, g, j):
                    return
            for n, bo in derived[f.cls]:
                exposed[(n, o - bo)].append((f, i[2]))
        I.flow(f, 0, visit)
    for f, nm, o in todo:
        ex = exposed.get((f.cls, o))
        if not ex:
            cx.count('members without a value and never read before being assigned')
            continue
        cn = cname(f.cls)
        if cn + '::' + nm in GUARDED or f.acc in (0, 1) and 'ERKS' in f.n and not called(P, f):
            cx.count('members guarded by another member (exempt)')
            continue
        g, ln = sorted(ex, key=lambda x: (x[0].file, x[1]))[0]
        cx.violation('member:%s::%s' % (strip_targs(f.cls).replace('LightSpeed::', ''), nm),
                     'constructor leaves member %s without a value, %s reads it' % (nm, g.short), f, None,
                     ['%s (%s:%d)' % (x.short, x.file, l) for x, l in ex[:6]])
    cx.floor('constructors', 300)


def reads(P, I, g, j, seen=None):
    """may function g read the memory its argument j points to before writing it"""
    seen = seen if seen is not None else set()
    if (g.n, j) in seen:
        return False
    seen.add((g.n, j))
    hit = []

    def visit(i, o, s, callee):
        if o in s or o != 0:
            return
        if callee is None:
            hit.append(i)
        elif reads(P, I, callee[0], callee[1], seen):
            hit.append(i)
    I.flow(g, j, visit)
    return bool(hit)


UND = S('u', "['u']")


def has(v, d=0):
    if v == UND:
        return True
    return isinstance(v, tuple) and v and v[0] in ('cmp', 'not', 'bin') and d < 6 and any(has(x, d + 1) for x in v[1:])


class Loc(Client):
    maxdepth = 1
    small = 0
    max_steps = 60000
    cap = 40
    exitcap = 40

    def __init__(self):
        self.rep = {}

    def want_inline(self, en, name):
        return False

    def bad(self, fr, i, what):
        if fr.parent is None:
            self.rep.setdefault((i[2], what), (fr.fn, i))

    def branch(self, en, fr, st, i, cv):
        if has(cv):
            self.bad(fr, i, 'decides a branch')

    def cmp(self, en, fr, st, i, pred, a, b):
        if i[1] == 'switch' and has(a):
            self.bad(fr, i, 'decides a branch')

    def load(self, en, fr, st, i, p):
        if p == UND:
            self.bad(fr, i, 'is dereferenced')

    def store(self, en, fr, st, i, v, p):
        if p == UND:
            self.bad(fr, i, 'is dereferenced')

    def root_exit(self, en, fn, kind, ret, st):
        if kind == 'ret' and ret is not None and has(ret):
            self.rep.setdefault((fn.line, 'is returned'), (fn, None))


def candidates(f):
    """may an unassigned value reach a use (flow-insensitive over phis)?"""
    und = lambda v: isinstance(v, list) and v and v[0] == 'u'
    may = set()
    ch = True
    while ch:
        ch = False
        for i in f.instrs():
            if i[0] < 0 or i[0] in may:
                continue
            if i[1] == 'phi':
                ops = [v for v, _ in i[3]]
            elif i[1] in ('cast', 'bin'):
                ops = i[4:6] if i[1] == 'bin' else [i[4]]
            elif i[1] in ('cmp', 'gep'):
                ops = i[4:6] if i[1] == 'cmp' else [i[3]]
            elif i[1] == 'select':
                ops = i[3:6]
            else:
                continue
            if any(und(v) or isinstance(v, int) and v in may for v in ops):
                may.add(i[0])
                ch = True
    return may


def locals_(cx):
    for f in cx.ours():
        cx.count('functions examined for unassigned locals')
        may = candidates(f)
        und = lambda v: isinstance(v, list) and v and v[0] == 'u'
        hit = False
        for i in f.instrs():
            vs = [i[3]] if i[1] in ('br', 'switch', 'ret', 'load') else [i[4]] if i[1] == 'store' else []
            if any(und(v) or isinstance(v, int) and v in may for v in vs if v is not None):
                hit = True
        if not hit:
            continue
        if any(i[1] == 'call' and isinstance(i[3], list) and 'setjmp' in str(i[3][1]) for i in f.instrs()):
            cx.count('functions guarded by a signal handler (exempt)')
            continue
        cx.count('functions with conditionally assigned locals')
        cx.instance('locals of ' + f.short)
        cl = Loc()
        cx.run(cl, f, set())
        for (ln, what), (fn, i) in sorted(cl.rep.items()):
            cx.violation('local:%s' % f.short, 'a local variable without a value %s' % what, fn, ln)


def run(cx):
    cx.rule('every scalar member read by an operation is given a value by every constructor; no unassigned local value is used')
    cx.assumption('code outside of the program fills the memory it gets a pointer to')
    members(cx)
    locals_(cx)
