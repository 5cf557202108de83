"""Copies of objects.  Every user written copy or move constructor, assignment and swap takes every member of the other object, from the same member, and
an assignment does not destroy its own content before the last use of the other object, which can be the object itself."""
import re
import subprocess
from ..engine import Client, Engine
from ..locks import is_ctor, is_dtor
from .w01 import norm

FILL = 1 << 70
GIVEN = 1 << 71
DEALLOC = re.compile(r'^_Zd[la]')


def base(v):
    return v[1] if isinstance(v, tuple) and v[0] == 'p' else None


# objects which do not carry their state to copies
BY_DESIGN = {
    'LLMutex': 'a copy is a new lock',
    'LevelLock': 'a copy is a new lock',
    'Semaphore': 'a copy is a new semaphore, waiting threads stay with the original',
    'Mutex::MutexData': 'owner and waiting threads stay with the original',
    'MsgQueue': 'a copy is an empty queue',
    'ParallelExecutor': 'a copy is a new executor with the same limits',
    'PoolAlloc': 'a copy is a new pool',
    'ClusterAlloc': 'a copy is a new allocator of the same size class',
    'AllocMulticluster': 'a copy is a new allocator',
    'ProgInstance': 'a copy refers to the same instance by its name, it does not share the mapping',
    'IOutputControl': 'the dirty flag belongs to the original stream',
    'HttpRequest': 'only the settings are copied, the request in progress stays with the original',
    '_intr::LogFormatter': 'a copy has an own output for its own thread',
    'SharedResource': 'member of a ring, see R01',
    'ConvertReadChain': 'the base class refers to the own source of the copy',
    ('FilePathT', 'pathFileSep'): 'cache',
    ('Exception', 'counter'): 'references to the original are not references to the copy',
    ('Exception', 'whatMsg'): 'cache',
    ('MapReduce::KeyValue', 'rres'): 'cache, computed when the item is inserted',
    ('IniConfigT::Section', 'owner'): 'reference',
    ('IniConfigT::Section', 'parser'): 'scratch object',
}


class K(Client):
    small = 20
    max_steps = 15000
    maxdepth = 5
    lim = {}

    def init(self):
        # members of the other object used, members of this object set, own content destroyed, both known to be different
        return (0, 0, 0, 0)

    def bits(self, off, size):
        b = 0
        for k, (n, o, s, ty) in enumerate(self.m):
            if off < o + s and o < off + size:
                b |= 1 << k
        return b

    def mark(self, fr, st, i, ptr, size, write):
        b = base(ptr)
        if b not in (('A', self.t), ('A', self.o)):
            return
        off = ptr[2]
        if not isinstance(off, int):
            return
        r, w, d, g = st.cl
        bits = self.bits(off, size)
        if b == ('A', self.o):
            if bits and d and not g:
                self.late.setdefault(d, (fr.fn, i[2]))
            r |= bits
            if write:
                w |= bits << 32
        else:
            r |= bits << 32
            if write:
                w |= bits
        st.cl = (r, w, d, g)

    def load(self, en, fr, st, i, ptr):
        self.mark(fr, st, i, ptr, 1, i[1] != 'load')

    def store(self, en, fr, st, i, val, ptr):
        self.mark(fr, st, i, ptr, 1, True)
        if base(val) == ('A', self.t) and val[2] == 0 and base(ptr) not in (('A', self.t), ('A', self.o)):
            # filled through an object which refers to it
            st.cl = (st.cl[0] | FILL,) + st.cl[1:]

    def memcopy(self, en, fr, st, i, d, s, sz):
        n = sz if isinstance(sz, int) else 1 << 30
        self.mark(fr, st, i, s, n, False)
        self.mark(fr, st, i, d, n, True)

    def cmp(self, en, fr, st, i, pred, a, b):
        if {base(a), base(b)} == {('A', self.t), ('A', self.o)} and pred in ('eq', 'ne'):
            st.cl = st.cl[:3] + ((a, b),)

    def call(self, en, fr, st, i, names, args):
        if any(DEALLOC.match(n) for n in names or []) and args:
            self.destroys(fr, st, i, args[0])
        self.args = [base(a) for a in args]
        for a in args:
            if base(a) == ('A', self.t) and isinstance(a[2], int) and ('p', ('A', self.o), a[2]) in args:
                # the two members meet: one is assigned from, built from or compared with the other
                n = self.reach(names, args.index(a)) if a[2] == 0 else 1
                if n < self.size:
                    st.cl = (st.cl[0] | self.bits(a[2], n) << 96,) + st.cl[1:]
        o = ('p', ('A', self.o), 0)
        if o in args[1:] and any(n in self.P.F and self.P.F[n].cls == self.f.cls and is_ctor(self.P.F[n]) for n in names or []):
            # a whole copy, examined on its own
            self.mark(fr, st, i, o, self.size, False)
        return None

    def want_inline(self, en, name):
        f = self.P.F.get(name)
        if f is None or f.n == self.f.n:
            return None
        if ('A', self.t) in self.args and ('A', self.o) in self.args:
            return f.ninstr() < 150 and not loops(f)
        return None if not loops(f) else False

    def destroys(self, fr, st, i, v):
        b = base(v)
        d = 0
        while b is not None and d < 12:
            if b == ('A', self.t) or b[:2] == ('S', 'ld') and b[2] == ('A', self.t) and b[4] is None:
                if not st.cl[2]:
                    st.cl = st.cl[:2] + (1,) + st.cl[3:]
                return
            b = b[2] if b[:2] in (('S', 'ld'), ('S', 'ix')) else None
            d += 1

    def opaque(self, en, fr, st, i, names, args):
        P = self.P
        t, o2 = self.t, self.o
        size = self.size
        self.lim = {}
        for k, a in enumerate(args):
            if base(a) in (('A', t), ('A', o2)):
                # the callee works on the member which starts here, or on the whole object
                n = 1
                if a[2] == 0:
                    n = self.reach(names, k)
                self.lim[(base(a), a[2])] = n
                self.mark(fr, st, i, a, n, True)
                if base(a) == ('A', t) and n >= size > 0 and len(args) > 1 and not any(base(x) == ('A', o2) for x in args):
                    # filled item by item
                    st.cl = (st.cl[0] | FILL,) + st.cl[1:]
        if {('A', t), ('A', o2)} <= {base(a) for a in args}:
            st.cl = (st.cl[0] | GIVEN,) + st.cl[1:]
        if names and args and any(n in self.P.F and (n in self.frees or is_dtor(self.P.F[n])) for n in names):
            if len(args) == 1 or base(args[0]) == ('A', t) and not any(base(a) == ('A', o2) for a in args):
                self.destroys(fr, st, i, args[0])

    def havoc_size(self, b, off):
        if b not in (('A', self.t), ('A', self.o)):
            return None
        n = self.lim.get((b, off))
        if n is None or n >= self.size:
            return None
        for _, o, s, ty in self.m:
            if o <= off < o + s:
                return min(o + s - off, 512)
        return None

    def reach(self, names, k):
        for n in names or []:
            f = self.P.F.get(n)
            if f is None:
                continue
            if k == (1 if f.sret else 0) and f.cls and f.cls in self.P.C:
                return max(1, self.P.C[f.cls].size)
        return 1 << 30

    def root_exit(self, en, fr, kind, ret, st):
        if kind == 'ret':
            self.res.append((en, st))


LOOPS = {}


def loops(f):
    if f.n not in LOOPS:
        LOOPS[f.n] = any(t <= k for k in range(len(f.b)) for t in f.succs(k))
    return LOOPS[f.n]


def initial(v, t, o2):
    return isinstance(v, tuple) and v[0] == 'p' and v[2] == 0 and v[1][:2] == ('S', 'ld') and v[1][2] in (('A', t), ('A', o2)) and v[1][4] is None


def members(P, c, off=0, out=None, depth=0):
    out = [] if out is None else out
    C = P.C.get(c)
    if C is None or depth > 8:
        return out
    for b in C.bases:
        bn, bo = (b[0], b[1]) if isinstance(b, (list, tuple)) else (b, 0)
        if isinstance(bo, int) and norm(bn) != 'SharedResource':
            members(P, bn, off + bo, out, depth + 1)
    for n, o, ty, size in C.m:
        if isinstance(o, int) and size:
            t = re.sub(r'^(const |volatile )+', '', ty or '')
            if n.startswith('_vptr') or size <= 1 and t not in ('bool', 'char', 'signed char', 'unsigned char') and not (t in P.C and (P.C[t].m or P.C[t].bases)):
                continue
            out.append((n, off + o, size, t))
    return out


def kinds(P, fs):
    dm = subprocess.run(['c++filt'], input='\n'.join(f.n.split('@@')[0] for f in fs), capture_output=True, text=True).stdout.splitlines()
    for f, d in zip(fs, dm):
        m = re.search(r'\((.*)\)( const)?$', d)
        if not m:
            continue
        c = f.cls
        par = m.group(1).replace('LightSpeed::' + c, c)
        moved = re.sub(r'^(LightSpeed::)?MoveConstruct(_t)?( const&)?, ', '', par)
        if moved != par and moved == c + '&' and is_ctor(f):
            yield f, 'move construction'
            continue
        if par not in (c + ' const&', c + '&&', c + '&'):
            continue
        if is_ctor(f):
            yield f, 'move' if par.endswith('&&') else 'copy'
        elif f.sn == 'operator=':
            yield f, 'assignment'
        elif f.sn == 'swap':
            yield f, 'swap'


def run(cx):
    P = cx.P
    fs = sorted([f for f in cx.ours() if f.cls and not f.art], key=lambda f: f.n)
    frees = set()
    rev = {}
    for n, outs in P.callgraph().items():
        for o in outs:
            rev.setdefault(o, set()).add(n)
    q = [n for n in set(rev) if DEALLOC.match(n)]
    while q:
        n = q.pop()
        for x in rev.get(n, ()):
            if x not in frees and x in P.F:
                frees.add(x)
                q.append(x)
    cx.rule('every member is taken from the same member of the other object, on every path which takes it on one path; swap in both directions; a move does not leave an owned pointer behind')
    cx.rule('an assignment does not destroy its content before its last use of the other object, unless it has compared the two addresses')
    for k in sorted(BY_DESIGN, key=str):
        cx.assumption('%s is not copied: %s' % (k if isinstance(k, str) else '::'.join(k), BY_DESIGN[k]))
    dtors = {f.cls for f in fs if is_dtor(f)}
    for f, kind in kinds(P, fs):
        if norm(f.cls) in BY_DESIGN:
            continue
        m = [x for x in members(P, f.cls) if (norm(f.cls), x[0]) not in BY_DESIGN]
        if not m or len(m) > 30:
            continue
        h = K()
        h.t = 1 if f.sret else 0
        h.o = h.t + (2 if kind == 'move construction' else 1)
        h.P, h.f, h.m, h.res, h.late, h.frees, h.size = P, f, m, [], {}, frees, P.C[f.cls].size
        if cx.run(h, f, {f.n}, None, [('p', ('A', h.t), 0), ('p', ('A', h.o), 0)]) is None:
            continue
        cx.instance('%s (%s)' % (f.short, kind))
        cx.count(kind + ' functions')
        nm = norm(f.cls)
        t, o2 = h.t, h.o
        R = W = 0
        owns = kind.startswith('move') and f.cls in dtors
        for en, st in h.res:
            r, w, d, g = st.cl
            if g and en.known(st, 'eq', *g) is True:
                continue
            R |= r
            W |= w
            for k, (n, o, s, ty) in enumerate(m):
                v = st.mem.get((('A', t), o))
                if owns and ty.endswith('*') and v == ('p', ('S', 'ld', ('A', o2), o, None), 0) and en.known(st, 'eq', v, 0) is not True:
                    if st.mem.get((('A', o2), o), v) == v:
                        cx.violation('%s:%s:%s:left' % (nm, kind, n), 'the %s of %s leaves the member %s in the other object, both will release it' % (kind, f.cls, n), f, f.line)
                if isinstance(v, tuple) and v[0] == 'p' and v[1][:3] == ('S', 'ld', ('A', o2)) and v[1][3] != o and v[2] == 0:
                    cx.violation('%s:%s:%s' % (nm, kind, n), 'the %s of %s takes the member %s from another member' % (kind, f.cls, n), f, f.line)
        # a member which takes the value of the other object on one path takes it on all of them
        paths = [(en, st) for en, st in h.res if not (st.cl[3] and en.known(st, 'eq', *st.cl[3]) is True)]
        met = [st.cl[0] >> 96 for en, st in paths]
        for k, (n, o, s, ty) in enumerate(m):
            if any(x >> k & 1 for x in met) and not all(x >> k & 1 for x in met) and ty in P.C:
                cx.violation('%s:%s:%s' % (nm, kind, n), 'the %s of %s does not always give the member %s the value of the other object' % (kind, f.cls, n), f, f.line)
        for x, y in ((t, o2), (o2, t)) if kind == 'swap' else ((t, o2),):
            for n, o, s, ty in m:
                want = ('p', ('S', 'ld', ('A', y), o, None), 0)
                if '[' in ty:
                    continue
                got = [(en, st, st.mem.get((('A', x), o), None if ('HV', ('A', x)) in st.mem and st.cl[0] & (FILL | GIVEN) else ('p', ('S', 'ld', ('A', x), o, None), 0))) for en, st in paths]
                if any(v == want for en, st, v in got):
                    cx.count('members transferred exactly')
                    for en, st, v in got:
                        if v != want and en.known(st, 'eq', v, want) is not True and (isinstance(v, int) or initial(v, t, o2)):
                            cx.violation('%s:%s:%s' % (nm, kind, n), 'the %s of %s does not always give the member %s the value of the other object' % (kind, f.cls, n), f, f.line)
                elif kind == 'swap' and any(initial(v, t, o2) and v != ('p', ('S', 'ld', ('A', x), o, None), 0) for en, st, v in got):
                    cx.violation('%s:%s:%s' % (nm, kind, n), 'the swap of %s gives the member %s a wrong value' % (f.cls, n), f, f.line)
        for k, (n, o, s, ty) in enumerate(m):
            b = 1 << k
            # a linked structure can be copied through any of its ends
            if ty.endswith('*') and kind != 'swap' and W & b and R & sum(1 << j for j, x in enumerate(m) if x[3].endswith('*')):
                R |= b
            if R & FILL and R & (FILL - 1):
                continue
            if not (W & b and R & b):
                cx.violation('%s:%s:%s' % (nm, kind, n), 'the %s of %s does not take the member %s of the other object' % (kind, f.cls, n), f, f.line)
            elif kind == 'swap' and not (W & (b << 32) and R & (b << 32)):
                cx.violation('%s:%s:%s' % (nm, kind, n), 'the swap of %s does not give its member %s to the other object' % (f.cls, n), f, f.line)
        if kind == 'assignment':
            for d, (fn, line) in h.late.items():
                cx.violation('%s:self' % nm, 'the assignment of %s uses the other object after it has destroyed its own content, which is the same one in a self-assignment' % f.cls, fn, line)
    cx.floor('copy functions', 20)
    cx.floor('assignment functions', 15)
    cx.floor('swap functions', 15)
