"""Read-only operations have no effect on the object.  Bottom-up modification effects (which bytes of the objects its parameters refer to may a function write,
directly or anywhere below it, through virtual calls and local helper objects as well) are computed for the whole program; every const operation of a value class and every
parameter declared as reference or pointer to a constant value object must have an empty effect on that object."""
import re
from ..effects import Effects
from ..ir import strip_targs

# files which declare the value classes
SCOPE = ('base/containers/', 'utils/json/', 'utils/FilePath.h', 'base/exceptions/', 'base/datetime', 'base/memory/', 'base/text/', 'utils/', 'base/types', 'base/meta')
# single-owner cursors and workers: reading moves their position
CURSOR = re.compile(r'Iterator|Iter\b|Functor|Converter|Convert|Filter|Generator|TextIn|TextLine|Parser|Stream|OutBuff|IOBuffer|Buffer$|Enum$|Section$|LZW|Visitor|Loader|Filler|EventLog|Dispatcher|Executor')
# counting references, linking of shared resources and the library's locks are not a modification of the value; destruction is not reading
NEUTRAL = re.compile(r'RefCntObj|14SharedResource|8FastLock|SynchronizedI|LLMutex|5MutexC|9SharedPtr|MTCounter|D[012]Ev$|7addRef|10addRefPtr|releasePtr|8ICounter')
EXEMPT = {
    ('Exception', 'whatMsg'): 'cached text, replaced only under the lock of what()',
    ('Exception', None): 'operator<< sets the reason of an exception under construction (documented)',
    ('DynObjectAllocHelper', 'sz'): 'result parameter of a placement allocation',
    ('Future', 'future'): 'a nil future creates its state on first use',
    ('Future', None): 'a nil future creates its state on first use',
}
# operations which are documented to change the representation
FUNCS = ('isolate', 'manualRelease', 'manualAddRef', 'initProxy', 'copy', 'operator<<')
# share the value they have received (it stays unchanged, a tree of the receiver refers to it)
SHARES = ('JSON::Container::load',)


def member(P, cl, off):
    c = P.C.get(cl)
    if c is None or off is None:
        return None
    for m in c.m:
        if m[1] <= off < m[1] + max(m[3], 1):
            return m[0]
    for b in c.bases:
        if b[0] in P.C and b[1] <= off < b[1] + max(P.C[b[0]].size, 1):
            return member(P, b[0], off - b[1])
    return str(off)


def bases(P, cl, seen=None):
    r = [cl]
    c = P.C.get(cl)
    if c:
        for b in c.bases:
            r += bases(P, b[0])
    return r


def leafname(cl):
    return strip_targs(cl).replace('LightSpeed::', '')


def run(cx):
    P = cx.P
    E = Effects(P, skip=lambda n: bool(NEUTRAL.search(n)))
    cx.count('functions summarised', len(E.S))
    cx.rule('a const operation of a value class, or a parameter passed as constant value, is not modified')
    classes = set()
    for f in sorted(P.F.values(), key=lambda f: f.n):
        if not f.file.startswith('lightspeed/') or not f.cst:
            continue
        for k, const, cl in f.cst:
            if not const or not cl.startswith('LightSpeed') or cl not in P.C:
                continue
            fl = P.C[cl].file
            if not any(fl.startswith('lightspeed/' + s) for s in SCOPE):
                continue
            nm = leafname(cl)
            if CURSOR.search(nm):
                continue
            if NEUTRAL.search(f.n) or f.short.startswith(SHARES) or strip(f.sn) in FUNCS:
                cx.count('exempt operations')
                continue
            classes.add(nm)
            cx.count('parameters and receivers')
            bad = {}
            for (a, l, off, kind), w in E.S[f.n].w.items():
                if a == k and l == 0 and kind == 'w':
                    m = member(P, cl, off)
                    if any((leafname(b), m) in EXEMPT for b in bases(P, cl)):
                        cx.count('exempt members')
                        continue
                    bad[m] = w
            if not bad:
                continue
            for m, (fn, ln, cal) in bad.items():
                tr = path(E, f.n, k, P)
                g = tr[-1][0]
                if any(strip(P.F[x[0]].sn) in FUNCS for x in tr):
                    cx.count('exempt operations')
                    continue
                cx.violation('%s.%s in %s' % (nm, m, strip_targs(f.short)),
                             '%s modifies %s of the %s it has received as constant' % (f.short, 'member ' + m if m else 'a part', nm),
                             P.F[g], tr[-1][1], ['%s (%s:%d)' % (P.F[x].short, P.F[x].file, l) for x, l in tr])
    for c in sorted(classes):
        cx.instance('class ' + c)
    cx.stats['classes'] = len(classes)
    cx.floor('classes', 60)
    cx.floor('parameters and receivers', 800)
    cx.assumption('functions called through plain function pointers have no effect on the objects of the caller')


def path(E, n, k, P):
    """call chain from n to the store that modifies parameter k"""
    r, seen = [], set()
    while n is not None and (n, k) not in seen and len(r) < 12:
        seen.add((n, k))
        w = [(x, y) for x, y in E.S[n].w.items() if x[0] == k and x[1] == 0 and x[3] == 'w'] or \
            [(x, y) for x, y in E.S[n].w.items() if x[3] == 'w']
        if not w:
            break
        (x, (fn, ln, cal)) = sorted(w, key=lambda e: (e[1][2] is not None, e[0][2] is None, e[1][1]))[0]
        r.append((n, ln))
        if cal is None or cal not in E.S:
            break
        n, k = cal, 0
    return r


def strip(sn):
    return 'operator<<' if sn.startswith('operator<<') else sn.split('<')[0]
