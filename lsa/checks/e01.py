"""Exceptions keep their identity. For every exception class that exists in the program (vtable of a concrete class derived from the library's
root exception) the re-throw and clone operations its objects really dispatch to are analysed: re-throwing must raise exactly
this class, cloning must create an object of exactly this class. A caught exception is never thrown again as a copy of a base class."""
import re
from ..engine import Client
from ..locks import is_ctor

ROOT = '_ZTIN10LightSpeed9ExceptionE'
ICLONE = '_ZTIN10LightSpeed10ICloneableE'


class Res(Client):
    """result of clone(): which vtable does the returned object carry; what is thrown by throwAgain()"""
    small = 60
    maxdepth = 8
    max_steps = 60000

    def __init__(self, P):
        self.P = P
        self.out = []
        self.first = None

    def init(self):
        return ()

    def call(self, en, fr, st, i, names, args):
        n = names[0] if names else ''
        if n in ('_Znwm', '_Znam') and self.first is None:
            self.first = args[0]
        return None

    def store(self, en, fr, st, i, val, ptr):
        # the most derived constructor stores the vtable pointers last
        if isinstance(val, tuple) and val[0] == 'p' and val[1][0] == 'G' and val[1][1].startswith('_ZTV') and isinstance(ptr, tuple) and ptr[0] == 'p':
            st.cl = tuple([x for x in st.cl if x[0] != ptr[1]] + [(ptr[1], val[1][1])])[-6:]

    def syms(self, cl):
        return [x[0] for x in cl]

    def root_exit(self, en, fr, kind, ret, st):
        self.out.append((kind, ret, st))


class Handlers(Client):
    small = 0
    maxdepth = 2
    max_steps = 60000

    def __init__(self, P):
        self.P = P
        self.slices = []

    def init(self):
        return ()

    def call(self, en, fr, st, i, names, args):
        for n in names:
            f = self.P.F.get(n)
            if f is not None and is_ctor(f) and len(args) >= 2 and isinstance(args[0], tuple) and isinstance(args[1], tuple) \
                    and args[0][0] == 'p' and args[1][0] == 'p' and args[0][1] == ('S', 'exc', 'new') \
                    and args[1][1][0:2] == ('S', 'exc') and args[1][1] != ('S', 'exc', 'new'):
                self.slices.append((fr.fn, i, f))
        return None


def vt_entries(g):
    r = []

    def walk(c):
        if c[0] == 'l':
            for x in c[1]:
                walk(x)
        elif c[0] == 'g':
            r.append(c[1])
    walk(g['init'])
    return r


def unthunk(n):
    return re.sub(r'^_ZT(hn?\d+_|v\d+_n\d+_|vn?\d+_n?\d+_)', '_Z', n) if n.startswith('_ZT') and not n.startswith(('_ZTI', '_ZTV')) else n


def run(cx):
    P = cx.P
    cx.rule('for every concrete class E derived from the root exception: throwAgain() raises exactly E on every path and never returns; clone() creates an object whose class is E (or a wrapper derived from E)')
    cx.rule('throwing a copy of a caught exception is allowed only for classes without subclasses')
    concrete = {}
    for n, g in sorted(P.G.items()):
        if not n.startswith('_ZTV') or 'init' not in g:
            continue
        ti = '_ZTI' + n[4:]
        if ROOT not in P.ti_bases(ti):
            continue
        ent = vt_entries(g)
        if '__cxa_pure_virtual' in ent:
            continue
        concrete[ti] = ent
    derived = {}
    for ti in concrete:
        for b in P.ti_bases(ti):
            if b != ti:
                derived.setdefault(b, set()).add(ti)
    for ti, ent in sorted(concrete.items()):
        if 'ClonedObject' in ti:
            continue
        name = P.G.get('_ZTV' + ti[4:])['d'].replace('vtable for ', '').replace('LightSpeed::', '') if '_ZTV' + ti[4:] in P.G else ti
        meth = {}
        for e in ent:
            b = P.alias.get(unthunk(e), unthunk(e))
            if b.endswith('10throwAgainEv'):
                meth.setdefault('throwAgain', []).append(b)
            elif re.search(r'5cloneE(v|RNS_13IRuntimeAllocE|RN10LightSpeed13IRuntimeAllocE)$', b):
                meth.setdefault('clone', []).append(b)
        cx.count('concrete exception classes')
        cx.instance(name)
        if 'throwAgain' not in meth or 'clone' not in meth:
            cx.count('classes without library re-throw')
            continue
        for m in sorted(set(meth['throwAgain'])):
            f = P.F.get(m)
            if f is None:
                cx.count('operations not compiled here')
                continue
            c = Res(P)
            if cx.run(c, f, set()) is None:
                continue
            cx.count('re-throw operations')
            th = {st.exc for kind, ret, st in c.out if kind == 'unw' and st.exc is not None}
            wrong = {x for x in th if x != ti}
            if wrong:
                cx.violation('rethrow:' + name, 're-throwing %s raises %s instead' % (name, ', '.join(sorted(w[4:] for w in wrong))), f)
            elif not th:
                cx.violation('nothrow:' + name, 're-throwing %s raises nothing' % name, f)
            if any(kind == 'ret' for kind, ret, st in c.out):
                cx.violation('returns:' + name, 're-throwing %s can return to the caller' % name, f)
        for m in sorted(set(meth['clone'])):
            f = P.F.get(m)
            if f is None:
                cx.count('operations not compiled here')
                continue
            c = Res(P)
            if cx.run(c, f, set()) is None:
                continue
            cx.count('clone operations')
            good = 0
            for kind, ret, st in c.out:
                if kind != 'ret':
                    continue
                vt = None
                if isinstance(ret, tuple) and ret[0] == 'p':
                    v = dict(st.cl).get(ret[1])
                    if v:
                        vt = '_ZTI' + v[4:]
                if vt is None:
                    cx.count('clone results of unknown class')
                    continue
                good += 1
                if vt != ti and not ('ClonedObject' in vt and ti in P.ti_bases(vt)):
                    cx.violation('clone:' + name, 'cloning %s creates %s' % (name, vt[4:]), f)
                elif 'ClonedObject' in vt:
                    # wrapper of exactly this class
                    other = [x for x in P.ti_bases(vt) if x in concrete and x not in (vt, ti) and ti in P.ti_bases(x)]
                    if other:
                        cx.violation('clone:' + name, 'cloning %s creates %s' % (name, other[0][4:]), f)
            if good:
                cx.count('clone results verified')
    # handlers
    h = Handlers(P)
    rethrowers = []
    for f in cx.ours(True):
        ns = set()
        for i in f.instrs():
            if i[1] == 'call':
                ns |= set(P.callees(f, i)[0])
        if '__cxa_begin_catch' in ns and '__cxa_throw' in ns or '__cxa_rethrow' in ns:
            rethrowers.append(f)
    for f in rethrowers:
        if cx.run(h, f, set()) is not None:
            cx.count('functions with handlers examined')
    for fn, i, ctor in h.slices:
        cls = '_ZTIN10LightSpeed' + ''
        # class of the copied object: the one thrown
        tis = [j[4][1][1] for j in fn.instrs() if j[1] == 'call' and '__cxa_throw' in P.callees(fn, j)[0] and isinstance(j[4][1], list) and j[4][1][0] == 'g']
        for t in tis:
            if ctor.short.split('::')[-1] in t and derived.get(t, set()):
                cx.violation('slice:%s' % fn.short, 'a caught exception is thrown again as a copy of its base class', fn, i[2])
    cx.floor('concrete exception classes', 40)
    cx.floor('re-throw operations', 40)
