"""Lock balance.  Every function of the program that acquires or releases a library or platform
lock - directly or through a guard object - is interpreted abstractly over all CFG paths including
every exception edge; the multiset of locks held at each normal and exceptional exit must equal the
one at entry.  Guard classes (constructor acquires / destructor gives back) are derived from the
code and each must be symmetric."""
from .. import core
from ..locks import LockClient, is_dtor, is_ctor, is_impl, lock_effects

def show(cl):
    return ', '.join('%s%+d x%d' % (name(k[0]), k[1], n) for k, n in cl) or 'none'


def name(b):
    if b[0] == 'A':
        return 'argument %d' % b[1]
    if b[0] == 'G':
        return b[1]
    if b[0] == 'L':
        return 'local'
    if b[0] == 'S' and b[1] == 'ld':
        return 'field %s of (%s)' % (b[3], name(b[2]))
    return 'value'


def net(cl):
    return sum(n for k, n in cl)


def run(cx):
    P = cx.P
    c = LockClient(P)
    cx.rule('lockset at every exit == lockset at entry (path-sensitive, exception edges included)')
    cx.rule('guard class: net effect of every constructor on success == - net effect of the destructor; a throwing constructor has no effect')
    lib = {f.n: f for f in cx.ours()}
    eff, res = lock_effects(cx, c, lib)
    nfn = 0
    guards = {}
    for n, effs in sorted(res.items()):
        f = lib[n]
        if f.file.startswith('driver/'):
            # only gives the analyser the bodies of templates and inline functions
            continue
        nfn += 1
        cx.instance('%s: %d distinct exits' % (f.short, len(effs)))
        bad = [(k, cl) for k, cl in effs if cl]
        if is_impl(f):
            continue
        if n in eff:
            guards.setdefault(f.short.rsplit('::', 1)[0] + '@' + (f.cls or ''), []).append(f)
            if is_dtor(f):
                for k, cl in effs:
                    if k == 'unw' and cl:
                        cx.violation('throwing destructor ' + f.short, 'guard destructor can leave by exception with changed lock state', f)
            elif any(k == 'unw' and cl for k, cl in bad):
                cx.violation('ctor unwinds ' + f.short, 'constructor leaves by exception with locks held: ' + show([cl for k, cl in bad if k == 'unw'][0]), f)
            continue
        for k, cl in bad:
            what = 'exception exit' if k == 'unw' else 'return'
            word = 'still held' if net(cl) > 0 else 'released without being held'
            cx.violation('unbalanced %s %s' % (f.short, k), '%s: lock %s on %s: %s' % (f.short, word, what, show(cl)), f)
    # guard symmetry, per class
    for g, fs in sorted(guards.items()):
        cx.count('guard classes')
        ct = {net(cl) for f in fs if is_ctor(f) for k, cl in eff[f.n] if k == 'ret'}
        dt = {net(cl) for f in fs if is_dtor(f) for k, cl in eff[f.n] if k == 'ret'}
        cls = g.split('@')[0]
        if ct and not dt:
            # destructor may be inherited: look for a base guard's destructor through the class hierarchy
            dt = inherited_dtor(P, fs[0], eff, lib)
        if len(ct) > 1 or len(dt) > 1 or (ct and dt and ct != {-x for x in dt}) or (ct and not dt) or (dt and not ct):
            # a destructor-only or constructor-only effect is not a guard
            if not ct and dt and all(x > 0 for x in dt):
                continue
            cx.violation('asymmetric guard ' + cls, 'guard %s: constructors acquire %s, destructor gives back %s' % (cls, sorted(ct), sorted(-x for x in dt)), fs[0])
    cx.stats['functions examined'] = nfn
    cx.floor('functions examined', 60)
    cx.floor('guard classes', 8)
    cx.stats['primitive lock functions'] = len(c.api)
    cx.floor('primitive lock functions', 25)


def inherited_dtor(P, f, eff, lib):
    """net effects of the implicit destructor of f's class via its base classes"""
    c = P.C.get(f.cls) if f.cls else None
    r = set()
    names = []
    if c:
        names = [b[0] if isinstance(b, list) else b for b in c.bases]
    for n, e in eff.items():
        g = lib[n]
        if is_dtor(g) and g.cls in names:
            r |= {sum(x for k, x in cl) for kk, cl in e if kk == 'ret'}
    if not r:
        # the implicit destructor may have been emitted under the class itself
        pass
    return r
