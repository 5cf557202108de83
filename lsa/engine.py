"""Disjunctive abstract interpreter with virtual inlining.

One run = one root function.  Every CFG path, including every exception edge,
is covered; abstract states are merged per block when their number exceeds a
cap, so the exploration always terminates.  There is no solver: branch
conditions are only decided from constants, null-ness and interval facts.

Values: int | ('p', base, off) | ('cmp',pred,a,b) | ('bin',op,a,b) | ('not',v)
        | ('pair',a,b) | ('sel',ti) | ('tid',ti) | ('lp',)
Bases:  ('A',i) | ('L',ctx,id) | ('G',name) | ('S',kind,...)
"""
import sys
sys.setrecursionlimit(20000)

NINF = -(1 << 70)
PINF = 1 << 70


class Budget(Exception):
    pass


class St(object):
    __slots__ = ('mem', 'cons', 'cl', 'exc', 'caught')

    def __init__(self, mem, cons, cl, exc=None, caught=()):
        self.mem = mem
        self.cons = cons
        self.cl = cl
        self.exc = exc
        self.caught = caught

    def copy(self):
        return St(dict(self.mem), dict(self.cons), self.cl, self.exc, self.caught)

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.cons.items()), self.cl, self.exc, self.caught)


def S(*k):
    return ('p', ('S',) + k, 0)


def ormask(v):
    """bits certainly set in an abstract integer"""
    if isinstance(v, int):
        return v if v > 0 else 0
    if isinstance(v, tuple) and v and v[0] == 'bin' and v[1] == 'or' and isinstance(v[3], int):
        return v[3]
    return 0


def is_local(base):
    return base[0] == 'L'


def depth_of(base):
    d = 0
    while base[0] == 'S' and base[1] == 'ld':
        base = base[2]
        d += 1
    return d


PRED_NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
            'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
PRED_SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
             'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


def u64(x):
    return x & ((1 << 64) - 1)


def evalc(pred, a, b):
    if pred == 'eq': return a == b
    if pred == 'ne': return a != b
    if pred == 'slt': return a < b
    if pred == 'sle': return a <= b
    if pred == 'sgt': return a > b
    if pred == 'sge': return a >= b
    a = u64(a); b = u64(b)
    if pred == 'ult': return a < b
    if pred == 'ule': return a <= b
    if pred == 'ugt': return a > b
    if pred == 'uge': return a >= b
    return None


class Client(object):
    """Override what you need."""
    oom = False            # does operator new throw?
    small = 40             # inline irrelevant functions up to this many instrs
    maxdepth = 14
    cap = 6
    capx = 1               # blocks which are not the head of a loop may be visited that many times more
    exitcap = 8
    max_steps = 400000
    wantgep = False

    def gep(self, en, fr, st, i, p):
        pass

    def cmp(self, en, fr, st, i, pred, a, b):
        pass

    def branch(self, en, fr, st, i, cond):
        pass

    def init(self):
        return frozenset()

    def call(self, en, fr, st, i, names, args):
        """return None (default handling) or list of (kind, ret, st)"""
        return None

    def want_inline(self, en, name):
        return None

    def load(self, en, fr, st, i, ptr):
        pass

    def store(self, en, fr, st, i, val, ptr):
        pass

    def frame_exit(self, en, fr, kind, ret, st):
        pass

    def frame_post(self, en, fr, outs):
        return outs

    def root_exit(self, en, fn, kind, ret, st):
        pass

    def syms(self, cl):
        return ()

    def havoc_size(self, base, off):
        """how much of an object a callee can change, None: everything"""
        return None

    def memcopy(self, en, fr, st, i, dst, src, size):
        pass

    def havoced(self, st, base, site):
        """values loaded from base are renewed: symbols ('ld', base, _, site) may repeat"""

    def leaving(self, en, fr, st):
        """a path reaches the end of a frame, before it is merged with others"""

    def rebound(self, st, base):
        """a loop gives a new value to the variable the symbol stands for"""

    def opaque(self, en, fr, st, i, names, args):
        pass


class Frame(object):
    __slots__ = ('fn', 'ctx', 'args', 'parent', 'site', 'depth')

    def __init__(self, fn, ctx, args, parent, site):
        self.fn = fn
        self.ctx = ctx
        self.args = args
        self.parent = parent
        self.site = site
        self.depth = 0 if parent is None else parent.depth + 1

    def chain(self, i=None):
        r = []
        f = self
        ln = i[2] if i else 0
        while f is not None:
            r.append('%s (%s:%d)' % (f.fn.short, f.fn.file, ln or f.fn.line))
            ln = f.site[2] if f.site else 0
            f = f.parent
        return r


class Engine(object):
    def __init__(self, prog, client, relevant=None):
        self.P = prog
        self.c = client
        self.rel = relevant if relevant is not None else set()
        self.mt = prog.compute_maythrow(client.oom)
        self.nr = prog.never_returns()
        self.steps = 0
        self.max_steps = client.max_steps
        self.inlined = set()
        self.ctxid = {}
        self.truncated = 0

    # -- value helpers ---------------------------------------------------------
    def val(self, fr, env, v):
        if isinstance(v, int):
            return env.get(v, ('p', ('S', 'dead', fr.ctx, v), 0))
        k = v[0]
        if k == 'a':
            return fr.args[v[1]] if v[1] < len(fr.args) else S('u')
        if k == 'c':
            return v[1]
        if k == 'g':
            return ('p', ('G', self.P.alias.get(v[1], v[1])), v[2])
        if k == 'e' and v[1] in ('ptrtoint', 'inttoptr', 'bitcast') and len(v) > 2:
            return self.val(fr, env, v[2])
        if k == 'm':
            return ('m', v[1])
        return S('u', str(v)[:40])

    def cons_of(self, st, base):
        return st.cons.get(base, (NINF, PINF, ()))

    def itv(self, st, v):
        if isinstance(v, int):
            return (v, v, ())
        if isinstance(v, tuple) and v[0] == 'p':
            b, off = v[1], v[2]
            if b[0] in ('L', 'G') or (b[0] == 'S' and b[1] == 'new'):
                return (NINF, PINF, (0,))
            lo, hi, ne = self.cons_of(st, b)
            if off == 0:
                return (lo, hi, ne)
            if off > 0 and lo >= 0:
                return (lo + off, PINF, ())
            return (NINF, PINF, (0,))
        return (NINF, PINF, ())

    def known(self, st, pred, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return evalc(pred, a, b)
        if isinstance(a, int):
            return self.known(st, PRED_SWAP.get(pred, pred), b, a) if pred in PRED_SWAP else None
        if isinstance(a, tuple) and a == b and a[0] == 'p':
            if pred in ('eq', 'sle', 'sge', 'ule', 'uge'): return True
            if pred in ('ne', 'slt', 'sgt', 'ult', 'ugt'): return False
        if isinstance(b, int):
            if isinstance(a, tuple) and a[0] == 'p':
                base, off = a[1], a[2]
                if base[0] in ('L', 'G') or (base[0] == 'S' and base[1] == 'new') or off != 0:
                    if base[0] in ('L', 'G') or (base[0] == 'S' and base[1] == 'new') or b == 0:
                        if pred == 'eq': return False
                        if pred == 'ne': return True
                        if pred == 'ugt' and b == 0: return True
                    return None
                if b == 0 and pred in ('eq', 'ne') and base[:2] == ('S', 'ix') and len(base) > 4 and self.known(st, 'ne', ('p', base[2], 0), 0) is True:
                    # inside of an object that exists
                    return pred == 'ne'
                lo, hi, ne = self.cons_of(st, base)
                if pred == 'eq':
                    if lo == hi == b: return True
                    if b < lo or b > hi or b in ne: return False
                elif pred == 'ne':
                    if lo == hi == b: return False
                    if b < lo or b > hi or b in ne: return True
                elif pred == 'slt':
                    if hi < b: return True
                    if lo >= b: return False
                elif pred == 'sge':
                    if lo >= b: return True
                    if hi < b: return False
                elif pred == 'sgt':
                    if lo > b: return True
                    if hi <= b: return False
                elif pred == 'sle':
                    if hi <= b: return True
                    if lo > b: return False
                elif pred in ('ult', 'ule', 'ugt', 'uge'):
                    if lo >= 0 and hi < PINF and b >= 0:
                        return {'ult': True if hi < b else False if lo >= b else None,
                                'ule': True if hi <= b else False if lo > b else None,
                                'ugt': True if lo > b else False if hi <= b else None,
                                'uge': True if lo >= b else False if hi < b else None}[pred]
                    if lo == hi:
                        return evalc(pred, lo, b)
                    if b == 0:
                        if pred == 'ult': return False
                        if pred == 'uge': return True
                        if pred == 'ugt' and (0 in ne): return True
            if isinstance(a, tuple) and a[0] == 'tid' or isinstance(a, tuple) and a[0] == 'sel':
                return None
            if isinstance(a, tuple) and a[0] in ('cmp', 'not'):
                t = self.truth(st, a)
                if t is not None:
                    return evalc(pred, int(t), b)
                # value is 0/1
                if pred == 'eq' and b not in (0, 1): return False
                if pred == 'ne' and b not in (0, 1): return True
            if isinstance(a, tuple) and a[0] == 'bin' and pred in ('eq', 'ne'):
                if a[1] in ('add', 'sub') and isinstance(a[3], int):
                    # x + c == b
                    return self.known(st, pred, a[2], b - a[3] if a[1] == 'add' else b + a[3])
                if b == 0 and a[1] == 'and':
                    return None
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] in ('sel', 'tid') and b[0] in ('sel', 'tid'):
                r = a[1] == b[1]
                return r if pred == 'eq' else (not r) if pred == 'ne' else None
            if a[0] == 'p' and b[0] == 'p':
                # a symbol with a singleton value
                for x, y, p in ((a, b, pred), (b, a, PRED_SWAP.get(pred))):
                    if p and y[2] == 0:
                        c = st.cons.get(y[1])
                        if c and c[0] == c[1]:
                            return self.known(st, p, x, c[0])
                if a[1] == b[1]:
                    return evalc(pred, a[2], b[2]) if pred in PRED_SWAP else None
                la = a[1][0] == 'L' or (a[1][0] == 'S' and a[1][1] == 'new') or a[1][0] == 'G'
                lb = b[1][0] == 'L' or (b[1][0] == 'S' and b[1][1] == 'new') or b[1][0] == 'G'
                # a variable of this call is not what an argument of the root points to
                if la and lb or {a[1][0], b[1][0]} == {'L', 'A'}:
                    if pred == 'eq': return False
                    if pred == 'ne': return True
            r = st.cons.get(('rel', pred, a, b))
            if r is not None:
                return r
            r = st.cons.get(('rel', PRED_NEG.get(pred), a, b))
            if r is not None:
                return not r
            sp = PRED_SWAP.get(pred)
            r = st.cons.get(('rel', sp, b, a))
            if r is not None:
                return r
            r = st.cons.get(('rel', PRED_NEG.get(sp), b, a))
            if r is not None:
                return not r
        return None

    def truth(self, st, v):
        if isinstance(v, int):
            return (v & 1) != 0 if v in (-1, 0, 1) else v != 0
        if v[0] == 'cmp':
            return self.known(st, v[1], v[2], v[3])
        if v[0] == 'not':
            t = self.truth(st, v[1])
            return None if t is None else not t
        if v[0] == 'p':
            return self.known(st, 'ne', v, 0)
        if v[0] == 'bin':
            if v[1] == 'and':
                a, b = self.truth(st, v[2]) if self._boolish(v[2]) else None, self.truth(st, v[3]) if self._boolish(v[3]) else None
                if a is False or b is False: return False
                if a and b: return True
                return None
            if v[1] == 'or':
                a, b = self.truth(st, v[2]), self.truth(st, v[3])
                if a or b: return True
                if a is False and b is False: return False
            r = st.cons.get(('tv', v))
            return r
        return None

    def _boolish(self, v):
        return isinstance(v, tuple) and v[0] in ('cmp', 'not') or v in (0, 1, -1) or (isinstance(v, tuple) and v[0] == 'bin' and self._boolish(v[2]) and self._boolish(v[3]))

    def refine(self, st, v, want):
        """return refined state copy, or None if contradictory"""
        t = self.truth(st, v)
        if t is not None:
            return st if t == want else None
        st = st.copy()
        return self._assume(st, v, want)

    def _assume(self, st, v, want):
        if isinstance(v, int):
            return st if (v != 0) == want else None
        if v[0] == 'not':
            return self._assume(st, v[1], not want)
        if v[0] == 'cmp':
            p = v[1]
            if not want:
                if p not in PRED_NEG:
                    return st
                p = PRED_NEG[p]
            return self._assume_cmp(st, p, v[2], v[3])
        if v[0] == 'p':
            return self._assume_cmp(st, 'ne' if want else 'eq', v, 0)
        if v[0] == 'bin':
            if v[1] == 'and' and want and (self._boolish(v[2]) or self._boolish(v[3])):
                for x in (v[2], v[3]):
                    if self._boolish(x):
                        st = self._assume(st, x, True)
                        if st is None: return None
                return st
            if v[1] == 'or' and not want:
                for x in (v[2], v[3]):
                    st = self._assume(st, x, False)
                    if st is None: return None
                return st
            st.cons[('tv', v)] = want
        return st

    def _assume_cmp(self, st, pred, a, b):
        k = self.known(st, pred, a, b)
        if k is not None:
            return st if k else None
        if isinstance(a, int):
            if pred not in PRED_SWAP: return st
            a, b, pred = b, a, PRED_SWAP[pred]
        if isinstance(b, int):
            if b == -1 and pred in ('uge', 'ult'):
                # the greatest unsigned number
                pred = 'eq' if pred == 'uge' else 'ne'
            if isinstance(a, tuple) and a[0] == 'p' and a[2] == 0:
                base = a[1]
                lo, hi, ne = self.cons_of(st, base)
                if pred == 'eq': lo = hi = b
                elif pred == 'ne':
                    if len(ne) < 8: ne = tuple(sorted(set(ne) | {b}))
                    while lo in ne: lo += 1
                    while hi in ne: hi -= 1
                elif pred == 'slt': hi = min(hi, b - 1)
                elif pred == 'sle': hi = min(hi, b)
                elif pred == 'sgt': lo = max(lo, b + 1)
                elif pred == 'sge': lo = max(lo, b)
                elif pred == 'ult':
                    if b > 0: lo = max(lo, 0); hi = min(hi, b - 1)
                elif pred == 'ule':
                    if b >= 0: lo = max(lo, 0); hi = min(hi, b)
                elif pred == 'ugt':
                    if b == 0: ne = tuple(sorted(set(ne) | {0}))
                    elif lo >= 0: lo = max(lo, b + 1)
                elif pred == 'uge':
                    if lo >= 0: lo = max(lo, b)
                while lo in ne: lo += 1
                while hi in ne: hi -= 1
                if lo > hi: return None
                st.cons[base] = (lo, hi, tuple(x for x in ne if lo < x < hi))
                return st
            if isinstance(a, tuple) and a[0] in ('cmp', 'not') and pred in ('eq', 'ne') and b in (0, 1):
                return self._assume(st, a, (b == 1) == (pred == 'eq'))
            if isinstance(a, tuple) and a[0] == 'bin' and pred in ('eq', 'ne'):
                if a[1] in ('sub', 'xor') and b == 0:
                    return self._assume_cmp(st, pred, a[2], a[3])
                if a[1] in ('add', 'sub') and isinstance(a[3], int):
                    return self._assume_cmp(st, pred, a[2], b - a[3] if a[1] == 'add' else b + a[3])
                if a[1] == 'and' and b == 0:
                    st.cons[('tv', a)] = (pred == 'ne')
            return st
        st.cons[('rel', pred, a, b)] = True
        return st

    # -- memory ------------------------------------------------------------------
    def mload(self, st, ptr, fr, i):
        if not (isinstance(ptr, tuple) and ptr[0] == 'p'):
            return S('u', fr.fn.n, i[0])
        base, off = ptr[1], ptr[2]
        k = (base, off)
        v = st.mem.get(k)
        if v is not None:
            return v
        if depth_of(base) >= 6:
            return S('deep', fr.fn.n, i[0])
        hv = st.mem.get(('HV', base))
        v = ('p', ('S', 'ld', base, off, hv), 0)
        return v

    def mstore(self, st, ptr, val):
        if not (isinstance(ptr, tuple) and ptr[0] == 'p'):
            return
        st.mem[(ptr[1], ptr[2])] = val

    def havoc_base(self, st, base, site):
        for k in [k for k in st.mem if k[0] == base]:
            del st.mem[k]
        st.mem[('HV', base)] = site
        self.c.havoced(st, base, site)

    def havoc_args(self, st, args, site):
        for a in args:
            if isinstance(a, tuple) and a[0] == 'p':
                b = a[1]
                if b[0] == 'G':
                    continue
                n = self.c.havoc_size(b, a[2])
                if n is not None:
                    for k in [k for k in st.mem if k[0] == b and isinstance(k[1], int) and a[2] <= k[1] < a[2] + n]:
                        del st.mem[k]
                    for o in range(a[2], a[2] + n, 4):
                        st.mem[(b, o)] = S('hv', site, b, o)
                    continue
                self.havoc_base(st, b, site)

    # -- running -------------------------------------------------------------------
    def run_root(self, fn, args=None, st=None):
        self.steps = 0
        if args is None:
            args = [('p', ('A', k), 0) for k in range(len(fn.args))]
        if st is None:
            st = St({}, {}, self.c.init())
        fr = Frame(fn, (), args, None, None)
        exits = self.run(fr, st)
        for kind, ret, s in exits:
            self.c.root_exit(self, fr, kind, ret, s)
        return exits

    def gc(self, fr, env, st):
        ctx = fr.ctx
        cons = st.cons
        if not cons:
            return
        dead = None
        live = None
        for k in cons:
            if k[0] == 'S' and k[1] in ('r', 'phi', 'w', 'x') and k[2] == ctx or k[0] in ('rel', 'tv'):
                if live is None:
                    live = set()
                    for v in env.values():
                        collect(v, live)
                    for mk, mv in st.mem.items():
                        collect(mv, live)
                        live.add(mk[0] if mk[0] != 'HV' else mk[1])
                    for b in self.c.syms(st.cl):
                        live.add(b)
                if k[0] == 'rel':
                    s = set()
                    collect(k[2], s)
                    collect(k[3], s)
                    ok = all(x in live or not (x[0] == 'S' and x[1] in ('r', 'phi', 'w', 'x') and x[2] == ctx) for x in s)
                elif k[0] == 'tv':
                    s = set()
                    collect(k[1], s)
                    ok = all(x in live or not (x[0] == 'S' and x[1] in ('r', 'phi', 'w', 'x') and x[2] == ctx) for x in s)
                else:
                    ok = k in live
                if not ok:
                    if dead is None: dead = []
                    dead.append(k)
        if dead:
            for k in dead:
                del cons[k]

    def run(self, fr, st0):
        fn = fr.fn
        self.inlined.add(fn.n)
        live = fn.live_in()
        nb = len(fn.b)
        seen = [set() for _ in range(nb)]
        counts = [dict() for _ in range(nb)]
        exits = {}
        exitcount = {}
        wl = [(0, -1, {}, st0)]
        cap = self.c.cap
        while wl:
            # process lowest block first (approximately topological)
            wl.sort(key=lambda x: -x[0])
            bi, pred, env, st = wl.pop()
            blk = fn.b[bi]
            # phis
            env2 = None
            for i in blk:
                if i[1] != 'phi':
                    break
                for v, p in i[3]:
                    if p == pred:
                        if env2 is None: env2 = dict(env)
                        env2[i[0]] = self.val(fr, env, v)
                        break
            if env2 is not None:
                env = env2
            lv = live[bi]
            env = {k: v for k, v in env.items() if k in lv}
            if len(fn.preds()[bi]) > 1:
                st = st.copy()
                self.gc(fr, env, st)
            key = (frozenset(env.items()), st.key())
            if key in seen[bi]:
                continue
            seen[bi].add(key)
            if len(fn.preds()[bi]) > 1 or fn.b[bi][0][1] == 'phi':
                ck = (st.cl, st.exc, st.caught)
                ent = counts[bi].get(ck)
                if ent is None:
                    counts[bi][ck] = [1, None, None]
                else:
                    ent[0] += 1
                    if ent[0] > (cap if self.c.capx == 1 or any(p >= bi for p in fn.preds()[bi]) else cap * self.c.capx):
                        self.truncated += 1
                        if ent[1] is None:
                            ent[1], ent[2] = dict(env), st.copy()
                            wid = ('w', fr.ctx, fn.n, bi)
                        else:
                            ch, e2, s2 = self.widen(fr, bi, ent[1], ent[2], env, st)
                            if not ch:
                                continue
                            ent[1], ent[2] = e2, s2
                            env, st = dict(e2), s2.copy()
            self.block(fr, bi, env, st, wl, exits, exitcount)
        out = []
        for k, lst in exits.items():
            out.extend(lst)
        for kind, ret, s in out:
            self.c.frame_exit(self, fr, kind, ret, s)
        return self.c.frame_post(self, fr, out)

    def widen(self, fr, bi, e0, s0, e1, s1):
        ch = False
        env = {}
        bound = {}
        for k, v in e0.items():
            v1 = e1.get(k)
            if v1 == v:
                env[k] = v
            else:
                w = S('w', fr.ctx, fr.fn.n, bi, k)
                c = ormask(v) & ormask(v1)
                if c: w = ('bin', 'or', w, c)
                else: bound[w[1]] = (v, v1)
                env[k] = w
                if v != w: ch = True
        mem = {}
        for k, v in s0.mem.items():
            if s1.mem.get(k) == v:
                mem[k] = v
            elif k[0] != 'HV' and ormask(v) & ormask(s1.mem.get(k)):
                mem[k] = ('bin', 'or', S('w', fr.ctx, fr.fn.n, bi, k), ormask(v) & ormask(s1.mem.get(k)))
                if mem[k] != v: ch = True
            elif k[0] != 'HV' and self.known(s0, 'ne', v, 0) is True and self.known(s1, 'ne', s1.mem.get(k), 0) is True:
                mem[k] = S('w', fr.ctx, fr.fn.n, bi, k)
                bound[mem[k][1]] = (v, s1.mem[k])
                if mem[k] != v: ch = True
            else:
                ch = True
                if k[0] == 'HV':
                    mem[k] = ('w', fr.fn.n, bi)
                    if v == mem[k]: pass
        # a base whose entry vanished must not fall back to its initial symbolic value
        for k in s0.mem:
            if k not in mem and k[0] != 'HV':
                mem[('HV', k[0])] = ('w', fr.fn.n, bi)
        for k in s1.mem:
            if k not in s0.mem and k[0] != 'HV':
                if mem.get(('HV', k[0])) != ('w', fr.fn.n, bi):
                    mem[('HV', k[0])] = ('w', fr.fn.n, bi)
                    ch = True
            elif k[0] == 'HV' and k not in s0.mem:
                mem[k] = ('w', fr.fn.n, bi)
                ch = True
        cons = {}
        for k, v in s0.cons.items():
            v1 = s1.cons.get(k)
            if v1 == v:
                cons[k] = v
            elif v1 is not None and isinstance(v, tuple) and isinstance(v1, tuple):
                lo = v[0] if v1[0] >= v[0] else NINF
                hi = v[1] if v1[1] <= v[1] else v1[1] if v1[1] in (0, 1, 255) else PINF
                if lo == NINF and v1[0] == -1: lo = -1
                # keep useful sign information
                if lo == NINF and v1[0] >= 0 and v[0] >= 0: lo = 0
                ne = tuple(sorted(x for x in set(v[2]) | set(v1[2]) | {0} if lo < x < hi and (x in v[2] or not v[0] <= x <= v[1]) and (x in v1[2] or not v1[0] <= x <= v1[1])))
                nv = (lo, hi, ne)
                if nv != (NINF, PINF, ()):
                    cons[k] = nv
                if nv != v: ch = True
            else:
                ch = True
        for k, (v, v1) in bound.items():
            # the symbol of the loop variable covers its old and its new value
            a, b = self.itv(s0, v), self.itv(s1, v1)
            lo = a[0] if b[0] >= a[0] else 0 if a[0] > 0 and b[0] >= 0 else NINF
            hi = a[1] if b[1] <= a[1] else PINF
            nv = (lo, hi, tuple(x for x in a[2] if x in b[2] or x < b[0] or x > b[1]) or ((0,) if 0 in b[2] and not a[0] <= 0 <= a[1] else ()))
            if nv == (NINF, PINF, ()):
                cons.pop(k, None)
            else:
                cons[k] = nv
            if nv != s0.cons.get(k, (NINF, PINF, ())): ch = True
        s = St(mem, cons, s0.cl, s0.exc, s0.caught)
        if s.cl:
            for k, w in env.items():
                if isinstance(w, tuple) and w[0] == 'p' and w[1][:2] == ('S', 'w') and e1.get(k) != w:
                    self.c.rebound(s, w[1])
            for k, w in mem.items():
                if isinstance(w, tuple) and w[0] == 'p' and w[1][:2] == ('S', 'w') and s1.mem.get(k) != w:
                    self.c.rebound(s, w[1])
        wsite = ('w', fr.fn.n, bi)
        for k, v in mem.items():
            if k[0] == 'HV' and v == wsite:
                self.c.havoced(s, k[1], wsite)
        return ch, env, s

    def add_exit(self, fr, exits, exitcount, kind, ret, st):
        self.c.leaving(self, fr, st)
        # forget the frame's own locals
        ctx = fr.ctx
        dead = [k for k in st.mem if (k[0] == 'HV' and k[1][0] == 'L' and k[1][1] == ctx) or (k[0][0] == 'L' and k[0][1] == ctx)]
        if dead:
            st = st.copy()
            for k in dead:
                del st.mem[k]
        self.gc(fr, {0: ret} if ret is not None else {}, st)
        ck = (kind, st.cl, st.exc, st.caught)
        lst = exits.setdefault(ck, [])
        key = (ret, st.key())
        for e in lst:
            if e[0] == kind and e[1] == ret and e[2].key() == key[1]:
                return
        if len(lst) >= self.c.exitcap:
            # merge into the last slot
            k0, r0, s0 = lst[-1]
            if r0 != ret:
                ret = S('x', ctx, fr.fn.n, 'exit')
            _, _, s = self.widen(fr, 'exit', {}, s0, {}, st)
            lst[-1] = (kind, ret, s)
            return
        lst.append((kind, ret, st))

    def unwind_to(self, fr, i, bi, env, st, wl, exits, exitcount):
        if len(i) > 8 and i[1] == 'call' and i[8] >= 0:
            wl.append((i[8], bi, env, st))
        else:
            if fr.fn.nothrow:
                return  # std::terminate
            self.add_exit(fr, exits, exitcount, 'unw', None, st)

    def block(self, fr, bi, env, st, wl, exits, exitcount):
        blk = fr.fn.b[bi]
        self.cont(fr, bi, 0, env, st, wl, exits, exitcount)

    def cont(self, fr, bi, idx, env, st, wl, exits, exitcount):
        fn = fr.fn
        blk = fn.b[bi]
        n = len(blk)
        env = dict(env)
        st = st.copy()
        c = self.c
        while idx < n:
            i = blk[idx]
            idx += 1
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget()
            op = i[1]
            if op == 'phi':
                continue
            if op == 'load':
                p = self.val(fr, env, i[3])
                c.load(self, fr, st, i, p)
                v = self.mload(st, p, fr, i)
                if isinstance(p, tuple) and p[0] == 'p':
                    st.mem.setdefault((p[1], p[2]), v)
                env[i[0]] = v
            elif op == 'store':
                p = self.val(fr, env, i[4])
                v = self.val(fr, env, i[3])
                c.store(self, fr, st, i, v, p)
                self.mstore(st, p, v)
            elif op == 'gep':
                p = self.val(fr, env, i[3])
                if c.wantgep:
                    c.gep(self, fr, st, i, p)
                off = i[4]
                sym = None
                for v, sc in i[5]:
                    iv = self.val(fr, env, v)
                    if isinstance(iv, int):
                        off += iv * sc
                    else:
                        sym = (iv, sc) if sym is None else (sym, iv, sc)
                if isinstance(p, tuple) and p[0] == 'p':
                    if sym is None:
                        env[i[0]] = ('p', p[1], p[2] + off)
                    else:
                        b = p[1]
                        if b[0] == 'S' and b[1] == 'ix' and len(b) > 4:
                            b = b[2]
                        env[i[0]] = ('p', ('S', 'ix', b, p[2], hash_small(sym)), off)
                elif isinstance(p, int) and sym is None:
                    env[i[0]] = p + off
                else:
                    env[i[0]] = S('x', fr.ctx, fn.n, i[0])
            elif op == 'alloca':
                env[i[0]] = ('p', ('L', fr.ctx, i[0]), 0)
                b = ('L', fr.ctx, i[0])
                for k in [k for k in st.mem if k[0] == b or (k[0] == 'HV' and k[1] == b)]:
                    del st.mem[k]
            elif op == 'call':
                if self.do_call(fr, bi, idx, i, env, st, wl, exits, exitcount):
                    return
            elif op == 'cmp':
                a = self.val(fr, env, i[4])
                b = self.val(fr, env, i[5])
                c.cmp(self, fr, st, i, i[3], a, b)
                k = self.known(st, i[3], a, b)
                env[i[0]] = int(k) if k is not None else ('cmp', i[3], a, b)
                if depth_val(env[i[0]]) > 6:
                    env[i[0]] = S('x', fr.ctx, fn.n, i[0])
            elif op == 'bin':
                env[i[0]] = self.binop(fr, st, i, self.val(fr, env, i[4]), self.val(fr, env, i[5]))
            elif op == 'cast':
                v = self.val(fr, env, i[4])
                if i[3] == 'trunc' and isinstance(v, int):
                    v = trunc(v, i[6])
                elif i[3] == 'zext' and isinstance(v, int) and v < 0:
                    w = width(i[5])
                    v = v & ((1 << w) - 1)
                env[i[0]] = v
            elif op == 'select':
                cv = self.val(fr, env, i[3])
                c.branch(self, fr, st, i, cv)
                t = self.truth(st, cv)
                if t is None:
                    a, b = self.val(fr, env, i[4]), self.val(fr, env, i[5])
                    if a == b:
                        env[i[0]] = a
                    else:
                        s2 = self.refine(st, cv, False)
                        if s2 is not None:
                            e2 = dict(env)
                            e2[i[0]] = b
                            self.cont(fr, bi, idx, e2, s2, wl, exits, exitcount)
                        s1 = self.refine(st, cv, True)
                        if s1 is None:
                            return
                        st = s1.copy()
                        env[i[0]] = a
                else:
                    env[i[0]] = self.val(fr, env, i[4] if t else i[5])
            elif op == 'lpad':
                outs = self.lpad(st, i)
                if not outs:
                    return
                for sel in outs[1:]:
                    e2 = dict(env)
                    e2[i[0]] = ('lp', sel)
                    self.cont(fr, bi, idx, e2, st, wl, exits, exitcount)
                sel = outs[0]
                if sel == 'pass':
                    # not caught here and no cleanup: keep unwinding
                    if not fn.nothrow:
                        self.add_exit(fr, exits, exitcount, 'unw', None, st)
                    return
                env[i[0]] = ('lp', sel)
            elif op == 'xv':
                a = self.val(fr, env, i[3])
                if isinstance(a, tuple) and a[0] == 'lp':
                    if i[4] == 0:
                        env[i[0]] = S('exc', str(st.exc))
                    else:
                        env[i[0]] = ('sel', a[1]) if a[1] else 0
                elif isinstance(a, tuple) and a[0] == 'pair':
                    env[i[0]] = a[1 + i[4]]
                elif isinstance(a, tuple) and a[0] == 'agg':
                    env[i[0]] = a[1][i[4]] if i[4] < len(a[1]) else S('u')
                else:
                    env[i[0]] = S('x', fr.ctx, fn.n, i[0])
            elif op == 'iv':
                a = self.val(fr, env, i[3])
                l = list(a[1]) if isinstance(a, tuple) and a[0] == 'agg' else []
                while len(l) <= i[5]:
                    l.append(S('u'))
                l[i[5]] = self.val(fr, env, i[4])
                env[i[0]] = ('agg', tuple(l))
            elif op == 'cmpxchg':
                p = self.val(fr, env, i[3])
                cv = self.val(fr, env, i[4])
                nv = self.val(fr, env, i[5])
                c.load(self, fr, st, i, p)
                old = self.mload(st, p, fr, i)
                fresh = S('x', fr.ctx, fn.n, i[0], 'cx')
                # concurrent modification is possible: the old value is unknown
                s2 = st.copy()
                e2 = dict(env)
                e2[i[0]] = ('pair', fresh, 0)
                s2.cons.pop(fresh[1], None)
                s2 = self._assume_cmp(s2, 'ne', fresh, cv)
                if s2 is not None:
                    self.mstore(s2, p, fresh)
                    self.cont(fr, bi, idx, e2, s2, wl, exits, exitcount)
                c.store(self, fr, st, i, nv, p)
                self.mstore(st, p, nv)
                env[i[0]] = ('pair', cv, 1)
            elif op == 'rmw':
                p = self.val(fr, env, i[4])
                c.load(self, fr, st, i, p)
                v = self.val(fr, env, i[5])
                old = S('x', fr.ctx, fn.n, i[0], 'rmw')
                st.cons.pop(old[1], None)
                nv = v if i[3] == 'xchg' else S('x', fr.ctx, fn.n, i[0], 'rmwnew')
                c.store(self, fr, st, i, nv, p)
                self.mstore(st, p, nv)
                env[i[0]] = old
            elif op == 'br':
                cv = self.val(fr, env, i[3])
                c.branch(self, fr, st, i, cv)
                t = self.truth(st, cv)
                if t is None:
                    s1 = self.refine(st, cv, True)
                    s2 = self.refine(st, cv, False)
                    if s1 is not None:
                        wl.append((i[4], bi, env, s1))
                    if s2 is not None:
                        wl.append((i[5], bi, env, s2))
                else:
                    wl.append((i[4] if t else i[5], bi, env, st))
                return
            elif op == 'jmp':
                wl.append((i[3], bi, env, st))
                return
            elif op == 'switch':
                v = self.val(fr, env, i[3])
                for cval, b in i[5]:
                    c.cmp(self, fr, st, i, 'eq', v, cval)
                if isinstance(v, int):
                    for cval, b in i[5]:
                        if cval == v:
                            wl.append((b, bi, env, st))
                            return
                    wl.append((i[4], bi, env, st))
                    return
                s = st.copy()
                for cval, b in i[5]:
                    s1 = self._assume_cmp(st.copy(), 'eq', v, cval)
                    if s1 is not None:
                        wl.append((b, bi, env, s1))
                    if s is not None:
                        s = self._assume_cmp(s, 'ne', v, cval)
                if s is not None:
                    wl.append((i[4], bi, env, s))
                return
            elif op == 'ret':
                rv = self.val(fr, env, i[3]) if i[3] is not None else None
                self.add_exit(fr, exits, exitcount, 'ret', rv, st)
                return
            elif op == 'resume':
                if not fn.nothrow:
                    self.add_exit(fr, exits, exitcount, 'unw', None, st)
                return
            elif op == 'unreachable':
                return
            elif op == 'fence':
                pass
            else:
                if i[0] >= 0:
                    env[i[0]] = S('x', fr.ctx, fn.n, i[0])

    def lpad(self, st, i):
        T = st.exc
        outs = []
        cleanup = i[3]
        if T is not None:
            bases = self.P.ti_bases(T)
            for kind, cl in i[4]:
                if kind == 'catch':
                    if cl == ['c', 0]:
                        return [0] if False else ['*']
                    if cl[0] == 'g' and cl[1] in bases:
                        return [cl[1]]
                else:
                    names = [x[1] for x in (cl[1] if cl[0] == 'l' else []) if x[0] == 'g']
                    if not any(x in bases for x in names):
                        return []
            return [None] if cleanup else ['pass']
        for kind, cl in i[4]:
            if kind == 'catch':
                if cl == ['c', 0]:
                    outs.append('*')
                    return outs
                if cl[0] == 'g':
                    outs.append(cl[1])
            else:
                return outs  # filter: goes to unexpected
        if cleanup:
            outs.append(None)
        else:
            outs.insert(0, 'pass')
        return outs

    def binop(self, fr, st, i, a, b):
        op = i[3]
        if isinstance(a, int) and isinstance(b, int):
            r = None
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = a * b
            elif op == 'and': r = a & b
            elif op == 'or': r = a | b
            elif op == 'xor': r = a ^ b
            elif op == 'shl' and 0 <= b < 64: r = a << b
            elif op == 'ashr' and 0 <= b < 64: r = a >> b
            elif op == 'lshr' and 0 <= b < 64: r = u64(a) >> b if a >= 0 else None
            elif op in ('sdiv', 'udiv') and b > 0 and a >= 0: r = a // b
            elif op in ('srem', 'urem') and b > 0 and a >= 0: r = a % b
            if r is not None:
                return trunc(r, i[6])
        if op == 'xor' and b in (1, -1) and i[6] == 'i1':
            return ('not', a)
        if op in ('add', 'sub') and isinstance(b, int) and isinstance(a, tuple) and a[0] == 'p':
            if b == 0: return a
        if op == 'add' and isinstance(a, int) and a == 0:
            return b
        if op == 'and' and (a == 0 or b == 0):
            return 0
        if op == 'or':
            if a == 0: return b
            if b == 0: return a
            # bits known to be set are kept: (x | c1) | c2 = x | (c1|c2)
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and isinstance(x, tuple) and x[0] == 'bin' and x[1] == 'or' and isinstance(x[3], int):
                    return ('bin', 'or', x[2], x[3] | y)
            if isinstance(a, int):
                a, b = b, a
        v = ('bin', op, a, b)
        if depth_val(v) > 4:
            if op == 'or' and isinstance(b, int):
                return ('bin', 'or', S('x', fr.ctx, fr.fn.n, i[0]), b)
            return S('x', fr.ctx, fr.fn.n, i[0])
        return v

    # -- calls ---------------------------------------------------------------------
    def resolve(self, fr, env, i):
        c = i[3]
        if isinstance(c, list) and c[0] == 'g':
            return [self.P.alias.get(c[1], c[1])], 'd'
        v = self.P.vcalls(fr.fn).get(id(i))
        if v:
            # devirtualise when the dynamic type is a known local/new object: not attempted
            # a pure virtual function which nothing implements here is implemented by the user
            return [n for n in self.P.vcall_targets(*v) if n != '__cxa_pure_virtual'], 'v'
        cv = self.val(fr, env, c)
        if isinstance(cv, tuple) and cv[0] == 'p' and cv[1][0] == 'G':
            return [cv[1][1]], 'd'
        return [], 'p'

    def do_call(self, fr, bi, idx, i, env, st, wl, exits, exitcount):
        """returns True if control does not simply continue in the current loop"""
        args = [self.val(fr, env, a) for a in i[4]]
        names, kind = self.resolve(fr, env, i)
        n0 = names[0] if names else ''
        if n0.startswith('llvm.'):
            self.intrinsic(fr, st, i, n0, args, env)
            return False
        outs = self.c.call(self, fr, st, i, names, args)
        if outs is None:
            outs = self.default_call(fr, st, i, names, kind, args)
        if outs is None:
            return False
        if not outs:
            return True
        # continue
        inv = i[7] >= 0
        if len(outs) == 1 and outs[0][0] == 'ret' and not inv:
            _, ret, s = outs[0]
            if s is not st:
                st.mem = dict(s.mem)
                st.cons = dict(s.cons)
                st.cl = s.cl
                st.exc = s.exc
                st.caught = s.caught
            if i[0] >= 0:
                env[i[0]] = ret if ret is not None else S('r', fr.ctx, fr.fn.n, i[0])
            return False
        for k, ret, s in outs:
            if k == 'ret':
                e2 = dict(env)
                if i[0] >= 0:
                    e2[i[0]] = ret if ret is not None else S('r', fr.ctx, fr.fn.n, i[0])
                if inv:
                    wl.append((i[7], bi, e2, s))
                else:
                    self.cont(fr, bi, idx, e2, s, wl, exits, exitcount)
            else:
                self.unwind_to(fr, i, bi, env, s, wl, exits, exitcount)
        return True

    def intrinsic(self, fr, st, i, n, args, env):
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            d, s, sz = args[0], args[1], args[2]
            self.c.memcopy(self, fr, st, i, d, s, sz)
            if isinstance(d, tuple) and d[0] == 'p':
                if isinstance(sz, int):
                    new = {}
                    if isinstance(s, tuple) and s[0] == 'p':
                        for k, v in st.mem.items():
                            if k[0] == s[1] and s[2] <= k[1] < s[2] + sz:
                                new[(d[1], d[2] + k[1] - s[2])] = v
                    for k in [k for k in st.mem if k[0] == d[1] and d[2] <= k[1] < d[2] + sz]:
                        del st.mem[k]
                    if not new and isinstance(s, tuple) and s[0] == 'p' and sz <= 64:
                        for o in range(0, sz, 8):
                            new[(d[1], d[2] + o)] = self.mload(st, ('p', s[1], s[2] + o), fr, i)
                    st.mem.update(new)
                else:
                    self.havoc_base(st, d[1], (fr.fn.n, i[2]))
        elif n.startswith('llvm.memset'):
            d, v, sz = args[0], args[1], args[2]
            if isinstance(d, tuple) and d[0] == 'p':
                if isinstance(sz, int):
                    for k in [k for k in st.mem if k[0] == d[1] and d[2] <= k[1] < d[2] + sz]:
                        del st.mem[k]
                    if v == 0 and sz <= 256:
                        for o in range(0, sz, 4):
                            st.mem[(d[1], d[2] + o)] = 0
                else:
                    self.havoc_base(st, d[1], (fr.fn.n, i[2]))
        elif n.startswith('llvm.eh.typeid.for'):
            a = args[0]
            env[i[0]] = ('tid', a[1][1] if isinstance(a, tuple) and a[0] == 'p' and a[1][0] == 'G' else None)
            return
        if i[0] >= 0:
            env[i[0]] = S('r', fr.ctx, fr.fn.n, i[0])

    def newsym(self, fr, st, i, kind='r'):
        v = S(kind, fr.ctx, fr.fn.n, i[0])
        if v[1] in st.cons:
            del st.cons[v[1]]
        return v

    def default_call(self, fr, st, i, names, kind, args):
        n0 = names[0] if names else ''
        if n0 == '__cxa_throw':
            ti = args[1]
            st.exc = ti[1][1] if isinstance(ti, tuple) and ti[0] == 'p' and ti[1][0] == 'G' else None
            return [('unw', None, st)]
        if n0 == '__cxa_rethrow':
            st.exc = st.caught[-1] if st.caught else None
            return [('unw', None, st)]
        if n0 == '__cxa_begin_catch':
            st.caught = (st.caught + (st.exc,))[-4:]
            return [('ret', args[0], st)]
        if n0 == '__cxa_end_catch':
            st.caught = st.caught[:-1]
            return [('ret', None, st)]
        if n0 in ('_Znwm', '_Znam'):
            v = S('new', fr.ctx, fr.fn.n, i[0])
            b = v[1]
            for k in [k for k in st.mem if k[0] == b or (k[0] == 'HV' and k[1] == b)]:
                del st.mem[k]
            outs = [('ret', v, st)]
            if self.c.oom:
                s2 = st.copy()
                s2.exc = '_ZTISt9bad_alloc'
                outs.append(('unw', None, s2))
            return outs
        if n0 == '__cxa_allocate_exception':
            return [('ret', S('exc', 'new'), st)]
        if n0 == '__dynamic_cast':
            v = S('dc', args[0] if isinstance(args[0], tuple) else 0, str(i[4][2]))
            return [('ret', v, st)]
        if i[6]:      # noreturn
            if n0 not in self.P.F:
                if not i[5] and self.P.name_throws(n0, self.mt, self.c.oom) and n0:
                    s = st.copy()
                    s.exc = None
                    return [('unw', None, s)]
                return []
        # inline?
        cand = [n for n in names if self.should_inline(fr, n)]
        if cand and kind == 'd':
            return self.inline(fr, st, i, cand[0], args)
        if cand and kind == 'v':
            relc = [n for n in cand if n in self.rel]
            if len(names) == 1 or relc:
                outs = []
                sel = names if len(names) == 1 else relc[:6]
                for n in sel:
                    outs.extend(self.inline(fr, st.copy(), i, n, args))
                if len(sel) < len(names):
                    outs.extend(self.opaque(fr, st.copy(), i, [n for n in names if n not in sel], args))
                return dedupe(outs)
        return self.opaque(fr, st, i, names, args)

    def should_inline(self, fr, n):
        f = self.P.F.get(n)
        if f is None:
            return False
        w = self.c.want_inline(self, n)
        if w is not None and not w:
            return False
        if fr.depth >= self.c.maxdepth:
            return False
        x = fr
        while x is not None:
            if x.fn.n == n:
                return False
            x = x.parent
        if w:
            return True
        if n in self.rel:
            return True
        return f.ninstr() <= self.c.small and fr.depth < 6

    def inline(self, fr, st, i, n, args):
        f = self.P.F[n]
        ctx = (fr.ctx, fr.fn.n, i[0] if i[0] >= 0 else (i[2], id(i) % 100003))
        k = self.ctxid.setdefault(ctx, len(self.ctxid))
        fr2 = Frame(f, k, args, fr, i)
        outs = self.run(fr2, st)
        if i[5] or fr.fn is None:
            outs = [o for o in outs if o[0] == 'ret']
        return outs

    def opaque(self, fr, st, i, names, args):
        self.c.opaque(self, fr, st, i, names, args)
        v = self.newsym(fr, st, i)
        outs = []
        if not i[5]:
            thr = (not names) or any(self.P.name_throws(n, self.mt, self.c.oom) for n in names)
            if thr:
                s2 = st.copy()
                s2.exc = None
                self.havoc_args(s2, args, (fr.fn.n, i[2]))
                outs.append(('unw', None, s2))
        if not i[6] and not (names and all(n in self.nr for n in names)):
            self.havoc_args(st, args, (fr.fn.n, i[2]))
            outs.append(('ret', v, st))
        return outs


def dedupe(outs):
    seen = set()
    r = []
    for k, ret, s in outs:
        key = (k, ret, s.key())
        if key not in seen:
            seen.add(key)
            r.append((k, ret, s))
    return r


def collect(v, out):
    if isinstance(v, tuple):
        if v and v[0] == 'p':
            b = v[1]
            out.add(b)
            while b[0] == 'S' and b[1] in ('ld', 'ix'):
                b = b[2]
                out.add(b)
        elif v and v[0] in ('cmp', 'bin'):
            collect(v[2], out)
            collect(v[3], out)
        elif v and v[0] == 'not':
            collect(v[1], out)
        elif v and v[0] in ('pair',):
            collect(v[1], out)
            collect(v[2], out)
        elif v and v[0] == 'agg':
            for x in v[1]:
                collect(x, out)


def depth_val(v):
    if not isinstance(v, tuple):
        return 0
    if v[0] in ('cmp', 'bin'):
        return 1 + max(depth_val(v[2]), depth_val(v[3]))
    if v[0] == 'not':
        return 1 + depth_val(v[1])
    return 0


def hash_small(x):
    return hash(x) & 0xffffff


def width(t):
    if t.startswith('i') and t[1:].isdigit():
        return int(t[1:])
    return 64


def trunc(v, t):
    w = width(t)
    if w >= 64 and -(1 << 63) <= v < (1 << 63):
        return v
    m = (1 << w) - 1
    v &= m
    if w > 1 and v >> (w - 1):
        v -= 1 << w
    return v
