"""Runner: loads facts, runs a property's rules, matches known findings, writes evidence."""
import os, sys, json, time, importlib, traceback
from . import build, ir
from .engine import Engine, Budget, St

VERIF = build.VERIF


class Vanished(Exception):
    """an anchor the rule relies on is gone or an instance count fell under its floor"""


class Ctx(object):
    def __init__(self, P, tier, root):
        self.P = P
        self.tier = tier
        self.root = root
        self.viol = {}       # key -> dict
        self.stats = {}
        self.rules = []
        self.inst = []
        self.samples = []
        self.assume = []

    def ours(self, lib_only=False):
        for f in self.P.F.values():
            if f.file.startswith('lightspeed/') or (not lib_only and f.file.startswith('driver/')):
                yield f

    def violation(self, key, msg, fn=None, line=None, trace=()):
        if key not in self.viol:
            self.viol[key] = {'key': key, 'msg': msg,
                              'where': '%s:%s %s' % (fn.file, line or fn.line, fn.short) if fn is not None else '',
                              'trace': list(trace)}

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def instance(self, s):
        """an obligation examined"""
        self.inst.append(s)

    def rule(self, text):
        self.rules.append(text)

    def assumption(self, t):
        self.assume.append(t)

    def floor(self, name, n):
        v = self.stats.get(name, 0)
        if v < n:
            raise Vanished('%s: %d instances found, at least %d expected' % (name, v, n))

    def anchor(self, shortname, n=1):
        l = self.P.by_short.get(shortname, [])
        if len(l) < n:
            raise Vanished('function %s not found' % shortname)
        return l

    def run(self, client, fn, rel, args=None, nonnull=()):
        """engine run with a budget; returns exits or None when the budget is exceeded"""
        en = Engine(self.P, client, rel)
        st = None
        for v in nonnull:
            st = en._assume_cmp(st or St({}, {}, client.init()), 'ne', v, 0)
        try:
            ex = en.run_root(fn, args, st)
        except Budget:
            self.count('roots over budget')
            self.samples.append('budget exceeded: ' + fn.short)
            return None
        self.count('abstract steps', en.steps)
        self.count('widenings', en.truncated)
        return ex


def known_findings(prop):
    r = {}
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                o = json.loads(l)
                if o['property'] == prop and o.get('status') == 'known':
                    r[o['key']] = o
    return r


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    evp = os.path.join(VERIF, 'evidence', prop + '.json')
    try:
        fd, src, tus, dg = build.facts()
        tb = time.time() - t0
        P = ir.Prog(fd)
        mod = importlib.import_module('lsa.checks.' + prop.lower())
        cx = Ctx(P, tier, src)
        mod.run(cx)
    except (build.BuildError, Vanished) as e:
        print('ERROR property=%s analysis not possible: %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s analysis crashed' % prop)
        return 2
    known = known_findings(prop)
    new = [v for k, v in sorted(cx.viol.items()) if k not in known]
    old = [v for k, v in sorted(cx.viol.items()) if k in known]
    rc = 0
    rep = os.path.join(VERIF, 'evidence', prop + '.violations.txt')
    for v in old:
        print('KNOWN-FINDING: property=%s %s [%s]' % (prop, known[v['key']].get('what', v['msg']), v['where']))
    for k in known:
        if k not in cx.viol:
            print('note: listed finding no longer present: ' + k)
    if new:
        rc = 1
        with open(rep, 'w') as fh:
            for v in new:
                fh.write('%s\n  at %s\n  key: %s\n' % (v['msg'], v['where'], v['key']))
                for t in v['trace']:
                    fh.write('    %s\n' % t)
        for v in new:
            print('%s\n  at %s\n  key: %s' % (v['msg'], v['where'], v['key']))
            for t in v['trace'][:12]:
                print('    ' + t)
        print('VIOLATION property=%s replay=%s' % (prop, rep))
    elif os.path.exists(rep):
        os.unlink(rep)
    ev = {
        'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': getattr(mod, 'LEVEL', 'other'),
        'coverage': {
            'explanation': mod.__doc__.strip(),
            'rules': cx.rules,
            'translation_units': len(tus),
            'functions_in_program': len(P.F),
            'counts': cx.stats,
            'obligations': len(cx.inst),
            'obligation_sample': cx.inst[:60],
            'notes': cx.samples[:40],
        },
        'wall_s': round(time.time() - t0, 2),
        'assumptions': cx.assume or ['clang 18 lowers the sources faithfully (-O0, DEBUG configuration, Linux back end)'],
        'violations': len(new),
    }
    with open(evp, 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('property %s: %d obligations examined, %d new violation(s), %d known finding(s); build %.1fs total %.1fs'
          % (prop, len(cx.inst), len(new), len(old), tb, time.time() - t0))
    for k in sorted(cx.stats):
        print('  %s: %s' % (k, cx.stats[k]))
    return rc
