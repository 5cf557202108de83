"""Plants a bug: seed.py SPEC.py   (SPEC defines id, prop, needs, breaks, edits=[(file, old, new)], demo (C++), sh (optional demo.sh body))
Verifies everything the interface asks for and leaves /repo as it was."""
import sys, os, subprocess, json, runpy, shutil
R = '/repo'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    sp = runpy.run_path(sys.argv[1])
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo not clean'
    d = os.path.join(V, 'seeded', sp['id'])
    os.makedirs(d, exist_ok=True)
    orig = {}
    for f, o, n in sp['edits']:
        p = os.path.join(R, f)
        s = open(p, encoding='latin1', newline='').read()
        orig.setdefault(f, s)
        if '\r\n' in s:
            o, n = o.replace('\n', '\r\n'), n.replace('\n', '\r\n')
        if s.count(o) != 1:
            sh('git -C /repo checkout -- .')
            print('EDIT matches %d times in %s: %r' % (s.count(o), f, o[:60]))
            return 1
        open(p, 'w', encoding='latin1', newline='').write(s.replace(o, n))
    diff = subprocess.run('git -C /repo diff', shell=True, stdout=subprocess.PIPE).stdout
    open(d + '/patch.diff', 'wb').write(diff)
    sh('git -C /repo checkout -- .')
    if 'demo' in sp:
        open(d + '/demo.cpp', 'w').write(sp['demo'])
    body = sp.get('sh') or '''#!/bin/bash
# exit 0: property holds
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'cd /; rm -rf "$T"' EXIT
clang++ -include exception -w -D_DEBUG -DDEBUG -g -O0 -I"$PWD/src" %s "$D/demo.cpp" -o "$T/demo" "$PWD/liblightspeed.a" -lpthread -lrt || exit 99
cd "$T" && timeout 20 ./demo
''' % sp.get('flags', '')
    open(d + '/demo.sh', 'w').write(body)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': sp['prop'], 'needs': sp['needs'], 'what_it_breaks': sp['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    ok = True
    b = sh('bash /opt/vp/build.sh')
    r = sh('bash %s/demo.sh' % d, cwd=R)
    print('demo on clean tree:', r.returncode)
    if r.returncode:
        print(r.stdout[-1500:]); ok = False
    try:
        a = sh('git -C /repo apply %s/patch.diff' % d)
        assert a.returncode == 0, a.stdout
        b = sh('bash /opt/vp/build.sh')
        if b.returncode:
            print('BUILD FAILS', b.stdout[-1500:]); ok = False
        else:
            t = sh('bash /opt/vp/test.sh /tmp/sd/o.json')
            base = json.load(open('/opt/vp/BASELINE.json'))
            stable = set(base.get('stable') or base.get('passed') or [])
            o = json.load(open('/tmp/sd/o.json'))
            miss = sorted(stable - set(o.get('passed', [])))
            print('missing stable tests:', miss)
            if miss: ok = False
            r = sh('bash %s/demo.sh' % d, cwd=R)
            print('demo with bug:', r.returncode, r.stdout[-200:].strip().replace('\n', ' | '))
            if r.returncode in (0, 99): ok = False
            c = sh('python3 check.py %s' % sp['prop'], cwd=V)
            print('check %s: exit %d' % (sp['prop'], c.returncode))
            print('\n'.join(c.stdout.splitlines()[:6])[:700])
    finally:
        sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')
    print('SEED', sp['id'], 'OK' if ok else 'NOT VALID', 'CAUGHT' if c.returncode == 1 else 'MISSED')
    if not ok:
        shutil.rmtree(d)


main()
