"""Builds the whole-program facts from /repo's current working tree.

Everything goes to <verif>/.build/<digest of sources>/ (git-ignored) so that several checks
run on the same tree share one build; a changed tree gets a new digest.
"""
import os, sys, subprocess, hashlib, shutil, fcntl, glob, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LSA_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')

PLATFORM = '''#define HAVE_PIPE2 1
#define HAVE_VFORK 1
#define HAVE_DECL___ATOMIC_COMPARE_EXCHANGE 1
'''
CXX = ['clang++', '-std=c++11', '-O0', '-g', '-fPIC', '-DDEBUG', '-D_DEBUG', '-w', '-include', 'exception',
       '-flto', '-fwhole-program-vtables', '-Xclang', '-disable-O0-optnone', '-emit-llvm', '-c']
TOOLCXX = ['clang++', '-std=c++17', '-O1', '-w', '-I/usr/lib/llvm-18/include']
TOOLLIB = ['-L/usr/lib/llvm-18/lib', '-lLLVM-18']


class BuildError(Exception):
    pass


def sources():
    r = []
    root = os.path.join(REPO, 'src', 'lightspeed')
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f == 'platform.h' and d == root:
                continue
            if f.endswith(('.cpp', '.h', '.tcc', '.hpp', '.c', '.inc', '.i')):
                r.append(os.path.join(d, f))
    return r


def digest(files):
    h = hashlib.sha256()
    for f in files + sorted(glob.glob(os.path.join(VERIF, 'drivers', '*'))) + [
            os.path.join(VERIF, 'tool', 'extract.cpp'), os.path.abspath(__file__)]:
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-3000:]))


def facts():
    """returns (factdir, srcroot, list of compiled units, digest)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        files = sources()
        if not files:
            raise BuildError('no sources under ' + REPO)
        dg = digest(files)
        out = os.path.join(BUILD, dg)
        tus = [f for f in files if f.endswith('.cpp') and '/windows/' not in f]
        if os.path.exists(os.path.join(out, 'done')):
            os.utime(os.path.join(out, 'done'))
            return os.path.join(out, 'facts'), os.path.join(out, 'src'), tus, dg
        shutil.rmtree(out, ignore_errors=True)
        # keep at most three finished builds
        old = sorted((d for d in glob.glob(os.path.join(BUILD, '*')) if os.path.isdir(d)),
                     key=lambda d: os.path.getmtime(os.path.join(d, 'done')) if os.path.exists(os.path.join(d, 'done')) else 0)
        for d in old[:-3]:
            shutil.rmtree(d, ignore_errors=True)
        src = os.path.join(out, 'src')
        bc = os.path.join(out, 'bc')
        fd = os.path.join(out, 'facts')
        for d in (src, bc, fd):
            os.makedirs(d)
        for f in files:
            t = os.path.join(src, os.path.relpath(f, os.path.join(REPO, 'src')))
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copyfile(f, t)
        with open(os.path.join(src, 'lightspeed', 'platform.h'), 'w') as fh:
            fh.write(PLATFORM)
        drv = sorted(glob.glob(os.path.join(VERIF, 'drivers', '*.cpp')))
        os.makedirs(os.path.join(src, 'driver'))
        jobs = []
        for f in tus:
            rel = os.path.relpath(f, os.path.join(REPO, 'src'))
            jobs.append((os.path.join(src, rel), os.path.join(bc, rel.replace('/', '_')[:-4] + '.bc'), []))
        for f in drv:
            t = os.path.join(src, 'driver', os.path.basename(f))
            shutil.copyfile(f, t)
            jobs.append((t, os.path.join(bc, 'driver_' + os.path.basename(f)[:-4] + '.bc'),
                         ['-I' + src, '-fno-access-control', '-femit-all-decls']))
        tool = os.path.join(BUILD, 'lsextract')
        tsrc = os.path.join(VERIF, 'tool', 'extract.cpp')
        stamp = tool + '.sha'
        th = hashlib.sha256(open(tsrc, 'rb').read()).hexdigest()

        def build_tool(_):
            if os.path.exists(tool) and os.path.exists(stamp) and open(stamp).read() == th:
                return
            run(TOOLCXX + [tsrc, '-o', tool] + TOOLLIB)
            open(stamp, 'w').write(th)

        skipped = []

        def comp(j):
            if j is None:
                return build_tool(None)
            try:
                run(CXX + j[2] + [j[0], '-o', j[1]])
            except BuildError:
                # a driver may use an interface which has changed; the library itself has to compile
                if not j[2]:
                    raise
                skipped.append(j)
        # longest first is unknown; tool first
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(comp, [None] + jobs[::-1]))
        run([tool, fd, src + '/'] + [j[1] for j in jobs if j not in skipped])
        for j in skipped:
            sys.stderr.write('driver skipped (does not compile): %s\n' % os.path.basename(j[0]))
        shutil.rmtree(bc)
        open(os.path.join(out, 'done'), 'w').write('\n'.join(tus))
        return fd, src, tus, dg


if __name__ == '__main__':
    t = time.time()
    print(facts()[0], time.time() - t)
