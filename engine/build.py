"""Builds the drivers from /repo's current working tree (never from committed copies).

Objects and executables are cached under /verif/build/<hash>, keyed by the content of every
source, header and harness file, so a changed tree always leads to a rebuild."""
import os, sys, hashlib, subprocess, fcntl, shutil, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.path.join(VERIF, 'build')
BASE = ['-std=gnu++11', '-O1', '-DNDEBUG', '-w', '-fno-stack-protector', '-fcf-protection=none', '-fno-tree-vectorize', '-fno-inline',
        '-fno-pie', '-fno-pic', '-D_FILE_OFFSET_BITS=64', '-DMIE_ATE_USE_GMP']
class BuildError(Exception): pass

def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in (os.path.join(REPO, 'include'), os.path.join(REPO, 'src'), os.path.join(REPO, 'java'), os.path.join(VERIF, 'harness')):
        for d, dirs, fs in os.walk(base):
            dirs.sort()
            for f in sorted(fs):
                if f.endswith(('.h', '.hpp', '.cpp', '.c', '.inc', '.i')): files.append(os.path.join(d, f))
    for f in files:
        h.update(f.encode()); h.update(open(f, 'rb').read())
    h.update(' '.join(BASE).encode())
    return h.hexdigest()[:20]

VARIANTS = {
    # name: (driver, flags, needs library objects)
    'bn': ('drv_bn.cpp', [], True),
    'bnsnark': ('drv_bn.cpp', ['-DBN_SUPPORT_SNARK'], True),
    'zm': ('drv_zm.cpp', [], True),
    'java': ('drv_java.cpp', [], True),
}
def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stderr[-3000:])

def build(names):
    """{name: exe}"""
    h = tree_hash(); d = os.path.join(ROOT, h)
    os.makedirs(ROOT, exist_ok=True)
    with open(os.path.join(ROOT, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for o in os.listdir(ROOT):
            if o not in (h, 'lock'): shutil.rmtree(os.path.join(ROOT, o), ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        inc = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'java'), '-I' + os.path.join(VERIF, 'harness')]
        todo = []
        libs = {}
        for n in names:
            drv, fl, lib = VARIANTS[n]
            exe = os.path.join(d, n)
            if os.path.exists(exe): continue
            tag = '_'.join(x.strip('-').replace('=', '_') for x in fl) or 'def'
            libs[tag] = fl
            todo.append((n, drv, fl, tag, exe))
        jobs = {}
        with cf.ThreadPoolExecutor(8) as ex:
            for tag, fl in libs.items():
                for src in ('zm', 'zm2'):
                    o = os.path.join(d, '%s_%s.o' % (src, tag))
                    if not os.path.exists(o):
                        jobs[ex.submit(run, ['g++', *BASE, *fl, *inc, '-c', os.path.join(REPO, 'src', src + '.cpp'), '-o', o])] = o
            for n, drv, fl, tag, exe in todo:
                o = os.path.join(d, n + '.o')
                jobs[ex.submit(run, ['g++', *BASE, *fl, *inc, '-c', os.path.join(VERIF, 'harness', drv), '-o', o])] = o
            for j in jobs: j.result()
        for n, drv, fl, tag, exe in todo:
            run(['g++', '-no-pie', '-o', exe + '.tmp', os.path.join(d, n + '.o'), os.path.join(d, 'zm_%s.o' % tag),
                 os.path.join(d, 'zm2_%s.o' % tag), '-lgmpxx', '-lgmp'])
            os.rename(exe + '.tmp', exe)
    return {n: os.path.join(d, n) for n in names}

if __name__ == '__main__':
    print(build(sys.argv[1:] or ['bn', 'bnsnark']))
