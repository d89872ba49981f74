"""Builds the library from /repo's working tree (into a scratch directory) and the harness on top of it."""
import concurrent.futures as cf, glob, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TIND_REPO', '/repo')
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
VALGRIND = 'valgrind'
PY = '/opt/vp/venv/bin/python' if os.path.exists('/opt/vp/venv/bin/python') else 'python3'

# without the -ffast-math of the project's release build: there the compiler may reorder any sum, and the
# rounding noise of a result has no bound that could be derived from its definition
REL = ['-O2', '-DNDEBUG', '-w']
FAST = REL + ['-ffast-math', '-fno-finite-math-only']
VARIANTS = {
    'rel': dict(cc='gcc', cxx='g++', flags=REL, link=[]),
    # the flags of the project's release build
    'fast': dict(cc='gcc', cxx='g++', flags=FAST, link=[]),
    'asan': dict(cc='clang', cxx='clang++', flags=['-O1', '-g', '-DNDEBUG', '-w', '-fsanitize=address,bounds,null,alignment,return,vla-bound', '-fno-sanitize-recover=all',
                 '-fno-omit-frame-pointer'], link=['-fsanitize=address,bounds,null,alignment,return,vla-bound']),
    'vg': dict(cc='gcc', cxx='g++', flags=['-O0', '-g', '-DNDEBUG', '-w'], link=[]),
    'tsan': dict(cc='gcc', cxx='g++', flags=['-O1', '-g', '-DNDEBUG', '-w', '-fsanitize=thread'], link=['-fsanitize=thread']),
}

class BuildError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout

def sources(dst):
    """A copy of the sources with the generated files of this tree."""
    os.makedirs(dst)
    for d in ('indicators', 'utils'):
        shutil.copytree(os.path.join(REPO, d), os.path.join(dst, d))
    for f in ('codegen.py', 'indicators.yaml', 'version.py', 'docsgen.py'):
        shutil.copy(os.path.join(REPO, f), dst)
    run([PY, 'codegen.py'], cwd=dst, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', GIT_DIR='/nonexistent'))
    return dst

def library(src, out, variant='rel', only=None):
    """Compiles all library sources to out/*.o; returns the list of objects."""
    v = VARIANTS[variant]
    os.makedirs(out, exist_ok=True)
    files = sorted(glob.glob(src + '/indicators/*.cc') + glob.glob(src + '/indicators/*.c') + glob.glob(src + '/utils/*.cc') +
                   glob.glob(src + '/utils/*.c')) + [src + '/indicators_index.c']
    jobs = []
    for f in files:
        o = os.path.join(out, os.path.basename(f) + '.o')
        cc = [v['cxx'], '-std=c++17'] if f.endswith('.cc') else [v['cc'], '-std=gnu99']
        jobs.append((o, cc + v['flags'] + ['-fPIC', '-I', src, '-c', f, '-o', o]))
    jobs.sort(key=lambda j: -os.path.getsize(j[1][-3]))
    with cf.ThreadPoolExecutor(os.cpu_count()) as ex:
        for fut in [ex.submit(run, c) for _, c in jobs]:
            fut.result()
    return [o for o, _ in jobs]

def driver(src, out, variant='rel', name='driver', objs=None, extra=()):
    v = VARIANTS[variant]
    objs = objs if objs is not None else library(src, out + '/obj-' + variant, variant)
    exe = os.path.join(out, '%s-%s' % (name, variant))
    lib = os.path.join(out, 'libti-%s.a' % variant)
    if os.path.exists(lib):
        os.unlink(lib)
    run(['ar', 'rcs', lib] + objs)
    flags = [f for f in v['flags'] if 'fast-math' not in f and 'finite' not in f]
    run([v['cxx'], '-std=c++17'] + flags + ['-DVARIANT_' + variant.upper(), '-I', src, '-I', VERIF + '/harness', VERIF + '/harness/%s.cc' % name, *extra, lib, '-o', exe,
         '-lm', '-lpthread'] + v['link'])
    return exe

def java(out):
    os.makedirs(out, exist_ok=True)
    run(['javac', '-nowarn', '-d', out, '-cp', TLA] + glob.glob(VERIF + '/java/tind/*.java'))
    return out
