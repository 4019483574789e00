"""Build and run the native harnesses (replay of counterexamples and bounded search) against the real code of /repo."""
import os, subprocess, hashlib, json, concurrent.futures as cf, glob
from . import build
from .build import REPO, BUILD, ROOT, CLANG, BuildError
OFLAGS = ['-std=gnu++98', '-O1', '-g', '-ffp-contract=off', '-fsanitize=address', '-fno-omit-frame-pointer', '-I.', '-Iinclude', '-D_LARGEFILE64_SOURCE', '-Wno-everything', '-D__DATE__="d"', '-D__TIME__="t"', '-fno-access-control']
HFLAGS = ['-std=gnu++17', '-O1', '-g', '-ffp-contract=off', '-fsanitize=address', '-fno-omit-frame-pointer', '-I.', '-Iinclude', '-D_LARGEFILE64_SOURCE', '-Wno-everything', '-D__DATE__="d"', '-D__TIME__="t"', '-fno-access-control', '-DBOOST_BIND_GLOBAL_PLACEHOLDERS', '-I' + os.path.join(ROOT, 'native')]
LIBS = ['-lboost_system', '-lboost_thread', '-lpthread', '-lstatgrab', '-lboost_filesystem', '-lboost_iostreams', '-lboost_date_time']

def run(cmd, **k): return subprocess.run(cmd, capture_output=True, **k)

def obj(src, flags):
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    pp = run([CLANG] + flags + ['-E', src], cwd=REPO)
    if pp.returncode: raise BuildError('%s: %s' % (src, pp.stderr.decode()[-1500:]))
    h = hashlib.sha256(pp.stdout + repr(flags).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, 'obj', os.path.basename(src).replace('.cpp', '') + '-' + h + '.o')
    if os.path.exists(out): return out
    tmp = out + '.%d' % os.getpid()
    r = run([CLANG] + flags + ['-c', '-o', tmp, src], cwd=REPO)
    if r.returncode: raise BuildError('%s: %s' % (src, r.stderr.decode()[-3000:]))
    os.rename(tmp, out); return out

def repo_tus(daemon=True):
    t = sorted(glob.glob(os.path.join(REPO, 'lib', '*.cpp')))
    if daemon: t += [x for x in sorted(glob.glob(os.path.join(REPO, 'daemon', '*.cpp'))) if not x.endswith('/main.cpp')]
    return [os.path.relpath(x, REPO) for x in t if daemon or not x.endswith('lib/test.cpp')]

def harness(name, daemon=False, exclude=()):
    src = os.path.join(ROOT, 'native', name + '.cpp')
    tus = [t for t in repo_tus(daemon) if t not in exclude]
    with cf.ThreadPoolExecutor(8) as ex:
        old = src.replace('.cpp', '98.cpp')      # the part of a harness that needs the layouts of the code under test
        fs = [ex.submit(obj, src, HFLAGS)] + ([ex.submit(obj, old, OFLAGS)] if os.path.exists(old) else []) + [ex.submit(obj, t, OFLAGS) for t in tus]
        objs = [f.result() for f in fs]
    h = hashlib.sha256(repr(objs).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, name + '-' + h)
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        # archive semantics are not needed: link every object
        r = run([CLANG, '-fsanitize=address', '-o', tmp] + objs + LIBS)
        if r.returncode: raise BuildError('link of %s: %s' % (name, r.stderr.decode()[-3000:]))
        os.rename(tmp, out)
    return out

ENV = dict(os.environ, ASAN_OPTIONS='exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=0', TZ='UTC', LC_ALL='C')
ENV.pop('DEBUG_ISTATD', None)
def search(binary, prop, seed, secs, out):
    r = run([binary, 'search', prop, str(seed), str(secs), out], env=ENV, timeout=secs * 4 + 300)
    return parse(r)
def replay(binary, prop, path):
    return parse(run([binary, 'replay', prop, path], env=ENV, timeout=300))
def parse(r):
    try: d = json.loads(r.stdout.decode('ascii', 'replace').strip().split('\n')[-1])
    except Exception: raise BuildError('harness output: rc %s %r %r' % (r.returncode, r.stdout[-300:], r.stderr[-300:]))
    return d
