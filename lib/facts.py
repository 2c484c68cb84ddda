"""Builds the extractor if needed, runs it over the requested translation units of /repo's current tree and loads the
facts.  Results are cached under build/facts/<hash of every source file + extractor + flags>; a changed tree never
reuses facts of another tree."""
import hashlib, os, subprocess, sys, shutil, time
from concurrent.futures import ThreadPoolExecutor
import engine
from engine import AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = engine.REPO
BUILD = os.path.join(VERIF, 'build')
SGX = os.path.join(BUILD, 'sgx')

DEFS = ('-DDEBUG -DHAVE_ABI_FORCE_UNWIND=1 -DHAVE_ATOMIC_BUILTINS=1 -DHAVE_ICU_I18N=1 -DHAVE_POSIX_SPAWN=1 -DHAVE_POSIX_THREADS=1 '
        '-DHAVE_PTHREAD_SETNAME -DHAVE_SYNC_AAF=1 -DHAVE_SYNC_EAA_EXT=1 -DPLATFORM_POSIX=1 -DPOSIX_HAVE_MONOTONIC_TIMER=1 '
        '-DSTINGRAYKIT_HAS_THREAD_KEYWORD=1 -DSTINGRAYKIT_USES_GCC_VISIBILITY=1 -DSTINGRAY_DEFAULT_LOGLEVEL=Info '
        '-DU_STATIC_IMPLEMENTATION=1 -D_REENTRANT=1').split()
def flags(repo):
    return DEFS + ['-I' + repo, '-I' + os.path.join(VERIF, 'tu'), '-fno-strict-aliasing', '-fvisibility=hidden', '-std=gnu++14', '-pthread',
                '-DSTINGRAY_LIB_SOURCE', '-w', '-ferror-limit=5', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']


FLAGS = flags(REPO)

# sources the build does not compile
NOT_BUILT = ('diagnostics/LibunwindBacktrace.cpp', 'diagnostics/gcc/Backtrace.cpp', 'thread/posix/Backtrace.cpp')


def ensure_sgx():
    src = os.path.join(VERIF, 'tool', 'sgx.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    stamp = SGX + '.stamp'
    if os.path.exists(SGX) and os.path.exists(stamp) and open(stamp).read() == h:
        return h
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(['bash', os.path.join(VERIF, 'tool', 'build.sh'), SGX], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise AnalysisBroken('cannot build the extractor: ' + r.stdout.decode('utf-8', 'replace')[-2000:])
    with open(stamp, 'w') as f:
        f.write(h)
    return h


def tree_hash(sgxh, repo=REPO):
    h = hashlib.sha256(sgxh.encode())
    h.update(' '.join(flags(repo)).encode())
    files = []
    for base in (os.path.join(repo, 'stingraykit'), os.path.join(VERIF, 'tu')):
        for d, ds, fs in os.walk(base):
            for f in fs:
                if f.endswith(('.h', '.cpp', '.hpp', '.inl', '.cc')):
                    files.append(os.path.join(d, f))
    for f in sorted(files):
        h.update(f.encode())
        with open(f, 'rb') as fd:
            h.update(hashlib.sha256(fd.read()).digest())
    return h.hexdigest()[:24], files


def lib_sources():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, 'stingraykit')):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), REPO)
            if f.endswith('.cpp') and not any(p.endswith(x) for x in NOT_BUILT):
                out.append(p)
    return sorted(out)


def tu_sources():
    d = os.path.join(VERIF, 'tu')
    return sorted('tu/' + f for f in os.listdir(d) if f.endswith('.cpp'))


def _extract(args):
    tu, out = args
    if os.path.exists(out):
        return None
    src = os.path.join(VERIF, tu) if tu.startswith('tu/') else os.path.join(REPO, tu)
    if not os.path.exists(src):
        return 'missing translation unit ' + tu
    tmp = out + '.%d.tmp' % os.getpid()
    cmd = [SGX, tmp, src, '--root', os.path.join(REPO, 'stingraykit'), '--root', os.path.join(VERIF, 'tu'), '--'] + FLAGS
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=BUILD)
    if r.returncode != 0 or not os.path.exists(tmp):
        return 'extraction of %s failed: %s' % (tu, r.stdout.decode('utf-8', 'replace')[-1500:])
    os.rename(tmp, out)
    return None


def load(tus):
    sgxh = ensure_sgx()
    th, files = tree_hash(sgxh)
    base = os.path.join(BUILD, 'facts')
    cache = os.path.join(base, th)
    os.makedirs(cache, exist_ok=True)
    # keep the cache small: drop facts of other trees
    try:
        others = sorted((os.path.getmtime(os.path.join(base, x)), x) for x in os.listdir(base) if x != th)
        for t, x in others[:-4]:
            if time.time() - t < 1200:
                continue    # another run may still be using it
            shutil.rmtree(os.path.join(base, x), ignore_errors=True)
    except OSError:
        pass
    jobs = [(t, os.path.join(cache, t.replace('/', '__') + '.jsonl')) for t in tus]
    with ThreadPoolExecutor(max_workers=8) as ex:
        errs = [e for e in ex.map(_extract, jobs) if e]
    if errs:
        raise AnalysisBroken('; '.join(errs))
    P = engine.Program()
    seen = set()
    for t, out in jobs:
        P.load(out, seen)
        P.tus.append(t)
    return P
