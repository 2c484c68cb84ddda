#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy and files them under seeded/.
usage: mkseed.py SPECDIR [id ...]   SPECDIR/<id>/: edits.py (PROP, NEEDS, WHAT, EDITS=[(file, old, new)]), demo.cpp, optional demo.sh"""
import os, shutil, subprocess, sys, json, runpy

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SR = '/tmp/sr'
DEMO = '''#!/bin/bash
# exit 0: behaves as specified; nonzero: the guarantee is broken.  Run with the repository as working directory, after its build.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++14 -g -fno-strict-aliasing -pthread -w -DDEBUG -DHAVE_ABI_FORCE_UNWIND=1 -DHAVE_ATOMIC_BUILTINS=1 -DHAVE_ICU_I18N=1 -DHAVE_POSIX_SPAWN=1 \\
	-DHAVE_POSIX_THREADS=1 -DHAVE_PTHREAD_SETNAME -DHAVE_SYNC_AAF=1 -DHAVE_SYNC_EAA_EXT=1 -DPLATFORM_POSIX=1 -DPOSIX_HAVE_MONOTONIC_TIMER=1 \\
	-DSTINGRAYKIT_HAS_THREAD_KEYWORD=1 -DSTINGRAYKIT_USES_GCC_VISIBILITY=1 -DSTINGRAY_DEFAULT_LOGLEVEL=Info -DU_STATIC_IMPLEMENTATION=1 -D_REENTRANT=1 \\
	-DSTINGRAY_LIB_SOURCE @XF@ -I"$R" "$D/demo.cpp" -o "$T/demo" "$R/_build/lib/libstingraykit.a" -licuuc -licui18n -licudata -lpthread -lrt || exit 2
timeout -k 5 @TO@ "$T/demo"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def build():
    return sh('cd %s && ninja -C _build -j8 all stingraykit-test' % SR)


def main():
    specs = sys.argv[1]
    ids = sys.argv[2:] or sorted(os.listdir(specs))
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    sh('git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (SR, SR))
    for i in ids:
        d = os.path.join(specs, i)
        sp = runpy.run_path(os.path.join(d, 'edits.py'))
        out = os.path.join(HERE, 'seeded', i)
        sh(['git', '-C', SR, 'checkout', '-q', '--', '.'])
        stale = None
        for fn, old, new in sp['EDITS']:
            p = os.path.join(SR, 'stingraykit', fn)
            s = open(p).read()
            if s.count(old) != 1:
                stale = '%s: %d matches of %r' % (fn, s.count(old), old[:60])
                break
            open(p, 'w').write(s.replace(old, new))
        if stale:
            print('%s STALE %s' % (i, stale))
            continue
        tmp = '/tmp/x/out/' + i
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        for f in os.listdir(d):
            if f != 'edits.py':
                shutil.copy(os.path.join(d, f), tmp)
        if not os.path.exists(tmp + '/demo.sh'):
            open(tmp + '/demo.sh', 'w').write(DEMO.replace('@XF@', sp.get('XF', '')).replace('@TO@', str(sp.get('TO', 120))))
        os.chmod(tmp + '/demo.sh', 0o755)
        open(tmp + '/patch.diff', 'wb').write(sh(['git', '-C', SR, 'diff']).stdout)
        json.dump({'property': sp['PROP'], 'needs': sp['NEEDS'], 'what_it_breaks': sp['WHAT']}, open(tmp + '/meta.json', 'w'), indent=1)
        res = []
        r = sh(['bash', tmp + '/demo.sh'], cwd='/repo')
        if r.returncode != 0:
            print('%s BAD demo fails on the clean tree (%d): %s' % (i, r.returncode, r.stdout.decode('utf-8', 'replace')[-700:]))
            continue
        c = sh([sys.executable, os.path.join(HERE, 'check.py'), sp['PROP']], env=dict(os.environ, SGX_REPO=SR, SGX_EVIDENCE='/tmp/x/ev'))
        b = build()
        if b.returncode != 0:
            print('%s BAD does not build: %s' % (i, b.stdout.decode('utf-8', 'replace')[-1500:]))
            continue
        fails = [sh(['bash', tmp + '/demo.sh'], cwd=SR) for _ in range(2)]
        if any(f.returncode in (0, 2) for f in fails):
            print('%s BAD demo passes with the change: %s %s' % (i, [f.returncode for f in fails], fails[0].stdout.decode('utf-8', 'replace')[-500:]))
            continue
        if '--notest' not in os.environ.get('SEED', ''):
            rep = '/tmp/x/rep'
            shutil.rmtree(rep, ignore_errors=True)
            os.makedirs(rep)
            sh('python3 /opt/vp/run_gtests.py %s/_build/build/stingraykit-test %s; python3 /opt/vp/results.py /tmp/x/res.json "junit:%s/*.xml"' % (SR, rep, rep), cwd=SR + '/_build', env=dict(os.environ, TZ='UTC', LANG='C.UTF-8'))
            ok = set(json.load(open('/tmp/x/res.json'))['passed'])
            if base - ok:
                print('%s BAD tests fail: %s' % (i, sorted(base - ok)[:5]))
                continue
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        t = c.stdout.decode('utf-8', 'replace').splitlines()
        print('%s filed (demo exits %s); check %s exits %d: %s' % (i, [f.returncode for f in fails], sp['PROP'], c.returncode, (t[0] if c.returncode == 1 else t[-1])[:160]))
        sys.stdout.flush()
    sh(['git', '-C', SR, 'checkout', '-q', '--', '.'])
    sh('cd %s && ninja -C _build -j8 all' % SR)


main()
