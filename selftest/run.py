#!/usr/bin/env python3
"""Runs the checks against small scratch variants of /repo's sources (selftest/variants.py):
  broken variants must make the named check exit 1 - equivalent variants must leave every check quiet.
usage: run.py [substring ...]"""
import os, re, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'selftest'))
sys.dont_write_bytecode = True
from variants import BROKEN, SAME

sys.path.insert(0, os.path.join(HERE, 'lib'))
import facts
BASE = {}


def prepare():
    """facts of /repo itself, and what each of its translation units includes: variants only need the units they change"""
    tus = facts.lib_sources() + facts.tu_sources()
    facts.load(tus)
    sgxh = facts.ensure_sgx()
    th, _ = facts.tree_hash(sgxh)
    dep = os.path.join(facts.BUILD, 'deps.' + th + '.json')
    if not os.path.exists(dep):
        def deps(t):
            src = os.path.join(HERE, t) if t.startswith('tu/') else os.path.join('/repo', t)
            r = subprocess.run(['clang++-18', '-MM'] + facts.FLAGS + [src], stdout=subprocess.PIPE)
            return [os.path.normpath(x) for x in r.stdout.decode().replace('\\\n', ' ').split()[1:]]
        with ThreadPoolExecutor(max_workers=8) as ex:
            d = dict(zip(tus, ex.map(deps, tus)))
        json.dump(d, open(dep, 'w'))
    BASE.update(deps=json.load(open(dep)), dir=os.path.join(facts.BUILD, 'facts', th), sgxh=sgxh)


def seed(d, edits):
    th, _ = facts.tree_hash(BASE['sgxh'], d)
    out = os.path.join(facts.BUILD, 'facts', th)
    os.makedirs(out, exist_ok=True)
    changed = {'/repo/stingraykit/' + e[0] for e in edits}
    for t, ds in BASE['deps'].items():
        if changed & set(ds):
            continue
        f = t.replace('/', '__') + '.jsonl'
        s = open(os.path.join(BASE['dir'], f)).read()
        with open(os.path.join(out, f), 'w') as fd:
            fd.write(s.replace('/repo/stingraykit', d + '/stingraykit'))
    return out


ALL = os.environ["PROPS"].split() if "PROPS" in os.environ else [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]


def one(v):
    kind, name, props, edits = v
    d = tempfile.mkdtemp(prefix='sgxvar')
    cache = None
    try:
        shutil.copytree('/repo/stingraykit', os.path.join(d, 'stingraykit'))
        for fn, old, new, *al in edits:
            p = os.path.join(d, 'stingraykit', fn)
            s = open(p).read()
            if s.count(old) < 1:
                return (v, 'STALE: text not found in ' + fn)
            s = s.replace(old, new) if al else s.replace(old, new, 1)
            open(p, 'w').write(s)
        cache = seed(d, edits)
        env = dict(os.environ, SGX_REPO=d, SGX_EVIDENCE=d)
        out = []
        for p in props:
            r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
            t = r.stdout.decode('utf-8', 'replace')
            out.append((p, r.returncode, t))
        return (v, out)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        if cache:
            shutil.rmtree(cache, ignore_errors=True)


def main():
    pats = sys.argv[1:]
    jobs = []
    for name, props, edits in BROKEN:
        jobs.append(('broken', name, props.split(), edits))
    for name, edits in SAME:
        jobs.append(('same', name, ALL, edits))
    if pats:
        jobs = [j for j in jobs if any(p in j[1] or p in j[2] and j[0] == 'broken' or p == j[0] for p in pats)]
    if os.environ.get('ONLY'):
        jobs = [j for j in jobs if j[0] == os.environ['ONLY']]
    bad = 0
    prepare()
    with ThreadPoolExecutor(max_workers=int(os.environ.get("JOBS", "4"))) as ex:
        for v, out in ex.map(one, jobs):
            kind, name, props, edits = v
            if isinstance(out, str):
                print('??? %s %s' % (name, out))
                bad += 1
                continue
            for p, rc, t in out:
                want = 1 if kind == 'broken' else 0
                if rc != want:
                    bad += 1
                    print('BAD %s %s %s: exit %d\n%s' % (kind, name, p, rc, t[-1500:]))
                elif kind == 'broken':
                    first = next((l for l in t.splitlines() if l.startswith('  ')), '')
                    print('ok  %s %s: %s' % (name, p, first.strip()[:150]))
            if kind == 'same':
                print('ok? same %s' % name)
            sys.stdout.flush()
    print('%d variants, %d unexpected' % (len(jobs), bad))
    return 1 if bad else 0


sys.exit(main())
