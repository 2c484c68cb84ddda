#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property from the current source of /repo.  Exit 0: no violation (known findings are printed);
exit 1: a VIOLATION line was printed; exit 2: the analysis itself could not be carried out."""
import importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import engine
import facts
from engine import AnalysisBroken
from snapshot import Snapshot


class Ctx(object):
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.stats = {}
        self.found = []
        self.keys = set()
        self.samples = []
        self.notes = []

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 40:
            self.samples.append(s)

    def report(self, msg, key=None):
        key = tuple(str(x) for x in key) if key is not None else (msg,)
        if key in self.keys:
            return
        self.keys.add(key)
        self.found.append((key, msg))

    def need(self, what, n, minimum):
        if n < minimum:
            raise AnalysisBroken('%s: %d instances analysed, at least %d expected (vanished anchor)' % (what, n, minimum))

    def broken(self, msg):
        raise AnalysisBroken(msg)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    evd = os.environ.get('SGX_EVIDENCE') or os.path.join(HERE, 'evidence')
    ev = os.path.join(evd, pid + '.json')
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    mod = importlib.import_module('rules.' + pid.lower())
    ctx = Ctx(pid, tier)
    try:
        P = facts.load(facts.lib_sources() + facts.tu_sources())
        P.snap = Snapshot(P)
        ctx.P = P
        mod.run(ctx, P)
    except AnalysisBroken as e:
        if not ctx.found:
            print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
            return 2
        ctx.notes.append('analysis incomplete: %s' % e)
    except Exception:
        traceback.print_exc()
        if not ctx.found:
            print('ANALYSIS-BROKEN property=%s internal error' % pid)
            return 2
    known = []
    kf = os.path.join(HERE, 'KNOWN_FINDINGS.json')
    if os.path.exists(kf):
        with open(kf) as f:
            known = [k for k in json.load(f)['findings'] if k['property'] == pid]
    new = []
    for key, msg in ctx.found:
        k = next((k for k in known if tuple(k['key']) == key), None)
        if k is not None:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        else:
            new.append((key, msg))
    cov = dict(ctx.stats)
    cov['explanation'] = mod.EXPLAIN
    cov['rule'] = mod.RULE
    cov['samples'] = ctx.samples[:20]
    cov['translation_units'] = len(P.tus)
    cov['functions_loaded'] = len(P.fns)
    if ctx.notes:
        cov['notes'] = ctx.notes
    out = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
           'assumptions': getattr(mod, 'ASSUMES', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    with open(ev, 'w') as f:
        json.dump(out, f, indent=1, sort_keys=True)
        f.write('\n')
    if new:
        rp = os.path.join(evd, pid + '.violations.txt')
        with open(rp, 'w') as f:
            for key, msg in new:
                f.write('%s\n    key: %s\n' % (msg, json.dumps(key)))
        for key, msg in new[:20]:
            print('  %s' % msg)
            if os.environ.get('SHOWKEY'):
                print('      key', json.dumps(key))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s %s (%.1fs)' % (pid, ' '.join('%s=%s' % (k, v) for k, v in sorted(ctx.stats.items())), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
