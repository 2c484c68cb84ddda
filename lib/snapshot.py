"""Names known on the confirmed tree (data/base.json).

Used only to keep rules stable under renaming and helper extraction: a function whose name is not in the snapshot is a
helper somebody added, and is analysed through its callers; a field or private method that disappeared while exactly one
new member of the same type appeared is a rename."""
import json, os, re
from collections import defaultdict
from engine import *

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'base.json')


def sig(f):
    return '%s(%s)' % (strip_targs(f.o.get('ret', '')), ','.join(strip_targs(p['t']) for p in f.params))


def make(P):
    fns = defaultdict(set)
    for f in P.fns.values():
        rf = relfile(f.file)
        if rf.startswith('stingraykit/'):
            fns[f.sn].add(sig(f))
    fields = defaultdict(dict)
    for n, l in P.recs.items():
        for r in l:
            c = strip_targs(n)
            for x in r['fields']:
                fields[c].setdefault(x['n'], strip_targs(x['t']))
    return {'fns': {k: sorted(v) for k, v in sorted(fns.items())}, 'fields': {k: v for k, v in sorted(fields.items()) if k.startswith('stingray')}}


class Snapshot(object):
    def __init__(self, P):
        self.P = P
        with open(DATA) as f:
            d = json.load(f)
        self.fns = d['fns']
        self.fields = d['fields']
        self._cur = None

    def is_new(self, f):
        return f.sn not in self.fns

    def cur_fields(self, cls):
        if self._cur is None:
            self._cur = defaultdict(dict)
            for n, l in self.P.recs.items():
                for r in l:
                    for x in r['fields']:
                        self._cur[strip_targs(n)].setdefault(x['n'], strip_targs(x['t']))
        return self._cur.get(cls, {})

    def field(self, cls, name):
        """current name of a field of the confirmed tree, or None"""
        cur = self.cur_fields(cls)
        if name in cur:
            return name
        base = self.fields.get(cls, {})
        t = base.get(name)
        if t is None:
            return None
        new = [n for n, x in cur.items() if n not in base and x == t]
        gone = [n for n, x in base.items() if n not in cur and x == t]
        if len(new) == 1 and len(gone) == 1:
            return new[0]
        if new and len(new) == len(gone):
            # same order of declaration
            return new[gone.index(name)]
        return None

    def method(self, sn):
        """functions of the current tree that stand for the named function of the confirmed tree"""
        l = self.P.by_sn.get(sn)
        if l:
            return l
        sigs = set(self.fns.get(sn, ()))
        if not sigs:
            return []
        cls = sn.rsplit('::', 1)[0]
        out = [f for k, fs in self.P.by_sn.items() if k.rsplit('::', 1)[0] == cls and k not in self.fns for f in fs if sig(f) in sigs]
        return out if len(set(f.sn for f in out)) == 1 else []


if __name__ == '__main__':
    import facts
    P = facts.load(facts.lib_sources() + facts.tu_sources())
    os.makedirs(os.path.dirname(DATA), exist_ok=True)
    with open(DATA, 'w') as f:
        json.dump(make(P), f, indent=0, sort_keys=True)
    print(DATA)
