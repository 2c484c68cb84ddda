"""Components: the files implementing one thread-safe part of the library, and the flow graphs of its entry points."""
from engine import *
from locks import *
from table import GUARDS

EXTRA = [
    # (files, raii classes)
    (['function/CancellableFunction.h', 'function/AsyncFunction.h'], []),
]


class Component(object):
    def __init__(self, files):
        self.files = files
        self.raii = set()
        self.skip = set()
        self.classes = []

    def name(self):
        return self.files[0]


def components():
    out = {}
    for G in GUARDS:
        c = out.get(tuple(G.files))
        if c is None:
            c = out[tuple(G.files)] = Component(G.files)
        c.raii |= G.raii
        c.skip |= set(G.skip_ids)
        c.classes.append(G.cls)
    for files, raii in EXTRA:
        c = out.setdefault(tuple(files), Component(files))
        c.raii |= set(raii)
    return list(out.values())


def by_file(fn):
    for c in components():
        if fn in c.files:
            return c
    c = Component([fn])
    return c


def roots(P, c, only=None):
    fns = [f for f in P.fns.values() if in_files(f, c.files) and not any(x in f.id for x in c.skip)]
    out = []
    for r in climb(P, fns, c.files, c.raii):
        if not in_files(r, c.files) and r.fk != 'lambda':
            continue
        if r.o.get('defaulted') or r.o.get('implicit'):
            continue
        if only and not only(r):
            continue
        out.append(r)
    return out


def entry_graphs(P, c, more=None, only=None, models=locky_models, **kw):
    E = Expander(P, mk_transparent(c.files, more), models=models, **kw)
    for r in roots(P, c, only):
        yield r, E.run(r)
