"""Guarded-state analysis: every access to a guarded field happens while its mutex is held."""
from collections import defaultdict
from engine import *
from locks import *


class _T(object):
    _tiny_val = Expander._tiny_val


E_TINY = _T()


class Guard(object):
    def __init__(self, cls, files, fields, locks, exempt=None, raii=(), field_locks=None, handles=(), skip_ids=(), writes_only=None):
        self.cls = cls                  # 'stingray::X'
        self.files = files
        self.fields = list(fields)
        self.locks = locks              # alternatives: 'f' field mutex, '*f' pointee, 'sync:f' lock of a signal member
        self.exempt = exempt or {}      # function base name -> (set of fields or None, reason)
        self.raii = set(raii)           # scope-guard classes: analysed where they are used
        self.field_locks = field_locks or {}
        self.writes_only = writes_only or {}   # class of the entry point -> fields it may read without the lock (reason in the table)
        self.skip_ids = skip_ids        # instantiations without locking
        self.handles = set(handles)     # classes whose objects stand for guarded state handed out by a guarded field

    def resolve(self, P):
        """follow renamed members; returns a copy bound to the current tree"""
        snap = P.snap
        G = Guard(self.cls, self.files, [], [], self.exempt, self.raii, {}, self.handles, self.skip_ids, self.writes_only)
        ren = {}
        for f in self.fields:
            c = snap.field(self.cls, f)
            if c is not None:
                G.fields.append(c)
                ren[f] = c
        rl = lambda ls: [x for x in (self._lock(snap, l) for l in ls) if x]
        G.locks = rl(self.locks)
        G.field_locks = {ren[k]: rl(v) for k, v in self.field_locks.items() if k in ren}
        G.exempt = {k: (None if v[0] is None else set(ren.get(x, x) for x in v[0]), v[1]) for k, v in self.exempt.items()}
        if not G.fields or not G.locks:
            raise AnalysisBroken('%s: guarded fields or mutex vanished' % self.cls)
        return G

    def _lock(self, snap, l):
        pre = ''
        if l == 'self-sync':
            return l
        if l.startswith('sync:'):
            pre, l = 'sync:', l[5:]
        elif l.startswith('*'):
            pre, l = '*', l[1:]
        c = snap.field(self.cls, l)
        return pre + c if c else None


def lock_paths(base, cls, spec):
    out = []
    for l in spec:
        if l == 'self-sync':
            out.append(('sync', base))
        elif l.startswith('sync:'):
            out.append(('sync', ('deref', ('fld', ('fld', base, l[5:], cls), '_impl', 'stingray::signal'))))
        elif l.startswith('*'):
            out.append(('deref', ('fld', base, l[1:], cls)))
        else:
            out.append(('fld', base, l, cls))
    return out


def is_local(g, p):
    """a local object reached without dereferencing a shared pointer"""
    q = p
    while isinstance(q, tuple) and q and q[0] in ('fld', 'idx', 'addr'):
        q = q[1]
    if isinstance(q, tuple) and q:
        if q[0] in ('var', 'tmp', 'ret', 'res'):
            return True
        if q[0] == 'deref' and isinstance(q[1], tuple) and q[1] and q[1][0] == 'new':
            return True
    return False


def accessors(P, G):
    out = []
    names = set(G.fields)

    def has(v):
        if isinstance(v, list):
            if len(v) > 3 and v[0] == 'fld' and v[2] in names and strip_targs(v[3]) == G.cls:
                return True
            for x in v:
                if isinstance(x, list) and has(x):
                    return True
        return False
    for f in P.fns.values():
        if not in_files(f, G.files) or any(x in f.id for x in G.skip_ids):
            continue
        for nd in f.nodes:
            if any(k in nd and has(nd[k]) for k in ('p', 'v', 'obj', 'c', 'dst', 'callee')) or any(has(a) for a in nd.get('args', ())):
                out.append(f)
                break
    # accessors that merely hand the field out: their users touch it
    callers, _ = P.callers()
    ids = set(f.id for f in out)
    for f in list(out):
        t = E_TINY._tiny_val(f)
        if t and has(t[0]):
            for c in callers.get(f.id, ()):
                if c in P.fns and c not in ids and in_files(P.fns[c], G.files):
                    ids.add(c)
                    out.append(P.fns[c])
    return out


def guarded_sites(P, G, more_transparent=None, extra_roots=()):
    """yield (root, graph, {node index: [guarded field paths]})"""
    acc = accessors(P, G)
    roots = climb(P, acc + list(extra_roots), G.files, G.raii)
    tr = mk_transparent(G.files, more_transparent)
    E = Expander(P, tr, models=locky_models)
    for r in roots:
        own = r.fk in ('ctor', 'dtor') and r.scls == G.cls   # not shared yet / any more
        if not in_files(r, G.files) and r.fk != 'lambda':
            continue
        if r.o.get('defaulted') or r.o.get('implicit') or (r.o.get('cm') and r.scls == G.cls):
            continue
        g = E.run(r)
        sites = {}
        for n in g.nodes:
            if n.op == 'enter':
                continue
            l = []
            for p in accesses(n):
                for q in subflds(p):
                    if q[3] == G.cls and q[2] in G.fields:
                        if own and q[1] == ('this',):
                            continue
                        if is_local(g, q[1]):
                            continue
                        l.append(q)
            if l:
                sites[n.i] = l
        yield r, g, sites


def in_exempt(G, n, field, root):
    c = n.ctx
    while c is not None:
        e = G.exempt.get(c.fn.base)
        if e and (e[0] is None or field in e[0]):
            return True
        c = c.parent
    return False


def analyse(P, G0, ctx, infer=None):
    G = G0.resolve(P)
    sites = set()
    nroots = 0
    for r, g, acc_nodes in guarded_sites(P, G):
        ctx.count('graph_nodes', len(g.nodes))
        handles = {}
        if G.handles:
            for n in g.nodes:
                if n.op in ('call', 'enter') and n.cls in G.handles and n.raw.get('k') not in ('ctor', 'dtor') and n.base in ('Push', 'Pop'):
                    handles[n.i] = n
        if not acc_nodes and not handles:
            continue
        nroots += 1
        wo = G.writes_only.get(r.scls, ())
        ctx.sample(r.where())
        ex = Explorer(g, lock_transfer)
        seen = ex.run(frozenset())
        bad = {}
        for key in seen:
            ni, ls, env = key
            h = None
            if ni in acc_nodes:
                n = g.nodes[ni]
                h = held(ls)
                for q in acc_nodes[ni]:
                    if q[2] in wo and not any(q in subflds(m) for m in mutated(n)):
                        continue
                    spec = G.field_locks.get(q[2], G.locks)
                    ok = any(lp in h for lp in lock_paths(q[1], G.cls, spec))
                    sites.add((n.ctx.fn.id, n.raw.get('l'), q[2]))
                    if infer is not None:
                        infer[(G.cls, q[2])][0 if ok else 1].add(n.where())
                    if not ok and (ni, q) not in bad:
                        bad[(ni, q)] = (key, h, spec)
            if ni in handles:
                h = held(ls)
                sites.add((handles[ni].ctx.fn.id, handles[ni].raw.get('l'), handles[ni].base))
                if not any(isinstance(x, tuple) and x[0] == 'fld' and x[3] == G.cls and x[2] in G.locks for x in h):
                    bad[(ni, ('handle', handles[ni].sn, handles[ni].base))] = (key, h, G.locks)
        for (ni, q), (key, h, spec) in bad.items():
            n = g.nodes[ni]
            if q[0] == 'fld' and in_exempt(G, n, q[2], r):
                continue
            what = short(G.cls) + '::' + q[2] if q[0] == 'fld' else short(q[1]) + '()'
            ctx.report('%s accessed without %s held: %s; entry point %s; locks held: [%s]; path %s' % (
                what, ' or '.join(spec), n.where(), r.where(), ', '.join(show(x) for x in h), ex.trace(key)),
                key=(G.cls, q[2], r.sn, n.ctx.fn.sn))
    if not nroots:
        raise AnalysisBroken('%s: no access to its guarded state found' % G.cls)
    ctx.count('classes')
    ctx.count('guarded_fields', len(G.fields))
    ctx.count('entry_points', nroots)
    ctx.count('access_sites', len(sites))
    return len(sites)
