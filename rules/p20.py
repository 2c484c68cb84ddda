"""Lock order: there is one order in which locks are taken together."""
from engine import *
from locks import *
from comp import by_file, roots, components

RULE = ('over all functions: an edge runs from each lock certainly held to each lock that the function then takes, itself or in the operations it calls; locks are told apart by the class and member they belong to; '
        'the relation has no cycle')
EXPLAIN = 'must-hold lock sets over the interprocedural flow graph of every entry point, with transitive lock summaries of the operations called; cycle search in the order relation of lock classes'
ASSUMES = ['user callbacks and virtual calls are outside (no internal lock is held around user code: P03)']

S = 'stingray::'


def lockname(p):
    for _ in range(10):
        if not isinstance(p, tuple) or not p:
            return None
        if p[0] == 'fld' and len(p) > 3:
            c = strip_targs(p[3])
            return None if c in (S + 'GenericMutexUnlock', S + 'GenericMutexLock') else (c, p[2])
        if p[0] in ('deref', 'addr', 'cast'):
            p = p[-1] if p[0] == 'cast' else p[1]
            continue
        if p[0] == 'gvar':
            return ('', p[1])
        return None


def tup(v):
    return tuple(tup(x) for x in v) if isinstance(v, list) else v


class Summary(object):
    """locks a function may take, by itself or through what it calls"""
    def __init__(self, P):
        self.P = P
        self.memo = {}

    def ret(self, fid):
        f = self.P.fns.get(fid)
        if f is None:
            return None
        rs = set(lockname(tup(n.get('v'))) for n in f.nodes if n.get('op') == 'ret')
        return rs.pop() if len(rs) == 1 else None

    def direct(self, f):
        out, calls = {}, set()
        res = {}
        for n in f.nodes:
            if n.get('op') != 'call':
                continue
            if n.get('dst') is not None and n.get('fn'):
                res[tup(n['dst'])] = n['fn']
        for n in f.nodes:
            if n.get('op') != 'call':
                continue
            cls = strip_targs(n.get('cls') or '')
            m = None
            if n.get('k') == 'ctor' and cls == S + 'GenericMutexLock' and n.get('args'):
                m = tup(n['args'][0])
            elif n.get('n', '').endswith('PosixMutex::Lock'):
                m = tup(n.get('obj'))
            if m is not None:
                name = lockname(m)
                if name is None:
                    k = m
                    while isinstance(k, tuple) and k and k[0] in ('deref', 'addr'):
                        k = k[1]
                    if k in res:
                        name = self.ret(res[k])
                if name:
                    out.setdefault(name, '%s:%s' % (relfile(f.file), n.get('l')))
                continue
            if n.get('fn') and not n.get('virt') and 'GenericMutexUnlock::' not in n.get('n', ''):
                calls.add(n['fn'])
        return out, calls

    def of(self, fid):
        if fid in self.memo:
            return self.memo[fid]
        seen, st, out = set(), [fid], {}
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            f = self.P.fns.get(x)
            if f is None:
                continue
            if x in self.memo and x != fid:
                for k, v in self.memo[x].items():
                    out.setdefault(k, v)
                continue
            if x not in self.D:
                self.D[x] = self.direct(f)
            o, c = self.D[x]
            for k, v in o.items():
                out.setdefault(k, v)
            st.extend(c)
        self.memo[fid] = out
        return out

    D = {}


def bound_in(P):
    """{class: member functions bound into callbacks handed to its constructor}"""
    out = {}
    for f in P.fns.values():
        taint = {}
        if not any(n.get('op') == 'call' and any(isinstance(a, list) and a and a[0] == 'memfn' for a in n.get('args', ())) for n in f.nodes):
            continue
        for _ in range(4):
            for n in f.nodes:
                if n.get('op') != 'call':
                    continue
                c = set()
                for a in n.get('args', ()):
                    if isinstance(a, list) and a:
                        if a[0] == 'memfn':
                            c.add(a[1])
                        c |= taint.get(tup(a), set())
                if not c:
                    continue
                b = n.get('n', '')
                if n.get('k') == 'ctor':
                    cls = strip_targs(n.get('cls') or '')
                    if n.get('obj') is not None:
                        taint.setdefault(tup(n['obj']), set()).update(c)
                    out.setdefault(cls, set()).update(c)
                elif b.split('::')[-1].startswith('make_') and n.get('fn') in P.fns:
                    t = P.fns[n['fn']].o.get('ret', '')
                    if '<' in t:
                        out.setdefault(strip_targs(t[t.index('<') + 1:].split(',')[0].rstrip('> ')), set()).update(c)
                if n.get('dst') is not None:
                    taint.setdefault(tup(n['dst']), set()).update(c)
    return out


def must_held(g):
    ins = {g.entry: frozenset()}
    st = [g.entry]
    while st:
        i = st.pop()
        n = g.nodes[i]
        ls = ins[i]
        out, eh = lock_transfer(n, ls)
        for j, l in [(x, out) for x in n.s] + ([(n.eh, eh)] if n.eh is not None else []):
            l = frozenset((q, k) for q, k in l if k > 0)
            if j not in ins:
                ins[j] = l
                st.append(j)
            else:
                d = dict(l)
                m = frozenset((q, min(k, d[q])) for q, k in ins[j] if q in d)
                if m != ins[j]:
                    ins[j] = m
                    st.append(j)
    return ins


def run(ctx, P):
    sm = Summary(P)
    edges = {}
    files = set()
    cb = bound_in(P)
    for f in P.fns.values():
        if '/stingraykit/' not in f.file:
            continue
        o, c = sm.direct(f)
        sm.D[f.id] = (o, c)
        if o or any(n.get('op') == 'call' and n.get('k') == 'ctor' and strip_targs(n.get('cls') or '') == S + 'GenericMutexLock' for n in f.nodes):
            r = relfile(f.file)
            files.add(r[len('stingraykit/'):] if r.startswith('stingraykit/') else r)
    done = set()
    for fn in sorted(files):
        if fn.startswith('thread/GenericMutexLock') or fn in done:
            continue
        c = by_file(fn)
        done |= set(c.files)
        E = Expander(P, mk_transparent(c.files), models=locky_models)
        for r in roots(P, c):
            if not any(sm.of(r.id)):
                continue
            g = E.run(r)
            ctx.count('entry_points')
            H = must_held(g)
            for n in g.nodes:
                if n.op != 'call' or n.i not in H or not H[n.i]:
                    continue
                hs = set(h for h in (lockname(q) for q, k in H[n.i]) if h)
                if not hs:
                    continue
                p = prim(n)
                if n.base == 'operator()' and 'function' in n.cls and n.obj is not None and isinstance(n.obj, tuple) and n.obj[0] == 'fld':
                    takes = {}
                    for m in cb.get(strip_targs(n.obj[3]), ()):
                        takes.update(sm.of(m))
                elif p:
                    takes = {lockname(p[1]): n.where()} if p[0] == 'lock' and lockname(p[1]) else {}
                else:
                    takes = sm.of(n.raw.get('fn')) if n.raw.get('fn') and not n.raw.get('virt') else {}
                for b, w in takes.items():
                    for a in hs:
                        if a != b:
                            edges.setdefault(a, {}).setdefault(b, '%s takes %s at %s holding %s (entry point %s)' % (n.ctx.fn.sn.split('::')[-1], name(b), w if p else '%s, called at %s' % (w, n.where()), name(a), r.where()))
    n = sum(len(v) for v in edges.values())
    ctx.count('order_edges', n)
    for a in sorted(edges):
        for b in sorted(edges[a]):
            ctx.sample('%s before %s' % (name(a), name(b)))
    for comp in cycles(edges):
        ring = sorted(comp)
        how = [edges[a][b] for a in ring for b in ring if b in edges.get(a, {})]
        ctx.report('locks %s are taken together in different orders: %s' % (', '.join(name(x) for x in ring), '; '.join(how[:4])), key=tuple(name(x) for x in ring))
    ctx.need('pairs of locks taken together', n, 3)


def name(x):
    return '%s::%s' % (short(x[0]), x[1]) if x[0] else short(x[1])


def cycles(edges):
    """strongly connected components with more than one lock"""
    index, low, stack, on, out = {}, {}, [], set(), []
    def visit(v):
        index[v] = low[v] = len(index)
        stack.append(v)
        on.add(v)
        for w in edges.get(v, ()):
            if w not in index:
                visit(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            comp = []
            while True:
                w = stack.pop()
                on.discard(w)
                comp.append(w)
                if w == v:
                    break
            if len(comp) > 1:
                out.append(comp)
    for v in sorted(edges):
        if v not in index:
            visit(v)
    return out
