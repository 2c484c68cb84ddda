"""Life times: background work an object starts is over before anything it uses is gone, and never begins before what it uses is there."""
import re
from engine import *
from locks import *
from comp import by_file, roots

RULE = ('for every callback bound to the object itself and kept going by one of its members (thread, timer, executor, subscription or other token): every member the callback uses is declared before the member that keeps it '
        'going, or the destructor stops that member on every path before it ends; no member is read in a constructor before it is constructed; the member is never stopped or replaced while a lock is held that the '
        'callback takes; a thread object cancels, revokes the life token of, and joins its thread on every path of its destructor, in this order and with interruption points off, and its constructor waits for the thread to have started')
EXPLAIN = 'value flow of bound callbacks into data members over the flow graphs of all constructors and operations, effect analysis of each callback (members used, locks taken), and comparison with construction and destruction order'
ASSUMES = ['destroying a token, thread or timer waits for the callback it keeps going (P04, and the thread rule here)', 'members are destroyed in reverse order of declaration']

S = 'stingray::'
OWNER = re.compile(r'\bstingray::(?:I?Thread|Token|TokenPool|ThreadlessTokenPool|BasicTokenPool|TaskLifeToken|Timer|ThreadTaskExecutor|ThreadPool|ThreadPool::WorkerWrapper|ExecutionDeferrer|ExecutionDeferrerWithTimer|IToken|SignalConnectionToken)\b(?!::)')
STOPS = ('reset', 'Reset', 'Release', 'Stop', 'clear', 'Cancel')


def top(p):
    """(owner class, field) if p is a member of this object"""
    p = bare_cast(p)
    if isinstance(p, tuple) and len(p) > 3 and p[0] == 'fld' and bare_cast(p[1]) == ('this',):
        return p[3], p[2]
    return None


def bare_cast(p):
    while isinstance(p, tuple) and p and p[0] == 'cast':
        p = p[-1]
    return p


def members(v, out):
    """members of this object mentioned in a value"""
    st = [v]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x:
            continue
        t = top(x)
        if t:
            out.add(t)
            continue
        st.extend(y for y in x if isinstance(y, tuple))


def self_bound(n):
    """id of the member function of this object that is bound here"""
    if n.base != 'Bind' and not any(isinstance(a, tuple) and a and a[0] == 'closure' for a in n.args):
        return None
    for vs in [n.args] + [a[1:] for a in n.args if isinstance(a, tuple) and a and a[0] == 'closure']:
        vs = list(vs)
        if len(vs) > 1 and isinstance(vs[0], tuple) and vs[0] and vs[0][0] == 'addr' and isinstance(vs[0][1], tuple) and vs[0][1][0] == 'memfn':
            vs[0] = vs[0][1]
        if len(vs) > 1 and isinstance(vs[0], tuple) and vs[0] and vs[0][0] == 'memfn' and vs[1] in (('addr', ('this',)), ('this',)):
            return vs[0][1]
    return None


def flows(g):
    """{member: set of callbacks} kept going by it; {member: nodes that set it}; {callback: members it was handed to}"""
    taint = {}
    for n in g.nodes:
        if n.op in ('call', 'model', 'enter', 'join'):
            m = self_bound(n)
            if m and n.dst is not None:
                taint.setdefault(n.dst, set()).add(m)
    if not taint:
        return {}, {}, {}
    own, sets, via = {}, {}, {}

    def carried(v):
        out = set()
        st = [v]
        while st:
            x = st.pop()
            if not isinstance(x, tuple) or not x:
                continue
            if x in taint:
                out |= taint[x]
            if x[0] == 'closure' and len(x) > 2 and x[1][0] == 'memfn' and x[2] in (('addr', ('this',)), ('this',)):
                out.add(x[1][1])
                continue
            st.extend(y for y in x if isinstance(y, tuple))
        return out

    changed = True
    while changed:
        changed = False
        for n in g.nodes:
            tgt = []
            if n.op in ('call', 'model', 'enter', 'join'):
                c = set()
                for a in n.args:
                    c |= carried(a)
                if n.obj is not None and n.base not in ('OnChanged',) and top(n.obj) is None:
                    c |= carried(n.obj)
                if not c:
                    continue
                if n.obj is not None and top(n.obj):
                    for m in c:
                        via.setdefault(m, set()).add(top(n.obj))
                tgt = [n.dst]
                if n.raw.get('k') == 'ctor' or n.base in ('operator=', 'push_back', 'emplace_back', 'emplace', 'reset', 'assign', 'operator+=', 'Add', 'operator<<'):
                    tgt.append(n.obj)
            elif n.op in ('wr', 'bind', 'bindref'):
                c = carried(n.v)
                tgt = [n.p]
            elif n.op == 'ret' and n.ctx.dst is not None and n.v is not None:
                c = carried(n.v)
                tgt = [n.ctx.dst]
            else:
                continue
            if not c:
                continue
            for t in tgt:
                if t is None:
                    continue
                f = top(t)
                if f:
                    if not c <= own.get(f, set()):
                        own.setdefault(f, set()).update(c)
                        changed = True
                    sets.setdefault(f, set()).add(n.i)
                    continue
                if isinstance(t, tuple) and t[0] in ('var', 'tmp', 'res', 'par', 'ret') and not c <= taint.get(t, set()):
                    taint.setdefault(t, set()).update(c)
                    changed = True
    return own, sets, via


def must_held(g):
    """locks certainly held before each node"""
    ins = {g.entry: frozenset()}
    st = [g.entry]
    while st:
        i = st.pop()
        n = g.nodes[i]
        ls = ins[i]
        out, eh = lock_transfer(n, ls)
        for j, l in [(x, out) for x in n.s] + ([(n.eh, eh)] if n.eh is not None else []):
            l = frozenset(held_pairs(l))
            if j not in ins:
                ins[j] = l
                st.append(j)
            else:
                m = meet(ins[j], l)
                if m != ins[j]:
                    ins[j] = m
                    st.append(j)
    return ins


def held_pairs(l):
    return [(q, k) for q, k in l if k > 0]


def meet(a, b):
    d = dict(b)
    return frozenset((q, min(k, d[q])) for q, k in a if q in d)


def passes(g, wanted, normal=True):
    """does every path from the entry to the end go through one of these nodes?"""
    seen = set()
    st = [g.entry]
    while st:
        i = st.pop()
        if i in seen or i in wanted:
            continue
        seen.add(i)
        n = g.nodes[i]
        if n.op == 'exit' and n.ctx.parent is None:
            return False
        st.extend(n.s)
    return True


def scalar(f):
    t = f.get('t', '')
    return not f.get('rec') or t.rstrip().endswith(('*', '&'))


def bases(P, cls, out=None):
    out = [] if out is None else out
    for r in P.recs.get(cls, [])[:1]:
        for b in r.get('bases', []):
            n = strip_targs(b['n'])
            if n not in out:
                out.append(n)
                bases(P, n, out)
    return out


def run(ctx, P):
    cand = {}
    for f in P.fns.values():
        if any(n.get('op') == 'call' and any(isinstance(a, list) and a and (a[0] == 'memfn' or a[0] == 'addr' and isinstance(a[1], list) and a[1] and a[1][0] == 'memfn') for a in n.get('args', ())) for n in f.nodes):
            cand.setdefault(relfile(f.file), set()).add(f.scls)
    graphs = {}
    uses = {}
    for file in sorted(cand):
        c = by_file(short_file(file))
        E = Expander(P, mk_transparent(c.files), models=locky_models)
        E.alias = False
        gs = []
        for r in roots(P, c):
            if r.scls in cand[file] and r.fk in ('ctor', 'dtor', 'method'):
                gs.append((r, E.run(r)))
        judge(ctx, P, E, gs)
    constructors(ctx, P)
    thread(ctx, P)
    ctx.need('callbacks kept going by members', ctx.stats.get('callbacks', 0), 12)


def short_file(f):
    return f[len('stingraykit/'):] if f.startswith('stingraykit/') else f


def judge(ctx, P, E, gs):
    own = {}
    first = {}
    via = {}
    for r, g in gs:
        o, sets, v = flows(g)
        for m, fs in v.items():
            via.setdefault((r.scls, m), set()).update(fs)
        for f, ms in o.items():
            own.setdefault((r.scls, f), set()).update(ms)
            if r.fk == 'ctor':
                for i in sets[f]:
                    n = g.nodes[i]
                    if n.base != 'operator=' and not (n.raw.get('k') is None and n.op == 'call' and n.obj is not None and top(n.obj) == f):
                        first[(r.scls, f)] = n
    for (cls, f), ms in sorted(own.items()):
        order = {}
        recs = P.recs.get(cls, [])
        if not recs:
            continue
        fields = recs[0].get('fields', [])
        for i, x in enumerate(fields):
            order[x['n']] = (i, x)
        bs = bases(P, cls)
        inherited = f[0] != cls
        if not inherited and f[1] not in order:
            continue
        x = order[f[1]][1] if not inherited else next((y for y in (P.recs.get(f[0], [{}])[0]).get('fields', []) if y['n'] == f[1]), None)
        if x is None or not OWNER.search(x.get('t', '') + ' ' + x.get('rec', '')):
            continue
        stopped = False
        for r, g in gs:
            if r.scls == cls and r.fk == 'dtor':
                stops = set(n.i for n in g.nodes if n.op in ('call', 'model', 'enter') and n.obj is not None and top(n.obj) == f and (n.base in STOPS or n.base == 'operator=' and n.args and n.args[0] in (('null',),)))
                if stops and passes(g, stops):
                    stopped = True
        for m in sorted(ms):
            if m not in P.fns:
                continue
            fn = P.fns[m]
            g = E.run(fn)
            used, locks = {}, set()
            for n in g.nodes:
                out = set()
                for v in (n.obj, n.p, n.v, n.c, n.dst) + tuple(n.args):
                    if v is not None:
                        members(v, out)
                for t in out:
                    used.setdefault(t, n)
                p = prim(n)
                if p and p[0] == 'lock':
                    locks.add(p[1])
            ends_at = order[f[1]][0] if not inherited else -1
            for v in via.get((cls, m), ()):
                y = order[v[1]][1] if v[0] == cls and v[1] in order else None
                if y is not None and OWNER.search(y.get('t', '') + ' ' + y.get('rec', '')) and not y['t'].rstrip().endswith(('&', '*')) and 'shared_ptr' not in y['t']:
                    ends_at = max(ends_at, order[v[1]][0])   # it ends with whichever goes first
            ctx.count('callbacks')
            ctx.sample('%s kept going by %s::%s' % (short(fn.n), short(cls), f[1]))
            for t, n in sorted(used.items()):
                ctx.count('members_used')
                if t == f:
                    continue
                if inherited:
                    late = t[0] == cls
                else:
                    late = t[0] == cls and t[1] in order and order[t[1]][0] > order[f[1]][0]
                if not late:
                    continue
                y = order[t[1]][1] if t[1] in order else {}
                gone = order[t[1]][0] > ends_at if t[1] in order else True
                why = []
                if not stopped and gone and not scalar(y):
                    why.append('is destroyed before %s stops it' % f[1])
                if (cls, f) in first and not inherited:
                    why.append('is constructed after %s starts it' % f[1])
                if why:
                    ctx.report('%s, kept going by %s::%s, uses %s at %s, which %s' % (short(fn.n), short(cls), f[1], t[1], n.where(), ' and '.join(why)), key=(cls, f[1], fn.sn, t[1]))
            if locks:
                for r, g2 in gs:
                    if r.scls != cls:
                        continue
                    ends = [n for n in g2.nodes if n.op in ('call', 'model', 'enter') and n.obj is not None and top(n.obj) == f and (n.base in STOPS or n.base == 'operator=')]
                    if not ends:
                        continue
                    H = must_held(g2)
                    tests = looked_at(g2, f)
                    for n in ends:
                        if n.i not in H or n.base == 'operator=' and tests and before(g2, tests, {n.i}):
                            continue   # only set while there is none
                        ctx.count('stops')
                        both = [q for q, k in H[n.i] if q in locks]
                        if both:
                            ctx.report('%s at %s waits for %s to end while holding %s, which the callback takes; entry point %s' % (n.base, n.where(), short(fn.n), show(both[0]), r.where()), key=(cls, f[1], fn.sn, r.sn, 'deadlock'))


def looked_at(g, f):
    """branches on whether the member is set"""
    asked = set(n.dst for n in g.nodes if n.op in ('call', 'model', 'enter') and n.obj is not None and top(n.obj) == f and n.dst is not None)
    asked |= set(n.ctx.dst for n in g.nodes if n.op == 'ret' and n.ctx.dst is not None and n.v is not None and f in mem(n.v))
    out = set()
    for n in g.nodes:
        if n.op == 'br' and (f in mem(n.c) or any(has(n.c, a) for a in asked)):
            out.add(n.i)
    return out


def has(v, w):
    return v == w or isinstance(v, tuple) and any(has(x, w) for x in v)


def constructors(ctx, P):
    """members read before they exist"""
    for f in P.fns.values():
        if f.fk != 'ctor' or not f.file.startswith('/') or '/stingraykit/' not in f.file or f.o.get('defaulted') or f.o.get('implicit'):
            continue
        recs = P.recs.get(strip_targs(f.cls), []) or P.recs.get(f.scls, [])
        if not recs:
            continue
        init = {}
        for i in f.rpo if not callable(f.rpo) else f.rpo():
            n = f.nodes[i]
            p = None
            if n.get('op') == 'call' and n.get('k') == 'ctor':
                p = n.get('obj')
            elif n.get('op') == 'call':
                p = n.get('dst')
            elif n.get('op') == 'wr':
                p = n.get('p')
            if isinstance(p, list) and len(p) > 3 and p[0] == 'fld' and p[1] == ['this'] and p[3] == f.scls:
                init.setdefault(p[2], i)
        ctx.count('constructors')
        if len(init) < 2:
            continue
        done = set()
        for i in f.rpo if not callable(f.rpo) else f.rpo():
            n = f.nodes[i]
            if n.get('op') == 'call':
                reads = []
                if n.get('k') is None and n.get('obj') is not None:
                    reads.append(n['obj'])
                for j, v in enumerate(n.get('args', ())):
                    if n.get('cm') in ('copy', 'move') or consumes(P, n.get('fn'), j):
                        reads.append(v)
                for v in reads:
                    if isinstance(v, list) and len(v) > 3 and v[0] == 'fld' and v[1] == ['this'] and v[3] == f.scls and v[2] in init and v[2] not in done and init[v[2]] != i:
                        ctx.report('the constructor %s (%s) reads %s at line %s before it is constructed' % (short(f.n), f.where(), v[2], n.get('l')), key=(f.sn, v[2], 'early'))
            done |= set(k for k, j in init.items() if j == i)


def consumes(P, fid, j, depth=0):
    """does this function certainly look at the value of its j-th parameter at once (copy it, or call an operation on it)?"""
    f = P.fns.get(fid)
    if f is None or depth > 4:
        return False
    key = (fid, j)
    if key in CONSUMES:
        return CONSUMES[key]
    CONSUMES[key] = False
    r = False
    for n in f.nodes:
        if n.get('op') != 'call':
            continue
        def is_par(v):
            return isinstance(v, list) and len(v) > 1 and v[0] == 'par' and v[1] == j
        if is_par(n.get('obj')) and n.get('k') is None:
            r = True
        for k, v in enumerate(n.get('args', ())):
            if is_par(v) and (n.get('cm') in ('copy', 'move') or consumes(P, n.get('fn'), k, depth + 1)):
                r = True
    CONSUMES[key] = r
    return r


CONSUMES = {}


def thread(ctx, P):
    c = by_file('thread/posix/PosixThreadEngine.cpp')
    E = Expander(P, mk_transparent(c.files), models=locky_models)
    E.alias = False
    pt = 'PosixThread'
    for r in roots(P, c):
        if not r.scls.endswith(pt) or r.fk not in ('ctor', 'dtor'):
            continue
        g = E.run(r)
        ctx.count('thread_objects')
        if r.fk == 'dtor':
            steps = [('cancel', 'asks its thread to stop', lambda n: n.base == 'Cancel' and n.obj is not None and OWNERTOK(n)),
                     ('release', 'revokes the life token handed to its thread', lambda n: n.base == 'Release' and n.cls == S + 'TaskLifeToken'),
                     ('off', 'turns interruption points off', lambda n: n.base == 'EnableInterruptionPoints' and n.args and n.args[0] == ('lit', False)),
                     ('join', 'joins its thread', lambda n: n.base == 'pthread_join')]
            nodes = {k: set(n.i for n in g.nodes if n.op in ('call', 'enter', 'model') and w(n)) for k, d, w in steps}
            for k, d, w in steps:
                if not passes(g, nodes[k]):
                    ctx.report('%s can end without a step that %s' % (r.where(), d), key=(r.sn, k))
            for k, d, w in steps[:3]:
                if nodes['join'] and nodes[k] and not before(g, nodes[k], nodes['join']):
                    ctx.report('%s joins its thread before a step that %s' % (r.where(), d), key=(r.sn, k, 'late'))
        else:
            made = [n for n in g.nodes if n.op == 'call' and n.base == 'pthread_create']
            seen = set(n.i for n in g.nodes if n.op == 'br' and any('_started' == t[1] for t in mem(n.c)))
            if made and seen:
                st = [made[0].i]
                vis = set()
                while st:
                    i = st.pop()
                    if i in vis or i in seen:
                        continue
                    vis.add(i)
                    n = g.nodes[i]
                    if n.op == 'exit' and n.ctx.parent is None:
                        ctx.report('%s can return before its thread has started' % r.where(), key=(r.sn, 'started'))
                    st.extend(n.s)
            elif made:
                ctx.report('%s does not wait for its thread to have started' % r.where(), key=(r.sn, 'started'))


def mem(v):
    out = set()
    if v is not None:
        members(v, out)
    return out


def OWNERTOK(n):
    return n.cls.endswith('CancellationToken') or n.cls.endswith('Cancellator')


def before(g, first, last):
    """is every node of `last` reached only through one of `first`?"""
    seen = set()
    st = [g.entry]
    while st:
        i = st.pop()
        if i in seen or i in first:
            continue
        if i in last:
            return False
        seen.add(i)
        n = g.nodes[i]
        st.extend(n.s)
        if n.eh is not None:
            st.append(n.eh)
    return True
