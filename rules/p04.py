"""Work bound to a life token runs only while the execution permission of its own token is held."""
from engine import *
from locks import *
from comp import by_file, entry_graphs, roots
from cond import *

RULE = ('every call of a user functor kept together with a life-token tester happens while a guard built from that very tester is alive and was found to allow it; the token keeps its mutex locked from a granted '
        'permission until the guard goes, refuses only after unlocking, and is killed under the same mutex; every place that takes work with a tester hands on the tester it was given')
EXPLAIN = 'typestate of execution guards (built / allowed / gone) along every path of every entry point, with access-path matching of functor and tester; lock balance of the token internals per outcome'
ASSUMES = ['PosixMutex excludes other threads', 'a tester is a reference to its token (TaskLifeToken::GetExecutionTester is checked)']

S = 'stingray::'
GUARD = S + 'LocalExecutionGuard'
TESTER = S + 'FutureExecutionTester'
IMPL = S + 'Detail::TaskLifeTokenImpl'
# file -> (functor access: last field of the functor, matching tester)
SITES = [
    ('thread/ThreadTaskExecutor.cpp', [('std::pair', 'first', 'second')]),
    ('thread/ThreadlessTaskExecutor.cpp', [('std::pair', 'first', 'second')]),
    ('timer/Timer.cpp', [(S + 'Timer::CallbackInfo', '_task', '_token')]),
    ('function/CancellableFunction.h', [(S + 'Detail::CancellableFunction', '_func', '_tester')]),
    ('signal/signals.h', [(S + 'Detail::SignalImplBase::CancellableStorage', '_functionStorage', '_tester')]),
]


def run(ctx, P):
    snap = P.snap
    for f, l in SITES:
        l2 = []
        for cls, a, b in l:
            if cls.startswith(S):
                ra, rb = snap.field(cls, a), snap.field(cls, b)
                if ra is None or rb is None:
                    ctx.broken('%s::%s/%s vanished' % (short(cls), a, b))
                a, b = ra, rb
            l2.append((cls, a, b))
        n0 = ctx.stats.get('execution_sites', 0)
        for r, g in entry_graphs(P, by_file(f)):
            if r.fk in ('ctor', 'dtor') and r.scls not in (S + 'Timer',):
                continue
            sites(ctx, r, g, l2)
        if ctx.stats.get('execution_sites', 0) == n0:
            ctx.broken('no guarded execution found in %s' % f)
    internals(ctx, P)
    handover(ctx, P)
    ctx.need('execution sites', ctx.stats.get('execution_sites', 0), 6)
    ctx.need('hand-over sites', ctx.stats.get('handover_sites', 0), 4)


def split_field(p, specs):
    """access path of a functor -> (prefix, spec)"""
    p = bare(p)
    while isinstance(p, tuple) and p:
        if p[0] == 'fld':
            for s in specs:
                if p[3] == s[0] and p[2] == s[1]:
                    return p[1], s
            p = p[1]
        elif p[0] in ('deref', 'addr', 'idx'):
            p = p[1]
        else:
            return None
    return None


def origin(C, v):
    """follow copies, conversions and accessor calls back to an access path"""
    for _ in range(12):
        v = C.single(v)
        if isinstance(v, tuple) and v and v[0] in LOCAL:
            c = C.makers(v)
            if len(c) == 1:
                m = c[0]
                if m.base in ('ToFunction', 'GetExecutionTester', 'get', 'operator*', 'operator->', 'RequireInitialized', 'RequireNotNull') or m.base.startswith('Require'):
                    v = m.obj if m.obj is not None else (m.args[0] if m.args else None)
                    continue
                if m.op == 'enter':
                    d = C.defs.get(v, [])
                    if len(d) == 1:
                        v = d[0]
                        continue
            d = C.defs.get(v, [])
            if len(d) == 1 and bare(d[0]) != v:
                v = d[0]
                continue
        return v
    return v


def fcall(n):
    return n.op == 'call' and (n.base == 'operator()' and (n.cls in (S + 'function', S + 'Detail::Binder') or n.obj is not None and n.raw.get('k') != 'ctor'))


def prefix_eq(C, a, b):
    return norm(C, a) == norm(C, b)


def norm(C, p, d=0):
    p = bare(p)
    if d > 8 or not isinstance(p, tuple) or not p:
        return p
    if p[0] == 'fld':
        return ('fld', norm(C, p[1], d + 1), p[2], p[3])
    if p[0] in LOCAL:
        q = origin(C, p)
        if q != p:
            return norm(C, q, d + 1)
        c = C.call_of(p)
        if c is not None and c.obj is not None and not c.args:
            return ('of', c.base, norm(C, c.obj, d + 1))
    return p


def sites(ctx, r, g, specs):
    C = Conds(g)
    hits = {}
    for n in g.nodes:
        if not fcall(n):
            continue
        for cand in (n.obj,):
            q = split_field(origin(C, cand), specs)
            if q:
                hits[n.i] = q
    if not hits:
        return
    ctx.count('graph_nodes', len(g.nodes))
    bad = {}

    def transfer(n, st):
        if n.op in ('call', 'enter') and n.cls == GUARD:
            k = n.raw.get('k')
            if k == 'ctor' and n.args:
                st2 = frozenset([x for x in st if x[0] != n.obj] + [(n.obj, norm(C, origin(C, n.args[0])), False)])
                return st2, st
            if k == 'dtor':
                st2 = frozenset(x for x in st if x[0] != n.obj)
                return st2, st2
        if n.i in hits:
            pre, spec = hits[n.i]
            ok = False
            for gp, t, allowed in st:
                if not allowed:
                    continue
                q = split_field(t, [(spec[0], spec[2], spec[1])])
                if q and prefix_eq(C, q[0], pre):
                    ok = True
            if not ok:
                why = 'without a guard on the token it belongs to'
                if any(split_field(t, [(spec[0], spec[2], spec[1])]) for _, t, a in st):
                    why = 'although its token was not found to allow it'
                bad.setdefault(n.i, (n, why))
        return st, st

    def branch(n, tv, st, kp):
        if n.op != 'br':
            return st
        leaf, t = C.test(n, tv, kp)
        gp = None
        if isinstance(leaf, tuple) and leaf and leaf[0] == 'fld' and leaf[3] == GUARD:
            gp = bare(leaf[1])
        elif isinstance(leaf, tuple) and leaf and leaf[0] == 'truth':
            gp = leaf[1]
        if gp is None:
            return st
        out = []
        for x in st:
            if bare(x[0]) == gp:
                if t:
                    x = (x[0], x[1], True)
                else:
                    x = (x[0], x[1], False)
            out.append(x)
        return frozenset(out)
    Explorer(g, transfer, branch).run(frozenset())
    ctx.count('entry_points')
    for i in hits:
        ctx.count('execution_sites')
        ctx.sample('%s (%s)' % (short(g.nodes[i].ctx.fn.sn), g.nodes[i].where()))
    for n, why in bad.values():
        ctx.report('%s: work is executed %s (%s)' % (short(n.ctx.fn.sn), why, n.where()), (short(n.ctx.fn.sn), 'exec'))


def internals(ctx, P):
    snap = P.snap
    alive, sync = snap.field(IMPL, '_alive'), snap.field(IMPL, '_sync')
    if alive is None or sync is None:
        ctx.broken('state of the life token vanished')
    allow, gimpl = snap.field(GUARD, '_allow'), snap.field(GUARD, '_impl')
    seen = set()
    for r, g in entry_graphs(P, by_file('thread/TaskLifeToken.cpp')):
        C = Conds(g)
        nm = short(r.sn)
        if r.scls == IMPL and r.fk not in ('ctor', 'dtor'):
            lockbalance(ctx, r, g, C, alive, sync, seen)
        elif r.scls == GUARD:
            guardlife(ctx, r, g, C, allow, gimpl, seen)
        elif r.scls in (S + 'TaskLifeToken', S + 'TaskLifeHolder'):
            owner(ctx, r, g, C, seen)
    for x in ('TryStartExecution', 'FinishExecution', 'Kill', 'guard ctor', 'guard dtor', 'Release', 'Reset', 'holder dtor'):
        if x not in seen:
            ctx.broken('%s not analysed' % x)
    # the tester of a token refers to that token
    for cls in ('TaskLifeToken', 'TaskLifeHolder'):
        fld = snap.field(S + cls, '_impl')
        for f in P.fns.values():
            if f.scls == S + cls and f.base == 'GetExecutionTester':
                ctx.count('testers')
                g = Expander(P, mk_transparent(['thread/TaskLifeToken.h'])).run(f)
                ok = any(n.op in ('call', 'wr') and any((fldq(a) or ('', ''))[1] == fld and (fldq(a))[0] == S + cls for a in (list(n.args) + [n.v])) for n in g.nodes)
                if not ok:
                    ctx.report('%s: the tester does not refer to the token (%s)' % (short(f.sn), f.where()), (short(f.sn), 'tester'))


def lockbalance(ctx, r, g, C, alive, sync, seen):
    """state: (lock depth, alive known under the lock: None/True/False, alive cleared, return value)"""
    bad = {}

    def transfer(n, st):
        d, al, cleared, ret = st
        p = prim(n)
        if p and (fldq(p[1]) or ('', ''))[1] == sync:
            if p[0] == 'lock':
                return (d + 1, None, cleared, ret), st
            return (d - 1, None if d == 1 else al, cleared, ret), st
        if n.op in ('call', 'wr') and (n.base in ('operator=', 'store') or n.op == 'wr'):
            q = fldq(n.obj if n.op == 'call' else n.p)
            if q == (IMPL, alive):
                v = n.args[0] if n.op == 'call' and n.args else n.v
                t = bare(v)
                if d < 1:
                    bad.setdefault('unlocked', ('the token is killed without its mutex', n))
                if isinstance(t, tuple) and t[:2] == ('lit', False):
                    return (d, False, True, ret), st
                bad.setdefault('revive', ('the token is revived', n))
        if n.op == 'ret' and n.ctx is g.nodes[g.entry].ctx:
            v = bare(C.single(n.v)) if n.v is not None else None
            if isinstance(v, tuple) and v[:1] == ('lit',):
                ret = bool(v[1])
            elif v is not None:
                leaf, pol = C.atom(n.v)
                ret = ('alive', pol) if is_alive(leaf) else '?'
            return (d, al, cleared, ret), st
        return st, st

    def is_alive(leaf):
        return isinstance(leaf, tuple) and leaf and (leaf[0] == 'truth' and fldq(leaf[1]) == (IMPL, alive) or fldq(leaf) == (IMPL, alive)) or getattr(leaf, 'base', '') in ('load',) and fldq(leaf.obj) == (IMPL, alive)

    def branch(n, tv, st, kp):
        if n.op != 'br':
            return st
        leaf, v = C.test(n, tv, kp)
        if is_alive(leaf):
            d, al, cleared, ret = st
            if d > 0:
                return (d, v, cleared, ret)
            return (d, None, cleared, ret)
        return st
    E = Explorer(g, transfer, branch)
    E.run((0, None, False, None))
    base = r.base
    exits = [k for k in E.seen if g.nodes[k[0]].op == 'exit']
    try_like = any(isinstance(k[1][3], bool) or k[1][3] == '?' or isinstance(k[1][3], tuple) for k in exits)
    for k in exits:
        d, al, cleared, ret = k[1]
        if try_like:
            seen.add('TryStartExecution')
            if ret is True and (d != 1 or al is not True):
                bad.setdefault('grant', ('permission is granted %s' % ('without keeping the mutex' if d != 1 else 'without the token being alive under its mutex'), None))
            if ret is False and d != 0:
                bad.setdefault('refuse', ('the mutex stays locked although permission is refused', None))
            if ret is False and al is True:
                bad.setdefault('refuse2', ('permission is refused although the token is alive', None))
        elif cleared or any(n.op == 'call' and fldq(n.obj) == (IMPL, alive) and n.base == 'operator=' for n in g.nodes) or base == 'Kill':
            seen.add('Kill')
            if not cleared:
                bad.setdefault('kill', ('the token can stay alive', None))
            if d != 0:
                bad.setdefault('kill2', ('the mutex stays locked', None))
        elif base == 'FinishExecution' or d == -1:
            seen.add('FinishExecution')
            if d != -1:
                bad.setdefault('finish', ('the mutex is unlocked %d times instead of once' % -d, None))
    for k, (m, n) in sorted(bad.items()):
        ctx.report('%s: %s (%s)' % (short(r.sn), m, n.where() if n is not None else r.where()), (short(r.sn), k))


def guardlife(ctx, r, g, C, allow, gimpl, seen):
    bad = {}
    isimpl = lambda p: fldq(p) == (GUARD, gimpl)
    dt = r.fk == 'dtor'
    if r.fk not in ('ctor', 'dtor'):
        return
    seen.add('guard dtor' if dt else 'guard ctor')

    # state: (impl known: None/True/False, calls, result: None/True/False, impl reset, allow: value)
    def transfer(n, st):
        known, calls, res, reset, al = st
        if n.op in ('call', 'enter') and n.cls == IMPL and n.base == ('FinishExecution' if dt else 'TryStartExecution'):
            return (known, min(calls + 1, 2), None, reset, al), (known, calls, res, reset, al)
        if n.op == 'ret' and n.ctx.fn.scls == IMPL and n.ctx.fn.base == 'TryStartExecution':
            v = bare(n.v)
            if isinstance(v, tuple) and v[:1] == ('lit',):
                return (known, calls, bool(v[1]), reset, al), st
        if n.op == 'call' and isimpl(n.obj) and n.base in ('reset', 'operator=', 'swap'):
            return (known, calls, res, True, al), st
        if n.op == 'wr' and fldq(n.p) == (GUARD, allow):
            v = bare(C.single(n.v))
            if isinstance(v, tuple) and v[:1] == ('lit',):
                return (known, calls, res, reset, bool(v[1])), st
            leaf, pol = C.atom(n.v)
            if getattr(leaf, 'base', '') == 'TryStartExecution' or isinstance(leaf, tuple) and leaf and leaf[0] == 'res' or ent(leaf):
                if res is not None:
                    return (known, calls, res, reset, res == pol), st
                return (known, calls, res, reset, 'res' if pol else '!res'), st
            return (known, calls, res, reset, '?'), st
        return st, st

    def ent(leaf):
        return False

    def branch(n, tv, st, kp):
        if n.op != 'br':
            return st
        known, calls, res, reset, al = st
        leaf, v = C.test(n, tv, kp)
        if n.ctx.parent is not None and n.ctx.fn.scls == IMPL:
            return st
        if isinstance(leaf, tuple) and leaf and leaf[0] == 'truth' and isimpl(leaf[1]):
            if known is not None and known != v and not reset:
                return None
            return (v, calls, res, reset, al)
        if isinstance(leaf, tuple) and leaf and fldq(leaf) == (GUARD, allow):
            if isinstance(al, bool):
                return st if al == v else None
            if al in ('res', '!res'):
                rv = v == (al == 'res')
                if res is not None and res != rv:
                    return None
                return (known, calls, rv, reset, al)
        if getattr(leaf, 'base', '') == 'TryStartExecution':
            return (known, calls, v, reset, al)
        return st
    E = Explorer(g, transfer, branch)
    E.run((None, 0, None, False, None))
    for k in E.seen:
        if g.nodes[k[0]].op != 'exit':
            continue
        known, calls, res, reset, al = k[1]
        if dt:
            if known is False and calls:
                bad.setdefault('x', 'permission is given back although none was taken')
            if known is not False and calls != 1:
                bad.setdefault('y', 'permission is given back %d times' % calls)
        else:
            if known is False:
                if calls or al not in (True,):
                    bad.setdefault('d', 'work without a token is not allowed')
            elif calls != 1:
                bad.setdefault('n', 'permission is asked for %d times' % calls)
            else:
                ok = al == 'res' or (isinstance(al, bool) and al == res)
                if not ok:
                    bad.setdefault('a', 'the guard does not reflect whether permission was granted')
                if res is False and not reset:
                    bad.setdefault('r', 'a refused guard gives permission back later')
                if res is True and reset:
                    bad.setdefault('s', 'a granted permission is never given back')
                if res is None and al == 'res':
                    bad.setdefault('u', 'a refused guard gives permission back later')
    for k, m in sorted(bad.items()):
        ctx.report('%s: %s (%s)' % (short(r.sn), m, r.where()), (short(r.sn), k))


def owner(ctx, r, g, C, seen):
    """Release kills, Reset kills before replacing, the holder's destructor kills"""
    kills = [n for n in g.nodes if n.op in ('enter', 'call') and n.cls == IMPL and n.base == 'Kill']
    holder = r.scls.endswith('Holder')
    what = {'Release': 'Release', 'Reset': 'Reset'}.get(r.base) or ('holder dtor' if holder and r.fk == 'dtor' else None)
    if what is None:
        return
    seen.add(what)

    # state: (killed, impl known)
    def transfer(n, st):
        killed, known = st
        if n in kills:
            return (True, known), st
        if n.op == 'call' and n.base in ('operator=', 'swap', 'reset') and fldq(n.obj) in ((S + 'TaskLifeToken', '_impl'), (S + 'TaskLifeHolder', '_impl')) and root_of(n.obj)[0] in ('this',) and not killed and known is not False:
            bad.append('the token is replaced before it is released')
        return st, st

    def branch(n, tv, st, kp):
        if n.op != 'br':
            return st
        leaf, v = C.test(n, tv, kp)
        if isinstance(leaf, tuple) and leaf and leaf[0] == 'truth' and fldq(leaf[1]) == (S + 'TaskLifeToken', '_impl'):
            return (st[0], v) if st[1] is None else (st if st[1] == v or st[0] else None)
        return st
    bad = []
    E = Explorer(g, transfer, branch)
    E.run((False, None))
    for k in E.seen:
        if g.nodes[k[0]].op == 'exit' and not k[1][0] and k[1][1] is not False:
            bad.append('the token is not released on every path')
    for m in sorted(set(bad)):
        ctx.report('%s: %s (%s)' % (short(r.sn), m, r.where()), (short(r.sn), m))


def handover(ctx, P):
    """work goes on with the tester it came with"""
    for f in P.fns.values():
        rf = relfile(f.file)
        if not rf.startswith('stingraykit/') or f.o.get('implicit') or f.o.get('defaulted'):
            continue
        par = [i for i, p in enumerate(f.params) if strip_targs(p['t']).replace('const ', '').strip(' &') == TESTER]
        cls_t = None
        if f.scls:
            for n in P.snap.cur_fields(f.scls):
                if P.snap.cur_fields(f.scls)[n] == TESTER:
                    cls_t = n
        if f.base == 'AddTask' and par or any(nd.get('n', '').endswith('::AddTask') for nd in f.o.get('nodes', ())):
            one_handover(ctx, P, f, par, cls_t)


def one_handover(ctx, P, f, par, cls_t):
    if not par and cls_t is None:
        return
    g = Expander(P, lambda x, n: False).run(f)
    C = Conds(g)
    mine = set(('rpar', 0, f.params[i]['n']) for i in par) | set(('par', 0, f.params[i]['n']) for i in par)
    if f.fk in ('ctor', 'dtor'):
        return
    used = False

    def is_mine(v):
        v = bare(C.single(v))
        if isinstance(v, tuple) and v and v[0] in ('par', 'rpar') and any(v[-1] == m[-1] or v[:3] == m[:3] for m in mine):
            return True
        if cls_t and fldq(v) == (f.scls, cls_t):
            return True
        if isinstance(v, tuple) and v and v[0] in LOCAL:
            c = [m for m in C.calls.get(v, []) if m.op != 'join']
            for m in c:
                if any(is_mine(a) for a in m.args):
                    return True
            for m in g.nodes:
                if m.op == 'call' and m.raw.get('k') == 'ctor' and m.obj == v and any(bare(a) != v and is_mine(a) for a in m.args):
                    return True
        return False
    for n in g.nodes:
        if n.op == 'call' and n.raw.get('k') != 'dtor' and any(is_mine(a) for a in n.args):
            used = True
            break
    ctx.count('handover_sites')
    bad = []

    # every normal return passed a use of the tester in a storing or forwarding call
    def transfer(n, st):
        if n.op == 'call' and n.raw.get('k') not in ('dtor',) and n.base in ('AddTask', 'emplace_back', 'push_back', 'push', 'emplace', 'Push', 'make_shared_ptr', 'insert', 'MakeCancellableFunction', 'DoAddTask') and any(is_mine(a) for a in n.args):
            return True, st
        return st, st
    E = Explorer(g, transfer)
    E.run(False)
    for k in E.seen:
        if g.nodes[k[0]].op == 'exit' and not k[1]:
            bad.append(1)
    if bad or not used:
        ctx.report('%s: work is queued without the tester it came with (%s)' % (short(f.sn), f.where()), (short(f.sn), 'handover'))
