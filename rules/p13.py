"""Signals: connecting, populating, emitting and disconnecting."""
from engine import *
from locks import *
from comp import by_file, entry_graphs
from cond import *

RULE = ('connect reaches the connection step exactly once iff the policy admits that kind of connection (all policy values enumerated), with token and tester of one fresh life token of the right kind and the '
        'caller\'s slot; the connection step populates first iff asked and then registers the handler once, in one critical section; emission copies all handlers under the lock and invokes each of them once '
        'with the caller\'s arguments in order; disconnection unregisters once under the lock and releases the life token afterwards, unlocked')
EXPLAIN = 'typestate over the interprocedural flow graphs of signal, signal_connector and the signal implementation; connect is explored once per policy value and overload, the connection step once per value of the flag'
ASSUMES = ['std::copy copies the whole range it is given', 'IntrusiveList::push_back and erase do what they say']

S = 'stingray::'
POLICIES = ('SyncOnly', 'AsyncOnly', 'Any')


def is_connect(n):
    return n.op in ('call', 'enter') and n.base == 'Connect' and n.cls and n.cls.startswith(S + 'Detail::')


def is_lock(n):
    return n.op == 'call' and n.base == 'Lock' and 'Mutex' in n.cls


def is_unlock(n):
    return n.op == 'call' and n.base == 'Unlock' and 'Mutex' in n.cls


def run(ctx, P):
    hq = P.snap.field(S + 'Detail::SignalImplBase', '_handlers')
    if hq is None:
        ctx.broken('handlers of a signal vanished')
    for f in ('signal/signals.h', 'signal/signal_connector.h'):
        for r, g in entry_graphs(P, by_file(f)):
            cls = r.scls
            if cls in (S + 'signal', S + 'signal_connector'):
                if r.base == 'connect':
                    connect(ctx, r, g)
                elif r.base == 'operator()':
                    delegate(ctx, r, g, 'InvokeAll', True)
                elif r.base == 'SendCurrentState':
                    delegate(ctx, r, g, 'SendCurrentState', True)
            elif cls == S + 'signal::Invoker' and r.base == 'operator()':
                delegate(ctx, r, g, 'InvokeAll', False)
            if cls.startswith(S + 'Detail::SignalImpl'):
                if r.base == 'Connect':
                    step(ctx, hq, r, g)
                elif r.base == 'InvokeAll':
                    invoke(ctx, hq, r, g)
                elif r.base == 'SendCurrentState':
                    current(ctx, r, g)
                elif r.base in ('CreateSyncToken', 'CreateAsyncToken'):
                    token_kind(ctx, r, g)
                elif r.fk == 'dtor' and cls.endswith('::Connection'):
                    disconnect(ctx, hq, r, g)
    for k, n in (('connect_cases', 12), ('connection_steps', 1), ('emissions', 2), ('disconnections', 1), ('delegations', 3)):
        ctx.need(k, ctx.stats.get(k, 0), n)


def par(v):
    return isinstance(v, tuple) and v and v[0] == 'rpar'


def report(ctx, r, bad):
    for k, (n, m) in sorted(bad.items()):
        ctx.report('%s: %s (%s)' % (short(r.sn), m, n.where()), (short(r.sn), k))


# ---- connect

def connect(ctx, r, g):
    C = Conds(g)
    pars = [p.get('t', '') for p in r.params]
    async_ = any('ITaskExecutor' in t for t in pars)
    nslot = next((i for i, t in enumerate(pars) if 'function<' in t), None)
    nflag = next((i for i, t in enumerate(pars) if t in ('bool', '_Bool')), None)
    nworker = next((i for i, t in enumerate(pars) if 'ITaskExecutor' in t), None)
    if nslot is None or nflag is None:
        ctx.broken('connect has no slot or flag parameter')
    bad = {}
    if not any(is_connect(n) for n in g.nodes):
        ctx.report('%s never connects' % short(r.sn), (short(r.sn), 'never'))
        return

    def policy_of(o):
        o = C.single(o)
        ms = C.makers(o) if isinstance(o, tuple) else ()
        return bool(ms) and all(m.base in ('GetConnectionPolicy', 'DoGetConnectionPolicy') for m in ms)

    def getter(m):
        return m.base in ('GetConnectionPolicy', 'DoGetConnectionPolicy', 'val')
    for pol in POLICIES:
        ok = pol == 'Any' or (pol == 'AsyncOnly') == async_
        ctx.count('connect_cases')

        # state: (connected count, impl known null)
        def transfer(n, st):
            c, null = st
            if is_connect(n):
                if not ok:
                    bad.setdefault('accepted', (n, '%s connection to a signal that is %s is accepted' % ('asynchronous' if async_ else 'synchronous', pol)))
                if c:
                    bad.setdefault('twice', (n, 'connects twice'))
                provenance(n)
                return (1, null), (1, null)
            if n.op == 'exit' and not c and not null:
                if ok:
                    bad.setdefault('refused', (n, '%s connection to a signal that is %s is not made' % ('asynchronous' if async_ else 'synchronous', pol)))
                else:
                    bad.setdefault('silent', (n, '%s connection to a signal that is %s is ignored without an error' % ('asynchronous' if async_ else 'synchronous', pol)))
            if n.op == 'throw' and ok and n.ctx.parent is None and not c and any(getter(m) for m in g.nodes):
                bad.setdefault('refused', (n, '%s connection to a signal that is %s is refused' % ('asynchronous' if async_ else 'synchronous', pol)))
            return st, st

        def branch(n, tv, st, kp):
            if n.op == 'switch':
                return st
            c = n.c
            q = True
            if isinstance(kp, tuple) and len(kp) == 2 and isinstance(kp[0], tuple) and kp[0] and kp[0][0] in LOCAL:
                c, q = kp
            op, e, pp, o = C.compare(c, q)
            if e in POLICIES and op is not None:
                truth = (e == pol) == (op == '==')
                if (truth == pp) != tv:
                    return None
                return st
            leaf, t = C.test(n, tv, kp)
            if isinstance(leaf, tuple) and leaf and leaf[0] == 'truth':
                q = fldq(C.single(leaf[1]))
                if q and q[1] == '_impl' and not t and r.scls == S + 'signal_connector':
                    return (st[0], True)
            elif isinstance(leaf, tuple):
                q = fldq(leaf)
                if q and q[1] in ('_impl', '_ptr', '_rawPtr') and not t and r.scls == S + 'signal_connector':
                    return (st[0], True)
            return st
        done = set()

        def provenance(n):
            if n.i in done or len(n.args) < 4:
                return
            done.add(n.i)
            fv, fn = sources(C, n.args[0])
            tv_, tn = sources(C, n.args[1])
            kv, kn = sources(C, n.args[2])
            sv, sn = sources(C, n.args[3])
            N = lambda s, *b: [g.nodes[i] for i in s if g.nodes[i].base in b]
            slot = lambda vals: any(par(x) and x[1] == nslot for x in vals)
            if not slot(fv):
                bad.setdefault('slot', (n, 'the connected function is not made from the caller\'s slot'))
            if not any(par(x) and x[1] == nflag for x in sv):
                bad.setdefault('flag', (n, 'whether the current state is sent does not depend on the caller\'s wish'))
            makes = N(kn, 'CreateSyncToken', 'CreateAsyncToken')
            want = 'CreateAsyncToken' if async_ else 'CreateSyncToken'
            if not makes or any(m.base != want for m in makes):
                bad.setdefault('token', (n, 'the connection does not own a fresh life token of its kind (%s)' % want))
            asy = N(fn, 'MakeAsyncFunction')
            if async_:
                tests = [m for a in asy for i in [sources(C, a.args[-1])[1]] for m in N(i, 'GetExecutionTester')]
                if not asy or not slot(set().union(*[sources(C, a)[0] for m in asy for a in m.args])) or not any(par(x) and x[1] == nworker for m in asy for a in m.args for x in sources(C, a)[0]):
                    bad.setdefault('async', (n, 'the slot is not bound to the caller\'s executor'))
                if N(tn, 'GetExecutionTester'):
                    bad.setdefault('tester', (n, 'the emitter, not only the executor, waits for the asynchronous slot'))
            else:
                tests = N(tn, 'GetExecutionTester')
                if asy:
                    bad.setdefault('async', (n, 'a synchronous slot is deferred'))
            toks = set(x for x in kv)
            if not tests or any(C.single(m.obj) not in toks and bare(m.obj) not in toks for m in tests):
                bad.setdefault('tester', (n, 'the slot is not guarded by the life token of its connection'))
        Explorer(g, transfer, branch=branch).run((0, False))
    report(ctx, r, bad)


def delegate(ctx, r, g, target, nullable):
    C = Conds(g)
    bad = {}
    ctx.count('delegations')
    T = [n for n in g.nodes if n.op in ('call', 'enter') and n.base == target and n.cls.startswith(S + 'Detail::')]
    if not T:
        ctx.report('%s does not reach %s' % (short(r.sn), target), (short(r.sn), 'never'))
        return
    ids = set(n.i for n in T)
    for n in T:
        for i, a in enumerate(n.args):
            vals = sources(C, a)[0]
            if not any(par(x) and x[1] == i for x in vals) or any(par(x) and x[1] != i for x in vals):
                bad.setdefault('args', (n, 'argument %d is not passed on in its place' % i))

    def transfer(n, st):
        c, null = st
        if n.i in ids:
            if c:
                bad.setdefault('twice', (n, '%s runs twice' % target))
            return (1, null), (1, null)
        if n.op == 'exit' and not c and not null:
            bad.setdefault('lost', (n, 'returns without %s' % target))
        return st, st

    def branch(n, tv, st, kp):
        if n.op == 'switch':
            return st
        leaf, t = C.test(n, tv, kp)
        if isinstance(leaf, tuple) and leaf:
            p = leaf[1] if leaf[0] == 'truth' else leaf
            q = [x for x in leaves(p) if len(x) > 3 and x[0] == 'fld' and x[2] == '_impl']
            if q and not t and nullable and n.ctx.parent is None:
                return (st[0], True)
        return st
    Explorer(g, transfer, branch=branch).run((0, False))
    report(ctx, r, bad)


# ---- the connection step

def step(ctx, hq, r, g):
    C = Conds(g)
    bad = {}
    ctx.count('connection_steps')
    pars = [p.get('t', '') for p in r.params]
    nflag = next((i for i, t in enumerate(pars) if t in ('bool', '_Bool')), None)
    nfunc = next((i for i, t in enumerate(pars) if 'function_storage' in t), None)
    ntest = next((i for i, t in enumerate(pars) if 'FutureExecutionTester' in t), None)
    ntok = next((i for i, t in enumerate(pars) if 'TaskLifeToken' in t), None)
    if None in (nflag, nfunc, ntest, ntok):
        ctx.broken('the connection step changed its parameters')
    adds = set(n.i for n in g.nodes if n.op == 'call' and n.base in ('push_back', 'push_front', 'insert') and (fldq(n.obj) or ('', ''))[1] == hq)
    pops = set(n.i for n in g.nodes if n.op in ('call', 'enter') and n.base in ('DoSendCurrentState', 'SendCurrentState') and n.cls.startswith(S + 'Detail::') and
               not (n.ctx.parent is not None and n.ctx.fn.base in ('DoSendCurrentState', 'SendCurrentState')))
    safe = any(is_lock(n) for n in g.nodes)
    for i in pops:
        n = g.nodes[i]
        if not any(par(x) and x[1] == nfunc for x in sources(C, n.args[0])[0]):
            bad.setdefault('populated', (n, 'the current state is not sent to the slot being connected'))
    for i in adds:
        n = g.nodes[i]
        o = bare(n.args[0])
        ins = [m for m in g.nodes if m.op in ('call', 'enter') and m.raw.get('k') == 'ctor' and isinstance(m.obj, tuple) and o in leaves(m.obj)]
        src = set()
        for m in ins:
            for a in m.args:
                src |= sources(C, a)[0]
        if not any(par(x) and x[1] == nfunc for x in src):
            bad.setdefault('handler', (n, 'the registered handler does not call the slot'))
        if safe and not any(par(x) and x[1] == ntest for x in src):
            bad.setdefault('tester', (n, 'the registered handler is not guarded by the connection\'s tester'))
        # the connection owning the handler owns the life token too
        if isinstance(o, tuple) and o[0] == 'fld':
            own = [m for m in g.nodes if m.op in ('call', 'enter') and m.raw.get('k') == 'ctor' and isinstance(m.obj, tuple) and m.obj[0] == 'fld' and m.obj[1] == o[1] and 'TaskLifeToken' in m.cls]
            if not any(par(x) and x[1] == ntok for m in own for a in m.args for x in sources(C, a)[0]):
                bad.setdefault('token', (own[0] if own else n, 'the connection does not take over its life token'))
    for flag in (True, False):
        # state: (populated, added, lock depth, section of the population)
        def transfer(n, st):
            p, a, d, same = st
            if is_lock(n):
                return (p, a, d + 1 if d < 3 else d, same), st
            if is_unlock(n):
                return (p, a, max(0, d - 1), False if d <= 1 and p and not a else same), st
            if n.i in pops:
                if not flag:
                    bad.setdefault('uninvited', (n, 'the current state is sent although the caller did not ask for it'))
                if p:
                    bad.setdefault('repopulate', (n, 'the current state is sent twice'))
                if a:
                    bad.setdefault('order', (n, 'the slot is registered before the current state is sent'))
                if safe and not d:
                    bad.setdefault('unlocked', (n, 'the current state is sent without the lock'))
                return (True, a, d, True), (True, a, d, True)
            if n.i in adds:
                if a:
                    bad.setdefault('twice', (n, 'the slot is registered twice'))
                if safe and not d:
                    bad.setdefault('unlocked', (n, 'the slot is registered without the lock'))
                if safe and p and not same:
                    bad.setdefault('gap', (n, 'the lock is released between sending the current state and registering the slot'))
                return (p, True, d, same), st
            if n.op == 'exit':
                if not a:
                    bad.setdefault('lost', (n, 'returns without registering the slot'))
                if flag and not p:
                    bad.setdefault('unpopulated', (n, 'returns without sending the current state'))
            return st, st

        def branch(n, tv, st, kp):
            if n.op == 'switch':
                return st
            leaf, t = C.test(n, tv, kp)
            if par(leaf) and leaf[1] == nflag and t != flag:
                return None
            return st
        Explorer(g, transfer, branch=branch).run((False, False, 0, True))
    if not adds:
        ctx.report('%s never registers the slot' % short(r.sn), (short(r.sn), 'never'))
    report(ctx, r, bad)


def current(ctx, r, g):
    bad = {}
    C = Conds(g)
    safe = any(is_lock(n) for n in g.nodes)

    def transfer(n, st):
        d, c = st
        if is_lock(n):
            return (min(3, d + 1), c), st
        if is_unlock(n):
            return (max(0, d - 1), c), st
        if n.op in ('call', 'enter') and n.base == 'DoSendCurrentState':
            if safe and not d:
                bad.setdefault('unlocked', (n, 'the current state is sent without the lock'))
            if c:
                bad.setdefault('twice', (n, 'the current state is sent twice'))
            return (d, True), (d, True)
        if n.op == 'exit' and not c:
            bad.setdefault('lost', (n, 'returns without sending the current state'))
        return st, st
    Explorer(g, transfer).run((0, False))
    ctx.count('delegations')
    report(ctx, r, bad)


def token_kind(ctx, r, g):
    """a signal that may be used by several threads hands out real life tokens"""
    bad = {}
    threadsafe = 'SignalImplBaseILb1' in r.id or 'SignalImplBase<true>' in r.n
    asy = r.base == 'CreateAsyncToken'
    if not threadsafe and not asy:
        return
    ctx.count('token_kinds')
    E = Explorer(g, lambda n, st: (bad.setdefault('dummy', (n, 'hands out a dummy token, so a disconnected slot could still run')) and None) if n.op in ('call', 'enter') and n.base == 'CreateDummyTaskToken' else (st, st))
    E.run(0)
    report(ctx, r, bad)


# ---- emission

def invoke(ctx, hq, r, g):
    C = Conds(g)
    bad = {}
    ctx.count('emissions')
    safe = any(is_lock(n) for n in g.nodes)
    is_h = lambda o: (fldq(o) or (None, None))[1] == hq
    copies = [n for n in g.nodes if n.op == 'call' and n.sn in ('std::copy', S + 'Copy', S + 'Detail::Copy') or n.op == 'call' and n.base in ('assign', 'insert') and len(n.args) >= 2]
    loads = [n for n in g.nodes if n.op == 'call' and is_h(n.obj)]
    if not loads:
        ctx.report('%s never looks at the registered slots' % short(r.sn), (short(r.sn), 'never'))
        return
    for n in copies:
        for a, want in zip(n.args[:2], (('begin', 'cbegin'), ('end', 'cend'))):
            ms = [g.nodes[i] for i in sources(C, a)[1]]
            src = [m for m in ms if m.op == 'call' and is_h(m.obj)]
            if src and any(m.base not in want for m in src) or any(m.base in ('next', 'prev', 'operator++', 'operator--', 'advance', 'operator+', 'operator-') for m in ms):
                bad.setdefault('part', (n, 'not all registered slots are invoked'))
    inv = set()
    for n in g.nodes:
        if n.op in ('call', 'enter') and n.base == 'Invoke' and 'Storage' in n.cls or functor_call(n):
            inv.add(n.i)
    users = [n for n in g.nodes if functor_call(n)]
    outer = set(i for i in inv if not any(c.fn.base == 'Invoke' and 'Storage' in c.fn.cls for c in ctxs(g.nodes[i])))
    if not outer:
        ctx.report('%s never invokes a slot' % short(r.sn), (short(r.sn), 'never'))
        return
    ctx.count('invocation_sites', len(outer))
    for n in users:
        if len(n.args) != len(r.params):
            continue
        for i, a in enumerate(n.args):
            vals = [x for x in sources(C, a)[0] if par(x)]
            if any(x[1] != i for x in vals) or not vals:
                bad.setdefault('args', (n, 'argument %d is not passed on in its place' % i))

    # state: 0 at an element, 1 element invoked, 2 past the end; lock depth
    def step_(n):
        return n.op == 'call' and n.base in ('operator++', 'Next') or n.op == 'wr' and n.raw.get('rmw')

    def transfer(n, st):
        k, d = st
        if is_lock(n):
            return (k, min(3, d + 1)), st
        if is_unlock(n):
            return (k, max(0, d - 1)), st
        if n.op == 'call' and is_h(n.obj) and n.base in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'front', 'back') and safe and not d:
            bad.setdefault('unlocked', (n, 'the registered slots are read without the lock'))
        if n.i in outer:
            if k == 1:
                bad.setdefault('twice', (n, 'a slot is invoked twice'))
            return (1, d), (1, d)
        if step_(n):
            if k == 0 and reaches_inv[n.i]:
                bad.setdefault('skip', (n, 'a slot is skipped'))
            return ((0 if k == 1 else k), d), st
        if n.op == 'exit' and k == 1:
            bad.setdefault('stop', (n, 'stops before the last slot'))
        return st, (1 if k == 0 and n.op != 'catch' else k, d)    # an argument that cannot be copied takes the place of the invocation
    reaches_inv = dict((n.i, loops(g, n.i, outer)) for n in g.nodes if step_(n))
    Explorer(g, transfer).run((0, 0))
    report(ctx, r, bad)


def functor_call(n):
    return n.op == 'call' and n.base == 'operator()' and n.cls == S + 'function' and not (len(n.args) == 1 and 'exception' in n.raw.get('n', ''))


def ctxs(n):
    c = n.ctx
    while c is not None:
        yield c
        c = c.parent


def loops(g, i, targets):
    """the node lies on a cycle with an invocation"""
    def fwd(a):
        seen, st = set(), [a]
        while st:
            for s in g.nodes[st.pop()].s:
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen
    return any(t in fwd(i) and i in fwd(t) for t in targets)


# ---- disconnection

def disconnect(ctx, hq, r, g):
    bad = {}
    ctx.count('disconnections')
    safe = any(is_lock(n) for n in g.nodes)

    def transfer(n, st):
        e, rel, d = st
        if is_lock(n):
            return (e, rel, min(3, d + 1)), st
        if is_unlock(n):
            return (e, rel, max(0, d - 1)), st
        if n.op == 'call' and n.base == 'erase' and (fldq(n.obj) or ('', ''))[1] == hq:
            if e:
                bad.setdefault('twice', (n, 'the slot is unregistered twice'))
            if safe and not d:
                bad.setdefault('unlocked', (n, 'the slot is unregistered without the lock'))
            q = fldq(n.args[0]) if n.args else None
            if q is None or q[1] != '_handler':
                bad.setdefault('other', (n, 'unregisters something else than its own slot'))
            return (True, rel, d), st
        if n.op in ('call', 'enter') and n.base == 'Release' and 'TaskLifeToken' in n.cls:
            if d:
                bad.setdefault('locked', (n, 'waits for a running slot while holding the signal\'s lock'))
            if not e:
                bad.setdefault('early', (n, 'the life token is released while the slot is still registered'))
            return (e, True, d), (e, True, d)
        if n.op == 'exit':
            if not e:
                bad.setdefault('lost', (n, 'returns with the slot still registered'))
            if not rel and safe:
                bad.setdefault('alive', (n, 'returns without waiting for a running slot'))
        return st, st
    Explorer(g, transfer).run((False, False, 0))
    report(ctx, r, bad)
