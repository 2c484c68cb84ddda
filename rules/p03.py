"""User code runs with no internal lock held."""
from engine import *
from locks import *
from comp import components, entry_graphs, Component

RULE = ('on every path of every entry point of a component, the lock set at a call of user code (functors of tasks, timers, slots, completion and exception handlers; virtual '
        'calls of consumers, sinks, streams, cancellation handlers; release of executed tasks and of task tokens) is empty')
EXPLAIN = 'must-empty lockset at user-code call sites over the interprocedural flow graph of each entry point; sites confirmed to run under the lock by design are listed with a reason'
ASSUMES = ['user code is reached through function objects, the listed interfaces and the destructors of function objects and tokens']

S = 'stingray::'
FUNCTORS = {S + 'function', S + 'signal', S + 'function_storage'}
VIRTUAL = {S + x for x in ('ICancellationHandler', 'ILoggerSink', 'IDataConsumer', 'IPacketConsumer', 'IByteStream', 'IInputByteStream', 'IOutputByteStream', 'ISyncableByteStream', 'ISeekableByteStream',
                           'IPipe', 'IInputPipe', 'IOutputPipe', 'IDataSource', 'IPacketSource', 'IThread')}
# user-code releases that happen outside the lock: class of the released object -> functions
RELEASES = {S + 'TaskLifeToken::Release', S + 'Detail::TaskLifeTokenImpl::Kill'}

EXEMPT = [
    # (callee pattern, function in the call chain, reason)
    ('function::operator()', 'AsyncProfiler::SessionImpl::GetName', 'the name getter must not outlive its session, which the lock pins'),
    ('function::operator()', 'Detail::SignalImpl::DoSendCurrentState', 'population of the current state is atomic with connecting by design'),
    ('function::operator()', 'ScopeExitInvoker::~ScopeExitInvoker', 'closures of the library itself'),
    ('signal::operator()', 'ObservableListWrapper::', 'notifications of a collection are ordered by its lock'),
    ('signal::operator()', 'ObservableSetWrapper::', 'notifications of a collection are ordered by its lock'),
    ('signal::operator()', 'ObservableDictionaryWrapper::', 'notifications of a collection are ordered by its lock'),
    ('signal::operator()', 'MultiMapObservableDictionary::', 'notifications of a collection are ordered by its lock'),
    ('signal::operator()', 'SortedObservableMultiSet::', 'notifications of a collection are ordered by its lock'),
    ('signal::operator()', 'ObservableValue::', 'notifications of a value are ordered by its lock'),
    ('signal::operator()', 'Transaction::Commit', 'notifications of a collection are ordered by its lock'),
    ('function::operator()', '::RemoveAll', 'the predicate decides on the state the lock protects'),
    ('function::operator()', '::RemoveWhere', 'the predicate decides on the state the lock protects'),
    ('IDataConsumer::EndOfData', 'BufferedDataSource::', 'end of data is delivered while the buffer is pinned'),
    ('IPacketConsumer::EndOfData', 'PacketBuffer::', 'end of data is delivered while the buffer is pinned'),
    ('signal::operator()', 'BufferedDataConsumer::Process', 'the overflow signal reports the state the lock protects'),
]


def exempt(n):
    k = short(n.sn)
    for pat, fn, _ in EXEMPT:
        if k != pat:
            continue
        c = n.ctx
        while c is not None:
            if fn in short(c.fn.n):
                return True
            c = c.parent
    return False


def user_point(n):
    if n.op != 'call':
        return None
    if n.base == 'operator()' and n.cls in FUNCTORS:
        return 'call'
    if n.cls in VIRTUAL and n.raw.get('virt') and not n.raw.get('nonvirt') and n.raw.get('k') != 'dtor':
        return 'call'
    if n.sn in RELEASES:
        return 'release'
    if n.fn is None and n.raw.get('n') not in ('__atomic',) and n.raw.get('k') is None and not n.sn:
        return 'call'
    return None


def run(ctx, P):
    sites = set()
    nroots = 0
    cl = components()
    for f in (['thread/Thread.cpp', 'thread/Thread.h'],):
        c = Component(f)
        cl.append(c)
    for c in cl:
        hit = False
        for r, g in entry_graphs(P, c):
            pts = {n.i: user_point(n) for n in g.nodes if user_point(n)}
            if not pts:
                continue
            hit = True
            nroots += 1
            ctx.count('graph_nodes', len(g.nodes))
            ex = Explorer(g, lock_transfer)
            seen = ex.run(frozenset())
            rep = set()
            for key in seen:
                ni, ls, env = key
                if ni not in pts:
                    continue
                n = g.nodes[ni]
                sites.add((n.ctx.fn.id, n.raw.get('l'), n.sn))
                h = held(ls)
                if h and ni not in rep and not exempt(n):
                    rep.add(ni)
                    ctx.report('user code is reached with a lock held: %s %s at %s; entry point %s; locks held: [%s]; path %s' % (
                        pts[ni], short(n.sn) or 'function pointer', n.where(), r.where(), ', '.join(show(x) for x in h), ex.trace(key)),
                        key=(short(n.sn), n.ctx.fn.sn, r.sn))
        if hit:
            ctx.count('components')
    ctx.count('entry_points', nroots)
    ctx.count('user_code_sites', len(sites))
    for s in sorted(sites, key=str):
        ctx.sample('%s: %s line %s' % (short(s[2]), short(P.fns[s[0]].n), s[1]))
    ctx.need('user-code call sites', len(sites), 30)
    owners(ctx, P)


# ---------------------------------------------------------------- the last copy of a task or token dies outside the lock

OWNERS = ['thread/ThreadTaskExecutor.cpp', 'thread/ThreadlessTaskExecutor.cpp', 'thread/ThreadPool.cpp', 'timer/Timer.cpp', 'Token.h']
HOLDERS = {  # class -> fields whose elements are user objects
    S + 'ThreadTaskExecutor': ['_queue'], S + 'ThreadlessTaskExecutor': ['_queue'], S + 'ThreadPool': ['_task'], S + 'ThreadPool::WorkerWrapper': ['_task'],
    S + 'Timer::CallbackQueue': ['_container'], S + 'TokenHolder': ['_token'], S + 'TokenPool': ['_tokens'], S + 'TokenMap': ['_tokens'],
}
TYPES = ('function<', 'CallbackInfo', 'stingray::Token')
REMOVE = {'pop_front', 'pop_back', 'pop', 'erase', 'clear', 'reset', 'Reset', 'operator=', 'swap', 'assign'}


def carrier(g, p):
    if not (isinstance(p, tuple) and p and p[0] == 'var' and isinstance(p[1], int)):
        return False
    info = g.ctxs[p[1]].fn.vars.get(p[2])
    if not info or info.get('ref'):
        return False
    t = info.get('t', '')
    if 'iterator' in t or 'Iterator' in t or t.endswith('*') or t.endswith('&') or 'Invoker' in t or 'Session' in t or 'Bind' in t or 'TokenMap' in t or 'TokenPool' in t:
        return False
    return any(x in t for x in TYPES)


class Owner(object):
    """state: (lock set, carriers holding a copy, carriers owning the last reference, exceptional)"""

    def __init__(self, g, holders, has_param):
        self.g = g
        self.holders = holders
        self.has_param = has_param
        self.bad = {}

    def is_holder(self, p):
        return isinstance(p, tuple) and len(p) > 3 and p[0] == 'fld' and (p[3], p[2]) in self.holders

    def from_param(self, v):
        r = root_of(v) if isinstance(v, tuple) else None
        return not isinstance(r, tuple) or r[0] in ('rpar', 'lit', 'null', 'gvar', 'new', 'str', 'enum')

    def step(self, n, st):
        ls, cp, ow, eh = st
        r = lock_transfer(n, ls)
        ls2, lse = r
        g = self.g
        op = n.op
        if op == 'enter_catch':
            eh = False
        if op in ('call', 'enter', 'join', 'model', 'wr', 'bind', 'ret', 'inlexit'):
            h = held(ls)

            def bad(what):
                if h and not eh:
                    self.bad.setdefault((n.i, what), st)
            if op == 'wr' and carrier(g, n.p) and not self.from_param(n.v):
                cp |= {n.p}
            elif op == 'ret':
                d = n.ctx.dst
                v = n.v
                if carrier(g, v):
                    if v in ow:
                        ow -= {v}
                        if carrier(g, d):
                            ow |= {d}
                    if v in cp:
                        cp -= {v}
                        if carrier(g, d):
                            cp |= {d}
            elif op == 'model' and n.base in ('move',) and n.args and carrier(g, n.args[0]):
                ow -= {n.args[0]}
                cp -= {n.args[0]}
            elif op in ('call', 'join'):
                k = n.raw.get('k')
                o = n.obj
                if k == 'ctor' and n.raw.get('cm') and n.args and n.args[0] in ow:
                    ow -= {n.args[0]}      # copied or moved out
                    if carrier(g, o):
                        ow |= {o}
                elif k == 'ctor' and carrier(g, o):
                    if n.args and not all(self.from_param(a) for a in n.args):
                        cp |= {o}
                elif k == 'dtor' and carrier(g, o):
                    if o in ow:
                        bad('destroyed')
                    ow -= {o}
                    cp -= {o}
                elif n.base in ('reset', 'Reset', 'clear') and carrier(g, o):
                    if o in ow:
                        bad('released')
                    ow -= {o}
                    cp -= {o}
                elif n.base == 'swap' and ((self.is_holder(o) or any(self.is_holder(a) for a in n.args))):
                    for x in (o,) + tuple(n.args):
                        if carrier(g, x):
                            ow |= {x}
                elif self.is_holder(o) and n.base in REMOVE and not n.raw.get('const'):
                    if cp:
                        ow |= cp
                        cp = frozenset()
                    elif not self.has_param and not (n.base == 'operator=' and P_first(n)):
                        bad('removed')
                elif carrier(g, o) and n.base in ('operator=', 'assign', 'emplace') and not all(self.from_param(a) for a in n.args):
                    cp |= {o}
                if n.dst is not None and carrier(g, n.dst) and op == 'call':
                    cp |= {n.dst}
        s2 = (ls2, cp, ow, eh)
        return s2, (lse, cp, ow, True)


def P_first(n):
    # assigning a task to an empty slot
    return 'optional' in n.cls


def owners(ctx, P):
    snap = P.snap
    holders = set()
    for c, fs in HOLDERS.items():
        for f in fs:
            x = snap.field(c, f)
            if x:
                holders.add((c, x))
    nev = 0
    ncar = set()
    for c in components():
        if c.files[0] not in OWNERS:
            continue
        for r, g in entry_graphs(P, c):
            if r.fk == 'dtor' and r.scls in HOLDERS or r.o.get('cm'):
                continue
            has_param = any('CallbackInfo' in p['t'] for p in r.params)
            W = Owner(g, holders, has_param)
            for n in g.nodes:
                if n.op in ('call', 'join') and (carrier(g, n.obj) or W.is_holder(n.obj)):
                    nev += 1
                    if carrier(g, n.obj):
                        ncar.add((n.obj[2].split('@')[0], n.ctx.fn.sn))
            ex = Explorer(g, W.step)
            ex.run((frozenset(), frozenset(), frozenset(), False))
            for (ni, what), st in W.bad.items():
                n = g.nodes[ni]
                ctx.report('the last reference to a task or token is %s with a lock held: %s at %s; entry point %s; locks held: [%s]' % (
                    what, show(n.obj), n.where(), r.where(), ', '.join(show(x) for x in held(st[0]))), key=(what, n.ctx.fn.sn, show(n.obj)))
    ctx.count('release_events', nev)
    ctx.count('carriers', len(ncar))
    for s in sorted(ncar):
        ctx.sample('carrier %s in %s' % s)
    ctx.need('release events', nev, 20)
