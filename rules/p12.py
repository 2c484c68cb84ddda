"""Tasks: executors, pools and timers run what they accepted exactly once, and in time."""
from tasks import *

RULE = ('every operation accepting a task queues exactly that task with its tester once, at the end of the queue opposite to the one served; the worker takes exactly the item it looked at in the same critical '
        'section, runs every item it takes exactly once unless its tester refuses, and (executors, timer) ends only when nothing acceptable is left; a timer takes nothing before its moment, re-arms periodic tasks '
        'for one period later and puts them back once, also when the task failed, and removing a task marks it, takes it out by its own position and releases its life token')
EXPLAIN = 'typestate of the item at the head of the queue and of the item in hand over the interprocedural flow graph of each worker loop and entry point, with path-sensitive facts for emptiness, due time, period, erasure and tester'
ASSUMES = ['a user task is run by calling the stored function object', 'one worker thread serves each queue (P08 of its owner)']


def run(ctx, P):
    snap = P.snap
    for Q in QUEUES:
        f = snap.field(Q.cls, Q.field)
        if f is None:
            ctx.broken('%s::%s vanished' % (short(Q.cls), Q.field))
        timer = Q.kind == 'map'
        ci = S + 'Timer::CallbackInfo'
        names = {'queue': f, 'allow': snap.field(S + 'LocalExecutionGuard', '_allow')}
        if timer:
            for k, x in (('when', '_timeToTrigger'), ('period', '_period'), ('erased', '_erased'), ('iter', '_iterator'), ('token', '_token'), ('task', '_task')):
                names[k] = snap.field(ci, x)
        served = set()
        queued = set()
        loops = 0
        for r, g in graphs(P, Q.file):
            if r.fk in ('ctor', 'dtor'):
                continue
            if r.scls == Q.wcls and any(m.sn == r.sn for m in snap.method(Q.wcls + '::' + Q.worker)):
                a = Worker(g, Q, names, timer, ctx)
                a.run([(W(**START), {})])
                loops += 1
                ctx.count('worker_loops')
                ctx.count('states', a.visited)
                ctx.sample(r.where())
                served |= a.pops
                if a.looks and a.pops and a.looks != a.pops:
                    ctx.report('%s looks at the %s of the queue and removes the %s' % (r.where(), '/'.join(sorted(a.looks)), '/'.join(sorted(a.pops))), key=(r.sn, 'ends'))
                if not a.ran:
                    ctx.report('no task is ever run by %s' % r.where(), key=(r.sn, 'never'))
                if timer and not a.rearmed:
                    ctx.report('no periodic task is ever queued again by %s' % r.where(), key=(r.sn, 'rearm'))
            elif Q.kind == 'deque' and r.scls == Q.cls and r.base == 'AddTask' or timer and r.scls == Q.wcls and r.base in ('AddTask', 'SetTimeout', 'SetTimer'):
                puts = accepts(ctx, P, Q, names, r, g, timer)
                ctx.count('intakes')
                for n in puts or ():
                    queued.add(PUSHES[n.base])
                if timer and puts:
                    timer_intake(ctx, r, g, names, puts)
            elif timer and r.scls == Q.cls and r.base in ('Push', 'Erase', 'Pop', 'Top'):
                queue_op(ctx, r, g, names, Q)
            elif timer and r.scls == Q.wcls and r.base == 'RemoveTask':
                queue_op(ctx, r, g, names, Q)
            elif timer and r.scls == S + 'ExecutionDeferrer' and r.base in ('Defer', 'DoDefer', 'Cancel'):
                deferrer(ctx, P, r, g)
            elif Q.kind == 'slot' and r.base in ('TryQueue', 'TryAddTask'):
                handoff(ctx, P, r, g, Q)
        if Q.kind == 'deque' and served and queued and None not in queued and served & queued:
            ctx.report('%s queues tasks at the end it serves them from' % short(Q.cls), key=(Q.cls, 'order'))
        if not loops:
            ctx.broken('worker loop of %s vanished' % short(Q.wcls))
    ctx.need('worker loops', ctx.stats.get('worker_loops', 0), 5)
    ctx.need('intakes', ctx.stats.get('intakes', 0), 4)
    ctx.need('queue operations', ctx.stats.get('queue_ops', 0), 3)
    ctx.need('handoffs', ctx.stats.get('handoffs', 0), 1)


def isnull(v):
    return isinstance(v, tuple) and v and (v[0] == 'null' or v == ('gvar', 'stingray::null'))


def timer_intake(ctx, r, g, names, puts):
    """the entry made by SetTimeout, SetTimer and AddTask, and the token that removes it"""
    C = Conds(g)
    made = [n for n in g.nodes if n.op == 'call' and n.base == 'make_shared_ptr' and len(n.args) == 4]
    if len(made) != 1:
        ctx.count('undecided')
        return
    m = made[0]
    if not any(m.i in sources(C, a)[1] for n in puts for a in n.args):
        ctx.report('%s queues something else than the entry it made' % r.where(), key=(r.sn, 'entry'))
    times = [j for j, p in enumerate(r.params) if 'TimeDuration' in p['t']]
    tv, tn = sources(C, m.args[1], through_obj=True)
    if not any(g.nodes[i].base == 'Elapsed' for i in tn):
        ctx.report('the moment at which %s lets the task run does not depend on the current time' % r.where(), key=(r.sn, 'now'))
    if times and not has_par(tv, times[0]):
        ctx.report('the moment at which %s lets the task run does not depend on the timeout it is given' % r.where(), key=(r.sn, 'timeout'))
    if times and any(g.nodes[i].base == 'operator-' for i in tn):
        ctx.report('%s subtracts where the timeout is to be added' % r.where(), key=(r.sn, 'minus'))
    pv, pn = sources(C, m.args[2])
    once = r.base != 'SetTimer'
    nul = any(isnull(x) for x in pv)
    if once and not nul:
        ctx.report('%s makes its task periodic' % r.where(), key=(r.sn, 'period'))
    if not once and (nul or times and not has_par(pv, times[-1])):
        ctx.report('%s does not repeat its task with the interval it is given' % r.where(), key=(r.sn, 'period'))
    if r.base == 'AddTask':
        return
    kv, kn = sources(C, m.args[3])
    if any(g.nodes[i].base == 'CreateDummyTaskToken' for i in kn):
        ctx.report('the task of %s has a life token that cannot be released' % r.where(), key=(r.sn, 'dummy'))
    rets = [n for n in g.nodes if n.op == 'ret' and n.ctx.parent is None and n.v is not None]
    for n in rets:
        v, ns = sources(C, n.v)
        for x in g.nodes:
            if x.op in ('call', 'enter') and n.v in (x.obj, x.dst) and x.raw.get('k') == 'ctor' or x.op in ('call', 'enter') and x.dst == n.v:
                ns = ns | {x.i}
                for y in x.args:
                    v2, n2 = sources(C, y)
                    v, ns = v | v2, ns | n2
        mk = [g.nodes[i] for i in ns if g.nodes[i].base == 'MakeFunctionToken']
        if not mk:
            ctx.report('%s returns a token that does not remove the task' % r.where(), key=(r.sn, 'token'))
            continue
        ctx.count('tokens')
        if not any(x[0] == 'fn' and x[-1].endswith('RemoveTask') or isinstance(x, tuple) and 'RemoveTask' in repr(x) for x in v if isinstance(x, tuple) and x):
            ctx.report('%s returns a token that calls something else than the removal of the task' % r.where(), key=(r.sn, 'token fn'))
        elif m.i not in ns:
            ctx.report('the token %s returns removes some other entry' % r.where(), key=(r.sn, 'token entry'))


class Op(Abs):
    """an operation of the timer's queue"""
    def __init__(self, g, names, Q):
        Abs.__init__(self, g, cap=200000)
        self.names, self.Q = names, Q
        self.bad = []

    def isf(self, p, k):
        p = bare_cast(p)
        return isinstance(p, tuple) and len(p) > 2 and p[0] == 'fld' and p[2] == self.names[k]

    def begins(self, p, env):
        while isinstance(p, tuple) and p:
            if env.get(p) == ('s', BEGIN):
                return True
            if p[0] != 'deref':
                return False
            p = p[1]
        return False

    def read(self, p, u, env):
        if isinstance(p, tuple) and len(p) > 2 and p[0] == 'fld' and p[2] == 'second' and self.begins(p[1], env):
            return ('s', HEAD)
        return None

    def step(self, n, u, env):
        if n.op == 'wr' and self.isf(n.p, 'erased'):
            u = dict(u)
            u['mark'] = self.truth(self.ev(n.v, tuple(sorted(u.items())), env), env)
            return [tuple(sorted(u.items(), key=repr))]
        return None

    def effect(self, n, u, env):
        b, obj = n.base, n.obj
        d = dict(u)

        def out(**kw):
            d.update(kw)
            return tuple(sorted(d.items(), key=repr))
        q = bare_cast(obj) if obj is not None else None
        if isinstance(q, tuple) and len(q) > 3 and q[0] == 'fld' and q[2] == self.names['queue'] and q[3] == self.Q.cls:
            if b in LOOKS and n.dst is not None:
                return [(u, self.put(env, n.dst, ('s', BEGIN)))]
            if b == 'erase':
                a = norm(n.args[0]) if n.args else None
                if self.begins(a, env):
                    return [(out(erase='first'), {k: v for k, v in env.items() if v != ('s', BEGIN)})]
                v = self.ev(a, u, env)
                if isinstance(v, tuple) and v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == 'pos':
                    if env.get(v[1][1]) is False and not d.get('poskept'):
                        pass
                    return [(out(erase='twice' if d.get('erase') else 'own'), env)]
                return [(out(erase='?'), env)]
            if b in PUSHES:
                e = env
                if n.dst is not None:
                    e = self.put(env, n.dst, ('s', ('pos', ('new',))))
                er = [v for k, v in env.items() if self.isf(k, 'erased')]
                return [(out(push=2 if d.get('push') else 1, perased=er[0] if er else None), e)]
            if b == 'clear':
                return [(out(erase='all'), env)]
        if n.raw.get('k') == 'ctor' and 'iterator' in n.cls and len(n.args) == 1 and obj is not None:
            a = norm(n.args[0])
            if self.begins(a, env):
                return [(u, self.put(env, obj, ('s', BEGIN)))]
            if isinstance(a, tuple) and a[0] == 'deref' and self.isf(a[1], 'iter'):
                if env.get(norm(a[1])) is False:
                    d['gone'] = True
                return [(out(), self.put(env, obj, ('s', ('pos', norm(a[1])))))]
            return [(u, self.put(env, obj, self.ev(a, u, env)))]
        if b in ('operator->', 'operator*') and obj is not None and n.dst is not None and self.begins(norm(obj), env):
            return [(u, self.put(env, n.dst, ('s', BEGIN)))]
        if n.cls == S + 'TaskLifeToken' and b == 'Release' and self.isf(obj, 'token'):
            return [(out(released=True, rmark=d.get('mark')), env)]
        if b in ('operator=', 'reset', 'emplace') and obj is not None and self.isf(obj, 'iter'):
            v = False if b == 'reset' and not n.args else self.ev(n.args[0], u, env) if n.args else None
            t = self.truth(v, env) if v is not None else None
            d['pos'] = 'none' if t is False else 'set' if t is True else '?'
            if t is True:
                d['posnew'] = has(v, 'new')
            return [(out(), self.put(env, obj, v if t is not None else None))]
        return Abs.effect(self, n, u, env)

    def throw(self, n, u, env):
        return None


def queue_op(ctx, r, g, names, Q):
    ctx.count('queue_ops')
    a = Op(g, names, Q)
    a.run([((), {})])
    ctx.count('states', a.visited)
    b = r.base

    def say(what, u, e):
        a.at(u, a.envs[e])
        ctx.report('%s: %s; path %s' % (r.where(), what, a.trace()), key=(r.sn, what))
    some = set()
    for u, v, e in a.exits:
        d = dict(u)
        env = a.envs[e]
        it = [x for k, x in env.items() if isinstance(k, tuple) and k[0] == 'fld' and k[2] == names['iter']]
        if b == 'Top':
            if v is not None and tagged(v) != 'head':
                pass
            if d.get('erase') or d.get('push'):
                say('looking at the first entry changes the queue', u, e)
        elif b == 'Push':
            some.add(d.get('push', 0))
            er = [x for k, x in env.items() if isinstance(k, tuple) and k[0] == 'fld' and k[2] == names['erased']]
            if d.get('push') and (d.get('perased') is True or d.get('perased') is None and not er):
                say('an entry that was removed is queued again' if d.get('perased') else 'an entry is queued without looking whether it was removed', u, e)
            if d.get('push') == 2:
                say('an entry is queued twice', u, e)
            if not d.get('push') and er and er[0] is False:
                say('an entry that was not removed is not queued', u, e)
            if d.get('push') and d.get('pos') in (None, 'none'):
                say('the position of a queued entry is not remembered', u, e)
        elif b == 'Pop':
            if d.get('erase') not in ('first', '?'):
                say('the first entry stays in the queue', u, e)
            elif d.get('pos') not in ('none', '?'):
                say('the entry taken off keeps the position it had', u, e)
            if v is not None and isinstance(v, tuple) and v[0] == 's' and v[1] != HEAD and tagged(v) != 'head':
                say('another entry than the first is handed out', u, e)
        elif b in ('Erase', 'RemoveTask'):
            if d.get('mark') is not True:
                say('a removed entry is not marked, so a running task would be queued again', u, e)
            if d.get('gone'):
                say('the position is used after it was forgotten', u, e)
            if d.get('erase') in ('first', 'all', 'twice'):
                say('removing an entry takes %s off the queue' % {'first': 'the first one', 'all': 'all', 'twice': 'two'}[d['erase']], u, e)
            if d.get('erase') == 'own' and d.get('pos') not in ('none', '?'):
                say('the removed entry keeps the position it had', u, e)
            if not d.get('erase') and not (it and it[0] is False):
                say('an entry that may be queued stays in the queue', u, e)
            some.add(d.get('erase'))
            if b == 'RemoveTask' and not d.get('released'):
                say('the life token of the removed task is not released', u, e)
    if b == 'Push' and some == {0}:
        ctx.report('%s never queues anything' % r.where(), key=(r.sn, 'push never'))
    if b in ('Erase', 'RemoveTask') and some and not some & {'own', '?', 'first', 'all', 'twice'}:
        ctx.report('%s never takes an entry off the queue' % r.where(), key=(r.sn, 'erase never'))


class Tok(Abs):
    """tokens of the deferrer"""
    def __init__(self, g, fields):
        Abs.__init__(self, g, cap=200000)
        self.fields = fields

    def effect(self, n, u, env):
        p = bare_cast(n.obj) if n.obj is not None else None
        if isinstance(p, tuple) and len(p) > 3 and p[0] == 'fld' and p[2] in self.fields and n.cls == S + 'Token':
            if n.base == 'Reset' or n.base == 'operator=':
                return [(u | {(p[2], n.base)}, env)] if n.dst is None else [(u | {(p[2], n.base)}, self.put(env, n.dst, None))]
        return Abs.effect(self, n, u, env)

    def throw(self, n, u, env):
        return None


def deferrer(ctx, P, r, g):
    fs = {k: P.snap.field(S + 'ExecutionDeferrer', k) for k in ('_connection', '_doDeferConnection', '_cancellationActive')}
    if None in fs.values():
        ctx.broken('members of ExecutionDeferrer vanished')
    a = Tok(g, {fs['_connection'], fs['_doDeferConnection']})
    a.run([(frozenset(), {})])
    ctx.count('deferrer_ops')
    for u, v, e in a.exits:
        env = a.envs[e]
        want = []
        if r.base == 'Cancel':
            if env.get(('fld', ('this',), fs['_cancellationActive'])) is not True:
                want = [((fs['_connection'], 'Reset'), 'leaves the deferred task to run'), ((fs['_doDeferConnection'], 'Reset'), 'leaves the request to defer in the timer')]
        elif r.base == 'DoDefer':
            want = [((fs['_connection'], 'operator='), 'does not keep the token of the deferred task')]
        else:
            want = [((fs['_doDeferConnection'], 'operator='), 'does not keep the token of the request')]
        for w, what in want:
            if w not in u and (w[0], 'operator=') not in u:
                a.at(u, env)
                ctx.report('%s %s; path %s' % (r.where(), what, a.trace()), key=(r.sn, what))


class Hand(Abs):
    """the pool gives a task to exactly one worker"""
    def __init__(self, g, slots, task):
        Abs.__init__(self, g, cap=400000)
        self.slots, self.task = slots, task
        self.C = Conds(g)
        self.bad = {}

    def effect(self, n, u, env):
        p = bare_cast(n.obj) if n.obj is not None else None
        if isinstance(p, tuple) and len(p) > 3 and p[0] == 'fld' and (p[3], p[2]) in self.slots and n.base in ('operator=', 'emplace') and n.cls == S + 'optional' and n.args:
            if env.get(norm(p)) is not False:
                self.bad.setdefault('over', (n, self.last))
            if not has_par(sources(self.C, n.args[0])[0], self.task):
                self.bad.setdefault('other', (n, self.last))
            return [(min(2, u + 1), self.put(env, p, True) if n.dst is None else self.put(self.put(env, n.dst, None), p, True))]
        if n.base in ('make_unique_ptr', 'make_shared_ptr') and has_par([bare_cast(x) for x in n.args], self.task):
            return [(min(2, u + 1), self.put(env, n.dst, ('s', ('made', n.i))) if n.dst is not None else env)]
        return Abs.effect(self, n, u, env)

    def throw(self, n, u, env):
        return None


def handoff(ctx, P, r, g, Q):
    ctx.count('handoffs')
    slots = {(S + c, P.snap.field(S + c, '_task')) for c in ('ThreadPool', 'ThreadPool::WorkerWrapper')}
    task = [j for j, p in enumerate(r.params) if 'function' in p['t'] or 'Task' in p['t']]
    if not task:
        ctx.count('undecided')
        return
    a = Hand(g, slots, task[0])
    a.run([(0, {})])
    for k, (n, key) in a.bad.items():
        ctx.report('%s: %s at %s; path %s' % (r.where(), 'a task may replace one that has not been run' if k == 'over' else 'another task than the one given is handed over', n.where(), a.trace(key)), key=(r.sn, k))
    for u, v, e in a.exits:
        t = a.truth(v, a.envs[e]) if v is not None else None
        if t is True and u != 1:
            a.at(u, a.envs[e])
            ctx.report('%s answers that the task was accepted having handed it over %s; path %s' % (r.where(), 'twice' if u else 'to nobody', a.trace()), key=(r.sn, 'yes', u))
        if t is False and u:
            a.at(u, a.envs[e])
            ctx.report('%s answers that the task was refused having handed it over; path %s' % (r.where(), a.trace()), key=(r.sn, 'no'))
