"""Tasks on their way through executors and timers: handed over once, taken once, run once, put back only when they are due again."""
from absx import *
from cond import Conds, sources
from comp import by_file, roots
from locks import mk_transparent, locky_models

S = 'stingray::'
FRONT, BACK = 'front', 'back'
PUSHES = {'push_back': BACK, 'emplace_back': BACK, 'push_front': FRONT, 'emplace_front': FRONT, 'insert': None, 'emplace': None}
POPS = {'pop_front': FRONT, 'pop_back': BACK, 'erase': None}
LOOKS = {'front': FRONT, 'back': BACK, 'begin': None, 'cbegin': None}


class Queue(object):
    def __init__(self, file, cls, field, kind, stale=False, drains=False, worker='ThreadFunc', wcls=None):
        self.file, self.cls, self.field, self.kind, self.stale, self.drains, self.worker = file, S + cls, field, kind, stale, drains, worker
        self.wcls = S + (wcls or cls)


QUEUES = [
    Queue('thread/ThreadTaskExecutor.cpp', 'ThreadTaskExecutor', '_queue', 'deque', drains=True),
    Queue('thread/ThreadlessTaskExecutor.cpp', 'ThreadlessTaskExecutor', '_queue', 'deque', stale=True, worker='ExecuteTasks'),
    Queue('thread/ThreadPool.cpp', 'ThreadPool', '_task', 'slot'),
    Queue('thread/ThreadPool.cpp', 'ThreadPool::WorkerWrapper', '_task', 'slot'),
    Queue('timer/Timer.cpp', 'Timer::CallbackQueue', '_container', 'map', stale=True, drains=True, wcls='Timer'),
]


def graphs(P, file):
    c = by_file(file)
    E = Expander(P, mk_transparent(c.files), models=locky_models)
    E.alias = False
    for r in roots(P, c):
        yield r, E.run(r)


def sub(v, a, b):
    if v == a:
        return b
    if isinstance(v, tuple):
        return tuple(sub(x, a, b) for x in v)
    return v


def has(v, w):
    return v == w or isinstance(v, tuple) and any(has(x, w) for x in v)


def tagged(v):
    """'head' / 'hand' / 'old' if v is that item, or something made of it"""
    if isinstance(v, tuple):
        if v in (('head',), ('hand',), ('old',)):
            return v[0]
        for x in v:
            t = tagged(x)
            if t:
                return t
    return None


HEAD, HAND, OLD, BEGIN = ('head',), ('hand',), ('old',), ('begin',)
NOW, ZERO, PERIOD = ('now',), ('zero',), ('period',)


class W(tuple):
    """what is known about the item in hand"""
    F = ('hand', 'hruns', 'runs', 'pushed', 'armed', 'exc', 'skip', 'erased', 'periodic', 'empty', 'due', 'hdue', 'cmp', 'depth')

    def __new__(cls, **kw):
        return tuple.__new__(cls, [kw.get(k) for k in cls.F])

    def __getattr__(self, k):
        try:
            return self[W.F.index(k)]
        except ValueError:
            raise AttributeError(k)

    def but(self, **kw):
        return W(**dict(zip(W.F, self), **kw))


START = dict(hand=0, hruns=0, runs=0, pushed=0, depth=0)


class Worker(Abs):
    """the loop that takes items off the queue"""
    def __init__(self, g, Q, names, timer, out):
        Abs.__init__(self, g, cap=3000000)
        self.Q, self.timer, self.out = Q, timer, out
        self.names = names
        self.looks, self.pops = set(), set()
        self.rearmed = False
        self.ran = False
        self.guards = set(norm(n.obj) for n in g.nodes if n.op == 'call' and n.raw.get('k') == 'ctor' and n.cls == S + 'LocalExecutionGuard' and n.obj is not None)

    def isq(self, p):
        p = norm_full(p)
        return isinstance(p, tuple) and len(p) > 3 and p[0] == 'fld' and p[2] == self.names['queue'] and p[3] == self.Q.cls

    def fieldof(self, p, name):
        p = bare_cast(p)
        return isinstance(p, tuple) and len(p) > 2 and p[0] == 'fld' and p[2] == self.names.get(name)

    def tagof(self, p, env):
        """which item an access path belongs to"""
        p = norm(p)
        for _ in range(12):
            if not isinstance(p, tuple) or not p:
                return None
            if p in env:
                v = env[p]
                t = tagged(v)
                if t:
                    return t
                if isinstance(v, tuple) and v[0] == 's' and isinstance(v[1], tuple) and v[1][0] in ('req', 'addr'):
                    p = v[1][1]
                    continue
            if self.Q.kind == 'slot' and p[0] == 'fld' and p[2] == self.names['queue'] and p[1] == ('this',):
                return 'head'
            if p[0] == 'fld' and p[2] == 'second' and self.begins(p[1], env):
                return 'head'
            if p[0] in ('fld', 'deref', 'idx'):
                p = p[1]
                continue
            return None
        return None

    def begins(self, p, env):
        while isinstance(p, tuple) and p:
            if env.get(p) == ('s', BEGIN):
                return True
            if p[0] not in ('deref',):
                return False
            p = p[1]
        return False

    def read(self, p, u, env):
        if not isinstance(p, tuple) or len(p) < 2:
            return None
        if p[0] == 'fld' and p[2] == 'second' and self.begins(p[1], env):
            return ('s', HEAD)
        if self.fieldof(p, 'when'):
            t = self.tagof(p[1], env)
            if t:
                return ('s', ('when', (t,)))
        if p[0] == 'deref':
            v = env.get(p[1])
            if isinstance(v, tuple) and v[0] == 's' and isinstance(v[1], tuple):
                if v[1][0] == 'req' and self.fieldof(v[1][1], 'period') and self.timer:
                    return ('s', PERIOD)
                if v[1][0] == 'req':
                    return v
                if v[1][0] == 'just':
                    return v[1][1] if isinstance(v[1][1], tuple) and v[1][1][0] == 's' else None
            if self.fieldof(p[1], 'period'):
                return ('s', PERIOD)
        return None

    def copy(self, env, dst, src, u):
        if self.Q.kind == 'slot' and not self.isq(dst):
            s = norm(src)
            while isinstance(s, tuple) and s[0] == 'deref':
                s = s[1]
            if isinstance(s, tuple) and s[0] == 'fld' and s[2] == self.names['queue'] and s[1] == ('this',):
                return self.put(env, dst, ('s', HEAD))
        return Abs.copy(self, env, dst, src, u)

    def order(self, op, a, b, u, env):
        x, y = self.ev(a, u, env), self.ev(b, u, env)
        if y == ('v', ('size',)):
            x, y, op = y, x, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
        if x == ('v', ('size',)) and y in (('n', 0), ('n', 1)):
            k = (op, y[1])
            pol = {('>', 0): False, ('>=', 1): False, ('<', 1): True, ('<=', 0): True}.get(k)
            if pol is not None:
                return ('c', ('empty',), None, pol)
        return None

    # -- events
    def say(self, n, what):
        self.out.report('%s at %s; entry point %s; path %s' % (what, n.where(), self.g.root.where(), self.trace()), key=(self.g.root.sn, n.ctx.fn.sn, what[:60]))

    def judge(self, n, u, last=False):
        if u.hand != 1:
            return
        if u.runs == 0 and not u.exc and not u.skip:
            self.say(n, 'a task is taken off the queue and never run; known')
        if u.pushed == 0 and u.periodic is True and u.runs and not u.erased and self.timer:
            self.say(n, 'a periodic task is run and not queued again; known')

    def take(self, n, u, env):
        self.judge(n, u)
        e = {}
        for k, v in env.items():
            k2, v2 = sub(k, HAND, OLD), sub(v, HAND, OLD)
            k2, v2 = sub(k2, HEAD, HAND), sub(v2, HEAD, HAND)
            v2 = sub(v2, BEGIN, OLD)
            if k2 == ('due', OLD) or k2[0] not in ('var', 'par') and tagged(v2) == 'old':
                continue
            e[k2] = v2
        for k in (('due', HEAD), ('empty',)):
            e.pop(k, None)
        for k in [k for k in e if isinstance(k, tuple) and k and k[0] == 'fld' and k[2] == self.names['queue']]:
            e.pop(k)
        if self.timer:
            if u.due is False:
                self.say(n, 'a task is taken before its time; known')
            elif u.due is None and not u.cmp:
                self.say(n, 'a task is taken without looking whether its time has come; seen')
        if u.hruns > 1:
            self.say(n, 'a task is run %d times before it is taken off the queue; known' % u.hruns)
        if self.Q.kind == 'slot':
            if u.hruns or u.exc:
                return [(u.but(hand=0, hruns=0, exc=None), e)]
            return [(u.but(hand=1, hruns=0, runs=0), e)]
        return [(u.but(hand=1, hruns=0, runs=u.hruns, pushed=0, armed=None, exc=None, skip=u.skip if u.hruns else None, erased=None, periodic=None, empty=None, due=None, hdue=u.due, cmp=None), e)]

    def effect(self, n, u, env):
        out = self.effect1(n, u, env)
        if n.base == 'reset' and n.obj is not None:
            p = norm(n.obj)
            out = [(u2, {k: v for k, v in e.items() if not (isinstance(v, tuple) and v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == 'req' and mentions(v[1][1], p))}) for u2, e in out]
        return out

    def effect1(self, n, u, env):
        b, obj = n.base, n.obj
        q = obj is not None and self.isq(obj)
        kind = self.Q.kind
        if b in ('Lock', 'Unlock') and 'Mutex' in n.cls:
            d = u.depth
            u = u.but(depth=max(0, min(4, d + (1 if b == 'Lock' else -1))))
            if b == 'Lock' and d == 0:
                return [self.others_ran(u, env)]
            return [(u, env)]
        if b in ('Wait', 'TimedWait'):
            u, e = self.others_ran(u, env)
            if n.dst is not None:
                e = self.put(e, n.dst, None)
            return [(u, e)]
        if q and kind != 'slot':
            if b == 'empty' and n.dst is not None:
                return [(u, self.put(env, n.dst, u.empty if u.empty is not None else ('c', ('empty',), None, True)))]
            if b == 'size' and n.dst is not None:
                return [(u, self.put(env, n.dst, ('v', ('size',))))]
            if b in LOOKS:
                self.looks.add(LOOKS[b] or FRONT)
                return [(u, self.put(env, n.dst, ('s', HEAD if LOOKS[b] else BEGIN)) if n.dst is not None else env)]
            if b in POPS:
                if b == 'erase':
                    a = n.args[0] if n.args else None
                    if a is None or not (self.begins(norm(a), env) or self.ev(a, u, env) == ('s', BEGIN)):
                        return [(u, env)]
                    self.pops.add(FRONT)
                else:
                    self.pops.add(POPS[b])
                return self.take(n, u, env)
            if b in PUSHES:
                t = None
                for a in n.args:
                    t = t or self.tagof(a, env)
                if t == 'hand':
                    if u.pushed:
                        self.say(n, 'a task is queued a second time; seen')
                    if u.periodic is False:
                        self.say(n, 'a task that is to run once is queued again; seen')
                    if u.armed is None and self.timer:
                        self.say(n, 'a periodic task is queued again for the moment that has passed; seen')
                    self.rearmed = True
                    u = u.but(pushed=1)
                e = self.put(env, n.dst, None) if n.dst is not None else env
                return [(u.but(empty=False), {k: v for k, v in e.items() if k != ('empty',)})]
        if q and kind == 'slot' and norm(obj)[1] == ('this',):
            if b == 'reset' and not n.args or b == 'operator=' and n.args and self.ev(n.args[0], u, env) is False:
                r = self.take(n, u, env)
                return [(u2, self.put(e, obj, False)) for u2, e in r]
        if b == 'operator()' and obj is not None:
            t = self.tagof(obj, env)
            if t:
                self.ran = True
            if t == 'hand':
                if u.runs:
                    self.say(n, 'a task is run twice; seen')
                u = u.but(runs=min(2, u.runs + 1))
                if self.timer and u.hdue is False:
                    self.say(n, 'a task is run before its time; seen')
            elif t == 'head':
                if u.hruns:
                    self.say(n, 'a task is run again without having been taken off the queue; seen')
                u = u.but(hruns=min(2, u.hruns + 1))
            elif t == 'old':
                self.say(n, 'the task that is run is not the one that was taken off the queue; seen')
        if b in ('operator->', 'operator*') and obj is not None and n.dst is not None and self.begins(norm(obj), env):
            return [(u, self.put(env, n.dst, ('s', BEGIN)))]
        if n.raw.get('k') == 'ctor' and 'iterator' in n.cls and len(n.args) == 1 and self.begins(norm(n.args[0]), env):
            return [(u, self.put(env, obj, ('s', BEGIN)))]
        if b == 'RequireInitialized' and n.dst is not None and n.args:
            return [(u, self.put(env, n.dst, ('s', ('req', norm(n.args[0])))))]
        if self.timer:
            if b == 'Elapsed' and n.dst is not None:
                return [(u, self.put(env, n.dst, ('s', NOW)))]
            if n.raw.get('k') == 'ctor' and n.cls == S + 'TimeDuration' and not n.args and obj is not None:
                return [(u, self.put(env, obj, ('s', ZERO)))]
            if b == 'make_optional_value' and n.dst is not None and n.args:
                return [(u, self.put(env, n.dst, self.wrapped(n.args[0], u, env)))]
            if b in ('operator+', 'operator-') and n.dst is not None:
                vs = ([obj] if obj is not None else []) + list(n.args)
                if len(vs) == 2:
                    return [(u, self.put(env, n.dst, ('s', ('sum' if b == 'operator+' else 'diff', self.ev(vs[0], u, env), self.ev(vs[1], u, env)))))]
            if b in ('operator<', 'operator<=', 'operator>', 'operator>=') and n.dst is not None:
                vs = ([obj] if obj is not None else []) + list(n.args)
                if len(vs) == 2:
                    r, u = self.moment(b, self.ev(vs[0], u, env), self.ev(vs[1], u, env), u, env)
                    return [(u, self.put(env, n.dst, r))]
            if b == 'operator=' and obj is not None and self.fieldof(obj, 'when') and n.args:
                u = self.arm(n, obj, n.args[0], u, env)
        return Abs.effect(self, n, u, env)

    def others_ran(self, u, env):
        """the lock was not held for a while"""
        e = {}
        for k, v in env.items():
            if k == ('empty',) or k[0] == 'isnull' or k[0] == 'truth' and k[1][0] == 'rpar':
                continue
            if k[0] in ('res', 'tmp') and (v is True or v is False or isinstance(v, tuple) and v[0] == 'c' or v in (('s', NOW), ('s', ZERO))):
                continue
            if isinstance(k, tuple) and k[0] == 'fld' and (k[2] == self.names.get('erased') or k[2] == self.names['queue'] and v is False and k[1] == ('this',)):
                continue
            if self.Q.stale:
                if k == ('due', HEAD):
                    continue
                k, v = sub(k, HEAD, OLD), sub(sub(v, HEAD, OLD), BEGIN, OLD)
                if k[0] not in ('var', 'par') and tagged(v) == 'old':
                    continue
            e[k] = v
        u = u.but(empty=None)
        return (u.but(due=None, cmp=None) if self.Q.stale else u), e

    def move(self, n, u, env):
        out = Abs.move(self, n, u, env)
        if n.op == 'ret' and n.v is not None and n.ctx.parent is not None and n.ctx.dst is not None:
            p = norm(n.v)
            if any(self.fieldof(p, k) for k in ('period', 'erased', 'allow')) and self.ev(n.v, u, env) is None and 'bool' in n.ctx.fn.o.get('ret', ''):
                out = [(u2, self.put(e, n.ctx.dst, ('c', p, None, True))) for u2, e in out]
        if n.op in ('inlexit', 'inleh'):
            keep = {k: v for k, v in env.items() if isinstance(v, tuple) and v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == 'req'}   # references outlive the call that hands them out
            if keep:
                out = [(u2, dict(e, **{}) | {k: v for k, v in keep.items() if k not in e}) for u2, e in out]
        return out

    def moment(self, op, a, b, u, env):
        def when(x):
            return isinstance(x, tuple) and x[0] == 's' and isinstance(x[1], tuple) and x[1][0] == 'when'
        for x, y, d in ((a, b, 1), (b, a, -1)):
            left = op in ('operator<', 'operator<=')
            if d < 0:
                left = not left
            if when(x) and y == ('s', NOW):
                return self.due(x[1][1], left, u, env)
            if isinstance(x, tuple) and x[0] == 's' and isinstance(x[1], tuple) and x[1][0] == 'diff' and y == ('s', ZERO):
                p, q = x[1][1:]
                if when(p) and q == ('s', NOW):
                    return self.due(p[1][1], left, u, env)
                if p == ('s', NOW) and when(q):
                    return self.due(q[1][1], not left, u, env)
        if any(has(x, 'when') for x in (a, b)):
            u = u.but(cmp=1)
        return None, u

    def due(self, tag, pol, u, env):
        k = ('due', tag)
        if k in env:
            return env[k] == pol, u
        return ('c', k, None, pol), u

    def arm(self, n, p, v, u, env):
        if self.tagof(norm(p)[1], env) != 'hand':
            return u
        x = self.ev(v, u, env)
        if isinstance(x, tuple) and x[0] == 's' and isinstance(x[1], tuple):
            s = x[1]
            if s[0] == 'sum' and None not in s[1:] and not any(has(y, 'period') for y in s[1:]) or s in (NOW, PERIOD, ZERO) or s[0] == 'when':
                self.say(n, 'the next moment of a periodic task is not its period later; set')
        return u.but(armed=1)

    def step(self, n, u, env):
        if self.timer and n.op == 'wr' and self.fieldof(n.p, 'when'):
            return [self.arm(n, n.p, n.v, u, env)]
        if n.op == 'exit' and n.ctx.parent is None:
            self.judge(n, u)
            if self.Q.drains and u.empty is not True and env.get(('eq', ('size',))) != ('n', 0):
                if not (self.timer and (u.due is False or u.cmp)):
                    self.say(n, 'the worker ends while tasks it accepted may still be queued; exit')
        return None

    def throw(self, n, u, env):
        if n.op == 'call' and n.base == 'operator()' and n.obj is not None:
            t = self.tagof(n.obj, env)
            if t == 'hand':
                u = u.but(runs=min(2, u.runs + 1))
            elif t == 'head':
                u = u.but(hruns=min(2, u.hruns + 1))
        return u.but(exc=1) if u.hand or u.hruns or self.Q.kind == 'slot' else u

    def took(self, n, tv, u, env):
        c = self.cond(n.c, u, env)
        if not (isinstance(c, tuple) and c[0] == 'c'):
            return u
        p = c[1]
        v = tv == c[3]
        if c[2] is not None:
            if p == ('eq', ('size',)) and c[2] == ('n', 0):
                return u.but(empty=v)
            return u
        if p == ('empty',):
            return u.but(empty=v)
        if p == ('due', HEAD):
            return u.but(due=v)
        if self.fieldof(p, 'period'):
            return u.but(periodic=v)
        if self.fieldof(p, 'erased'):
            return u.but(erased=1 if v else None)
        if self.fieldof(p, 'allow') and not v or p in self.guards and not v or any(p != q and mentions(p, q) for q in self.guards) and not self.fieldof(p, 'allow'):
            return u.but(skip=1)
        return u


def norm_full(p):
    return bare_cast(p)


# -- handing over

def has_par(vals, j):
    st = list(vals)
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if len(x) > 1 and x[0] == 'rpar' and x[1] == j:
                return True
            st.extend(y for y in x if isinstance(y, tuple))
    return False


class Intake(Abs):
    """an operation that accepts a task: it is queued exactly once"""
    def __init__(self, g, puts, erased):
        Abs.__init__(self, g, cap=3000000)
        self.puts, self.erased = puts, erased

    def step(self, n, u, env):
        if n.i in self.puts:
            return [(min(2, u[0] + 1), u[1])]
        return None

    def took(self, n, tv, u, env):
        c = self.cond(n.c, u, env)
        if isinstance(c, tuple) and c[0] == 'c' and c[2] is None and isinstance(c[1], tuple) and c[1][0] == 'fld' and c[1][2] == self.erased and tv == c[3]:
            return (u[0], True)
        return u

    def throw(self, n, u, env):
        return None


def accepts(ctx, P, Q, names, r, g, timer):
    """AddTask and the like"""
    C = Conds(g)
    puts = []
    for n in g.nodes:
        if n.op == 'call' and n.base in PUSHES and n.obj is not None:
            q = bare_cast(n.obj)
            if isinstance(q, tuple) and len(q) > 3 and q[0] == 'fld' and q[2] == names['queue'] and q[3] == Q.cls:
                puts.append(n)
    if not puts:
        ctx.report('%s accepts a task and queues nothing' % r.where(), key=(r.sn, 'none'))
        return None
    a = Intake(g, {n.i for n in puts}, names.get('erased'))
    a.run([((0, False), {})])
    for u, _, e in a.exits:
        if u[0] != 1 and not u[1]:
            a.at(u, a.envs[e])
            ctx.report('%s returns having queued the task %s; path %s' % (r.where(), 'more than once' if u[0] else 'nowhere', a.trace()), key=(r.sn, 'count', u[0]))
            break
    need = [j for j, p in enumerate(r.params) if 'function' in p['t'] or 'TaskType' in p['t'] or 'FutureExecutionTester' in p['t']]
    for n in puts:
        vals = set()
        for x in n.args:
            vals |= sources(C, x)[0]
        for j in need:
            if not has_par(vals, j):
                ctx.report('what %s queues at %s does not contain its %s' % (r.where(), n.where(), 'task' if 'Tester' not in r.params[j]['t'] else 'execution tester'), key=(r.sn, 'content', j))
    return puts
