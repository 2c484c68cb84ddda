"""Futures and promises: one result, delivered once, seen by everyone who waits; decided by exploring every operation from every state of the shared result."""
from engine import *
from locks import *
from cond import Conds, sources, bare, LOCAL
from comp import by_file, roots
from absx import Abs, norm, under

RULE = ('the shared result is in one of three states (none, value, exception).  From every state each operation is explored on all paths over the finite predicates of that state: the state queries answer accordingly; '
        'waiting reports ready exactly in the ready states and cancelled or timed out exactly on such a wait result; reading returns the stored value or rethrows the stored exception; storing happens exactly once, from the '
        'argument, and never over a result; the handles check validity first, forward to the same shared result and give up their reference where they are one-shot; a promise going away leaves a broken-promise exception')
EXPLAIN = 'finite-predicate abstract interpretation of the interprocedural flow graph of each operation, one exploration per initial state'
ASSUMES = ['a wait on the condition variable releases and takes the lock again, so any other operation of the same result may have run by the time it returns',
           'a wait with a token that is never cancelled and has no timeout only returns when woken']

S = 'stingray::'
IMPL = (S + 'Detail::future_impl_base', S + 'Detail::future_impl')
HANDLES = (S + 'shared_future', S + 'future', S + 'promise')
CW = 'stingray::ConditionWaitResult::'
FS = 'stingray::future_status::'


def run(ctx, P):
    snap = P.snap
    r = snap.field(IMPL[0], '_result')
    v = snap.field(S + 'Detail::future_result', '_value')
    x = snap.field(S + 'Detail::future_result', '_exception')
    im = {c: snap.field(c, '_futureImpl' if c.endswith('promise') else '_impl') for c in HANDLES}
    rt = snap.field(S + 'promise', '_futureRetrieved')
    if not (r and v and x and rt and all(im.values())):
        ctx.broken('fields of the future classes vanished')
    RES = ('fld', ('this',), r)
    VAL, EXC = ('fld', RES, v), ('fld', RES, x)
    impl_ops(ctx, P, VAL, EXC, RES)
    handle_ops(ctx, P, im, rt)
    async_ops(ctx, P)
    for k, m in (('result_operations', 10), ('handle_operations', 20), ('explorations', 60)):
        ctx.need(k.replace('_', ' '), ctx.stats.get(k, 0), m)


class Base(Abs):
    """exploration that reports"""
    def __init__(self, ctx, P, g, r, what):
        Abs.__init__(self, g)
        self.ctx, self.P, self.r, self.what = ctx, P, r, what

    def bad(self, msg, key):
        self.ctx.report('%s (%s): %s; path: %s' % (self.r.where(), self.what, msg, self.trace()), key=(self.r.sn, key))


class Impl(Base):
    """u = (last wait result, stored, notified, rethrown)"""
    def setup(self, VAL, EXC, RES, C, state):
        self.VAL, self.EXC, self.RES, self.C, self.init = VAL, EXC, RES, C, state
        self.void = '<void>::' in self.r.n
        return self

    def states(self):
        v = True if self.void else ('s', 'V')
        return {'none': {self.VAL: False, self.EXC: False}, 'value': {self.VAL: v, self.EXC: False}, 'exception': {self.VAL: False, self.EXC: ('s', 'E')}}

    def read(self, p, u, env):
        # what the stored value holds
        if p != self.VAL and under(p, self.VAL) and self.truth(env.get(self.VAL), env) is True:
            return ('s', 'held')
        return None

    def ready(self, env):
        return self.truth(env.get(self.VAL), env) is True or self.truth(env.get(self.EXC), env) is True

    def dummy(self, t):
        vals, nodes = sources(self.C, t)
        return any(self.g.nodes[i].cls == S + 'DummyCancellationToken' for i in nodes)

    def call(self, n, u, env):
        w, st, nt, rw = u
        if n.base in ('Wait', 'TimedWait') and n.cls == S + 'PosixConditionVariable':
            self.waited = True
            if self.ready(env):
                self.bad('waits although the result is there', 'wait-ready')
            tok = n.args[1] if len(n.args) > 1 else None
            res = ['Broadcasted']
            if not self.dummy(tok):
                res += ['Cancelled', 'TimedOut']
                if self.r.base == 'wait' and not (isinstance(root_of(bare(tok)), tuple) and root_of(bare(tok))[0] == 'rpar'):
                    self.bad('waits with something else than the token it was given', 'wait-token')
            out = []
            for x in res:
                for s in self.states().values():
                    if self.r.base in ('set_value', 'set_exception'):
                        s = env
                    out.append(((x, st, nt, rw), ('e', CW + x), {k: s[k] for k in (self.VAL, self.EXC)}))
            return out
        if n.sn == S + 'RethrowException' or n.base == 'rethrow_exception':
            a = self.ev(n.args[0], u, env)
            if a != env.get(self.EXC):
                self.bad('rethrows something else than the stored exception', 'rethrow')
            return []
        if n.base in ('Broadcast', 'Signal') and n.cls == S + 'PosixConditionVariable':
            return [((w, st, True, rw), None, {})]
        return None

    def throw(self, n, u, env):
        if n.sn == S + 'RethrowException' or n.base == 'rethrow_exception':
            return (u[0], u[1], u[2], True)
        return u

    def step(self, n, u, env):
        self.here = n
        if n.op in ('throw',) and self.init != 'none' and self.r.base == 'get':
            self.bad('throws instead of delivering the stored %s' % self.init, 'throws')
        p = None
        if n.op == 'wr':
            p = norm(n.p)
        elif n.op == 'call' and (n.base in ('operator=', 'swap', 'reset', 'emplace') or n.raw.get('k') == 'ctor') and n.obj is not None:
            p = norm(n.obj)
        if p in (self.VAL, self.EXC) or p == self.RES:
            w, st, nt, rw = u
            if self.ready(env) and not st and self.r.base in ('set_value', 'set_exception'):
                self.bad('stores over a result that is already there', 'overwrite')
            if self.r.base not in ('set_value', 'set_exception') and self.r.fk == 'method':
                self.bad('changes the result', 'changes')
            return [(w, True, nt, rw)]
        return None


def impl_ops(ctx, P, VAL, EXC, RES):
    E = Expander(P, mk_transparent(['future.h']), models=locky_models)
    E.alias = False
    for r in roots(P, by_file('future.h')):
        if r.scls not in IMPL or r.fk != 'method':
            continue
        g = E.run(r)
        C = Conds(g)
        ctx.count('result_operations')
        for state in ('none', 'value', 'exception'):
            a = Impl(ctx, P, g, r, 'result: ' + state).setup(VAL, EXC, RES, C, state)
            a.run([((None, False, False, False), a.states()[state])])
            ctx.count('explorations')
            ctx.count('abstract_states', a.visited)
            judge_impl(ctx, a, r, state)


def judge_impl(ctx, a, r, state):
    b = r.base
    ready = state != 'none'
    ex = sorted(a.exits, key=repr)
    if b in ('is_ready', 'has_value', 'has_exception'):
        want = {'is_ready': ready, 'has_value': state == 'value', 'has_exception': state == 'exception'}[b]
        if not ex:
            a.bad('never answers', 'no-answer')
        for u, v, et in ex:
            if a.truth(v, a.envs[et]) is not want:
                a.bad('answers %s' % ('the opposite' if a.truth(v, a.envs[et]) is not None else 'something that does not follow from the result'), 'answer')
    elif b == 'wait':
        if not ex:
            a.bad('never returns', 'no-return')
        for u, v, et in ex:
            env = a.envs[et]
            v = v[1].rsplit('::', 1)[-1] if isinstance(v, tuple) and v[0] == 'e' else None
            if v == 'ready':
                if not a.ready(env):
                    a.bad('reports ready without a result', 'ready')
            elif v in ('cancelled', 'timeout'):
                if u[0] != {'cancelled': 'Cancelled', 'timeout': 'TimedOut'}[v]:
                    a.bad('reports %s although the wait %s' % (v, 'was not needed' if u[0] is None else 'ended with ' + u[0]), v)
            else:
                a.bad('reports an unknown status', 'status')
        if not any(isinstance(v, tuple) and v[1].endswith('::ready') for u, v, et in ex):
            a.bad('never reports ready', 'never-ready')
        if state == 'none':
            for x, y in (('cancelled', 'Cancelled'), ('timeout', 'TimedOut')):
                if not any(isinstance(v, tuple) and v[1].endswith('::' + x) for u, v, et in ex):
                    a.bad('a wait that ended with %s is not reported' % y, 'lost-' + x)
    elif b == 'get':
        for u, v, et in ex:
            env = a.envs[et]
            if a.truth(env.get(a.EXC), env) is True:
                a.bad('returns although an exception is stored', 'swallowed')
            elif not a.ready(env):
                a.bad('returns without a result', 'early')
        if not ex and state != 'exception':
            a.bad('never returns the stored value', 'no-return')
        if state == 'exception' and not any(u[3] for u, et in a.throws):
            a.bad('does not rethrow the stored exception', 'no-rethrow')
        if not a.void and state == 'value':
            if any(v != ('s', 'held') for u, v, et in ex):
                a.bad('returns something else than the stored value', 'value')
    elif b == 'set_value':
        if ready:
            if ex:
                a.bad('accepts a second result', 'second')
            if not a.throws:
                a.bad('does not refuse a second result', 'second')
            return
        if not ex:
            a.bad('never stores the value', 'no-store')
        for u, v, et in ex:
            env = a.envs[et]
            x = env.get(a.VAL)
            if a.truth(env.get(a.EXC), env) is not False or not u[1]:
                a.bad('does not leave a value behind', 'store')
            elif a.void and x is not True or not a.void and not from_param(x):
                a.bad('does not store the value it was given', 'store')
    elif b == 'set_exception':
        if not ex:
            a.bad('never returns', 'no-return')
        for u, v, et in ex:
            env = a.envs[et]
            if ready:
                if u[1]:
                    a.bad('replaces a result', 'second')
                continue
            if a.truth(env.get(a.VAL), env) is not False or not u[1] or env.get(a.EXC) != ('v', ('rpar', 0, r.params[0]['n'])):
                a.bad('does not store the exception it was given', 'store')


def from_param(x):
    if not isinstance(x, tuple):
        return False
    if x[0] == 'rpar':
        return True
    return any(from_param(y) for y in x if isinstance(y, tuple))


class Handle(Base):
    """u = the forwarded calls in order: (operation, receiver, arguments)"""
    def call(self, n, u, env):
        if n.cls in IMPL and n.raw.get('k') != 'ctor' and not n.base.startswith('~'):
            o = n.obj
            rec = self.ev(o[1], u, env) if isinstance(o, tuple) and o and o[0] == 'deref' else None
            if self.truth(rec, env) is not True:
                self.bad('uses the shared result without checking that there is one', 'unchecked')
                return []
            if len(u) > 3:
                return []
            me = self.ev(self.me, u, env)
            args = tuple(('exc', self.broken) if self.is_broken(a) else self.ev(a, u, env) for a in n.args)
            return [(u + ((n.base, rec, args, me),), ('s', ('result', n.i)), {})]
        return None

    def is_broken(self, v):
        vals, nodes = sources(self.C, v)
        return any(self.g.nodes[i].cls == S + 'BrokenPromise' for i in nodes)

    def throw(self, n, u, env):
        # the forwarded operation was carried out as far as this handle is concerned
        if n.cls in IMPL and n.raw.get('k') != 'ctor':
            r = self.call(n, u, env)
            return r[0][0] if r else None
        return u

    broken = True


FORWARD = {'is_ready', 'has_exception', 'has_value', 'get', 'wait', 'set_value', 'set_exception'}


def handle_ops(ctx, P, im, rt):
    fs = {'future.h'}

    def never(f, n):
        return f.scls in IMPL
    E = Expander(P, mk_transparent(fs, never=never), models=locky_models)
    E.alias = False
    rs = [f for f in P.fns.values() if f.scls in HANDLES and not f.o.get('implicit') and not f.o.get('defaulted')]
    for r in rs:
        c = r.scls
        if r.acc == 'private' and r.fk == 'method':
            continue
        g = E.run(r)
        C = Conds(g)
        me = ('fld', ('this',), im[c])
        flag = ('fld', ('this',), rt)
        b = r.base
        ctx.count('handle_operations')
        oneshot = c.endswith('::future') and b in ('get', 'share')
        inits = []
        if r.fk == 'ctor':
            inits = [('new', {})]
        elif c.endswith('promise'):
            inits = [('future taken', {me: ('s', 'I'), flag: True}), ('future not taken', {me: ('s', 'I'), flag: False})]
        else:
            inits = [('valid', {me: ('s', 'I')}), ('not valid', {me: False})]
        for what, e0 in inits:
            if b == 'swap' or b == 'operator=':
                o = ('rpar', 0, r.params[0]['n'])
                e0 = dict(e0)
                e0[('fld', o, im[c])] = ('s', 'O')
                e0[('fld', o, rt)] = ('v', 'OF')
            if r.fk == 'ctor' and len(r.params) == 1 and r.o.get('cm'):
                e0[('fld', ('rpar', 0, r.params[0]['n']), im[c])] = ('s', 'O')
            a = Handle(ctx, P, g, r, what)
            a.me, a.C = me, C
            a.run([((), e0)])
            ctx.count('explorations')
            ctx.count('abstract_states', a.visited)
            ex = [(u, v, a.envs[et]) for u, v, et in sorted(a.exits, key=repr)]
            th = [(u, a.envs[et]) for u, et in sorted(a.throws, key=repr)]
            own = e0.get(me)
            if b == 'valid':
                if not ex or any(a.truth(v, env) is not (own is not False) for u, v, env in ex):
                    a.bad('answers wrongly', 'answer')
            elif b in FORWARD:
                if own is False:
                    if ex or any(u for u, env in th):
                        a.bad('goes on without a shared result', 'unchecked')
                    continue
                pars = tuple(('v', ('rpar', i, p['n'])) for i, p in enumerate(r.params))
                if not ex:
                    a.bad('never returns', 'no-return')
                for u, v, env in ex:
                    a.at(u, env)
                    if len(u) != 1 or u[0][0] != b or u[0][1] != own or tuple(norm_arg(x) for x in u[0][2]) != pars:
                        a.bad('does not forward exactly once, with what it was given, to the same operation of its shared result', 'forward')
                    elif b in FORWARD - {'set_value', 'set_exception'} and 'void' not in (r.o.get('ret') or '') and not (isinstance(v, tuple) and v[0] == 's' and v[1][0] == 'result'):
                        if b != 'wait' or v is None:
                            a.bad('does not return what the shared result answered', 'result')
                    if c.endswith('::future') and b == 'get':
                        if u and u[0][3] is not False:
                            a.bad('is still valid while it delivers the result', 'oneshot')
                    elif env.get(me) != own:
                        a.bad('loses its shared result', 'lost')
                for u, env in th:
                    a.at(u, env)
                    if c.endswith('::future') and b == 'get' and u and env.get(me) is not False:
                        a.bad('is still valid after it delivered an exception', 'oneshot')
            elif b == 'share':
                for u, v, env in ex:
                    a.at(u, env)
                    got = env.get(('fld', ('ret', 0), im[S + 'shared_future']))
                    if env.get(me) is not False:
                        a.bad('keeps its reference after giving it to the shared future', 'oneshot')
                    if got != own:
                        a.bad('the shared future does not refer to the same result', 'share')
                if not ex:
                    a.bad('never returns', 'no-return')
            elif b == 'get_future':
                if e0[flag]:
                    if ex:
                        a.bad('gives out a second future', 'second')
                    continue
                if not ex:
                    a.bad('never gives out a future', 'no-return')
                for u, v, env in ex:
                    a.at(u, env)
                    if env.get(flag) is not True:
                        a.bad('does not remember that the future was taken', 'flag')
                    if env.get(('fld', ('ret', 0), im[S + 'future'])) != own:
                        a.bad('the future does not refer to the result of this promise', 'share')
            elif b == 'swap':
                o = ('rpar', 0, r.params[0]['n'])
                for u, v, env in ex:
                    a.at(u, env)
                    if env.get(me) != ('s', 'O') or env.get(('fld', o, im[c])) != own:
                        a.bad('does not exchange the shared results', 'swap')
                    if c.endswith('promise') and (env.get(flag) != ('v', 'OF') or env.get(('fld', o, rt)) != e0[flag]):
                        a.bad('does not exchange whether the future was taken', 'swap')
                if not ex:
                    a.bad('never returns', 'no-return')
            elif b == 'operator=':
                if any(env.get(me) != ('s', 'O') for u, v, env in ex) or not ex:
                    a.bad('does not take over the shared result of the other', 'copy')
            elif r.fk == 'ctor' and r.o.get('cm'):
                if any(env.get(me) != ('s', 'O') for u, v, env in ex) or not ex:
                    a.bad('does not take over the shared result of the other', 'copy')
            elif r.fk == 'ctor' and c.endswith('promise'):
                for u, v, env in ex:
                    a.at(u, env)
                    if a.truth(env.get(me), env) is not True or env.get(flag) is not False:
                        a.bad('does not start with a fresh result whose future has not been taken', 'init')
            elif r.fk == 'dtor' and c.endswith('promise'):
                for u, v, env in ex:
                    a.at(u, env)
                    if len(u) != 1 or u[0][0] != 'set_exception' or u[0][1] != own or u[0][2] != (('exc', True),):
                        a.bad('does not leave a broken-promise exception to those who wait', 'broken')
                if not ex:
                    a.bad('never returns', 'no-return')
        ctx.sample('%s: %d states' % (r.where(), len(inits)))


def norm_arg(x):
    return x


def async_ops(ctx, P):
    """the future handed out belongs to the promise the task fulfils, and the task fulfils it on every path"""
    E = Expander(P, mk_transparent(['function/AsyncFunction.h', 'function/FunctorInvoker.h']), models=locky_models)
    E.alias = False
    for r in sorted(P.fns.values(), key=lambda f: f.id):
        if not in_files(r, ['function/AsyncFunction.h']):
            continue
        if r.base == 'operator()' and r.scls.endswith('FuncWrapper'):
            ctx.count('async_operations')
            g = E.run(r)
            a = Fulfil(ctx, P, g, r, 'task of an asynchronous call')
            a.run([(0, {})])
            for u, v, et in a.exits:
                if u == 0:
                    a.bad('finishes without storing a result or an exception in the promise', 'unfulfilled')
        elif r.base == 'operator()' and r.scls.endswith('AsyncFunction'):
            ctx.count('async_operations')
            g = E.run(r)
            C = Conds(g)
            adds = [n for n in g.nodes if n.op == 'call' and n.base == 'AddTask']
            if not adds:
                ctx.report('%s: does not hand the call to the executor' % r.where(), key=(r.sn, 'no-task'))
            futs = [n for n in g.nodes if n.op in ('call', 'enter') and n.base == 'get_future']
            if not futs:
                continue
            for n in adds:
                vals, _ = sources(C, n.args[0])
                vals = {origin(g, x) for x in vals}
                for f in futs:
                    o = f.obj
                    o = origin(g, o[1]) if isinstance(o, tuple) and o[0] == 'deref' else origin(g, o)
                    ov, _ = sources(C, o)
                    if o not in vals and not ({origin(g, x) for x in ov} & vals):
                        ctx.report('%s: the future returned at line %d does not belong to the promise the task fulfils' % (r.where(), f.line()), key=(r.sn, 'other-promise'))
    ctx.need('asynchronous call operations', ctx.stats.get('async_operations', 0), 3)


def origin(g, x):
    k = 0
    x = bare(x)
    while x in g.origin and k < 10:
        x = bare(g.origin[x])
        k += 1
    return x


class Fulfil(Base):
    def call(self, n, u, env):
        if n.cls == S + 'promise' and n.base in ('set_value', 'set_exception'):
            return [(1, None, {})]
        return None
