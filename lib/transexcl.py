"""A transaction starts only while there is no other, waits under the lock, and always ends."""
from engine import *
from locks import *
from comp import by_file, roots
from absx import Abs, norm

S = 'stingray::'
CLASSES = {S + 'TransactionalSet': 'collection/TransactionalSet.h', S + 'TransactionalDictionary': 'collection/TransactionalDictionary.h', S + 'TransactionalList': 'collection/TransactionalList.h'}


class Excl(Abs):
    """u = (locks held, we have set the mark, how a wait ended)"""
    def __init__(self, ctx, P, g, r, what, flag, guard, done):
        Abs.__init__(self, g)
        self.ctx, self.P, self.r, self.what, self.flag, self.guard, self.done = ctx, P, r, what, flag, guard, done

    def bad(self, msg, key):
        self.ctx.report('%s (%s): %s; path: %s' % (self.r.where(), self.what, msg, self.trace()), key=(self.r.sn, key))

    def throw(self, n, u, env):
        return None if n.cls in SMART or n.op != 'call' else u

    def effect(self, n, u, env):
        b = n.base
        held, mine, end = u
        if n.obj is not None and norm(n.obj) == self.guard and b in ('Lock', 'Unlock'):
            if b == 'Lock':
                u = (min(2, held + 1), mine, end)
            else:
                u = (max(0, held - 1), mine, end)
            if u[0] == 0 and not mine or b == 'Lock' and held == 0 and not mine:
                return self.anyflag(u, env)
            return [(u, env)]
        if n.obj is not None and norm(n.obj) == self.done and b in ('Wait', 'TimedWait'):
            out = []
            for x in ('Broadcasted', 'Cancelled', 'TimedOut'):
                e = self.put(env, n.dst, ('e', 'stingray::ConditionWaitResult::' + x)) if n.dst is not None else env
                out += self.anyflag((held, mine, x), e) if not mine else [((held, mine, x), e)]
            return out
        return Abs.effect(self, n, u, env)

    def anyflag(self, u, env):
        return [(u, self.put(env, self.flag, x)) for x in (True, False)]

    def move(self, n, u, env):
        if n.op == 'wr' and norm(n.p) == self.flag:
            v = self.ev(n.v, u, env)
            held, mine, end = u
            if not held:
                self.bad('marks the transaction without holding the lock', 'unlocked')
            if v is True and env.get(self.flag) is True and not mine:
                self.bad('starts a transaction while there is another one', 'two')
            return [((held, v is True, end), self.put(env, self.flag, v))]
        return Abs.move(self, n, u, env)


def check(ctx, P):
    snap = P.snap
    for cls, fn in sorted(CLASSES.items()):
        F = {f: snap.field(cls + c2, f) for c2, f in (('::Transaction', '_impl'), ('::ImplData', 'HasTransaction'), ('::ImplData', 'Guard'), ('::ImplData', 'TransactionCompleted'))}
        if None in F.values():
            ctx.broken('the mark of a running transaction of %s vanished' % cls)
        c = by_file(fn)
        E = Expander(P, mk_transparent(c.files), models=locky_models)
        E.alias = False
        impl = ('deref', ('fld', ('this',), F['_impl']))
        flag, guard, done = ('fld', impl, F['HasTransaction']), ('deref', ('fld', impl, F['Guard'])), ('fld', impl, F['TransactionCompleted'])
        seen = set()
        for r in roots(P, c):
            if r.scls != cls + '::Transaction' or r.fk not in ('ctor', 'dtor') or (r.fk, len(r.params)) in seen:
                continue
            seen.add((r.fk, len(r.params)))
            g = E.run(r)
            for first in (True, False) if r.fk == 'ctor' else (True,):
                a = Excl(ctx, P, g, r, 'another transaction is running' if first and r.fk == 'ctor' else 'no other transaction is running', flag, guard, done)
                a.run([((0, r.fk == 'dtor', None), {flag: first})])
                ctx.count('explorations')
                for u, ret, et in sorted(a.exits, key=repr):
                    env = a.envs[et]
                    a.at(u, env)
                    ctx.count('ends_judged')
                    if r.fk == 'ctor':
                        if not u[1]:
                            a.bad('starts without marking that there is a transaction', 'unmarked')
                        elif u[2] in ('Cancelled', 'TimedOut'):
                            a.bad('starts the transaction although the wait was %s' % ('cancelled' if u[2] == 'Cancelled' else 'timed out'), 'given-up')
                    elif u[1]:
                        a.bad('ends without taking back the mark: no transaction can ever start again', 'unended')
                for u, et in sorted(a.throws, key=repr):
                    a.at(u, a.envs[et])
                    if r.fk == 'ctor' and u[1] and a.envs[et].get(flag) is True:
                        a.bad('fails and leaves the mark: no transaction can ever start again', 'unended')
            ctx.count('operations')
