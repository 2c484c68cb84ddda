"""Enumerators that walk one or more sources, explored from construction on: what Valid and Get say and how far Next goes, against a specification of the sequence.

A world is where the sources stand (an abstract configuration); cursors are objects of the enumerator whose value is ('s', ('cur', X)).
pend is the set of sources which have to advance before the next element may be delivered."""
from engine import *
from locks import *
from absx import Abs, norm, under, bare_cast

S = 'stingray::'


class Walk(Abs):
    """u = (world, pending sources, 'ok' | 'lost', an exception of its own was thrown)"""
    def __init__(self, ctx, P, g, r, model, what, start):
        Abs.__init__(self, g)
        self.ctx, self.P, self.r, self.M, self.what, self.start = ctx, P, r, model, what, start
        self.nums = {}
        for en in P.enums.values():
            for x in en['v']:
                self.nums[x[0]] = x[1]

    def bad(self, msg, key):
        self.ctx.report('%s (%s): %s; path: %s' % (self.r.where(), self.what, msg, self.trace()), key=(self.r.sn, key))

    def read(self, p, u, env):
        if isinstance(p, tuple) and p and p[0] == 'deref':
            v = self.get(p[1], u, env)
            if isinstance(v, tuple) and v[0] == 's' and isinstance(v[1], tuple) and v[1][0] in ('holder', 'cur', 'elem', 'src'):
                return v
        return None

    def rmw(self, n, u, env):
        v = self.ev(n.v, u, env)
        return ('n', v[1]) if isinstance(v, tuple) and v[0] == 'n' and v[1] <= 3 else None

    def step(self, n, u, env):
        if n.op == 'throw':
            return [u[:3] + (True,)]
        if n.op in ('catch', 'enter_catch'):
            return [u[:3] + (False,)]
        return None

    def throw(self, n, u, env):
        return None if n.op == 'call' else u

    def took(self, n, tv, u, env):
        return u[:2] + ('lost',) + u[3:]

    @staticmethod
    def kind(v, k):
        return v[1][1] if isinstance(v, tuple) and v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == k else None

    def equal(self, x, y, env):
        for a, b in ((x, y), (y, x)):
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'e' and b[0] == 'n' and a[1] in self.nums:
                return self.nums[a[1]] == b[1]
        return Abs.equal(self, x, y, env)

    def switch(self, n, u, env, cur, go):
        v = self.ev(n.c, u, env)
        if isinstance(v, tuple) and v[0] == 'n':
            for x in n.raw.get('cases') or []:
                if isinstance(x, list) and x[1]:
                    env = self.put(env, n.c, ('e', '?')) if x[0] != v[1] and self.ev(n.c, u, env)[0] == 'n' else env
                    if x[0] == v[1]:
                        env = self.put(env, n.c, ('e', str(x[1])))
                        break
        elif v is None:
            u = u[:2] + ('lost',) + u[3:]
        Abs.switch(self, n, u, env, cur, go)

    # -- positions
    def current(self, u, X):
        """the element of source X is looked at"""
        if u[2] == 'ok' and not self.M.there(u[0], X):
            self.bad('reads beyond the end of %s' % self.M.names[X], 'deref-end')

    def advance(self, n, u, env, X):
        """-> [(u, env)]"""
        w, pend, ok, thrown = u
        if ok != 'ok':
            return [(u, env)]
        if not self.M.there(w, X):
            self.bad('moves beyond the end of %s' % self.M.names[X], 'past-end')
            return []
        if not pend:
            s = self.M.spec(w)
            if isinstance(s, tuple) and s[0] == 'skip' and X in s[1]:
                pend = frozenset(s[1])
        if X not in pend:
            self.bad('moves past an element of %s that has not been delivered' % self.M.names[X], 'lost-element')
            return []
        pend = pend - {X}
        e = {k: v for k, v in env.items() if not self.about(v, X)}
        return [((w2, pend, ok, thrown), e) for w2 in self.M.succ(w, X, pend)]

    def about(self, v, X):
        if isinstance(v, tuple) and len(v) > 1 and v[0] == 'elem' and v[1] == X:
            return True
        return isinstance(v, tuple) and any(self.about(x, X) for x in v if isinstance(x, tuple))

    def effect(self, n, u, env):
        r = self.M.call(self, n, u, env)
        if r is not None:
            out = []
            for x in r:
                u2, e, v = x
                out.append((u2, self.put(e, n.dst, v) if n.dst is not None else e))
            return out
        b, obj, args = n.base, n.obj, n.args
        vals = ([obj] if obj is not None and n.raw.get('k') != 'ctor' else []) + list(args)
        if b == 'GetEnumValues':
            return [(u, self.put(env, n.dst, ('s', ('enumvalues',))))]
        if b == 'empty' and obj is not None and self.ev(obj, u, env) == ('s', ('enumvalues',)):
            return [(u, self.put(env, n.dst, True))]
        if b in ('operator++', 'operator--', 'operator+=', 'operator-=') and obj is not None:
            X = self.kind(self.get(obj, u, env), 'cur')
            if X is not None:
                if b != 'operator++' or not under(norm(obj), ('this',)):
                    return [(u[:2] + ('lost',) + u[3:], env)]
                return [(u2, self.put(e, n.dst, ('s', ('cur', X)) if not args else None) if n.dst is not None and norm(n.dst) != norm(obj) else e) for u2, e in self.advance(n, u, env, X)]
        if b == 'operator*' and obj is not None and not args:
            X = self.kind(self.get(obj, u, env), 'cur')
            if X is not None:
                self.current(u, X)
                return [(u, self.put(env, n.dst, ('s', ('elem', X))) if n.dst is not None else env)]
        if b == 'operator()' and len(args) == 2 and n.dst is not None:
            v = [self.ev(a, u, env) for a in args]
            x, y = self.kind(v[0], 'elem'), self.kind(v[1], 'elem')
            if x is not None and y is not None:
                r = self.M.less(u[0], x, y, n)
                return [(u, self.put(env, n.dst, r))]
        if b in ('operator==', 'operator!=') and len(vals) == 2 and n.dst is not None:
            v = [self.ev(a, u, env) for a in vals]
            for p, q in (v, v[::-1]):
                X, Y = self.kind(p, 'cur'), self.kind(q, 'end')
                if X is not None and Y is not None:
                    if X != Y:
                        self.bad('compares a position in %s with the end of %s' % (self.M.names[X], self.M.names[Y]), 'wrong-end')
                        return [(u[:2] + ('lost',) + u[3:], self.put(env, n.dst, None))]
                    return [(u, self.put(env, n.dst, (not self.M.there(u[0], X)) == (b == 'operator==')))]
        return Abs.effect(self, n, u, env)


def fields(env):
    return {k: v for k, v in env.items() if isinstance(k, tuple) and k and k[0] in ('fld', 'deref') and under(k, ('this',)) and not (isinstance(v, tuple) and v and v[0] == 'c')}


def compose(ctx, P, name, graphs, model, params):
    """graphs: {'ctor': (root, graph), 'Valid': ..., 'Get': ..., 'Next': ...}; params(root) -> environment of the constructor"""
    seen, work = set(), []

    def ends(a, r, what):
        for u, ret, et in sorted(a.exits, key=repr):
            a.at(u, a.envs[et])
            ctx.count('ends_judged' if u[2] == 'ok' else 'ends_undecided')
            if u[2] != 'ok':
                continue
            s = model.spec(u[0])
            if u[1]:
                a.bad('does not advance %s: delivers the same element again' % ' and '.join(sorted(model.names[x] for x in u[1])), 'stuck')
                continue
            if isinstance(s, tuple) and s[0] == 'skip':
                a.bad('stops at %s' % s[2], 'not-skipped')
                continue
            f = fields(a.envs[et])
            k = (u[0], frozenset(f.items()))
            if k not in seen:
                seen.add(k)
                work.append((u[0], f))
    r, g = graphs['ctor']
    for w in model.worlds():
        a = Walk(ctx, P, g, r, model, model.show(w), w)
        try:
            a.run([((w, frozenset(), 'ok', False), params(r))])
        except AnalysisBroken:
            ctx.count('operations_given_up')
            return
        ctx.count('explorations')
        ends(a, r, w)
        for u, et in a.throws:
            if u[3] and u[2] == 'ok' and not model.mayfail(w):
                a.at(u, a.envs[et])
                a.bad('construction fails with an exception of its own', 'throws')
    while work:
        if len(seen) > 400:
            ctx.count('operations_given_up')
            return
        w, f = work.pop()
        s = model.spec(w)
        for what in ('Valid', 'Get', 'Next'):
            if what not in graphs:
                continue
            r, g = graphs[what]
            a = Walk(ctx, P, g, r, model, model.show(w), w)
            try:
                a.run([((w, frozenset(model.passes(w)) if what == 'Next' and s != 'end' else frozenset(), 'ok', False), dict(f))])
            except AnalysisBroken:
                ctx.count('operations_given_up')
                continue
            ctx.count('explorations')
            if what == 'Next':
                if s != 'end':
                    ends(a, r, w)
            for u, ret, et in sorted(a.exits, key=repr):
                if u[2] != 'ok' or what == 'Next':
                    continue
                a.at(u, a.envs[et])
                ctx.count('ends_judged')
                if what == 'Valid' and (ret is True or ret is False):
                    if ret != (s != 'end'):
                        a.bad('says that there is %s element' % ('an' if ret else 'no'), 'valid')
                if what == 'Get':
                    if s == 'end':
                        a.bad('gives an element although there is none', 'get-end')
                    else:
                        m = model.gives(w, s, ret)
                        if m:
                            a.bad(m, 'get')
            for u, et in sorted(a.throws, key=repr):
                if u[3] and u[2] == 'ok' and s != 'end' and what in ('Get', 'Valid', 'Next') and not model.mayfail(u[0]):
                    a.at(u, a.envs[et])
                    a.bad('fails although there is an element', 'throws')
    ctx.count('enumerators')
    ctx.count('standings', len(seen))
