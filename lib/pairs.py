"""Enumerators and operations that walk two sources side by side, and those that walk a pair of iterators."""
from engine import *
from locks import *
from comp import by_file, roots
from absx import Abs, norm, under, bare_cast
from walk import Walk, compose, fields, S


def tagged(v, k):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == 's' and isinstance(v[1], tuple) and v[1][:1] == (k,)


def sources(a, n, u, env):
    """the calls of an enumerator that is one of the sources"""
    b, obj = n.base, n.obj
    if obj is None or n.args or b not in ('Valid', 'Get', 'Next'):
        return None
    X = a.kind(a.get(obj, u, env), 'src')
    if X is None:
        return None
    if b == 'Valid':
        return [(u, env, a.M.there(u[0], X))]
    if b == 'Get':
        a.current(u, X)
        return [(u, env, ('s', ('elem', X)))]
    return [(u2, e, None) for u2, e in a.advance(n, u, env, X)]


class Diff(object):
    """a world is (the first source has an element, the second has, how they compare)"""
    names = {'S': 'the first source', 'D': 'the second source'}

    def worlds(self):
        return [(True, True, '<'), (True, True, '='), (True, True, '>'), (True, False, None), (False, True, None), (False, False, None)]

    def there(self, w, X):
        return w[0] if X == 'S' else w[1]

    def spec(self, w):
        if w[2] == '=':
            return ('skip', ('S', 'D'), 'elements which both have')
        return 'S' if w[0] and w[2] != '>' else 'D' if w[1] else 'end'

    def passes(self, w):
        s = self.spec(w)
        return s[1] if isinstance(s, tuple) else (s,)

    def succ(self, w, X, pend):
        out = []
        for there in (True, False):
            s, d = (there, w[1]) if X == 'S' else (w[0], there)
            out += [(s, d, r) for r in ('<', '=', '>')] if s and d and not pend else [(s, d, None)]
        return out

    def less(self, w, x, y, n):
        if w[2] is None or x == y:
            return None
        return ('n', {'<': -2, '=': 0, '>': 2}[w[2]] * (1 if x == 'S' else -1))

    def show(self, w):
        if w[2]:
            return 'the element of the first source is %s that of the second' % {'<': 'less than', '=': 'equal to', '>': 'greater than'}[w[2]]
        return ', '.join('%s %s' % (self.names[X], 'has an element' if self.there(w, X) else 'has ended') for X in 'SD')

    def mayfail(self, w):
        return False

    def gives(self, w, s, ret):
        if not tagged(ret, 'diff') or s not in ('S', 'D'):
            return None
        op, X = ret[1][1:]
        if X != s:
            return 'gives an element of %s instead of one of %s' % (self.names[X], self.names[s])
        if op != {'S': 'Removed', 'D': 'Added'}[s]:
            return 'describes an element which only %s has as %s' % (self.names[s], op.lower())
        return None

    def call(self, a, n, u, env):
        r = sources(a, n, u, env)
        if r is not None:
            return r
        b, args = n.base, n.args
        if b == 'MakeDiffEntry' and len(args) == 2:
            op, X = a.ev(args[0], u, env), a.kind(a.ev(args[1], u, env), 'elem')
            return [(u, env, ('s', ('diff', op[1].rsplit('::', 1)[-1], X)) if X is not None and isinstance(op, tuple) and op[0] == 'e' else None)]
        return None


class Iters(object):
    """from one iterator to another"""
    names = {'I': 'the sequence'}

    def worlds(self):
        return [(True,), (False,)]

    def there(self, w, X):
        return w[0]

    def spec(self, w):
        return 'I' if w[0] else 'end'

    def passes(self, w):
        return ('I',)

    def succ(self, w, X, pend):
        return self.worlds()

    def less(self, w, x, y, n):
        return None

    def show(self, w):
        return 'the sequence has %s' % ('an element' if w[0] else 'ended')

    def mayfail(self, w):
        return False

    def gives(self, w, s, ret):
        return None

    def call(self, a, n, u, env):
        if n.raw.get('k') == 'ctor' and n.obj is not None and not n.args and norm(n.obj) == ('this',):
            return [(u, env, None)]
        return None


class Equal(Walk):
    """w = (first has an element, second has one, how far the first is ahead, whether the elements are equal, whether unequal ones were passed)"""
    def off(self, u):
        return u[0][2]

    @staticmethod
    def starts():
        return [(True, True, 0, True, False), (True, True, 0, False, False), (True, False, 0, None, False), (False, True, 0, None, False), (False, False, 0, None, False)]

    def advance(self, n, u, env, X):
        w, pend, ok, thrown = u
        f, s, off, eq, ne = w
        if ok != 'ok':
            return [(u, env)]
        if not self.M.there(w, X):
            self.bad('moves beyond the end of %s' % self.M.names[X], 'past-end')
            return []
        ne = ne or eq is False
        off += 1 if X == 'S' else -1
        e = {k: v for k, v in env.items() if not self.about(v, X)}
        if abs(off) > 1:
            return [(u[:2] + ('lost',) + u[3:], e)]
        out = []
        for there in (True, False):
            f2, s2 = (there, s) if X == 'S' else (f, there)
            for q in ((True, False) if f2 and s2 and not off else (None,)):
                out.append((((f2, s2, off, q, ne), pend, ok, thrown), e))
        return out

    def effect(self, n, u, env):
        b, args, obj = n.base, n.args, n.obj
        vals = [self.ev(x, u, env) for x in args]
        if b in ('operator==', 'operator!=') and obj is not None and len(args) == 1:
            vals = [self.get(obj, u, env)] + vals
        if (b == 'operator()' or b in ('operator==', 'operator!=')) and len(vals) == 2 and n.dst is not None:
            x, y = self.kind(vals[0], 'elem'), self.kind(vals[1], 'elem')
            if x is not None and y is not None and x != y:
                if u[0][2] != 0 and u[2] == 'ok':
                    self.bad('compares elements at different positions', 'positions')
                    return []
                return [(u, self.put(env, n.dst, None if u[0][3] is None else u[0][3] == (b != 'operator!=')))]
        if b == 'operator()' and n.dst is not None:
            return [(u[:2] + ('lost',) + u[3:], self.put(env, n.dst, None))]
        return Walk.effect(self, n, u, env)


class EqualModel(Diff):
    def call(self, a, n, u, env):
        return sources(a, n, u, env)

    def show(self, w):
        f, s, off, eq, ne = w
        if eq is not None:
            return 'both sources have an element, they are %sequal' % ('' if eq else 'not ')
        return Diff.show(self, (f, s, None))


def equal(ctx, P, E, rs):
    for r in rs:
        if r.base != 'SequenceEqual' or r.scls or len(r.params) < 2 or any('IEnumerator<' not in q['t'] for q in r.params[:2]):
            continue
        g = E.run(r)
        for w in Equal.starts():
            m = EqualModel()
            a = Equal(ctx, P, g, r, m, m.show(w), w)
            env = {('rpar', i, q['n']): ('s', ('src', 'SD'[i])) for i, q in enumerate(r.params[:2])}
            try:
                a.run([((w, frozenset(), 'ok', False), env)])
            except AnalysisBroken:
                ctx.count('operations_given_up')
                break
            ctx.count('explorations')
            for u, ret, et in sorted(a.exits, key=repr):
                if u[2] != 'ok' or ret not in (True, False):
                    ctx.count('ends_undecided')
                    continue
                ctx.count('ends_judged')
                a.at(u, a.envs[et])
                f, s, off, eq, ne = u[0]
                differ = ne or eq is False or not s and (off > 0 or off == 0 and f) or not f and (off < 0 or off == 0 and s)
                if ret and not (not f and not s and off == 0 and not ne):
                    a.bad('says that the sequences are equal %s' % ('although they are not' if differ else 'before both have ended'), 'equal')
                if not ret and not differ:
                    a.bad('says that the sequences are not equal although %s' % ('they are' if not f and not s else 'nothing says so'), 'unequal')
            for u, et in sorted(a.throws, key=repr):
                if u[2] == 'ok' and u[3]:
                    a.at(u, a.envs[et])
                    a.bad('fails with an exception of its own', 'throws')
        ctx.count('operations')
        ctx.sample(r.where())


def enumerators(ctx, P, fn, cls, model, values):
    c = by_file(fn)
    E = Expander(P, mk_transparent(c.files), models=locky_models)
    E.alias = False
    by = {}
    for r in roots(P, c):
        if r.scls == S + cls and (r.fk == 'ctor' and len(r.params) > 1 or r.base in ('Valid', 'Get', 'Next')):
            by.setdefault(r.n[:r.n.rindex('::')], {}).setdefault('ctor' if r.fk == 'ctor' else r.base, r)
    shapes = set()
    for inst, rs in sorted(by.items()):
        if len(rs) < 4:
            continue
        if fn.endswith('FromStlContainer.h'):
            t = rs['ctor'].params[0]['t']
            k = '*' if t.rstrip('& ').endswith('*') else t.split('<')[0]
            if k in shapes:
                continue
            shapes.add(k)
        compose(ctx, P, inst, {k: (r, E.run(r)) for k, r in rs.items()}, model(), lambda r: {('rpar', i, r.params[i]['n']): v for i, v in enumerate(values)})
        ctx.sample(rs['ctor'].where())


def empty(ctx, P, E, rs):
    for r in rs:
        if r.scls == S + 'Detail::EmptyEnumerator' and r.base == 'Valid':
            a = Abs(E.run(r))
            a.run([('x', {})])
            for u, ret, et in a.exits:
                ctx.count('ends_judged' if ret in (True, False) else 'ends_undecided')
                if ret is True:
                    ctx.report('%s: says that there is an element' % r.where(), key=(r.sn, 'empty'))


def check(ctx, P):
    c = by_file('collection/EnumerableHelpers.h')
    E = Expander(P, mk_transparent(c.files), models=locky_models)
    E.alias = False
    rs = roots(P, c)
    equal(ctx, P, E, rs)
    empty(ctx, P, E, rs)
    enumerators(ctx, P, 'collection/EnumerableHelpers.h', 'Enumerable::Detail::EnumeratorDiff', Diff, [('s', ('src', 'S')), ('s', ('src', 'D'))])
    enumerators(ctx, P, 'collection/EnumerableFromStlContainer.h', 'IteratorsRangeEnumerator', Iters, [('s', ('cur', 'I')), ('s', ('end', 'I'))])
