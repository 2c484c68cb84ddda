"""The enumerators that merge items, additions and removals of a transaction."""
from engine import *
from locks import *
from comp import by_file, roots
from absx import Abs, norm, under, bare_cast
from walk import *
import itertools

FILE = 'collection/TransactionHelpers.h'


def dense(c):
    rs = sorted({x for x in c if x is not None})
    return tuple(None if x is None else rs.index(x) for x in c)


class Merge(object):
    names = {'I': 'the items', 'A': 'the added elements', 'R': 'the removed elements'}

    def __init__(self, keys):
        self.keys = keys

    def worlds(self):
        return sorted({dense(c) for c in itertools.product([None, 0, 1, 2], repeat=len(self.keys)) if self.valid(dense(c))}, key=repr)

    def rank(self, w, X):
        return w[self.keys.index(X)] if X in self.keys else None

    def there(self, w, X):
        return self.rank(w, X) is not None

    def valid(self, w):
        if 'I' not in self.keys:
            return True
        i, a, r = w
        if r is not None and (i is None or r < i):
            return False
        return not (a is not None and a == i and r != i)

    def spec(self, w):
        if 'I' not in self.keys:
            a, r = w
            return 'end' if a is None and r is None else 'A' if r is None or a is not None and a < r else 'R'
        i, a, r = w
        if i is None:
            return 'A' if a is not None else 'end'
        if a is not None and a < i:
            return 'A'
        if r == i:
            return ('skip', ('I', 'R'), 'an element that was removed')
        return 'I'

    def passes(self, w):
        return (self.spec(w),)

    def succ(self, w, X, pend):
        j = self.keys.index(X)
        out = set()
        top = max(x for x in w if x is not None) + 1
        for v in [None] + [x / 2.0 for x in range(2 * w[j] + 1, 2 * top + 1)]:
            c = dense(w[:j] + (v,) + w[j + 1:])
            if pend or self.valid(c):
                out.add(c)
        return sorted(out, key=repr)

    def less(self, w, x, y, n):
        a, b = self.rank(w, x), self.rank(w, y)
        return a < b if a is not None and b is not None else None

    def show(self, w):
        have = [X for X in self.keys if self.there(w, X)]
        s = ', '.join('%s %s' % (self.names[X], 'have ended' if not self.there(w, X) else 'stand at element %d' % self.rank(w, X)) for X in self.keys)
        return s

    def mayfail(self, w):
        return 'I' in self.keys and not self.valid(w)

    def gives(self, w, s, ret):
        t = ret[1] if isinstance(ret, tuple) and ret[0] == 's' and isinstance(ret[1], tuple) else None
        if t is None:
            return None
        if t[0] in ('item', 'elem'):
            if 'I' not in self.keys:
                return None
            return 'gives an element of %s instead of one of %s' % (self.names[t[1]], self.names[s]) if t[1] != s else None
        if t[0] == 'diff':
            if t[2] != s:
                return 'gives an element of %s instead of one of %s' % (self.names[t[2]], self.names[s])
            if t[1] != {'A': 'Added', 'R': 'Removed'}[s]:
                return 'describes an element of %s as %s' % (self.names[s], t[1].lower())
        return None

    def call(self, a, n, u, env):
        b, args = n.base, n.args
        if b in ('Begin', 'End') and len(args) == 1:
            X = a.kind(a.ev(args[0], u, env), 'holder')
            return [(u, env, ('s', ('cur' if b == 'Begin' else 'end', X)) if X is not None else None)]
        if b == 'ToItem' and len(args) == 1:
            X = a.kind(a.ev(args[0], u, env), 'elem')
            return [(u, env, ('s', ('item', X)) if X is not None else None)]
        if b == 'MakeDiffEntry' and len(args) == 2:
            op, X = a.ev(args[0], u, env), a.kind(a.ev(args[1], u, env), 'item')
            return [(u, env, ('s', ('diff', op[1].rsplit('::', 1)[-1], X)) if X is not None and isinstance(op, tuple) and op[0] == 'e' else None)]
        if n.raw.get('k') == 'ctor' and n.cls == S + 'DiffEntry' and len(args) == 2 and n.obj is not None:
            op, X = a.ev(args[0], u, env), a.kind(a.ev(args[1], u, env), 'item')
            if X is not None and isinstance(op, tuple) and op[0] == 'e':
                return [(u, a.put(env, n.obj, ('s', ('diff', op[1].rsplit('::', 1)[-1], X))), None)]
        return None


def check(ctx, P):
    c = by_file(FILE)
    E = Expander(P, mk_transparent(c.files), models=locky_models)
    E.alias = False
    by = {}
    for r in roots(P, c):
        for k, keys in ((S + 'SortedCollectionTransactionEnumerator', 'IAR'), (S + 'SortedCollectionTransactionDiffEnumerator', 'AR')):
            if r.scls == k and (r.fk == 'ctor' or r.base in ('Valid', 'Get', 'Next')):
                inst = r.n[:r.n.rindex('::')]
                by.setdefault((inst, keys), {}).setdefault('ctor' if r.fk == 'ctor' else r.base, r)
    if not by:
        ctx.broken('the merging enumerators of transactions vanished')
    for (inst, keys), rs in sorted(by.items()):
        if 'ctor' not in rs:
            continue

        def params(r):
            ps = [('rpar', i, q['n']) for i, q in enumerate(r.params)]
            return {p: ('s', ('holder', X)) for p, X in zip(ps, keys)}
        compose(ctx, P, inst, {k: (r, E.run(r)) for k, r in rs.items()}, Merge(keys), params)
        ctx.sample(rs['ctor'].where())
    directions(ctx, P)


class Dir(Abs):
    """where a direction begins and ends: positions in one sorted container relative to a key; u = (the key is there, something is above it, 'ok')"""
    def __init__(self, ctx, g, r):
        Abs.__init__(self, g)
        self.ctx, self.r = ctx, r

    def canon(self, p, u):
        if p == 'lo' and not u[0]:
            p = 'hi'
        if p == 'hi' and not u[1]:
            p = 'end'
        return p

    def pos(self, v):
        return v[1][1] if isinstance(v, tuple) and v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == 'pos' else None

    def took(self, n, tv, u, env):
        return u[:2] + ('lost',)

    def elem(self, p, u):
        p = self.canon(p, u)
        return 'key' if p == 'lo' else 'above' if p == 'hi' else None

    def read(self, p, u, env):
        if isinstance(p, tuple) and p and p[0] == 'fld' and p[2] == 'first':
            v = self.get(p[1], u, env)
            if isinstance(v, tuple) and v[0] == 's' and v[1][0] in ('el', 'arg'):
                return v
            return None
        if isinstance(p, tuple) and p and p[0] == 'deref':
            v = self.get(p[1], u, env)
            if self.pos(v):
                e = self.elem(self.pos(v), u)
                return ('s', ('el', e)) if e else None
            if isinstance(v, tuple) and v[0] == 's' and v[1][0] == 'el':
                return v
        if isinstance(p, tuple) and p and p[0] == 'fld' and p[1] == ('this',) and p[2] in ('Value', 'Key'):
            return ('s', ('el', 'key'))
        return None

    def equal(self, x, y, env):
        return None

    def effect(self, n, u, env):
        b, obj, args = n.base, n.obj, n.args
        v = [self.ev(a, u, env) for a in args]
        o = self.get(obj, u, env) if obj is not None else None

        def ret(x, e=None):
            e = env if e is None else e
            return [(u, self.put(e, n.dst, x) if n.dst is not None else e)]
        if n.raw.get('k') == 'ctor' and obj is not None and len(args) == 1:
            if n.cls == 'std::reverse_iterator' and self.pos(v[0]):
                return [(u, self.put(env, obj, ('s', ('rev', self.pos(v[0])))))]
            return [(u, self.put(env, obj, v[0]))]
        if b in ('begin', 'cbegin', 'end', 'cend') and not args:
            return ret(('s', ('pos', 'begin' if 'begin' in b else 'end')))
        if b in ('rbegin', 'crbegin', 'rend', 'crend') and not args:
            return ret(('s', ('rev', 'end' if 'begin' in b else 'begin')))
        if b in ('lower_bound', 'upper_bound', 'find') and len(args) == 1:
            if v[0] != ('s', ('el', 'key')):
                return ret(None)
            return ret(('s', ('pos', 'hi' if b == 'upper_bound' else 'lo' if b == 'lower_bound' or u[0] else 'end')))
        if b == 'make_reverse_iterator' and len(v) == 1 and self.pos(v[0]):
            return ret(('s', ('rev', self.pos(v[0]))))
        if b == 'base' and isinstance(o, tuple) and o[0] == 's' and o[1][0] == 'rev':
            return ret(('s', ('pos', o[1][1])))
        if b in ('operator++', 'next') and (self.pos(o) or v and self.pos(v[0])):
            x = self.canon(self.pos(o) or self.pos(v[0]), u)
            y = ('s', ('pos', 'hi' if x == 'lo' else 'beyond')) if x in ('lo', 'hi', 'end') else None
            if b == 'next':
                return ret(y if len(v) == 1 else None)
            old = o
            e = self.put(env, obj, y)
            return ret(old if args else y, e)
        if b in ('operator*', 'operator->') and self.pos(o):
            e = self.elem(self.pos(o), u)
            if b == 'operator->':
                return ret(o)
            return ret(('s', ('el', e)) if e else None)
        vals = ([o] if obj is not None and n.raw.get('k') != 'ctor' else []) + v
        if b in ('operator==', 'operator!=') and len(vals) == 2:
            x, y = self.pos(vals[0]), self.pos(vals[1])
            if x and y and not {'begin', 'beyond'} & {x, y}:
                return ret((self.canon(x, u) == self.canon(y, u)) == (b == 'operator=='))
            return ret(None)
        if b == 'operator()' and len(v) == 2:
            k = [x[1] if isinstance(x, tuple) and x[0] == 's' else None for x in v]
            if all(x and x[0] == 'el' for x in k):
                order = {'key': 0, 'above': 1}
                x, y = order.get(k[0][1]), order.get(k[1][1])
                if x is not None and y is not None:
                    return ret(x > y if 'Greater' in n.cls else x < y)
            if all(x and x[0] == 'arg' for x in k):
                x, y = k[0][1], k[1][1]
                return ret(('s', ('less',) + ((y, x) if 'Greater' in n.cls else (x, y))))
            return ret(None)
        if b in ('count', 'contains', 'ContainsKey') and v and v[0] == ('s', ('el', 'key')):
            return ret(('n', int(u[0])) if b == 'count' else bool(u[0]))
        return Abs.effect(self, n, u, env)


def directions(ctx, P):
    for fn in ('collection/TransactionalSet.h', 'collection/TransactionalDictionary.h'):
        c = by_file(fn)
        E = Expander(P, mk_transparent(c.files), models=locky_models)
        E.alias = False
        seen = set()
        for r in roots(P, c):
            cls = r.scls.split('::')
            d = next((x for x in cls if x.endswith('EnumerationDirection')), None)
            if d is None or r.fk == 'ctor' or r.fk == 'dtor' or r.sn in seen:
                continue
            seen.add(r.sn)
            rev, find = d.startswith('Reverse'), 'Find' in d
            ps = [('rpar', i, q['n']) for i, q in enumerate(r.params)]
            less = r.base == 'operator()' and len(ps) == 2
            if not (r.base in ('Begin', 'End') or less):
                continue
            g = E.run(r)
            for has, above in ((h, x) for h in (True, False) for x in (True, False)):
                a = Dir(ctx, g, r)
                env = {p: ('s', ('arg', i)) for i, p in enumerate(ps)} if less else {}
                a.run([((has, above, 'ok'), env)])
                ctx.count('explorations')
                for u, ret, et in sorted(a.exits, key=repr):
                    if u[2] != 'ok' or not (isinstance(ret, tuple) and ret[0] == 's' and isinstance(ret[1], tuple)):
                        ctx.count('ends_undecided')
                        continue
                    ctx.count('ends_judged')
                    t = ret[1]
                    what = 'the key is %sthere, %s above it' % ('' if has else 'not ', 'something' if above else 'nothing')

                    def bad(m):
                        a.at(u, a.envs[et])
                        ctx.report('%s (%s): %s; path: %s' % (r.where(), what, m, a.trace()), key=(r.sn, m))
                    if less:
                        if t[0] == 'less' and t[1:] != ((1, 0) if rev else (0, 1)):
                            bad('compares in the %s order' % ('wrong' if set(t[1:]) != {0, 1} else 'forward' if rev else 'reverse'))
                        continue
                    if t[0] not in ('pos', 'rev'):
                        continue
                    if r.base == 'End':
                        want = ('rev', 'begin') if rev else ('pos', 'end')
                    elif find:
                        want = ('rev', a.canon('hi', u)) if rev else ('pos', a.canon('lo', u))
                    else:
                        want = ('rev', 'end') if rev else ('pos', 'begin')
                    if (t[0], a.canon(t[1], u)) != want:
                        bad('%s somewhere else than %s' % ('begins' if r.base == 'Begin' else 'ends', 'at the first element that is not %s the key' % ('above' if rev else 'below') if find and r.base == 'Begin' else 'at the %s end of the collection' % ('far' if rev == (r.base == 'Begin') else 'near')))
            ctx.count('operations')


class Populator(object):
    """walks a list of committed items for a new subscriber: every item as added at its position"""
    names = {'S': 'the items'}
    TOP = 3

    def worlds(self):
        return [(0, True), (0, False)]

    def there(self, w, X):
        return w[1]

    def spec(self, w):
        return 'S' if w[1] else 'end'

    def passes(self, w):
        return ('S',)

    def succ(self, w, X, pend):
        k = min(self.TOP, w[0] + 1)
        return [(k, True), (k, False)]

    def less(self, *a):
        return None

    def show(self, w):
        return 'at position %d%s' % (w[0], '' if w[1] else ', the end')

    def mayfail(self, w):
        return False

    def gives(self, w, s, ret):
        t = ret[1] if isinstance(ret, tuple) and ret[0] == 's' and isinstance(ret[1], tuple) else None
        if t is None or t[0] != 'diff':
            return None
        if t[1] != 'Added':
            return 'describes an item as %s' % t[1].lower()
        p = t[2]
        if isinstance(p, tuple) and p[0] == 'pair' and isinstance(p[1], tuple) and p[1][0] == 'n' and w[0] < self.TOP and p[1][1] != w[0]:
            return 'gives the item at position %d with position %d' % (w[0], p[1][1])
        return None

    def call(self, a, n, u, env):
        b, args, obj = n.base, n.args, n.obj
        if b in ('begin', 'cbegin', 'end', 'cend') and obj is not None and a.kind(a.get(obj, u, env), 'holder') == 'S':
            return [(u, env, ('s', ('cur' if 'begin' in b else 'end', 'S')))]
        if n.raw.get('k') == 'ctor' and n.cls == S + 'KeyValuePair' and len(args) == 2 and obj is not None:
            k, X = a.ev(args[0], u, env), a.kind(a.ev(args[1], u, env), 'elem')
            return [(u, a.put(env, obj, ('s', ('pair', k, X)) if X is not None else None), None)]
        if b == 'MakeDiffEntry' and len(args) == 2:
            op, p = a.ev(args[0], u, env), a.ev(args[1], u, env)
            return [(u, env, ('s', ('diff', op[1].rsplit('::', 1)[-1], p[1])) if isinstance(p, tuple) and p[0] == 's' and isinstance(op, tuple) and op[0] == 'e' else None)]
        return None


def populator(ctx, P):
    c = by_file('collection/TransactionalList.h')
    E = Expander(P, mk_transparent(c.files), models=locky_models)
    E.alias = False
    rs = {}
    for r in roots(P, c):
        if r.scls == S + 'TransactionalList::PopulatorEnumerator' and (r.fk == 'ctor' or r.base in ('Valid', 'Get', 'Next')):
            rs.setdefault('ctor' if r.fk == 'ctor' else r.base, r)
    if 'ctor' in rs:
        compose(ctx, P, 'PopulatorEnumerator', {k: (r, E.run(r)) for k, r in rs.items()}, Populator(), lambda r: {('rpar', 0, r.params[0]['n']): ('s', ('holder', 'S'))} if r.params else {})
