"""Operations and adapters on enumerators: which elements of their sources they visit, in which order, and what they make of them.

Sources are abstract sequences: where they stand (an element that satisfies the predicate, one that does not, the end) is chosen freely at every step,
so every sequence is covered.  Integers are known relative to what was counted: a value is a set of facts (a, b, m, c), each saying that it equals
a * N + b * L + m * M + c, where N elements were passed (or delivered), M of them satisfy the predicate, and L is the limit the caller gave."""
from engine import *
from locks import *
from comp import by_file, roots
from absx import Abs, norm, under, bare_cast

S = 'stingray::'
INF = 1 << 20
EN, EB = S + 'IEnumerator', S + 'IEnumerable'


def elem(X, i):
    return ('s', ('elem', X, i))


def tagged(v, k):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == 's' and isinstance(v[1], tuple) and v[1][:1] == (k,)


class Num(Abs):
    """u is a tuple whose last two items are 'ok' / 'lost' and whether an exception of its own was thrown; counts(u) gives the intervals of N, L - N and M"""
    def __init__(self, ctx, P, g, r, what):
        Abs.__init__(self, g, cap=120000)
        self.ctx, self.P, self.r, self.what = ctx, P, r, what
        self.nums = {x[0]: x[1] for en in P.enums.values() for x in en['v']}

    def bad(self, msg, key):
        self.ctx.report('%s%s: %s; path: %s' % (self.r.where(), ' (%s)' % self.what if self.what else '', msg, self.trace()), key=(self.r.sn, key))

    def lost(self, u):
        return u[:-2] + ('lost', u[-1])

    def ok(self, u):
        return u[-2] == 'ok'

    def took(self, n, tv, u, env):
        return self.lost(u)

    def step(self, n, u, env):
        if n.op == 'throw':
            return [u[:-1] + (True,)]
        if n.op in ('catch', 'enter_catch'):
            return [self.lost(u[:-1] + (False,))]
        return None

    def throw(self, n, u, env):
        return None if n.op == 'call' else u

    def read(self, p, u, env):
        if isinstance(p, tuple) and p and p[0] == 'deref':
            v = self.get(p[1], u, env)
            if isinstance(v, tuple) and v[0] == 's' and isinstance(v[1], tuple):
                return v[1][1] if v[1][0] == 'just' else v
            if isinstance(v, tuple) and v[0] in ('n', 'i'):
                return v
        return None

    def wrapped(self, a, u, env):
        v = Abs.wrapped(self, a, u, env)
        if tagged(v, 'just') and isinstance(v[1][1], tuple) and v[1][1][0] == 's':
            return v[1][1]
        return v

    # -- integers
    def facts(self, v):
        if isinstance(v, tuple) and v[0] == 'n':
            return frozenset([(0, 0, 0, v[1])])
        if isinstance(v, tuple) and v[0] == 'i':
            return v[1]
        return None

    def known(self, v, u):
        """facts, with those that follow from the counts being known"""
        f = self.facts(v)
        if f is None:
            return None
        N, D, M = self.counts(u)
        out = set(f)
        for a, b, m, c in f:
            if a == b == m == 0:
                if N[0] == N[1]:
                    out.add((1, 0, 0, c - N[0]))
                if M is not None and M[0] == M[1]:
                    out.add((0, 0, 1, c - M[0]))
        return frozenset(out)

    @staticmethod
    def num(f):
        f = frozenset(x for x in f if abs(x[3]) <= 4)
        if not f:
            return None
        return ('i', f)

    def rebase(self, v, u, dn, dm):
        """N grows by dn, M by dm"""
        f = self.known(v, u)
        return self.num((a, b, m, c - a * dn - m * dm) for a, b, m, c in f)

    def interval(self, x, u):
        """of a * N + b * L + m * M + c"""
        a, b, m, c = x
        N, D, M = self.counts(u)
        lo = hi = c
        for k, iv in ((a + b, N), (b, D), (m, M)):
            if k == 0:
                continue
            if iv is None:
                return (-INF, INF)
            p, q = sorted((k * iv[0], k * iv[1]))
            lo, hi = max(-INF, lo + p), min(INF, hi + q)
        return lo, hi

    def diff(self, x, y, u):
        """interval of x - y"""
        f, g = self.known(x, u), self.known(y, u)
        if f is None or g is None:
            return None
        lo, hi = -INF, INF
        for p in f:
            for q in g:
                i = self.interval(tuple(s - t for s, t in zip(p, q)), u)
                lo, hi = max(lo, i[0]), min(hi, i[1])
        return lo, hi

    def truth(self, v, env):
        if isinstance(v, tuple) and v[0] == 'i':
            return None
        return Abs.truth(self, v, env)

    def equal(self, x, y, env):
        for a, b in ((x, y), (y, x)):
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'e' and b[0] == 'n' and a[1] in self.nums:
                return self.nums[a[1]] == b[1]
        if self.facts(x) is not None and self.facts(y) is not None and (x[0] == 'i' or y[0] == 'i'):
            d = self.diff(x, y, self.u)
            return True if d == (0, 0) else False if d[0] > 0 or d[1] < 0 else None
        if tagged(x, 'elem') and tagged(y, 'elem'):
            return None
        return Abs.equal(self, x, y, env)

    def ev(self, v, u, env):
        self.u = u
        w = bare_cast(v)
        if isinstance(w, tuple) and w and w[0] == 'bin' and w[1] in ('<', '>', '<=', '>=', '+', '-'):
            x, y = self.ev(w[2], u, env), self.ev(w[3], u, env)
            f, g = self.facts(x), self.facts(y)
            if f is None or g is None:
                return None
            if w[1] in '+-':
                if x[0] == y[0] == 'n':
                    return ('n', x[1] + y[1] if w[1] == '+' else x[1] - y[1])
                s = 1 if w[1] == '+' else -1
                return self.num(tuple(i + s * j for i, j in zip(p, q)) for p in f for q in g)
            lo, hi = self.diff(x, y, u)
            if w[1] in ('>', '<='):
                return (w[1] == '>') if lo > 0 else (w[1] == '<=') if hi <= 0 else None
            return (w[1] == '<') if hi < 0 else (w[1] == '>=') if lo >= 0 else None
        return Abs.ev(self, v, u, env)

    def compare(self, a, b, pol, u, env):
        self.u = u
        return Abs.compare(self, a, b, pol, u, env)

    def cond(self, c, u, env):
        r = self.ev(c, u, env)
        if isinstance(r, tuple) and r[0] == 'i':
            d = self.diff(r, ('n', 0), u)
            return False if d == (0, 0) else True if d[0] > 0 or d[1] < 0 else None
        return Abs.cond(self, c, u, env)

    def rmw(self, n, u, env):
        v = self.ev(n.v, u, env)
        return v if self.facts(v) is not None and not (v[0] == 'n' and abs(v[1]) > 4) else None

    # -- sources
    def source(self, p, u, env):
        v = self.get(p, u, env)
        return v[1][1] if tagged(v, 'src') else None

    def effect(self, n, u, env):
        self.u = u
        b, obj, args = n.base, n.obj, n.args
        if obj is not None and b in ('Valid', 'Get', 'Next') and not args:
            X = self.source(obj, u, env)
            if X is not None:
                if b == 'Valid':
                    return [(u, self.put(env, n.dst, self.there(u, X)) if n.dst is not None else env)]
                if b == 'Get':
                    if self.ok(u) and not self.there(u, X):
                        self.bad('asks a source that has ended for an element', 'get-end')
                        return []
                    return [(u2, self.put(env, n.dst, v) if n.dst is not None else env) for u2, v in self.take(n, u, env, X)]
                if not self.ok(u):
                    return [(u, env)]
                if not self.there(u, X):
                    self.bad('moves a source that has ended', 'past-end')
                    return []
                return self.advance(n, u, env, X)
        if b == 'GetEnumerator' and obj is not None and n.dst is not None:
            v = self.get(obj, u, env)
            if tagged(v, 'able'):
                u2, x = self.open(n, u, env, v[1][1])
                return [(u2, self.put(env, n.dst, x))]
        if b == 'ToEnumerator' and len(args) == 1 and n.dst is not None:
            v = self.ev(args[0], u, env)
            if tagged(v, 'src'):
                return [(u, self.put(env, n.dst, v))]
            if tagged(v, 'able'):
                u2, x = self.open(n, u, env, v[1][1])
                return [(u2, self.put(env, n.dst, x))]
        if n.raw.get('k') == 'ctor' and obj is not None and not args and norm(obj) == ('this',):
            return [(u, env)]
        if n.raw.get('k') == 'ctor' and n.cls == S + 'shared_ptr' and len(args) > 1 and obj is not None:
            return [(u, self.copy(env, obj, args[0], u))]
        if b == 'emplace' and obj is not None and n.cls == S + 'optional' and len(args) == 1:
            return [(u, self.put(env, obj, self.wrapped(args[0], u, env)))]
        r = self.more(n, u, env)
        if r is not None:
            return r
        return Abs.effect(self, n, u, env)

    def open(self, n, u, env, X):
        return u, ('s', ('src', X))

    def take(self, n, u, env, X):
        return [(u, self.current(u, X))]

    def more(self, n, u, env):
        return None

    def ret(self, n, u, env, v):
        return [(u, self.put(env, n.dst, v) if n.dst is not None else env)]


# ---------------------------------------------------------------------------------------------------------------------
# operations that walk an enumerator to its end or to the element they look for

class Term(Num):
    """u = (cur, N, M, F, done, D, 'ok', thrown): attribute of the current element (None at the end), how many were passed and how many of these satisfy the
    predicate, whether one did not, how often the current one was processed, and the limit minus N"""
    TOP = 3

    def __init__(self, ctx, P, g, r, what, spec):
        Num.__init__(self, ctx, P, g, r, what)
        self.spec = spec

    def counts(self, u):
        cur, N, M, F, done, D = u[:6]
        return ((N, N) if N < self.TOP else (N, INF)), (None if D is None else (-INF, -1) if D < 0 else (D, D) if D < self.TOP else (D, INF)), ((M, M) if M < 2 else (M, INF))

    def there(self, u, X):
        return u[0] is not None

    def current(self, u, X):
        return elem('E', 'cur')

    def advance(self, n, u, env, X):
        cur, N, M, F, done, D, ok, th = u
        if self.spec.each:
            due = self.spec.due(cur)
            if done != due and not (self.spec.name == 'break' and M):
                self.bad('passes an element without processing it' if not done else 'processes an element %s' % ('twice' if due else 'that the condition excludes'), 'each')
                return []
        e = {}
        dm = 1 if cur == 'p' else 0
        for k, v in env.items():
            if self.facts(v) is not None:
                v = self.rebase(v, u, 1, dm)
                if v is None:
                    continue
            elif v == elem('E', 'cur'):
                v = elem('E', 'last' if cur == 'p' else 'failed')
            elif v == elem('E', 'last') and cur == 'p':
                v = elem('E', 'old')
            elif v == ('s', ('accx',)):
                v = ('s', ('acc',))
            elif v == ('s', ('acc',)):
                v = ('s', ('stale',))
            if k and isinstance(k, tuple) and k[0] in ('truth', 'eq'):
                continue
            e[k] = v
        if self.spec.name == 'Aggregate' and N == 0:
            e = {k: ('s', ('acc',)) if v == elem('E', 'last') and env.get(k) == elem('E', 'cur') else v for k, v in e.items()}
        Ds = [None] if D is None else [D - 1] if D < self.TOP else [D - 1, D]
        out = []
        for c in [None] + self.spec.attrs:
            for d in Ds:
                if d is not None and d < -1:
                    d = -1
                out.append(((c, min(N + 1, self.TOP), min(M + dm, 2), F or cur == 'f', 0, d, ok, th), e))
        return out

    def more(self, n, u, env):
        b, obj, args = n.base, n.obj, n.args
        vals = [self.ev(a, u, env) for a in args]
        if b == 'operator()' and obj is not None:
            f = self.get(obj, u, env)
            if f in (('s', ('fun',)), ('s', ('act',))):
                return self.apply(n, u, env, vals)
            if tagged(f, 'bound') and len(vals) == 1:
                return self.apply(n, u, env, vals)
        if b == 'operator()' and n.cls.startswith('std::equal_to') and len(vals) == 2 and ('s', ('value',)) in vals:
            return self.apply(n, u, env, [v for v in vals if v != ('s', ('value',))])
        if b in ('operator==', 'operator!=') and n.dst is not None:
            vs = ([self.get(obj, u, env)] if obj is not None else []) + vals
            if len(vs) == 2 and ('s', ('value',)) in vs:
                o = vs[1] if vs[0] == ('s', ('value',)) else vs[0]
                if o == elem('E', 'cur'):
                    return self.ret(n, u, env, (u[0] == 'p') == (b == 'operator=='))
        if b == 'Bind' and n.dst is not None:
            if ('s', ('value',)) in vals:
                return self.ret(n, u, env, ('s', ('bound',)))
            return self.ret(n, u, env, None)
        if b in ('push_back', 'emplace_back') and obj is not None and tagged(self.get(obj, u, env), 'coll'):
            if self.spec.each and self.ok(u):
                return self.process(n, u, env, vals)
        if b in ('begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'crbegin', 'crend') and obj is not None and n.dst is not None and tagged(self.get(obj, u, env), 'coll'):
            return self.ret(n, u, env, ('s', ('pos', b.replace('c', '').replace('rbegin', 'R').replace('rend', 'r').replace('begin', 'B').replace('end', 'b'))))
        if b in ('EnumerableFromStlContainer', 'EnumeratorFromStlContainer') and n.dst is not None and vals and tagged(vals[0], 'coll'):
            if len(vals) < 2 or not tagged(vals[1], 'coll'):
                self.bad('returns an enumeration that does not keep its elements alive', 'lifetime')
            return self.ret(n, u, env, ('s', ('seq', 'fwd')))
        if b in ('EnumerableFromStlIterators', 'EnumeratorFromStlIterators') and n.dst is not None and len(vals) > 1 and tagged(vals[0], 'pos') and tagged(vals[1], 'pos'):
            if len(vals) < 3 or not tagged(vals[2], 'coll'):
                self.bad('returns an enumeration that does not keep its elements alive', 'lifetime')
            return self.ret(n, u, env, ('s', ('seq', {'Rr': 'rev', 'Bb': 'fwd'}.get(vals[0][1][1] + vals[1][1][1], 'other'))))
        if b == 'make_shared_ptr' and n.dst is not None:
            if 'OneItemEnumer' in (n.raw.get('fn') or '') or any(v in (('s', ('default',)), elem('E', 'cur')) for v in vals):
                return self.ret(n, u, env, ('s', ('one', vals[0] if vals else None)))
            if not vals and 'vector' in (n.raw.get('fn') or ''):
                return self.ret(n, u, env, ('s', ('coll',)))
            return self.ret(n, u, env, ('s', ('made', n.i)))
        return None

    def process(self, n, u, env, vals):
        if self.spec.name == 'break' and u[2]:
            self.bad('goes on after the loop was left', 'after-break')
            return []
        if vals == [elem('E', 'cur')]:
            return self.ret(n, u[:4] + (min(u[4] + 1, 2),) + u[5:], env, None)
        return self.ret(n, self.lost(u), env, None)

    def apply(self, n, u, env, vals):
        """the functor the caller gave is called"""
        name = self.spec.name
        if name in ('where', 'break') and self.get(n.obj, u, env) == ('s', ('act',)) or name == 'ForEach':
            return self.process(n, u, env, vals) if self.ok(u) else self.ret(n, u, env, None)
        if name == 'Aggregate':
            if len(vals) == 2 and self.ok(u):
                N = u[1]
                acc = vals[0] == ('s', ('acc',))
                if acc and vals[1] == elem('E', 'cur'):
                    return self.ret(n, u, env, ('s', ('accx',)))
                if all(tagged(v, 'elem') or tagged(v, 'acc') or tagged(v, 'accx') or tagged(v, 'stale') for v in vals):
                    self.bad('does not combine the result so far with the current element', 'fold')
                    return []
            return self.ret(n, self.lost(u), env, None)
        if vals == [elem('E', 'cur')]:
            return self.ret(n, u, env, u[0] == 'p')
        if vals == [elem('E', 'last')]:
            return self.ret(n, u, env, True)
        if vals == [elem('E', 'failed')]:
            return self.ret(n, u, env, False)
        return self.ret(n, self.lost(u) if n.dst is not None else u, env, None)


class Spec(object):
    def __init__(self, name, pred, dflt, index, init):
        self.name, self.pred, self.dflt, self.index, self.init = name, pred, dflt, index, init
        self.attrs = ['p', 'f'] if pred else ['p']
        self.each = name in ('ForEach', 'Clone', 'Reverse', 'where', 'break')

    def due(self, cur):
        """how often the element has to be processed before it is passed"""
        if self.name == 'where':
            return 1 if cur == 'p' else 0
        if self.name == 'break':
            return 0 if cur == 'p' else 1
        return 1

    def starts(self):
        for c in [None] + self.attrs:
            for d in ([0, 1, 2, 3] if self.index else [None]):
                yield (c, 0, 0, False, 0, d, 'ok', False)

    def thrown(self, u):
        """-> message if failing is wrong here"""
        cur, N, M, F, done, D = u[:6]
        nm = self.name
        if nm in ('First', 'Last'):
            return None if cur is None and M == 0 else 'fails although there may be an element it should return'
        if nm == 'Single':
            return None if cur is None and N == 0 or cur is not None and N >= 1 or N > 1 else 'fails although there is exactly one element' if cur is None else 'fails without knowing that there is no single element'
        if nm == 'ElementAt':
            return None if cur is None and D >= 0 else 'fails although the element at that index may be there'
        return 'fails with an exception of its own'

    def judge(self, a, u, v):
        """-> message, None (right) or False (not known)"""
        cur, N, M, F, done, D = u[:6]
        nm, end = self.name, cur is None
        el = tagged(v, 'elem')
        none = v is False or v == ('s', ('default',))
        if nm in ('Any', 'Contains'):
            if not self.pred and nm == 'Any':
                return False if not isinstance(v, bool) else None if v == (N > 0 or not end) else 'says that there %s' % ('is an element' if v else 'is no element')
            if v is True:
                return None if M > 0 or cur == 'p' else 'says that an element satisfies the condition although none is known to'
            if v is False:
                return None if M == 0 and end else 'says that no element satisfies the condition %s' % ('although one does' if M or cur == 'p' else 'before the end was reached')
            return False
        if nm == 'All':
            if v is False:
                return None if F or cur == 'f' else 'says that an element does not satisfy the condition although none is known not to'
            if v is True:
                return None if not F and end else 'says that all elements satisfy the condition %s' % ('although one does not' if F or cur == 'f' else 'before the end was reached')
            return False
        if nm == 'Count':
            d = a.diff(v, ('i', frozenset([(0, 0, 1, 0)])), u) if a.facts(v) is not None else None
            if d is None:
                return False
            if not end:
                return 'stops counting before the end'
            return None if d == (0, 0) else 'counts the elements wrongly' if d[0] > 0 or d[1] < 0 else False
        if nm == 'IndexOf':
            w = v[1][1] if tagged(v, 'just') else v
            if v is False:
                return None if M == 0 and end else 'finds no element %s' % ('although there is one' if M or cur == 'p' else 'before the end was reached')
            d = a.diff(w, ('i', frozenset([(1, 0, 0, 0)])), u) if a.facts(w) is not None else None
            if d is None:
                return False
            if M > 0:
                return 'does not return the index of the first element found'
            if cur != 'p':
                return 'returns the index of another element'
            return None if d == (0, 0) else 'returns a wrong index' if d[0] > 0 or d[1] < 0 else False
        if nm in ('ElementAt', 'ElementAtOrDefault'):
            if el:
                return None if D == 0 and v[1][2] == 'cur' else 'returns the element at another index' if v[1][2] == 'cur' or D is not None else False
            if none and nm == 'ElementAtOrDefault':
                if (v is False) == self.dflt:
                    return 'does not return the value the caller gave'
                return None if end and D >= 0 else 'does not return the element although it may be there'
            return False
        if nm in ('First', 'FirstOrDefault'):
            if el:
                return None if v[1][2] == 'cur' and M == 0 and cur == 'p' or v[1][2] == 'last' and M == 1 else 'returns an element that does not satisfy the condition' if v[1][2] == 'failed' or v[1][2] == 'cur' and cur == 'f' else 'does not return the first element'
            if none and nm == 'FirstOrDefault':
                if (v is False) == self.dflt:
                    return 'does not return the value the caller gave'
                return None if end and M == 0 else 'returns no element although there may be one'
            return False
        if nm in ('Last', 'LastOrDefault'):
            if el:
                return 'stops before the end' if not end else None if v[1][2] == 'last' else 'returns an element that does not satisfy the condition' if v[1][2] == 'failed' else 'does not return the last element'
            if none and nm == 'LastOrDefault':
                if (v is False) == self.dflt:
                    return 'does not return the value the caller gave'
                return None if end and M == 0 else 'returns no element although there may be one'
            return False
        if nm == 'Single':
            if el:
                return None if N == 1 and end else 'returns an element although there may be more than one'
            return False
        if nm == 'Aggregate':
            if not end:
                return 'stops before the end'
            if v == ('s', ('acc',)):
                return None
            if v is False:
                return None if N == 0 else 'returns nothing although there are elements'
            return 'returns something else than the combination of all elements' if tagged(v, 'stale') or el else False
        if nm == 'break' and not end:
            return None if M else 'stops at an element at which the loop is not left' if cur != 'p' else 'processes an element after the loop was left' if done else None
        if nm in ('ForEach', 'where', 'break'):
            return None if end else 'stops before the end'
        if nm in ('Clone', 'Reverse'):
            if not end:
                return 'stops before the end'
            if tagged(v, 'seq'):
                return None if v[1][1] == ('fwd' if nm == 'Clone' else 'rev') else 'returns the elements in another order'
            return False
        if nm == 'DefaultIfEmpty':
            if tagged(v, 'one'):
                if not end:
                    return 'replaces elements by the default'
                return False if v[1][1] is None or not self.dflt else None if v[1][1] == ('s', ('default',)) else 'does not deliver the value the caller gave'
            if tagged(v, 'src') or tagged(v, 'able'):
                return None if not end and N == 0 else 'delivers nothing instead of the default' if end else 'loses elements'
            return False
        if nm == 'Skip':
            if tagged(v, 'src'):
                return None if D == 0 or end and D >= 0 else 'skips another number of elements'
            return False
        return False


NAMES = {'Aggregate', 'All', 'Any', 'Contains', 'Count', 'ForEach', 'IndexOf', 'ElementAt', 'ElementAtOrDefault', 'DefaultIfEmpty', 'First', 'FirstOrDefault', 'Last', 'LastOrDefault', 'Clone', 'Reverse', 'Single', 'Skip', 'SkipEnumerator'}


def operations(ctx, P, E, c, rs):
    n = 0
    for r in rs:
        nm = r.base
        if r.scls or nm not in NAMES or not r.params:
            continue
        t0 = r.params[0]['t']
        ptr = 'shared_ptr' in t0
        if EN not in t0 and EB not in t0 and nm not in ('DefaultIfEmpty',):
            if not ptr:
                continue
        able = EB in t0.split('<', 2)[0 if not ptr else 1] if ptr else t0.replace('const ', '').startswith(EB)
        if ptr and not (EB in t0 or EN in t0):
            continue    # a collection seen through its interface
        env, roles = {}, []
        for i, q in enumerate(r.params):
            p, t = ('rpar', i, q['n']), q['t']
            if i == 0:
                env[p] = ('s', ('able' if able else 'src', 'E'))
            elif 'Binder' in t or 'function<' in t or t.replace('const ', '').startswith((S + 'function', S + 'Detail::')) or '(*)' in t:
                env[p] = ('s', ('fun',))
                roles.append('fun')
            elif t in ('unsigned long', 'size_t') and nm in ('ElementAt', 'ElementAtOrDefault', 'Skip', 'SkipEnumerator'):
                env[p] = ('i', frozenset([(0, 1, 0, 0)]))
                roles.append('index')
            elif q['n'] == '' and i == len(r.params) - 1 and t == 'int':
                continue
            elif nm == 'Aggregate':
                env[p] = ('s', ('acc',))
                roles.append('init')
            elif nm in ('Contains', 'IndexOf'):
                env[p] = ('s', ('value',))
                roles.append('fun')
            elif 'Default' in nm:
                env[p] = ('s', ('default',))
                roles.append('default')
            else:
                roles.append('?')
        if '?' in roles:
            ctx.count('operations_given_up')
            continue
        if able and nm == 'Skip' or nm == 'Reverse' and able and 'IReversableEnumerable' in t0:
            continue
        sp = Spec('Skip' if nm == 'SkipEnumerator' else nm, 'fun' in roles and nm not in ('ForEach', 'Aggregate'), 'default' in roles, 'index' in roles, 'init' in roles)
        try:
            g = E.run(r)
            a = Term(ctx, P, g, r, '', sp)
            a.run([(s, dict(env)) for s in sp.starts()])
        except AnalysisBroken:
            ctx.count('operations_given_up')
            continue
        n += 1
        ctx.count('operations')
        ctx.count('abstract_states', len(a.parent))
        if n % 7 == 0:
            ctx.sample(r.where())
        for u, ret, et in sorted(a.exits, key=repr):
            if not a.ok(u):
                ctx.count('ends_undecided')
                continue
            m = sp.judge(a, u, ret)
            ctx.count('ends_undecided' if m is False else 'ends_judged')
            if m:
                a.at(u, a.envs[et])
                a.bad(m, 'result')
        for u, et in sorted(a.throws, key=repr):
            if a.ok(u) and u[-1]:
                ctx.count('ends_judged')
                m = sp.thrown(u)
                if m:
                    a.at(u, a.envs[et])
                    a.bad(m, 'throws')
    return n


LOOPS = {'sgx_for_each': 'ForEach', 'sgx_for_each_continue': 'ForEach', 'sgx_for_each_where': 'where', 'sgx_for_each_break': 'break', 'sgx_for_each_enumerable': 'ForEach'}


def loops(ctx, P):
    """the loop statement, as used by the witnesses in tu/enumerables.cpp"""
    c = by_file('collection/ForEach.h')
    E = Expander(P, mk_transparent(c.files + ['collection/EnumerableHelpers.h', 'collection/IEnumerable.h']), models=locky_models)
    E.alias = False
    for r in sorted(P.fns.values(), key=lambda f: f.n):
        if r.base not in LOOPS or not r.params:
            continue
        nm = LOOPS[r.base]
        env = {('rpar', 0, r.params[0]['n']): ('s', ('able' if EB in r.params[0]['t'] else 'src', 'E')), ('rpar', 1, r.params[1]['n']): ('s', ('act',))}
        if len(r.params) > 2:
            env[('rpar', 2, r.params[2]['n'])] = ('s', ('fun',))
        sp = Spec(nm, len(r.params) > 2, False, False, False)
        try:
            a = Term(ctx, P, E.run(r), r, '', sp)
            a.run([(s, dict(env)) for s in sp.starts()])
        except AnalysisBroken:
            ctx.count('operations_given_up')
            continue
        ctx.count('operations')
        ctx.sample(r.where())
        for u, ret, et in sorted(a.exits, key=repr):
            if not a.ok(u):
                ctx.count('ends_undecided')
                continue
            m = sp.judge(a, u, ret)
            ctx.count('ends_judged')
            if m:
                a.at(u, a.envs[et])
                a.bad(m, 'result')


# ---------------------------------------------------------------------------------------------------------------------
# adapters: enumerators made from other enumerators

IDENTITY = {'Wrap', 'Unwrap', 'implicit_cast', 'checked_dynamic_caster', 'CheckedDynamicCaster', 'move', 'forward', 'ref', 'cref'}


class Pipe(Num):
    """u = (w, 'ok', thrown); w = (sources, N, D): for each source the attributes of its elements from the first one not yet delivered up to where it stands,
    and whether it has ended; how many elements were delivered; the limit minus that"""
    TOP = 3

    def __init__(self, ctx, P, g, r, what, model):
        Num.__init__(self, ctx, P, g, r, what)
        self.M = model

    def counts(self, u):
        N, D = u[0][1], u[0][2]
        return ((N, N) if N < self.TOP else (N, INF)), (None if D is None else (D, D) if D < self.TOP else (D, INF)), None

    @staticmethod
    def src(w, X):
        return dict((x[0], x[1:]) for x in w[0])[X]

    @staticmethod
    def having(w, X, q, ended):
        return (tuple((X, q, ended) if x[0] == X else x for x in w[0]),) + w[1:]

    def there(self, u, X):
        s = dict((x[0], x[1:]) for x in u[0][0]).get(X)
        return s is not None and not s[1]

    def current(self, u, X):
        q, e = self.src(u[0], X)
        return elem(X, len(q) - 1)

    def attr(self, u, v):
        s = dict((x[0], x[1:]) for x in u[0][0]).get(v[1][1])
        if s is None:
            return 'p' if v[1][1] == 'V' else None
        return s[0][v[1][2]] if 0 <= v[1][2] < len(s[0]) else None

    def advance(self, n, u, env, X):
        m = self.M.leave(u[0], X)
        if m:
            self.bad(m, 'lost-element')
            return []
        w, drop = self.M.left(u[0], X)
        if drop:
            env = {k: v for k, v in env.items() if not self.about(v, drop)}
        q, e = self.src(w, X)
        out = []
        for a in self.M.attrs(w, X) + [None]:
            w2 = self.having(w, X, q if a is None else q + (a,), a is None)
            w2, drops = self.M.settle(w2)
            if any(len(x[1]) > 4 for x in w2[0]):
                out.append((self.lost(u), env))
                continue
            out.append(((w2,) + u[1:], self.shift(env, drops)))
        return out

    @staticmethod
    def shifted(v, drops):
        if tagged(v, 'elem') and drops.get(v[1][1]):
            return elem(v[1][1], max(-1, v[1][2] - drops[v[1][1]]))
        if isinstance(v, tuple):
            return tuple(Pipe.shifted(x, drops) if isinstance(x, tuple) else x for x in v)
        return v

    def shift(self, env, drops):
        if not any(drops.values()):
            return env
        return {k: self.shifted(v, drops) for k, v in env.items()}

    @classmethod
    def about(cls, v, X):
        return isinstance(v, tuple) and (v == ('src', X) or tagged(v, 'elem') and v[1][1] == X or any(cls.about(x, X) for x in v if isinstance(x, tuple)))

    def read(self, p, u, env):
        if isinstance(p, tuple) and p and p[0] == 'fld':
            v = self.get(p[1], u, env)
            if v is not None:
                x = self.M.part(self, u, v, p[2])
                if x is not None:
                    return x
        return Num.read(self, p, u, env)

    def more(self, n, u, env):
        b, obj, args = n.base, n.obj, n.args
        r = self.M.call(self, n, u, env)
        if r is not None:
            return r
        vals = [self.ev(a, u, env) for a in args]
        if b in IDENTITY and obj is None and vals and isinstance(vals[0], tuple) and n.dst is not None:
            return self.ret(n, u, env, vals[0])
        if 'operator' in b and 'Caster' in (n.cls or '') and obj is not None and not args and n.dst is not None:
            return self.ret(n, u, env, self.get(obj, u, env))
        if b in ('DynamicCast', 'dynamic_pointer_cast', 'dynamic_caster') and vals and tagged(vals[0], 'elem') and n.dst is not None:
            a = self.attr(u, vals[0])
            return self.ret(n, u, env, vals[0] if a == 'p' else False if a == 'f' else None)
        if b == 'operator()' and obj is not None and n.dst is not None:
            f = self.get(obj, u, env)
            if f == ('s', ('pred',)) and len(vals) == 1:
                a = self.attr(u, vals[0]) if tagged(vals[0], 'elem') else None
                return self.ret(n, u if a in ('p', 'f') else self.lost(u), env, a == 'p' if a in ('p', 'f') else None)
            if f == ('s', ('map',)) and len(vals) == 1:
                return self.ret(n, u, env, ('s', ('mapped', vals[0])) if vals[0] is not None else None)
        return None


class Model(object):
    """one source, of which the elements that satisfy the predicate are delivered"""
    names = {'E': 'the source'}
    sources = ('E',)
    filtered = False
    limited = False

    def __init__(self, params):
        self.ps = [('rpar', i, q['n']) for i, q in enumerate(params)]
        self.types = [q['t'] for q in params]

    def params(self):
        return {self.ps[0]: ('s', ('src', 'E'))}

    def attrs(self, w, X):
        return ['p', 'f'] if self.filtered else ['p']

    def worlds(self):
        ws = [()]
        for X in self.sources:
            ws = [w + ((X, (a,) if a else (), a is None),) for w in ws for a in self.attrs((w, 0, None), X) + [None]]
        return [(w, 0, d) for w in ws for d in ([0, 1, 2, 3] if self.limited else [None])]

    def skip(self, w, X, q, ended):
        """how many of the elements at the head will not be delivered any more"""
        return 1 if q[0] in 'Df' else 0

    def settle(self, w):
        drops = {}
        out = []
        for X, q, e in w[0]:
            while q:
                k = self.skip(w, X, q, e)
                if not k or len(q) == k and not e:
                    break
                q = q[k:]
                drops[X] = drops.get(X, 0) + k
            out.append((X, q, e))
        return (tuple(out),) + w[1:], drops

    def leave(self, w, X):
        return None

    def left(self, w, X):
        return w, None

    def order(self, w):
        return [x[0] for x in w[0]]

    def first(self, w):
        """-> 'end', ('elem', X, index) or None (depends on what follows)"""
        if w[2] == 0:
            return 'end'
        for X in self.order(w):
            q, e = Pipe.src(w, X)
            if q and q[0] not in 'Df':
                return ('elem', X, 0)
            if not e:
                return None
        return 'end'

    def deliver(self, w):
        """-> [(world, drops)] in which the first element is marked as delivered"""
        f = self.first(w)
        q, e = Pipe.src(w, f[1])
        w = Pipe.having(w, f[1], ('D',) + q[1:], e)
        Ds = [None] if w[2] is None else [w[2] - 1] if w[2] < Pipe.TOP else [w[2] - 1, w[2]]
        return [self.settle((w[0], min(w[1] + 1, Pipe.TOP), d)) for d in Ds]

    def part(self, a, u, v, f):
        return None

    def call(self, a, n, u, env):
        return None

    def want(self, w, f):
        """value Get has to give for the first element"""
        return elem(f[1], f[2])

    def gives(self, a, u, f, v):
        want = self.want(u[0], f)
        if v == want:
            return None
        e = self.found(v)
        if e is None or self.found(want) is None:
            return False if v is None or not self.definite(v) else 'gives something else than the element'
        if e == self.found(want):
            return self.other(v, want)
        if e[1][2] < 0 or a.attr(u, e) == 'D':
            return 'gives an element again that was delivered already'
        if a.attr(u, e) == 'f':
            return 'gives an element that should be skipped'
        return 'gives %s before %s' % (self.say(e), self.say(self.found(want)))

    def other(self, v, want):
        return False

    def definite(self, v):
        return False

    def say(self, e):
        return 'element %d of %s' % (e[1][2], self.names[e[1][1]])

    @classmethod
    def found(cls, v):
        if tagged(v, 'elem'):
            return v
        if isinstance(v, tuple):
            for x in v:
                r = cls.found(x) if isinstance(x, tuple) else None
                if r is not None:
                    return r
        return None

    def show(self, w):
        out = []
        for X, q, e in w[0]:
            say = {'p': 'an element', 'f': 'an element to be skipped', 'D': 'the element delivered last', 'A': 'an addition', 'R': 'a removal', 'a': 'an addition of the same key', 'u': 'a nested enumeration', 'o': 'a nested enumeration'}
            out.append('%s: %s%s' % (self.names[X], ', '.join(say[x] for x in q), ('' if not q else ', ') + 'the end' if e else ''))
        if w[2] is not None:
            out.append('%s%d more allowed' % ('at least ' if w[2] >= Pipe.TOP else '', w[2]))
        return '; '.join(out)


def fields(env):
    return {k: v for k, v in env.items() if isinstance(k, tuple) and k and k[0] in ('fld', 'deref') and under(k, ('this',)) and not (isinstance(v, tuple) and v and v[0] == 'c')}


def adapter(ctx, P, graphs, model):
    """explores the adapter from its construction on"""
    seen, work = set(), []

    def push(w, f):
        k = (w, frozenset(f.items()))
        if k not in seen:
            seen.add(k)
            work.append((w, f))

    def explore(what, inits, w):
        r, g = graphs[what]
        a = Pipe(ctx, P, g, r, model.show(w), model)
        try:
            a.run(inits)
        except AnalysisBroken:
            ctx.count('operations_given_up')
            return None
        ctx.count('explorations')
        ctx.count('abstract_states', len(a.parent))
        return a

    def ends(a, allowed=False):
        for u, ret, et in sorted(a.exits, key=repr):
            if not a.ok(u):
                ctx.count('ends_undecided')
                continue
            push(u[0], fields(a.envs[et]))
        if not allowed:
            fails(a)

    def fails(a):
        for u, et in sorted(a.throws, key=repr):
            if a.ok(u) and u[-1] and not model.mayfail(u[0]):
                a.at(u, a.envs[et])
                a.bad('fails with an exception of its own', 'throws')

    for w in model.worlds():
        w = model.settle(w)[0]
        a = explore('ctor', [((w, 'ok', False), model.params())], w)
        if a is None:
            return
        ends(a)
    while work:
        if len(seen) > 600:
            ctx.count('operations_given_up')
            return
        w, f = work.pop()
        first = model.first(w)
        if 'Valid' in graphs:
            a = explore('Valid', [((w, 'ok', False), dict(f))], w)
            for u, ret, et in sorted(a.exits, key=repr) if a else ():
                if not a.ok(u):
                    ctx.count('ends_undecided')
                    continue
                fst = model.first(u[0])
                a.at(u, a.envs[et])
                if tagged(ret, 'elem') or tagged(ret, 'src'):
                    ret = True
                if ret is True or ret is False:
                    ctx.count('ends_judged')
                    if fst is None or ret != (fst != 'end'):
                        a.bad('says that there is %s element%s' % ('an' if ret else 'no', ' although that depends on what follows' if fst is None else ''), 'valid')
                else:
                    ctx.count('ends_undecided')
                if u[0] != w or fields(a.envs[et]) != f:
                    push(u[0], fields(a.envs[et]))
            if a:
                fails(a)
        if first == 'end' and w[2] == 0:
            # the limit is reached: whatever the source still has must neither be read nor be passed over
            for what in ('Get', 'Next'):
                a = explore(what, [((w, 'ok', False), dict(f))], w) if what in graphs else None
                for u, ret, et in sorted(a.exits, key=repr) if a else ():
                    if not a.ok(u):
                        continue
                    a.at(u, a.envs[et])
                    e = model.found(ret) if what == 'Get' and ret is not None else None
                    if e is not None and e[1][2] >= 0 and a.attr(u, e) == 'p':
                        a.bad('gives an element although the enumeration is over', 'over')
                    if what == 'Next' and u[0][0] != w[0]:
                        a.bad('moves the source although the enumeration is over', 'over')
        if not isinstance(first, tuple):
            continue
        if 'Get' in graphs:
            a = explore('Get', [((w, 'ok', False), dict(f))], w)
            for u, ret, et in sorted(a.exits, key=repr) if a else ():
                if not a.ok(u):
                    ctx.count('ends_undecided')
                    continue
                a.at(u, a.envs[et])
                m = model.gives(a, u, first, ret)
                ctx.count('ends_undecided' if m is False else 'ends_judged')
                if m:
                    a.bad(m, 'get')
                if u[0] != w or fields(a.envs[et]) != f:
                    push(u[0], fields(a.envs[et]))
            if a:
                fails(a)
        if 'Next' in graphs:
            for w2, drops in model.deliver(w):
                a0 = Pipe(ctx, P, graphs['Next'][1], graphs['Next'][0], '', model)
                u0 = (w, 'ok', False)
                env = {}
                for k, v in f.items():
                    if a0.facts(v) is not None:
                        v = a0.rebase(v, u0, 1, 0)
                        if v is None:
                            continue
                    env[k] = v
                a = explore('Next', [((w2, 'ok', False), a0.shift(env, drops))], w)
                if a:
                    ends(a)
    ctx.count('enumerators')
    ctx.count('standings', len(seen))


class Plain(Model):
    def mayfail(self, w):
        return False


class Joined(Plain):
    names = {'F': 'the first source', 'S': 'the second source'}
    sources = ('F', 'S')

    def params(self):
        return {self.ps[0]: ('s', ('src', 'F')), self.ps[1]: ('s', ('src', 'S'))}


class OfType(Plain):
    filtered = True


class Mapped(Plain):
    """elements are passed through the functor the caller gave; elements the filter does not accept are skipped"""
    def __init__(self, params):
        Model.__init__(self, params)
        self.filtered = len(params) > 2 and 'DefaultEnumeratorFilter' not in self.types[2]
        self.mapped = 'DefaultEnumeratorCaster' not in self.types[1]

    def params(self):
        e = {self.ps[0]: ('s', ('src', 'E'))}
        if self.mapped:
            e[self.ps[1]] = ('s', ('map',))
        if self.filtered:
            e[self.ps[2]] = ('s', ('pred',))
        return e

    def want(self, w, f):
        e = elem(f[1], f[2])
        return ('s', ('mapped', e)) if self.mapped else e

    def other(self, v, want):
        return 'gives the element as it is, without passing it through the functor' if self.mapped and tagged(v, 'elem') else False


class Taken(Plain):
    limited = True

    def params(self):
        return {self.ps[0]: ('s', ('src', 'E')), self.ps[1]: ('i', frozenset([(0, 1, 0, 0)]))}


class One(Plain):
    sources = ()
    names = {'V': 'the item'}

    def params(self):
        return {self.ps[0]: ('s', ('elem', 'V', 0))}

    def worlds(self):
        return [((), 0, 1)]

    def first(self, w):
        return ('elem', 'V', 0) if w[2] else 'end'

    def deliver(self, w):
        return [(((), 1, 0), {})]

    def show(self, w):
        return 'the item was %sdelivered' % ('' if w[1] else 'not ')

    def gives(self, a, u, f, v):
        return None if v == elem('V', 0) else False


class Func(Plain):
    """element i is what the functor gives for i, as long as the other one says there is one"""
    def params(self):
        return {self.ps[0]: ('s', ('get',)), self.ps[1]: ('s', ('valid',))}

    def deliver(self, w):
        out = []
        for a in ['p', None]:
            out.append(((((('E', ('p',) if a else (), a is None),), min(w[1] + 1, Pipe.TOP), None)), {'E': 1}))
        return out

    def call(self, a, n, u, env):
        if n.base == 'operator()' and n.obj is not None and len(n.args) == 1 and n.dst is not None:
            f = a.get(n.obj, u, env)
            if f in (('s', ('get',)), ('s', ('valid',))):
                i = a.ev(n.args[0], u, env)
                d = a.diff(i, ('i', frozenset([(1, 0, 0, 0)])), u) if a.facts(i) is not None else None
                if d == (-1, -1) and a.r.base == 'Next':
                    # the element that Next leaves, of which Valid was told to be there
                    return a.ret(n, u, env, True if f[1][0] == 'valid' else None)
                if d is None or d != (0, 0):
                    if d is not None and (d[0] > 0 or d[1] < 0) and a.ok(u):
                        a.bad('asks for another index than that of the current element', 'index')
                        return []
                    return a.ret(n, a.lost(u), env, None)
                return a.ret(n, u, env, a.there(u, 'E') if f[1][0] == 'valid' else a.current(u, 'E') if a.there(u, 'E') else None)
        return None


class Keys(Plain):
    """changes of a dictionary, of which those that only replace the value of a key are left out"""
    def attrs(self, w, X):
        q = dict((x[0], x[1]) for x in w[0]).get(X, ())
        return ['A', 'R'] + (['a'] if q and q[-1] == 'R' else [])

    def skip(self, w, X, q, e):
        if q[0] == 'D':
            return 1
        return 2 if q[0] == 'R' and len(q) > 1 and q[1] == 'a' else 0

    def first(self, w):
        q, e = Pipe.src(w, 'E')
        if not q:
            return 'end' if e else None
        if q[0] == 'A' or q[0] == 'R' and (e or len(q) > 1) and q[1:2] != ('a',):
            return ('elem', 'E', 0)
        return None

    def part(self, a, u, v, f):
        if tagged(v, 'elem') and v[1][1] == 'E':
            if f == 'Op':
                t = a.attr(u, v)
                return {'A': ('e', S + 'CollectionOp::Added'), 'a': ('e', S + 'CollectionOp::Added'), 'R': ('e', S + 'CollectionOp::Removed')}.get(t)
            if f == 'Item':
                return ('s', ('itemof', v))
        if tagged(v, 'itemof') and f == 'Key':
            return ('s', ('keyof', v[1][1]))
        return None

    def call(self, a, n, u, env):
        vals = [a.ev(x, u, env) for x in n.args]
        if n.base in ('operator()', 'operator==', 'operator!=') and n.dst is not None:
            if n.obj is not None and len(vals) == 1:
                vals = [a.ev(n.obj, u, env)] + vals
            if len(vals) == 2 and tagged(vals[0], 'keyof') and tagged(vals[1], 'keyof'):
                x, y = vals[0][1][1], vals[1][1][1]
                if x[1][2] < 0 or y[1][2] < 0:
                    return a.ret(n, u, env, None)
                if x[1][2] > y[1][2]:
                    x, y = y, x
                same = x == y or y[1][2] == x[1][2] + 1 and a.attr(u, y) == 'a'
                return a.ret(n, u, env, same == (n.base != 'operator!='))
        if n.base == 'MakeDiffEntry' and len(vals) == 2 and n.dst is not None and isinstance(vals[0], tuple) and vals[0][0] == 'e' and tagged(vals[1], 'keyof'):
            return a.ret(n, u, env, ('s', ('diff', vals[0][1].rsplit('::', 1)[-1], vals[1][1][1])))
        return None

    def want(self, w, f):
        return ('s', ('diff', {'A': 'Added', 'R': 'Removed'}[Pipe.src(w, 'E')[0][0]], elem('E', 0)))

    def other(self, v, want):
        return 'describes %s as %s' % ('an addition' if want[1][1] == 'Added' else 'a removal', v[1][1].lower()) if tagged(v, 'diff') and v[1][1] != want[1][1] else False


class Flat(Plain):
    """the elements of one nested enumeration after the other"""
    names = {'E': 'the outer source', 'N': 'the nested source'}

    def attrs(self, w, X):
        return ['u'] if X == 'E' else ['p']

    def worlds(self):
        return [((('E', ('u',), False),), 0, None), ((('E', (), True),), 0, None)]

    def skip(self, w, X, q, e):
        return 1 if q[0] == 'D' else 0

    def settle(self, w):
        drops, out = {}, []
        for X, q, e in w[0]:
            while X == 'N' and q and q[0] == 'D' and (e or len(q) > 1):
                q = q[1:]
                drops[X] = drops.get(X, 0) + 1
            while X == 'E' and len(q) > 1 or X == 'E' and e and q:
                q = q[1:]
                drops[X] = drops.get(X, 0) + 1
            out.append((X, q, e))
        return (tuple(out),) + w[1:], drops

    def first(self, w):
        s = dict((x[0], x[1:]) for x in w[0])
        if 'N' in s:
            q, e = s['N']
            if q and q[0] == 'p':
                return ('elem', 'N', 0)
            if not e:
                return None
        return 'end' if s['E'][1] else None

    def leave(self, w, X):
        s = dict((x[0], x[1:]) for x in w[0])
        if X == 'E' and s['E'][0][-1:] == ('u',):
            return 'passes over a nested enumeration'
        if X == 'E' and 'N' in s and not s['N'][1]:
            return 'leaves a nested enumeration before its end'
        return None

    def left(self, w, X):
        if X == 'E':
            return (tuple(x for x in w[0] if x[0] != 'N'),) + w[1:], 'N'
        return w, None

    def call(self, a, n, u, env):
        b = n.base
        v = a.get(n.obj, u, env) if n.obj is not None and b == 'GetEnumerator' else a.ev(n.args[0], u, env) if b == 'ToEnumerator' and n.args else None
        if tagged(v, 'elem') and v[1][1] == 'E' and n.dst is not None:
            w = u[0]
            q, e = Pipe.src(w, 'E')
            if v != a.current(u, 'E') or e:
                return a.ret(n, a.lost(u), env, None)
            if q[-1] == 'o':
                if a.ok(u):
                    a.bad('starts a nested enumeration anew', 'again')
                    return []
                return a.ret(n, u, env, None)
            out = []
            w = Pipe.having(w, 'E', q[:-1] + ('o',), e)
            for at in ('p', None):
                w2 = (w[0] + (('N', (at,) if at else (), at is None),),) + w[1:]
                out += a.ret(n, (w2,) + u[1:], env, ('s', ('src', 'N')))
            return out
        return None


ADAPTERS = {
    'Detail::JoiningEnumerator': ('collection/EnumerableHelpers.h', Joined),
    'Detail::OneItemEnumerator': ('collection/EnumerableHelpers.h', One),
    'Enumerable::Detail::EnumeratorCaster': ('collection/EnumerableHelpers.h', Plain),
    'Enumerable::Detail::EnumeratorOfType': ('collection/EnumerableHelpers.h', OfType),
    'Enumerable::Detail::EnumeratorTransformer': ('collection/EnumerableHelpers.h', Mapped),
    'Enumerable::Detail::EnumeratorTaker': ('collection/EnumerableHelpers.h', Taken),
    'Enumerable::Detail::EnumeratorFlattener': ('collection/EnumerableHelpers.h', Flat),
    'Detail::EnumeratorWrapper': ('collection/EnumerableWrapper.h', Mapped),
    'Detail::ForEachEnumeratorCaster': ('collection/ForEach.h', OfType),
    'TransactionalDictionaryKeysSet::DiffEnumerator': ('collection/DictionaryKeysSet.h', Keys),
    'FuncEnumerator': ('collection/FuncEnumerator.h', Func),
}


def adapters(ctx, P):
    for fn in sorted({x[0] for x in ADAPTERS.values()}):
        c = by_file(fn)
        E = Expander(P, mk_transparent(c.files), models=locky_models)
        E.alias = False
        by = {}
        for r in roots(P, c):
            k = r.scls[len(S):] if r.scls.startswith(S) else r.scls
            if k in ADAPTERS and (r.fk == 'ctor' or r.base in ('Valid', 'Get', 'Next')):
                by.setdefault((k, r.n[:r.n.rindex('::')]), {})['ctor' if r.fk == 'ctor' else r.base] = r
        for (k, inst), rs in sorted(by.items()):
            if 'ctor' not in rs or len(rs) < 4:
                ctx.count('operations_given_up')
                continue
            model = ADAPTERS[k][1](rs['ctor'].params)
            adapter(ctx, P, {b: (r, E.run(r)) for b, r in rs.items()}, model)
            ctx.sample(rs['ctor'].where())


def check(ctx, P):
    c = by_file('collection/EnumerableHelpers.h')
    E = Expander(P, mk_transparent(c.files), models=locky_models)
    E.alias = False
    rs = roots(P, c)
    operations(ctx, P, E, c, rs)
    loops(ctx, P)
    adapters(ctx, P)
