"""Finite-predicate abstract exploration of a flow graph.

A state is (u, env): u is whatever the rule records, env maps access paths (locals, results, fields) to abstract values:
True, False (also null / empty), ('e', enumerator), ('n', integer), ('s', tag) an object known to be there,
('v', tag) something whose identity is known but nothing else, ('c', path, constant or None, polarity) a comparison not decided yet.
Branches are followed only where the value of their condition allows."""
import re
from collections import deque
from engine import *
from cond import bare, LOCAL, enum_of

PATH = ('var', 'tmp', 'res', 'par', 'ret', 'rpar', 'fld', 'deref', 'this', 'gvar', 'idx', 'new', 'sync', 'cl')
TRUTH = {'operator bool', 'is_initialized', 'valid', 'operator unspecified_bool_type'}
VALUE_CLASSES = SMART | {'stingray::optional', 'stingray::function', 'stingray::Token', 'std::exception_ptr', 'stingray::Detail::future_result'}

CONVERTED = re.compile(r'(O|RK|OK)NS0_I')


def norm(p):
    p = bare_cast(p)
    if isinstance(p, tuple) and len(p) > 3 and p[0] == 'fld' and (p[2] == '_enumVal' or p[2] == '_initialized' and p[3] == 'stingray::optional'):
        return norm(p[1])
    if isinstance(p, tuple) and p and p[0] == 'fld':
        return ('fld', norm(p[1]), p[2])
    if isinstance(p, tuple) and p and p[0] == 'deref':
        return ('deref', norm(p[1]))
    return p


def bare_cast(p):
    while isinstance(p, tuple) and p and p[0] in ('icast', 'cast', 'decay'):
        p = p[2] if p[0] == 'icast' and len(p) > 2 else p[1]
    return p


def under(k, p):
    """k is p or a part of it"""
    while True:
        if k == p:
            return True
        if isinstance(k, tuple) and len(k) > 1 and k[0] in ('fld', 'deref', 'idx'):
            k = k[1]
        else:
            return False


def mentions(t, k):
    if t == k:
        return True
    return isinstance(t, tuple) and any(mentions(x, k) for x in t if isinstance(x, tuple))


def replace(k, a, b):
    if k == a:
        return b
    return (k[0], replace(k[1], a, b)) + tuple(k[2:])


class Abs(object):
    def __init__(self, g, cap=60000):
        self.g = g
        self.cap = cap
        self.exits = set()      # (u, value returned, env)
        self.throws = set()     # (u, env)
        self.visited = 0
        self.envs = {}
        self.endof = {}

    # -- to be overridden
    def read(self, p, u, env):
        return None

    def call(self, n, u, env):
        return None

    def step(self, n, u, env):
        return None

    def throw(self, n, u, env):
        return u

    def took(self, n, tv, u, env):
        """a branch was taken that its condition did not decide"""
        return u

    # -- values
    def get(self, p, u, env):
        p = norm(p)
        if p in env:
            return env[p]
        r = self.read(p, u, env)
        if r is None and isinstance(p, tuple) and p and p[0] == 'rpar':
            return ('v', p)
        return r

    def truth(self, v, env):
        if v is True or v is False:
            return v
        if isinstance(v, tuple):
            if v[0] == 's':
                return True
            if v[0] == 'n':
                return v[1] != 0
            if v[0] == 'v':
                return env.get(('truth', v[1]))
        return None

    def ev(self, v, u, env):
        v = bare_cast(v)
        if not isinstance(v, tuple) or not v:
            return None
        k = v[0]
        if k == 'lit':
            return v[1] if isinstance(v[1], bool) else ('n', v[1]) if isinstance(v[1], int) else None
        if k == 'null':
            return False
        if k == 'enum':
            return ('e', str(v[1]))
        if k == 'str':
            return ('s', v)
        if k in ('lambda', 'memfn', 'fn', 'closure'):
            return ('s', v[:2])
        if k == 'un' and v[1] == '!':
            return self.neg(self.cond(v[2], u, env), env)
        if k == 'bin' and v[1] in ('==', '!='):
            return self.compare(v[2], v[3], v[1] == '==', u, env)
        if k == 'bin' and v[1] in ('<', '>', '<=', '>=', '+', '-'):
            a, b = self.ev(v[2], u, env), self.ev(v[3], u, env)
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'n':
                x, y = a[1], b[1]
                return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}.get(v[1], ('n', x + y if v[1] == '+' else x - y))
            if v[1] in ('<', '>', '<=', '>='):
                return self.order(v[1], v[2], v[3], u, env)
            return None
        if k == 'cond' and len(v) == 4:
            t = self.truth(self.ev(v[1], u, env), env)
            a, b = self.ev(v[2], u, env), self.ev(v[3], u, env)
            return a if t is True or a == b else b if t is False else None
        if k == 'addr':
            return ('s', ('addr', norm(v[1])))
        if k in PATH:
            return self.get(v, u, env)
        return None

    def order(self, op, a, b, u, env):
        return None

    def neg(self, r, env):
        t = self.truth(r, env)
        if t is not None:
            return not t
        if isinstance(r, tuple) and r[0] == 'c':
            return r[:3] + (not r[3],)
        if isinstance(r, tuple) and r[0] == 'v':
            return ('c', ('truth', r[1]), None, False)
        return None

    def cond(self, c, u, env):
        """value of a condition; an undecided one becomes a comparison on its path"""
        r = self.ev(c, u, env)
        t = self.truth(r, env)
        if t is not None:
            return t
        if isinstance(r, tuple) and r[0] == 'c':
            return r
        if isinstance(r, tuple) and r[0] == 'v':
            return ('c', ('truth', r[1]), None, True)
        p = norm(c)
        if r is None and isinstance(p, tuple) and p and p[0] in PATH:
            return ('c', p, None, True)
        return None

    def compare(self, a, b, pol, u, env):
        x, y = self.ev(a, u, env), self.ev(b, u, env)
        r = self.equal(x, y, env)
        if r is not None:
            return r == pol
        for (p, v), (q, w) in (((a, x), (b, y)), ((b, y), (a, x))):
            if w is False or w is True:
                r = self.cond(p, u, env)
                if r is not None:
                    return r if w == pol else self.neg(r, env)
            if isinstance(w, tuple) and w[0] in ('e', 'n', 's', 'v'):
                if isinstance(v, tuple) and v[0] == 'v':
                    return ('c', ('eq', v[1]), w, pol)
                p = norm(p)
                if v is None and isinstance(p, tuple) and p and p[0] in PATH:
                    return ('c', p, w, pol)
        return None

    def equal(self, x, y, env):
        if x is None or y is None:
            return None
        if x == y:
            return True if not (isinstance(x, tuple) and x[0] == 'c') else None
        for a, b in ((x, y), (y, x)):
            if a is True or a is False:
                t = self.truth(b, env)
                if t is not None and (a is False or t is False or b is True or b is False):
                    return t == a
                return None
            if isinstance(a, tuple) and a[0] == 'v' and ('eq', a[1]) in env:
                return self.equal(env[('eq', a[1])], b, env)
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] and x[0] in ('e', 'n'):
            return False
        return None

    # -- environment
    def put(self, env, p, v):
        p = norm(p)
        e = {}
        for k, x in env.items():
            if under(k, p) or k != p and mentions(k, p) and k[0] in ('truth', 'eq') or isinstance(x, tuple) and x and x[0] == 'c' and mentions(x[1], p):
                continue
            e[k] = x
        if v is not None:
            e[p] = v
        return e

    def copy(self, env, dst, src, u):
        """dst becomes a copy of src, with its parts"""
        dst, s = norm(dst), norm(src)
        v = self.ev(src, u, env)
        parts = [(k, x) for k, x in env.items() if isinstance(s, tuple) and s and s[0] in PATH and k != s and under(k, s)]
        e = self.put(env, dst, v)
        for k, x in parts:
            if not (isinstance(x, tuple) and x[0] == 'c'):
                e[replace(k, s, dst)] = x
        return e

    def wrapped(self, a, u, env):
        """value of an optional made from a"""
        if bare_cast(a)[0] == 'null' or ('isnull', norm(a)) in env:
            return False
        return ('s', ('just', self.ev(a, u, env) if self.ev(a, u, env) is not None else norm(a)))

    def effect(self, n, u, env):
        """-> list of (u, env) after a call this exploration does not enter"""
        b, obj, args = n.base, n.obj, n.args
        r = self.call(n, u, env)
        if r is not None:
            out = []
            for u2, val, ups in r:
                e = env
                for p, x in (ups or {}).items():
                    e = self.put(e, p, x)
                if n.dst is not None:
                    e = self.put(e, n.dst, val)
                out.append((u2, e))
            return out
        dst = n.dst
        ctor = n.raw.get('k') == 'ctor'
        if ctor and obj is not None:
            if n.cls == 'stingray::NullPtrType':
                e = self.put(env, obj, False)
                e[('isnull', norm(obj))] = True
                return [(u, e)]
            if len(args) == 1:
                if n.cls == 'stingray::optional' and not n.raw.get('cm') and not CONVERTED.search(n.raw.get('fn') or ''):
                    return [(u, self.put(env, obj, self.wrapped(args[0], u, env)))]
                return [(u, self.copy(env, obj, args[0], u))]
            return [(u, self.put(env, obj, False if not args and n.cls in VALUE_CLASSES else None))]
        if b in TRUTH and obj is not None and dst is not None and not args:
            return [(u, self.put(env, dst, self.cond(obj, u, env)))]
        if b == 'operator!' and obj is not None and dst is not None:
            return [(u, self.put(env, dst, self.neg(self.cond(obj, u, env), env)))]
        if b in ('operator==', 'operator!=') and dst is not None:
            vs = ([obj] if obj is not None else []) + list(args)
            if len(vs) == 2:
                return [(u, self.put(env, dst, self.compare(vs[0], vs[1], b == 'operator==', u, env)))]
        if b == 'operator=' and obj is not None and len(args) == 1:
            e = self.copy(env, obj, args[0], u)
            if dst is not None and norm(dst) != norm(obj):
                e = self.copy(e, dst, obj, u)
            return [(u, e)]
        if b in ('reset',) and obj is not None:
            if not args:
                return [(u, self.put(env, obj, False))]
            if len(args) == 1:
                return [(u, self.copy(env, obj, args[0], u))]
        if b == 'emplace' and obj is not None and n.cls == 'stingray::optional':
            return [(u, self.put(env, obj, ('s', ('made', n.i))))]
        if b == 'swap':
            vs = ([obj] if obj is not None else []) + list(args)
            if len(vs) == 2:
                a, c = norm(vs[0]), norm(vs[1])
                x, y = self.ev(a, u, env), self.ev(c, u, env)
                return [(u, self.put(self.put(env, a, y), c, x))]
        if b in ('make_shared_ptr', 'MakeExceptionPtr', 'make_unique_ptr', 'make_self_count_ptr') and dst is not None:
            return [(u, self.put(env, dst, ('s', ('made', n.i))))]
        if b == 'lock' and n.cls == 'stingray::weak_ptr' and dst is not None:
            return [(u, self.put(env, dst, None))]
        if dst is not None:
            env = self.put(env, dst, None)
        return [(u, env)]

    # -- exploration
    def freeze(self, env):
        t = frozenset(env.items())
        self.envs.setdefault(t, env)
        return t

    def run(self, init):
        g = self.g
        nodes = g.nodes
        work = deque()
        seen = {}
        self.parent = seen
        for u, env in init:
            k = (g.entry, u, self.freeze(env))
            seen[k] = None
            work.append(k)
        self.last = None

        def go(s, u, env, cur):
            k = (s, u, self.freeze(env))
            if k not in seen:
                seen[k] = cur
                work.append(k)
        while work:
            cur = work.popleft()
            self.last = cur
            i, u, et = cur
            env = self.envs[et]
            n = nodes[i]
            self.visited += 1
            if self.visited > self.cap:
                raise AnalysisBroken('state space exceeded in %s' % g.root.n)
            us = self.step(n, u, env)
            us = [u] if us is None else us
            op = n.op
            for u in us:
                if i == g.exit:
                    self.endof.setdefault((u, id(self.envs[et])), cur)
                    self.exits.add((u, env.get(('ret', 0)), et))
                    continue
                if i == g.ehexit:
                    self.endof.setdefault((u, id(self.envs[et])), cur)
                    self.throws.add((u, et))
                    continue
                if n.eh is not None:
                    ue = self.throw(n, u, env)
                    for x in ue if isinstance(ue, list) else [ue]:
                        if x is not None:
                            go(n.eh, x, env, cur)
                if op == 'br' and len(n.s) == 2:
                    c = self.cond(n.c, u, env)
                    t = self.truth(c, env)
                    for tv, s in ((True, n.s[0]), (False, n.s[1])):
                        if t is not None and tv != t:
                            continue
                        e, u2 = env, u
                        if t is None:
                            u2 = self.took(n, tv, u, env)
                            e = self.refine(c, tv, env)
                            if e is None:
                                continue
                        go(s, u2, e, cur)
                    continue
                if op == 'switch':
                    self.switch(n, u, env, cur, go)
                    continue
                for u2, e in self.move(n, u, env):
                    for s in n.s:
                        go(s, u2, e, cur)
        return self

    def refine(self, c, tv, env):
        if isinstance(c, tuple) and c[0] == 'c':
            _, p, w, pol = c
            if w is None:
                e = dict(env)
                e[p] = tv == pol
                return e
            if tv == pol:
                e = dict(env)
                e[p] = w
                return e
        return env

    def switch(self, n, u, env, cur, go):
        v = self.ev(n.c, u, env)
        if isinstance(v, tuple) and v[0] == 'v' and ('eq', v[1]) in env:
            v = env[('eq', v[1])]
        vals = [(('e', str(x[1])) if x[1] else ('n', x[0])) if isinstance(x, list) else None for x in n.raw.get('cases') or []]
        p = norm(n.c)
        known = isinstance(v, tuple) and v[0] in ('e', 'n')
        named = [x for x in vals if x is not None]
        for s, x in zip(n.s, vals):
            if x is not None:
                if known and x != v:
                    continue
                go(s, u, env if known else dict(self.put(env, p, x)) if not (isinstance(v, tuple) and v[0] == 'v') else dict(env) | {('eq', v[1]): x}, cur)
            else:
                if known:
                    if v not in named:
                        go(s, u, env, cur)
                    continue
                rest = self.others(named)
                if rest is None:
                    go(s, u, env, cur)
                else:
                    for y in rest:
                        go(s, u, self.put(env, p, y), cur)

    def others(self, named):
        """the enumerators a switch over a known enumeration leaves to its default"""
        es = [x for x in named if x[0] == 'e']
        P = getattr(self, 'P', None)
        if P is None or not es or len(es) != len(named):
            return None
        for en in P.enums.values():
            names = [x[0] for x in en['v']]
            if es[0][1] in names:
                return [('e', x) for x in names if ('e', x) not in named]
        return None

    def move(self, n, u, env):
        op = n.op
        if op in ('wr', 'bind', 'bindref'):
            if n.raw.get('rmw'):
                return [(u, self.put(env, n.p, self.rmw(n, u, env)))]
            return [(u, self.copy(env, n.p, n.v, u))]
        if op == 'ret':
            d = n.ctx.dst if n.ctx.parent is not None else ('ret', 0)
            if d is not None and n.v is not None and norm(n.v) != norm(d):
                return [(u, self.copy(env, d, n.v, u))]
            return [(u, env)]
        if op == 'call':
            return self.effect(n, u, env)
        if op == 'new' and n.dst is not None:
            return [(u, self.put(env, n.dst, ('s', ('made', n.i))))]
        if op == 'enter':
            e = env
            if n.dst is not None:
                e = self.put(e, n.dst, None)
            for s in n.s:
                cc = self.g.nodes[s].ctx
                if cc.fn is None or cc is n.ctx:
                    continue
                for j, a in enumerate(cc.args or ()):
                    if j < len(cc.fn.params) and not cc.fn.params[j].get('ref') and (getattr(self.g, 'raw', False) or ('par', j) in cc.fn.written()):
                        e = self.copy(e, ('par', cc.i, j), a, u)
            return [(u, e)]
        if op in ('inlexit', 'inleh'):
            ci = n.ctx.i
            bad = [k for k in env if self._ctx(k) == ci]
            if bad:
                env = {k: v for k, v in env.items() if k not in bad}
            return [(u, env)]
        return [(u, env)]

    def rmw(self, n, u, env):
        return None

    def at(self, u, env):
        """reports are about the path that ends here"""
        self.last = self.endof.get((u, id(env)), self.last)

    @staticmethod
    def _ctx(k):
        while isinstance(k, tuple) and len(k) > 1:
            if k[0] in ('fld', 'deref', 'idx', 'truth', 'eq'):
                k = k[1]
                continue
            return k[1] if k[0] in ('res', 'var', 'tmp', 'par') and isinstance(k[1], int) else None
        return None

    def trace(self, key=None, limit=12):
        key = key or self.last
        out, n = [], 0
        while key is not None and n < 100000:
            out.append(key)
            key = self.parent.get(key)
            n += 1
        out.reverse()
        lines, last = [], None
        for k in out:
            nd = self.g.nodes[k[0]]
            if nd.op in ('br', 'switch', 'call', 'enter', 'wr', 'ret', 'throw', 'enter_catch', 'ehexit', 'inleh'):
                l = (relfile(nd.ctx.fn.file), nd.line())
                if l != last and l[1]:
                    lines.append('%s:%d' % l)
                    last = l
        if len(lines) > limit:
            lines = lines[:3] + ['...'] + lines[-(limit - 3):]
        return ' > '.join(lines)
