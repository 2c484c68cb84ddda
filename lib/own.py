"""The pointers that own objects: who holds which reference, explored operation by operation.

A state is a ledger: for every counted block how many strong and weak references this operation has to answer for, for every plainly owned object whether it still exists, and what
is due (the object whose last strong reference went away has to be disposed of, the block whose last weak reference went away has to be freed).  Initially it holds one entry for
every reference of the pointers the operation is given; other owners may exist and may come and go at any time, so a count read or decremented is known only as far as the ledger
bounds it.  In the end every reference in the ledger must belong to a pointer that still exists, and every pointer to a reference in the ledger."""
import itertools
from engine import *
from comp import *
from locks import mk_transparent
from absx import Abs, norm, under, bare_cast, replace

S = 'stingray::'
FILES = ['shared_ptr.h', 'self_counter.h', 'unique_ptr.h', 'ref_count.h', 'TypeErasure.h']
HOLD = {S + 'shared_ptr': 's', S + 'weak_ptr': 'w', S + 'self_count_ptr': 's', S + 'basic_ref_count': 's', S + 'unique_ptr': 'o'}
COUNTED = {S + 'shared_ptr', S + 'weak_ptr'}     # the counts are in a block of their own
DELETE = ('CheckedDelete', 'CheckedArrayDelete')
ATOMIC = ('Inc', 'Dec', 'Load', 'Add', 'Sub', 'Store', 'CompareAndExchange')
NAME = {'s': 'strong', 'w': 'weak', 'u': 'user'}


def role_of(p):
    """which count a field is"""
    p = bare_cast(p)
    if not isinstance(p, tuple) or len(p) < 4 or p[0] != 'fld':
        return None
    cls, n = p[3] or '', p[2].lower()
    if cls.endswith('ISharedPtrData') or cls.endswith('SharedPtrData'):
        return 's' if 'strong' in n else 'w' if 'weak' in n else None
    if cls.endswith('self_counter'):
        return 's'
    if cls.endswith('basic_ref_count_data'):
        return 's' if n == 'selfcount' else 'u' if n == 'value' else None
    return None


def plain(p):
    return isinstance(p, tuple) and bool(p)


class Ledger(object):
    @staticmethod
    def get(u, k, t):
        return dict(u).get((k, t), 0)

    @staticmethod
    def set(u, k, t, v):
        d = dict(u)
        if v:
            d[(k, t)] = v
        else:
            d.pop((k, t), None)
        return tuple(sorted(d.items(), key=repr))


def G(u, k, t):
    return Ledger.get(u, k, t)


def W(u, k, t, v):
    return Ledger.set(u, k, t, v)


LOST = (('lost', None),)


class Own(Abs):
    def __init__(self, ctx, P, g, r, what, world):
        Abs.__init__(self, g, cap=40000)
        self.ctx, self.P, self.r, self.what, self.world = ctx, P, r, what, world

    def bad(self, msg, key):
        self.ctx.report('%s%s: %s; path: %s' % (self.r.where(), ' (%s)' % self.what if self.what else '', msg, self.trace()), key=(self.r.sn, self.r.line, key))

    # -- places
    def loc(self, p, env):
        p = bare_cast(p)
        if not plain(p):
            return p
        if p == ('this',) or p[0] == 'rpar':
            return self.world.alias.get(p[:2], p)
        if p[0] == 'fld':
            return ('fld', self.loc(p[1], env), p[2])
        if p[0] == 'deref':
            q = self.loc(p[1], env)
            v = env.get(q)
            if isinstance(v, tuple) and v[0] == 's' and plain(v[1]):
                if v[1][0] in ('blk', 'made', 'raw'):
                    return ('heap', v[1])
                if v[1][0] == 'addr':
                    return v[1][1]
            return ('deref', q)
        if p[0] == 'idx':
            return ('idx', self.loc(p[1], env)) + tuple(p[2:])
        return p

    def get(self, p, u, env):
        return env.get(self.loc(p, env))

    def put(self, env, p, v):
        p = self.loc(p, env)
        e = {k: x for k, x in env.items() if not under(k, p)}
        if v is not None:
            e[p] = v
        return e

    def copy(self, env, dst, src, u):
        d, s = self.loc(dst, env), self.loc(src, env)
        v = self.ev(src, u, env)
        parts = [(k, x) for k, x in env.items() if plain(s) and k != s and under(k, s)]
        e = self.put(env, d, v)
        for k, x in parts:
            e[replace(k, s, d)] = x
        return e

    def ev(self, v, u, env):
        v = bare_cast(v)
        if plain(v) and v[0] == 'addr':
            q = self.loc(v[1], env)
            if plain(q) and q[0] == 'heap':
                return ('s', q[1])
            return ('s', ('addr', q))
        if plain(v) and v[0] == 'bin' and v[1] in ('+', '-'):
            a, b = self.ev(v[2], u, env), self.ev(v[3], u, env)
            if plain(a) and plain(b) and a[0] == 'cnt' and b[0] == 'n':
                return ('cnt', a[1], a[2] + (b[1] if v[1] == '+' else -b[1]))
            if plain(a) and plain(b) and a[0] == b[0] == 'n':
                return ('n', a[1] + (b[1] if v[1] == '+' else -b[1]))
            return None
        if plain(v) and v[0] in ('rpar', 'heap'):
            return self.get(v, u, env)
        if plain(v) and v[0] == 'un' and v[1] == '!':
            t = self.truth(self.ev(v[2], u, env), env)
            return None if t is None else not t
        return Abs.ev(self, v, u, env)

    def truth(self, v, env):
        if plain(v) and v[0] == 'cnt':
            return True if v[2] >= 0 else None
        return Abs.truth(self, v, env)

    def equal(self, x, y, env):
        for a, b in ((x, y), (y, x)):
            if plain(a) and a[0] == 'cnt':
                if plain(b) and b[0] == 'n':
                    if b[1] == 0 and a[2] >= 0:
                        return False
                    return False if a[2] == 0 and a[1][0] == 'F' and a[1][3] == b[1] else None
                if plain(b) and b[0] == 'cnt':
                    if a[1] == b[1]:
                        return a[2] == b[2]
                    return False if a[1][0] == 'F' and a[2] == b[2] == 0 else None
        if plain(x) and plain(y) and x[0] == y[0] == 's':
            return x == y
        for a, b in ((x, y), (y, x)):
            if a is False and plain(b) and b[0] == 'n':
                return b[1] == 0
            if a is False and plain(b) and b[0] == 's':
                return False
        return Abs.equal(self, x, y, env)

    def order(self, op, a, b, u, env):
        x, y = self.ev(a, u, env), self.ev(b, u, env)
        for p, q, o in ((x, y, op), (y, x, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op])):
            if plain(p) and p[0] == 'cnt' and p[2] == 0 and plain(q) and q[0] == 'n' and q[1] <= 1:
                if o == '>=' or o == '>' and q[1] <= 0:
                    return True
                if o == '<' or o == '<=' and q[1] <= 0:
                    return False
        return None

    # -- the ledger
    def reachable(self, u, t):
        return any(G(u, k, t) for k in ('s', 'w', 'dispose', 'free', 'ext', 'o')) or t[0] != 'blk' and not G(u, 'gone', t)

    def kill(self, msg, key):
        self.bad(msg, key)
        return []

    def counter(self, p, env):
        """(role, block) of a count"""
        role = role_of(p)
        if role is None:
            return None
        q = self.loc(p, env)
        b = q[1]
        if plain(b) and b[0] == 'heap':
            return role, b[1], p[3]
        if plain(b) and b[0] == 'deref' and env.get(b[1]) is False:
            return role, None, p[3]
        return None

    def up(self, u, role, t, d):
        if role == 's' and d > 0 and not G(u, 's', t) and not G(u, 'ext', t):
            return self.kill('adds a strong reference to an object that may be gone', 'revive')
        if not self.reachable(u, t):
            return self.kill('uses the counts after its reference was given up', 'late')
        return [W(u, role, t, min(G(u, role, t) + d, 6))]

    def down(self, u, role, t, cls):
        """-> [(u, reached zero)]"""
        n = G(u, role, t)
        if role == 'u':
            return [(W(u, 'u', t, n - 1), True), (W(u, 'u', t, n - 1), False)]
        if n < 1:
            return self.kill('releases a %s reference that it does not hold' % NAME[role], 'over')
        u2 = W(u, role, t, n - 1)
        out = [(u2, False)]
        if n == 1 and role == 's' and not G(u, 'ext', t):
            due = 'dispose' if 'SharedPtrData' in cls else 'free'
            out.append((W(W(u2, 'dead', t, 1), due, t, 1), True))
        if n == 1 and role == 'w' and not G(u, 's', t) and not G(u, 'dispose', t):
            out.append((W(u2, 'free', t, 1), True))
        return out

    def dispose(self, u, t):
        if not G(u, 'dispose', t):
            return self.kill('destroys the object although it is not the one that released the last strong reference', 'dispose')
        return [W(W(u, 'dispose', t, 0), 'w', t, G(u, 'w', t) + 1)]

    def free(self, u, v):
        """deletion of what v points at"""
        if v is False:
            return [u]
        t = v[1] if plain(v) and v[0] == 's' else None
        if t is None or t[0] not in ('blk', 'raw', 'made'):
            return [LOST]
        if G(u, 'free', t):
            return [W(W(u, 'free', t, 0), 'gone', t, 1)]
        if G(u, 'o', t):
            return [W(W(u, 'o', t, 0), 'gone', t, 1)]
        if G(u, 'gone', t):
            return self.kill('deletes the object twice', 'twice')
        if t[0] == 'blk' or G(u, 's', t):
            return self.kill('deletes what others may still hold a reference to', 'early')
        if t[0] == 'raw':
            return self.kill('deletes an object that it does not own', 'foreign')
        return [LOST]

    def atomic(self, n, u, env):
        c = self.counter(n.args[0], env)
        if c is None:
            return [(LOST, None, None)] if role_of(n.args[0]) else None
        role, t, cls = c
        if t is None:
            self.bad('uses the counts of a pointer that holds nothing', 'null')
            return []
        if not self.reachable(u, t) and role != 'u':
            self.bad('uses the counts after its reference was given up', 'late')
            return []
        b = n.base
        if b == 'Inc':
            return [(x, ('cnt', ('I', n.i, 0, None), 0), None) for x in self.up(u, role, t, 1)]
        if b == 'Dec':
            return [(x, ('n', 0) if z else ('cnt', ('D', n.i, 0, None), 0), None) for x, z in self.down(u, role, t, cls)]
        if b == 'Load':
            out = [(u, ('cnt', ('L', n.i, 0, None), 0), None)]
            if not G(u, role, t) and not G(u, 'ext', t) or role == 'u':
                out.append((W(u, 'dead', t, 1) if role == 's' else u, ('n', 0), None))
                if role == 's' and G(u, 'dead', t):
                    out = out[1:]
            return out
        if b == 'CompareAndExchange' and len(n.args) >= 3:
            e, d = self.ev(n.args[1], u, env), self.ev(n.args[2], u, env)
            if e is False:
                e = ('n', 0)
            if d is False:
                d = ('n', 0)
            if not (plain(e) and plain(d) and e[0] in ('n', 'cnt') and d[0] in ('n', 'cnt')):
                return [(LOST, None, None)]
            if e[0] == d[0] and (e[0] == 'n' or e[1] == d[1]):
                delta = (d[1] - e[1]) if e[0] == 'n' else d[2] - e[2]
            else:
                delta = None
            out = []
            # it failed: the count is something else
            par = 1 - e[1][2] if e[0] == 'cnt' and e[1][0] == 'F' else 0
            out.append((u, ('cnt', ('F', n.i, par, e[1] if e[0] == 'n' else None), 0), None))
            if not G(u, role, t) and not G(u, 'ext', t) and e != ('n', 0) or role == 'u' and e != ('n', 0):
                out.append((W(u, 'dead', t, 1) if role == 's' else u, ('n', 0), None))
            # it succeeded
            if role == 'u':
                if delta is not None:
                    out.append((W(u, 'u', t, G(u, 'u', t) + delta), e, None))
                return out
            k = e[1] if e[0] == 'n' else None
            if delta is None or abs(delta) != 1:
                self.bad('changes the %s count by something else than one' % NAME[role], 'step')
                return out
            if delta == 1:
                if k == 0:
                    self.bad('adds a strong reference to an object that is gone', 'revive')
                    return out
                if G(u, 'dead', t):
                    return out
                out.append((W(u, role, t, min(G(u, role, t) + 1, 6)), e, None))
                return out
            if G(u, role, t) < 1:
                self.bad('releases a %s reference that it does not hold' % NAME[role], 'over')
                return out
            if k is None or k > G(u, role, t) - 1:
                for x, z in self.down(u, role, t, cls):
                    if k is None or z == (k == 1):
                        out.append((x, e, None))
            return out
        if b in ('Add', 'Sub', 'Store'):
            v = self.ev(n.args[1], u, env) if len(n.args) > 1 else None
            if b != 'Store' and v == ('n', 0):
                return [(u, ('cnt', ('L', n.i, 0, None), 0), None)]
            if b != 'Store' and v == ('n', 1):
                if b == 'Add':
                    return [(x, ('cnt', ('I', n.i, 0, None), 0), None) for x in self.up(u, role, t, 1)]
                return [(x, ('n', 0) if z else ('cnt', ('D', n.i, 0, None), 0), None) for x, z in self.down(u, role, t, cls)]
            return [(LOST, None, None)]
        return None

    def call(self, n, u, env):
        if u == LOST:
            return [(u, None, None)]
        b = n.base
        if b in ATOMIC and 'Atomic' in (n.sn or '') and n.args:
            return self.atomic(n, u, env)
        if b in DELETE and len(n.args) == 1:
            v = self.ev(n.args[0], u, env)
            if v is None:
                return [(LOST, None, None)]
            if self.r.scls == S + 'unique_ptr' and v is not False and ('[]>' in self.r.n) != (b == 'CheckedArrayDelete'):
                self.bad('destroys %s with the operation for %s' % (('an array', 'one object') if '[]>' in self.r.n else ('one object', 'an array')), 'kind')
            return [(x, None, None) for x in self.free(u, v)]
        if b == 'swap' and n.sn == 'std::swap' and len(n.args) == 2:
            x, y = self.loc(n.args[0], env), self.loc(n.args[1], env)
            a = [(k, v) for k, v in env.items() if under(k, x)]
            c = [(k, v) for k, v in env.items() if under(k, y)]
            self.swapped = {replace(k, x, y): v for k, v in a}
            self.swapped.update({replace(k, y, x): v for k, v in c})
            return [(u, None, ('swap', x, y, self.swapped))]
        if 'callee' in n.raw and not n.sn:
            f = self.ev(self.resolve(n, n.raw['callee']), u, env)
            if plain(f) and f[0] == 's' and plain(f[1]) and f[1][0] == 'vt':
                v = self.ev(n.args[0], u, env) if n.args else None
                if v is False:
                    self.bad('uses a pointer that holds nothing', 'null')
                    return []
                if not (plain(v) and v[0] == 's'):
                    return [(LOST, None, None)]
                t = v[1]
                if not self.reachable(u, t):
                    self.bad('uses the block after its reference was given up', 'late')
                    return []
                if f[1][1] == 0:
                    return [(x, None, None) for x in self.free(u, v)]
                return [(x, None, None) for x in self.dispose(u, t)]
            if len(n.args) == 1 and n.dst is not None:
                i = self.ev(n.args[0], u, env)
                if plain(i) and i[0] == 'n':
                    return [(u, ('s', ('vt', i[1])), None)]
            return [(LOST, None, None)]
        if n.raw.get('k') == 'ctor' and n.obj is not None:
            q = self.loc(n.obj, env)
            if plain(q) and q[0] == 'heap' and q[1][0] == 'made' and self.r.base == 'make_self_count_ptr':
                return [(W(u, 's', q[1], 1), None, None)]
            return None
        if b == 'operator()' and len(n.args) == 1 and n.obj is not None and not (n.cls or '').startswith('std::'):
            v = self.ev(n.args[0], u, env)
            if v is False or plain(v) and v[0] == 's' and v[1][0] == 'raw':
                return [(x, None, None) for x in self.free(u, v)]
        if b in ('get', 'get_ptr', 'Call'):
            pass
        # a call that is not entered and is given one of the pointers
        for a in ([n.obj] if n.obj is not None else []) + list(n.args):
            q = self.loc(a, env)
            if plain(q) and q[0] not in ('heap',) and any(under(k, q) and k != q for k in env):
                return [(LOST, None, None)]
        return None

    def resolve(self, n, v):
        if isinstance(v, list) and v and v[0] in ('var', 'res'):
            return (v[0], n.ctx.i, v[1])
        return None

    def effect(self, n, u, env):
        r = self.call(n, u, env)
        if r is None:
            dst = n.dst
            if n.raw.get('k') == 'ctor' or n.base in ('operator bool', 'operator==', 'operator!=', 'operator=', 'swap', 'reset', 'operator!', 'lock', 'emplace'):
                return Abs.effect(self, n, u, env)
            return [(u, self.put(env, dst, None) if dst is not None else env)]
        out = []
        for u2, val, ups in r:
            e = env
            if ups:
                x, y, new = ups[1:]
                e = {k: v for k, v in e.items() if not under(k, x) and not under(k, y)}
                e.update(new)
            if n.dst is not None:
                e = self.put(e, n.dst, val)
            out.append((u2, e))
        return out

    def bases(self, p, env):
        """the heap blocks a path goes through"""
        out = []
        while plain(p) and p[0] in ('fld', 'deref', 'idx', 'cast', 'icast'):
            if p[0] == 'deref':
                v = env.get(self.loc(p[1], env))
                out.append(v)
            p = bare_cast(p[1]) if p[0] in ('fld', 'deref', 'idx') else bare_cast(p)
        return out

    def step(self, n, u, env):
        if u == LOST:
            return None
        if n.op in ('rd', 'wr') and n.p is not None and not n.raw.get('init'):
            role = role_of(n.p)
            if role:
                self.bad('%s the %s count without the atomic operations' % ('reads' if n.op == 'rd' else 'writes', NAME[role]), 'plain')
        if n.op in ('rd', 'wr') and n.p is not None:
            for v in self.bases(n.p, env):
                if v is False:
                    return self.kill('uses a pointer that holds nothing', 'null')
                if plain(v) and v[0] == 's' and plain(v[1]) and v[1][0] == 'blk' and not self.reachable(u, v[1]):
                    return self.kill('uses the block after its reference was given up', 'late')
        if n.op == 'wr' and n.p is not None and n.raw.get('init'):
            role = role_of(n.p)
            q = self.loc(n.p, env)
            if role and plain(q[1]) and q[1][0] == 'heap' and q[1][1][0] == 'made':
                v = self.ev(n.v, u, env)
                if not (plain(v) and v[0] == 'n'):
                    return [LOST]
                if role != 'u':
                    return [W(u, role, q[1][1], v[1] - (1 if role == 'w' else 0))]
        if n.op == 'new' and self.r.base == 'make_unique_ptr':
            return [W(u, 'o', ('made', n.i), 1)]
        return None

    def throw(self, n, u, env):
        # allocation, construction and deliberate exceptions; what is destroyed does not throw
        return u if n.op in ('new', 'throw', 'rethrow') or n.op == 'call' and (n.raw.get('k') == 'ctor' or n.base == 'Ctor') else None


class World(object):
    def __init__(self):
        self.alias, self.env, self.u, self.names = {}, {}, (), []
        self.objs = []      # (path, class, is this, movable, const, by value)
        self.raws = []


def leaves(P, cls):
    """-> (path of the pointer to what is counted, path of the plain pointer or None)"""
    def walk(c, pre, depth):
        out = []
        for rec in P.recs.get(c, [])[:1]:
            for f in rec['fields']:
                if f['t'].rstrip().endswith('*'):
                    out.append((pre + (f['n'],), depth))
                elif f.get('rec') and depth < 4:
                    out += walk(f['rec'], pre + (f['n'],), depth + 1)
        return out
    l = walk(cls, (), 0)
    if cls in COUNTED:
        b, r = [x for x, d in l if d > 0], [x for x, d in l if d == 0]
        return (b[0], r[0]) if len(b) == 1 and len(r) == 1 else None
    return (l[0][0], None) if len(l) == 1 else None


def at(o, names):
    for x in names:
        o = ('fld', o, x)
    return o


def holder(q):
    t = q['t'].replace('const ', '')
    for c in HOLD:
        if t.startswith(c + '<'):
            return c
    return q.get('rec') if q.get('rec') in HOLD else None


def rets(r):
    t = (r.o.get('ret') or '').replace('const ', '').strip()
    if t.endswith('&'):
        return None
    for c in HOLD:
        if t.startswith(c + '<') or t.startswith(c[len(S):] + '<') or t == c:
            return c
    return None


def worlds(P, r, L):
    """every way the pointers an operation is given may stand to each other"""
    objs = []
    if r.cls and r.scls in HOLD and r.fk not in ('ctor',) and not r.o.get('static'):
        objs.append((('this',), r.scls, True, False, False))
    for i, q in enumerate(r.params):
        c = holder(q)
        if c:
            objs.append((('rpar', i, q['n'] or '#%d' % i), c, False, bool(q.get('rref')), q['t'].startswith('const ')))
    raws = [('rpar', i, q['n'] or '#%d' % i) for i, q in enumerate(r.params) if q['t'].rstrip().endswith('*') and 'Dummy' not in q['t'] and not holder(q)]
    taken = bool(raws) and (r.fk == 'ctor' or r.base == 'reset') and not any(not o[2] for o in objs) and r.scls in HOLD
    opts = []
    for i, (p, c, this, mv, const) in enumerate(objs):
        o = ['null', 'own']
        if c in COUNTED:
            o.append('alias')
        if i > 0:
            first = objs[0]
            if first[1] == c and first[2] and r.params[p[1]].get('ref') and (r.scls + '<' not in r.params[p[1]]['t'] or inst(r) == inst_of(r.params[p[1]]['t'])):
                o.append('self')
            if {first[1], c} <= COUNTED or first[1] == c and HOLD[c] == 's':
                o.append('same')
        opts.append(o)
    for combo in itertools.product(*(opts + [['null', 'own']] * len(raws))):
        w = World()
        skip = False
        names = []
        for i, ((p, c, this, mv, const), o) in enumerate(zip(objs, combo)):
            lb, lr = L[c]
            who = 'this' if this else 'the argument' if sum(not x[2] for x in objs) == 1 else 'argument %d' % (p[1] + 1)
            k = HOLD[c]
            if o == 'self':
                w.alias[p[:2]] = ('this',)
                names.append('%s is the pointer itself' % who)
                continue
            w.objs.append((p, c, this, mv, const))
            if o == 'null':
                w.env[at(p, lb)] = False
                if lr:
                    w.env[at(p, lr)] = False
                names.append('%s empty' % who)
                continue
            if o == 'same':
                if combo[0] not in ('own',):
                    skip = True
                    break
                names.append('%s holds the same object' % who)
                b, rw = ('s', ('blk', 0)), ('s', ('raw', 0))
            else:
                names.append('%s holds %s' % (who, 'an object' if o == 'own' else 'a reference without an object'))
                b, rw = ('s', ('blk', i)), ('s', ('raw', i))
            if k == 'o':
                b = rw
            w.env[at(p, lb)] = b
            if lr:
                w.env[at(p, lr)] = rw if o != 'alias' else False
            w.u = W(w.u, k, b[1], G(w.u, k, b[1]) + 1)
        if skip:
            continue
        for j, (p, o) in enumerate(zip(raws, combo[len(objs):])):
            counted = r.scls == S + 'self_count_ptr'
            t = ('blk', 10 + j) if counted else ('raw', 10 + j)
            w.raws.append(p)
            w.env[p] = ('s', t) if o == 'own' else False
            names.append('%s pointer' % ('a' if o == 'own' else 'no'))
            if o == 'own' and taken:
                w.u = W(w.u, 's' if counted else 'o', t, 1)
        if r.scls == S + 'self_counter':
            w.alias[('this',)] = ('heap', ('blk', 99))
            w.u = W(w.u, 'ext', ('blk', 99), 1)
        w.taken = taken
        w.what = ', '.join(names)
        w.env0 = dict(w.env)
        w.env = {norm(k): v for k, v in w.env.items()}
        yield w


def inst(r):
    n = r.n
    return n[:n.rindex('::')].replace(S, '').replace('const ', '') if '::' in n else n


def inst_of(t):
    return t.replace('const ', '').replace('&', '').replace(S, '').strip()


class Judge(object):
    def __init__(self, a, w, L):
        self.a, self.w, self.L = a, w, L

    def of(self, env, o, c):
        lb, lr = self.L[c]
        z = lambda v: False if v == ('n', 0) else v
        return z(env.get(at(o, lb))), (z(env.get(at(o, lr))) if lr else None)

    def end(self, u, ret, env, thrown):
        """-> True when decided"""
        a, w, r, L = self.a, self.w, self.a.r, self.L
        if u == LOST:
            return False
        live = [(p, c) for p, c, this, mv, const in w.objs if not (this and r.fk == 'dtor')]
        if r.fk == 'ctor' and r.scls in HOLD and not thrown:
            live.append((('this',), r.scls))
        rc = rets(r)
        if rc and not thrown:
            live.append((('ret', 0), rc))
        held = {}
        done = {}
        for p, c in live:
            b, rw = self.of(env, p, c)
            if b is None or L[c][1] and rw is None:
                return False
            done[p] = (b, rw)
            if b is not False:
                if not plain(b) or b[0] != 's':
                    return False
                held[(HOLD[c], b[1])] = held.get((HOLD[c], b[1]), 0) + 1
        blocks = set(k[1] for k in held)
        for k, v in env.items():
            # what a block holds
            q = k
            while plain(q) and q[0] == 'fld':
                q = q[1]
            if plain(q) and q[0] == 'heap' and q[1] in blocks and k != q and plain(v) and v[0] == 's' and v[1][0] == 'raw':
                held[('o', v[1])] = held.get(('o', v[1]), 0) + 1
        raw_out = r.base == 'release' and plain(ret) and ret[0] == 's'
        if raw_out:
            held[('o', ret[1])] = held.get(('o', ret[1]), 0) + 1
        d = dict(u)
        for (k, t), n in sorted(d.items(), key=repr):
            if k == 'dispose':
                a.bad('releases the last strong reference and does not destroy the object', 'undisposed')
                return True
            if k == 'free':
                a.bad('releases the last reference and does not free what it kept', 'unfreed')
                return True
        for k in ('s', 'w', 'o'):
            for t in sorted(set(x[1] for x in d if x[0] == k) | set(x[1] for x in held if x[0] == k), key=repr):
                n, h = d.get((k, t), 0), held.get((k, t), 0)
                if t[0] == 'made' and (thrown or k == 'o' and not n) and not h:
                    continue
                if k == 'o' and t[0] != 'made' and t not in [x[1] for x in d if x[0] in ('o', 'gone')]:
                    if h and not (k, t) in w.u:
                        continue
                if n > h:
                    a.bad('leaves %s that nobody holds%s' % ({'s': 'a strong reference', 'w': 'a weak reference', 'o': 'an object'}[k], ' when it fails' if thrown else ''), 'leak')
                    return True
                if n < h:
                    a.bad('leaves a pointer behind that holds %s%s' % ({'s': 'no strong reference of its own', 'w': 'no weak reference of its own', 'o': 'an object that is not its own any more'}[k], ' when it fails' if thrown else ''), 'dangling')
                    return True
        m = None if thrown else self.spec(u, ret, env, done)
        if m:
            a.bad(m, 'spec')
        return True

    def spec(self, u, ret, env, done):
        a, w, r, L = self.a, self.w, self.a.r, self.L
        was = {p: self.of(w.env, p, c) for p, c, this, mv, const in w.objs}
        this = ('this',)
        args = [(p, c, mv) for p, c, t, mv, const in w.objs if not t]
        self_arg = any(v == this for v in w.alias.values())
        for p, c, t, mv, const in w.objs:
            if (const or t and r.o.get('const')) and p in done and done[p] != was[p]:
                return 'changes a pointer it may only look at'
        empty = lambda x: x[0] is False and not x[1]
        raw = lambda x, c: x[1] if L[c][1] else x[0]
        c = r.scls
        rawv = [w.env.get(p) for p in w.raws]
        if r.fk == 'ctor' and c in HOLD or r.base == 'operator=':
            if this not in done:
                return None
            got = done[this]
            if args:
                p, pc, mv = args[0]
                src = was[p]
                if pc == S + 'unique_ptr' and c == S + 'shared_ptr':
                    if got[1] != src[0] or (got[0] is False) != (src[0] is False):
                        return 'does not hold what it was given'
                    if done[p][0] is not False:
                        return 'does not take over what it was given'
                    return None
                want = (src[0], rawv[0] if rawv else src[1])
                if got[0] != want[0]:
                    return 'does not hold what the other pointer held'
                if L[c][1] and got[1] != want[1]:
                    return 'does not point at %s' % ('the object it was given' if rawv else 'what the other pointer pointed at')
                if mv and not empty(done[p]):
                    return 'leaves the pointer it moved from holding or pointing at something'
                if not mv and done[p] != src:
                    return 'changes the pointer it copies from'
            elif self_arg:
                if got != was[this] and not (r.params[0].get('rref') and empty(got)):
                    return 'loses what it holds when it is assigned to itself'
            elif rawv:
                if raw(got, c) != rawv[0]:
                    return 'does not point at what it was given'
            elif r.fk == 'ctor' and c != S + 'basic_ref_count' and not empty(got):
                return 'is not empty'
            elif r.fk == 'ctor' and c == S + 'basic_ref_count' and (got[0] is False) != (len(r.params) == 1 and 'Null' in r.params[0]['t'] and 'NullType' not in r.params[0]['t']):
                return 'holds a count' if got[0] is not False else 'holds no count'
            return None
        if r.base == 'swap':
            ps = [p for p in done]
            if len(ps) == 2 and (done[ps[0]] != was[ps[1]] or done[ps[1]] != was[ps[0]]):
                return 'does not exchange what the two pointers hold'
            if len(ps) == 1 and done[ps[0]] != was[ps[0]]:
                return 'loses what it holds when it is exchanged with itself'
            return None
        if c not in HOLD or this not in done:
            if r.base == 'operator==' and len(args) == 2 and not w.alias:
                x, y = [raw(was[p], pc) for p, pc, mv in args]
                if ret in (True, False) and ret != (x == y):
                    return 'says that the pointers are %s' % ('equal' if ret else 'different')
            if r.base == 'operator==' and len(args) == 1:
                x = raw(was[args[0][0]], args[0][1])
                if ret in (True, False) and ret != (x is False):
                    return 'says that the pointer is %s' % ('empty' if ret else 'not empty')
            if r.base == 'self_count_ptr_from_this' and ('ret', 0) in done and done[('ret', 0)][0] != ('s', ('blk', 99)):
                return 'gives a pointer to something else'
            if r.base == 'to_pointer' and args and ret is not None and ret != raw(was[args[0][0]], args[0][1]):
                return 'gives another pointer'
            return None
        got, old = done[this], was[this]
        if r.base == 'reset':
            if raw(got, c) != (rawv[0] if rawv else False) or not rawv and not empty(got):
                return 'does not point at what it was given' if rawv and rawv[0] is not False else 'is not empty afterwards'
        elif r.base == 'release' and c == S + 'unique_ptr':
            if not empty(got):
                return 'keeps the pointer it gave away'
            if ret is not None and ret != old[0]:
                return 'gives another pointer than the one it held'
        elif r.base == 'release' and c == S + 'basic_ref_count' or r.base in ('add_ref', 'get', 'release_if_unique') and c == S + 'basic_ref_count':
            t = old[0][1] if plain(old[0]) else None
            dv = G(u, 'u', t)
            want = {'add_ref': (1,), 'release': (-1,), 'get': (0,), 'release_if_unique': (-1,) if ret is True else (0,) if ret is False else (0, -1)}[r.base]
            if t is not None and dv not in want:
                return 'changes the count by %d' % dv
        elif r.base == 'release_if_unique':
            if ret is True and not empty(got):
                return 'says that it released its reference and still holds it'
            if ret is False and got != old:
                return 'says that it did not release its reference and lost it'
            if ret is True and old[0] is False:
                return 'says that it released a reference and held none'
        elif r.base == 'lock':
            g = done.get(('ret', 0))
            if g is None:
                return None
            if g[0] is False:
                if g[1]:
                    return 'gives a pointer to an object that it does not keep'
                if old[0] is not False and not G(u, 'dead', old[0][1]):
                    return 'gives nothing although the object is there'
            elif g != old:
                return 'gives a pointer to something else'
        elif r.base == 'weak':
            g = done.get(('ret', 0))
            if g is not None and g != old:
                return 'gives a pointer to something else'
        elif r.base in ('get', 'operator->') or r.base == 'get_ptr':
            if ret is not None and ret != raw(old, c):
                return 'gives another pointer'
        elif r.base in ('is_initialized', 'operator bool', 'IsNull'):
            x = (raw(old, c) is not False) != (r.base == 'IsNull')
            if ret in (True, False) and ret != x:
                return 'says that it %s' % ('holds an object' if (r.base == 'IsNull') != ret else 'is empty')
        elif r.base == 'expired':
            if ret is True and old[0] is not False and not G(u, 'dead', old[0][1]):
                return 'says that the object is gone although it is there'
            if ret is False and (old[0] is False or G(u, 'dead', old[0][1])):
                return 'says that the object is there although it is gone'
        elif r.base == 'unique':
            if ret is True and old[0] is False:
                return 'says that it is the only owner and owns nothing'
        return None


BASES = ('make_shared_ptr', 'make_self_count_ptr', 'make_unique_ptr', 'operator==', 'swap', 'to_pointer')


def interesting(r):
    return r.scls in HOLD or r.scls in (S + 'self_counter', S + 'MakeShared') and r.fk == 'method' or not r.scls and r.base in BASES


def check(ctx, P):
    c = Component(FILES)
    E = Expander(P, mk_transparent(c.files))
    E.alias, E.raw = False, True
    L = {}
    for k in HOLD:
        L[k] = leaves(P, k)
    done = set()
    for r in sorted(P.fns.values(), key=lambda f: (f.file, f.line, 'Sgx' not in f.n, f.n)):
        if not in_files(r, FILES) or not interesting(r) or r.o.get('defaulted') or r.o.get('implicit'):
            continue
        cs = [r.scls] if r.scls in HOLD else []
        cs += [holder(q) for q in r.params if holder(q)] + ([rets(r)] if rets(r) else [])
        if any(L[x] is None for x in cs):
            ctx.count('operations_given_up')
            continue
        k = (relfile(r.file), r.line, r.scls, r.base, tuple((holder(q), inst_of(q['t']) == inst(r), bool(q.get('rref'))) for q in r.params))
        if k in done:
            continue
        done.add(k)
        if r.o.get('acc') == 'private' or r.base.startswith('make_') and any(holder(q) for q in r.params) or r.scls == S + 'MakeShared' and r.params:
            continue
        g = E.run(r)
        n = 0
        for w in worlds(P, r, L):
            a = Own(ctx, P, g, r, w.what, w)
            try:
                a.run([(w.u, w.env)])
            except AnalysisBroken:
                ctx.count('operations_given_up')
                continue
            J = Judge(a, w, L)
            for u, ret, et in sorted(a.exits, key=repr):
                a.at(u, a.envs[et])
                ctx.count('ends_judged' if J.end(u, a.truth(ret, a.envs[et]) if ret in (True, False) else ret, a.envs[et], False) else 'ends_undecided')
            for u, et in sorted(a.throws, key=repr):
                a.at(u, a.envs[et])
                ctx.count('ends_judged' if J.end(u, None, a.envs[et], True) else 'ends_undecided')
            ctx.count('abstract_states', a.visited)
            ctx.count('standings')
            n += 1
        ctx.count('operations')
        ctx.sample('%s: %d standings' % (r.where(), n))


class Once(Abs):
    """u = how often the object was disposed of, or None"""
    def call(self, n, u, env):
        if n.base in DELETE or n.base in ('operator()', 'Dtor') or (n.base or '').startswith('~'):
            return [(u if u is None else min(u + 1, 2), None, None)]
        if n.base in ('operator->', 'Ref', 'get', 'forward', 'move', 'addressof'):
            return None
        return [(None, None, None)] if not (n.base or '').startswith('__') and (n.args or n.obj) and n.base not in ('operator delete', 'operator new') else None

    def step(self, n, u, env):
        if n.op == 'del':
            return [u if u is None else min(u + 1, 2)]
        return None


def data(ctx, P):
    """The parts of a counted block that dispose of the object and of the block itself"""
    E = Expander(P, mk_transparent(FILES))
    E.alias, E.raw = False, True
    done = set()
    for r in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.n)):
        if not in_files(r, FILES):
            continue
        if r.base == 'Dispose' and r.scls.endswith('SharedPtrData'):
            what, k = 'the object', (r.scls, 'o')
        elif r.base == 'DoCall' and 'SharedPtrData' in r.n and r.n.endswith(('DisposeConcept>::DoCall', 'Destructor>::DoCall')):
            kind = [x for x in ('DefaultSharedPtrData', 'DeleterSharedPtrData', 'InplaceSharedPtrData') if x in r.n]
            what = 'the object' if 'Dispose' in r.n.rsplit('>::', 1)[0].rsplit(',', 1)[1] else 'the block'
            k = (kind and kind[0], what)
        else:
            continue
        if k in done:
            continue
        done.add(k)
        a = Once(E.run(r), cap=4000)
        try:
            a.run([(0, {})])
        except AnalysisBroken:
            ctx.count('operations_given_up')
            continue
        for u, ret, et in sorted(a.exits, key=repr):
            if u in (0, 2):
                a.at(u, a.envs[et])
                ctx.report('%s: %s %s; path: %s' % (r.where(), 'may leave without disposing of' if u == 0 else 'may dispose twice of', what, a.trace()), key=(r.sn, r.line, what))
            ctx.count('ends_judged' if u is not None else 'ends_undecided')
        ctx.count('operations')
        ctx.sample(r.where())
