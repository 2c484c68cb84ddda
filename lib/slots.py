"""Values kept in raw storage: whether they exist, explored operation by operation.

A state says for every raw storage whether it holds a value (of which type, and which value it is), for every owned heap object whether it still exists, and what the fields say that
record this.  A value may be constructed only where there is none, used and destroyed only where there is one; whenever an operation ends, by returning or by an exception at any point,
the recording fields of every object that still exists agree with what is there, and nothing else is left."""
import itertools
import re
from engine import *
from comp import *
from locks import mk_transparent
from absx import Abs, under, bare_cast, replace

S = 'stingray::'
FILES = ['optional.h', 'variant.h', 'any.h', 'any.cpp', 'collection/inplace_vector.h']
OWNERS = {S + 'optional': 'optional', S + 'variant': 'variant', S + 'any': 'any', S + 'inplace_vector': 'vector'}
TOKEN = re.compile(r'(?:Ctor|Dtor|Ref)I(S[0-9A-Z]*_|[a-z]|N?S?_?\d+\w+?E)')
LISTED = re.compile(r'TypeListNode<(?:class |struct )?([^,<>]+),')
LOST = 'lost'
CAP = 2
COMPARE = {'operator==': lambda x, y: x == y, 'operator!=': lambda x, y: x != y, 'operator<': lambda x, y: x < y, 'operator>': lambda x, y: x > y,
           'operator<=': lambda x, y: x <= y, 'operator>=': lambda x, y: x >= y}


def plain(p):
    return isinstance(p, tuple) and bool(p)


def kind_of(t):
    t = (t or '').replace('const ', '').replace('class ', '').strip()
    for c, k in OWNERS.items():
        if t == c or t.startswith(c + '<') or t == c[len(S):] or t.startswith(c[len(S):] + '<'):
            return k
    return None


def fields(P, cls, pre=(), depth=0):
    out = []
    for rec in P.recs.get(cls, [])[:1]:
        for b in rec.get('bases') or []:
            b = b if isinstance(b, str) else b.get('n') or b.get('rec') or ''
            if depth < 4 and b in P.recs:
                out += fields(P, b, pre, depth + 1)
        for f in rec['fields']:
            out.append((f['n'], f))
    return out


class Shape(object):
    """where an owner keeps its values and what records that they are there"""
    def __init__(self, P):
        self.P = P

    @staticmethod
    def at(o, *names):
        for x in names:
            o = ('fld', o, x)
        return o


def loc_names(P):
    """class -> (field of the storage, recording field, further field)"""
    out = {}
    for cls, k in (('optional', 'optional'), ('Detail::VariantBase', 'variant'), ('inplace_vector', 'vector'), ('any', 'any')):
        fs = [(f['n'], f['t'], f.get('rec') or '') for rec in P.recs.get(S + cls, [])[:1] for f in rec['fields']]
        if k == 'any':
            ty = [n for n, t, r in fs if 'AnyType' in t or 'AnyType' in r or t == 'Type']
            da = [n for n, t, r in fs if 'DataType' in t or 'DataType' in r]
            if len(ty) == 1 and len(da) == 1:
                out[k] = (da[0], ty[0], None)
            continue
        st = [n for n, t, r in fs if 'StorageFor' in t or 'StorageFor' in r or n == '_storage' and t == 'Storage']
        fl = [n for n, t, r in fs if n not in st and (t == 'bool' or 'size_t' in t or 'unsigned' in t)]
        dy = [n for n, t, r in fs if 'std::vector' in t or r == 'std::vector']
        if len(st) == 1 and len(fl) == 1 and len(dy) == (k == 'vector'):
            out[k] = (st[0], fl[0], dy[0] if dy else None)
    return out


class Slots(Abs):
    """u = (heap objects that exist, 'ok' | 'lost')"""
    def __init__(self, ctx, P, g, r, w, L):
        Abs.__init__(self, g, cap=30000)
        self.ctx, self.P, self.r, self.w, self.L = ctx, P, r, w, L
        self.names = {L[k][0] for k in L if k in ('optional', 'variant', 'any')}

    def bad(self, msg, key):
        self.ctx.report('%s%s: %s; path: %s' % (self.r.where(), ' (%s)' % self.w.what if self.w.what else '', msg, self.trace()), key=(self.r.sn, self.r.line, key))

    def kill(self, msg, key):
        self.bad(msg, key)
        return []

    # -- places
    def loc(self, p, env):
        p = bare_cast(p)
        if not plain(p):
            return p
        if p == ('this',) or p[0] == 'rpar':
            q = self.w.alias.get(p[:2] if p[0] == 'rpar' else p)
            return q if q is not None else p[:2]
        if p[0] == 'fld':
            if p[2] == '_enumVal':
                return self.loc(p[1], env)
            b = self.loc(p[1], env)
            if p[2] == '_ptr' and plain(bare_cast(p[1])) and bare_cast(p[1])[0] == 'addr':
                return b        # a reference wrapper
            q = ('fld', b, p[2])
            v = env.get(q)
            return v[1] if plain(v) and v[0] == 'ref' else q
        if p[0] == 'addr':
            return ('at', self.loc(p[1], env))
        if p[0] == 'deref':
            q = self.loc(p[1], env)
            if plain(q) and q[0] == 'at':
                return q[1]
            v = env.get(q)
            if plain(v) and v[0] == 's' and plain(v[1]):
                return v[1][1] if v[1][0] == 'addr' else ('heap', v[1])
            return ('deref', q)
        if p[0] == 'idx':
            b = self.loc(p[1], env)
            i = env.get(('ix', b))
            return ('idx', b, i[1] if plain(i) and i[0] == 'n' else None)
        if p[0] in ('res', 'tmp', 'var', 'par'):
            v = env.get(p)
            if plain(v) and v[0] == 'ref':
                return v[1]
        return p

    def get(self, p, u, env):
        v = env.get(self.loc(p, env))
        return None if plain(v) and v[0] == 'ref' else v

    def put(self, env, p, v):
        p = self.loc(p, env)
        if self.r.scls == S + 'any' and plain(v) and v[0] == 'n' and plain(p) and p[0] == 'fld' and p[2] == self.L.get('any', ('', ''))[1]:
            v = self.enumerator(v[1])
        e = {k: x for k, x in env.items() if not under(k, p)}
        if v is not None:
            e[p] = v
        return e

    def copy(self, env, dst, src, u):
        d, s = self.loc(dst, env), self.loc(src, env)
        v = self.ev(src, u, env)
        if v is None and plain(s) and self.slot(s) is not None:
            e = {k: x for k, x in env.items() if not under(k, d)}
            e[d] = ('ref', s)
            return e
        parts = [(k, x) for k, x in env.items() if plain(s) and k != s and k[0] != 'live' and under(k, s)]
        e = self.put(env, d, v)
        for k, x in parts:
            e[replace(k, s, d)] = x
        return e

    def ev(self, v, u, env):
        v = bare_cast(v)
        if plain(v) and v[0] == 'addr':
            return ('s', ('addr', self.loc(v[1], env)))
        if plain(v) and v[0] == 'un' and v[1] == '!':
            t = self.truth(self.ev(v[2], u, env), env)
            return None if t is None else not t
        if plain(v) and v[0] in ('rpar', 'fld', 'idx', 'deref'):
            return self.get(v, u, env)
        return Abs.ev(self, v, u, env)

    def enumerator(self, i):
        for name, o in self.P.enums.items():
            if 'AnyType' in name:
                for x, v in o['v']:
                    if v == i and not x.endswith('_Count'):
                        return ('e', x)
        return None

    def equal(self, x, y, env):
        if plain(x) and plain(y) and x[0] == y[0] == 's':
            return x == y
        for a, b in ((x, y), (y, x)):
            if a is False and plain(b) and b[0] == 's':
                return False
            if a is False and plain(b) and b[0] == 'n':
                return b[1] == 0
        return Abs.equal(self, x, y, env)

    def refine(self, c, tv, env):
        return env

    # -- storages
    def slot(self, p):
        """the storage a place is the value of"""
        while plain(p) and p[0] in ('fld', 'idx', 'deref'):
            if p[0] == 'fld' and p[2] == '_value' and self.storage(p[1]):
                return p[1]
            p = p[1]
        return None

    def storage(self, p):
        if not plain(p):
            return False
        if p in self.w.slots or p[0] == 'idx' and p[1] in self.w.slots:
            return True
        return root_of(p)[0] in ('var', 'tmp') and p[0] == 'fld' and (p[2] in self.names or p[2] == 'String' and plain(p[1]) and p[1][0] == 'fld' and p[1][2] in self.names)

    def label(self, a, u, env):
        q = self.loc(a, env)
        s = self.slot(q)
        if s is not None and q == ('fld', s, '_value'):
            x = env.get(('live', s))
            return x[1] if x else None
        return ('p', q[1]) if plain(q) and q[0] == 'rpar' else None

    def check_use(self, p, u, env):
        q = self.loc(p, env)
        while plain(q) and q[0] == 'at':
            q = q[1]
        s = self.slot(q)
        if s is not None and not (s[0] == 'idx' and s[2] is None) and ('live', s) not in env:
            self.bad('uses a value that is not there', 'use')
            return False
        return True

    def call(self, n, u, env):
        if u[1] == LOST:
            return [(u, None, None)]
        b, cls = n.base or '', n.cls or ''
        if cls.endswith('StorageFor') and b in ('Ctor', 'Dtor') and n.obj is not None:
            s = self.loc(n.obj, env)
            if plain(s) and s[0] == 'idx' and s[2] is None:
                return [((u[0], LOST), None, None)]
            m = TOKEN.search(n.raw.get('fn') or '')
            tok = m.group(1) if m and cls.endswith('MultiStorageFor') else ''
            x = env.get(('live', s))
            if b == 'Ctor':
                for a in n.args:
                    if not self.check_use(a, u, env):
                        return []
                if x is not None and not self.w.trivial(x[0]):
                    return self.kill('constructs a value over one that still exists', 'over')
                return [(u, None, {('live', s): (tok, self.label(n.args[0], u, env) if len(n.args) == 1 else None)})]
            if x is None:
                return self.kill('destroys a value that is not there', 'twice')
            if x[0] != tok:
                return self.kill('destroys a value as one of another type', 'type')
            return [(u, None, {('live', s): None})]
        if cls.endswith('MultiStorageFor') and b in ('Ref', 'CPtr', 'Ptr') and n.obj is not None:
            s, m = self.loc(n.obj, env), TOKEN.search(n.raw.get('fn') or '')
            x = env.get(('live', s))
            if m and x is not None and x[0] != m.group(1) and x[0] in self.w.toks and m.group(1) in self.w.toks:
                return self.kill('takes a value as one of another type', 'type')
            return [(u, ('ref', ('fld', s, '_value')), None)] if b == 'Ref' else [(u, None, None)]
        if b == 'Clone' and n.obj is not None:
            v = self.loc(n.obj, env)
            if plain(v) and v[0] == 'heap':
                if v[1] not in u[0]:
                    return self.kill('uses an object that is not there', 'use')
                m = ('made', n.i)
                return [((tuple(sorted(u[0] + (m,), key=repr)), u[1]), ('s', m), None)]
            return [((u[0], LOST), None, None)]
        for a in list(n.args) + ([n.obj] if n.obj is not None else []):
            if b.startswith('~') or not self.check_use(a, u, env):
                return [] if not b.startswith('~') else None
        if b == 'swap' and len(n.args) == 2 and n.obj is None:
            x, y = self.loc(n.args[0], env), self.loc(n.args[1], env)
            sx, sy = self.slot(x), self.slot(y)
            if sx is not None and sy is not None:
                lx, ly = env.get(('live', sx)), env.get(('live', sy))
                return [(u, None, {('live', sx): (lx[0], ly[1]), ('live', sy): (ly[0], lx[1])})]
            return [(u, None, ('swap', x, y))]
        if b == 'operator=' and n.obj is not None and len(n.args) == 1:
            d = self.loc(n.obj, env)
            s = self.slot(d)
            if s is not None and d == ('fld', s, '_value'):
                return [(u, None, {('live', s): (env[('live', s)][0], self.label(n.args[0], u, env))})]
        if b == 'ArrayCheckRange' and len(n.args) == 2:
            i, k = self.ev(n.args[0], u, env), self.ev(n.args[1], u, env)
            if plain(i) and plain(k) and i[0] == k[0] == 'n':
                return [(u, None, None)] if i[1] < k[1] else []
        if n.obj is not None:
            d = self.loc(n.obj, env)
            if d in self.w.dyn or plain(env.get(d)) and env[d][0] == 'dyn':
                return self.vector(n, d, u, env)
        return None

    def vector(self, n, d, u, env):
        b, v = n.base, env.get(d)
        known = plain(v) and v[0] == 'dyn'
        if b == 'size':
            return [(u, ('n', v[2]) if known else None, None)]
        if b == 'empty':
            return [(u, v[2] == 0 if known else None, None)]
        if b == 'clear':
            return [(u, None, {d: ('dyn', None, 0)})]
        if b in ('push_back', 'emplace_back'):
            return [(u, None, {d: ('dyn', ('more', v[1]), v[2] + 1) if known else None})]
        if b == 'operator=' and n.args:
            s = self.loc(n.args[0], env)
            ups = {d: env.get(s)}
            if n.raw.get('mv') or 'EOS' in (n.raw.get('fn') or '') or 'aSEO' in (n.raw.get('fn') or ''):
                ups = {s: None}
                ups[d] = env.get(s)
                if s == d:
                    ups[d] = None
            return [(u, None, ups)]
        if n.raw.get('k') == 'ctor' and not n.args:
            return [(u, None, {d: ('dyn', None, 0)})]
        if b in ('reserve', 'capacity', 'begin', 'end', 'cbegin', 'cend', 'shrink_to_fit', 'operator[]', 'at', 'front', 'back', 'data'):
            return [(u, None, None)]
        if b.startswith('~'):
            return [(u, None, {d: None})]
        return [((u[0], LOST), None, {d: None})]

    def effect(self, n, u, env):
        r = self.call(n, u, env)
        if r is None:
            if n.op == 'call' and n.obj is not None and n.raw.get('k') == 'ctor' and plain(n.obj) and bare_cast(n.obj)[0] == 'new':
                return [(u, env)]
            if n.obj is not None and self.storage(self.loc(n.obj, env)):
                if n.raw.get('k') == 'ctor' and not n.args or n.base.startswith('~'):
                    return [(u, env)]
                return [((u[0], LOST), env)]
            if self.safe(n, env):
                return Abs.effect(self, n, u, env)
            e, b = env, n.base or ''
            if n.op == 'call' and n.raw.get('k') != 'ctor':
                for x in n.args:        # whatever it is given by reference may change
                    x = self.loc(x, env)
                    if plain(x) and (x[0] == 'var' or x[0] == 'fld' and b == 'Deserialize') and x in e and not (plain(e[x]) and e[x][0] == 'ref'):
                        e = self.put(e, x, None)
            return [(u, self.put(e, n.dst, None) if n.dst is not None else e)]
        out = []
        for u2, val, ups in r:
            e = dict(env)
            if isinstance(ups, tuple):
                _, x, y = ups
                a = [(k, v) for k, v in env.items() if k[0] not in ('live', 'ix') and under(k, x)]
                c = [(k, v) for k, v in env.items() if k[0] not in ('live', 'ix') and under(k, y)]
                for k, v in a + c:
                    e.pop(k, None)
                for k, v in a:
                    e[replace(k, x, y)] = v
                for k, v in c:
                    e[replace(k, y, x)] = v
            else:
                for p, v in (ups or {}).items():
                    if v is None:
                        e.pop(p, None)
                    else:
                        e[p] = v
            if n.dst is not None:
                e = self.put(e, n.dst, val)
            out.append((u2, e))
        return out

    def safe(self, n, env):
        """a call that only the general rules concern"""
        return n.base in ('operator==', 'operator!=', 'operator!') or n.raw.get('k') == 'ctor' and len(n.args) == 1 and 'AnyType' in (n.cls or '') or n.base == 'operator=' and 'AnyType' in (n.cls or '')

    def step(self, n, u, env):
        if u[1] == LOST:
            return None
        op = n.op
        if op == 'model' and n.base == 'operator[]' and n.obj is not None and n.args:
            return None
        if op in ('rd',) and n.p is not None and not self.check_use(n.p, u, env):
            return []
        if op in ('wr', 'ret') and n.v is not None:
            v = self.ev(n.v, u, env)
            if plain(v) and v[0] == 's' and plain(v[1]) and v[1][0] == 'made' and v[1] not in u[0] and plain(bare_cast(n.v)) and bare_cast(n.v)[0] == 'new':
                return [(tuple(sorted(u[0] + (v[1],), key=repr)), u[1])]
            if op == 'ret' and n.ctx.parent is None and not self.check_use(n.v, u, env):
                return []
        if op == 'delete':
            v = self.ev(n.p if n.p is not None else n.v, u, env)
            if v is False:
                return None
            if not (plain(v) and v[0] == 's'):
                return [(u[0], LOST)]
            if v[1] not in u[0]:
                return self.kill('deletes an object that is not there any more', 'twice')
            return [(tuple(x for x in u[0] if x != v[1]), u[1])]
        return None

    def move(self, n, u, env):
        if n.op == 'model' and n.base == 'operator[]' and n.obj is not None and n.args:
            # the place is named by its array alone: what its index is now
            b = [x for x in self.w.slots if x[0] != 'idx' and under(x, self.loc(n.obj, env))]
            if b:
                e = dict(env)
                i = self.ev(n.args[0], u, env)
                e.pop(('ix', b[0]), None)
                if i is not None:
                    e[('ix', b[0])] = i
                return [(u, e)]
        if n.op == 'bindref':
            d, s = n.p, self.loc(n.v, env)
            d = ('fld', self.loc(d[1], env), d[2]) if plain(d) and d[0] == 'fld' else bare_cast(d)
            e = {k: x for k, x in env.items() if not under(k, d)}
            e[d] = ('ref', s)
            return [(u, e)]
        if n.op == 'enter' and n.base == 'operator=' and n.obj is not None and len(n.args) == 1 and (n.cls or '').endswith('DataType'):
            # a union is copied as it stands; a value in raw storage does not come along
            d, s = self.loc(n.obj, env), self.loc(n.args[0], env)
            e = {k: x for k, x in env.items() if not (plain(k) and k != d and under(k, d))}
            for k, x in env.items():
                if plain(k) and k[0] == 'fld' and k != s and under(k, s):
                    e[replace(k, s, d)] = x
            return [(u, e)]
        return Abs.move(self, n, u, env)

    def rmw(self, n, u, env):
        return self.ev(n.v, u, env)

    def throw(self, n, u, env):
        b = n.base or ''
        if b.startswith('~') or b == 'Dtor' or n.op == 'delete':
            return None
        if (n.sn or '').startswith(('std::basic_string', 'std::allocator', S + 'BasicStringBuilder', S + 'ToolkitWhere')):
            return None         # the text of a message can always be made
        if b == 'ArrayCheckRange' and len(n.args) == 2:
            i, k = self.ev(n.args[0], u, env), self.ev(n.args[1], u, env)
            if plain(i) and plain(k) and i[0] == k[0] == 'n' and i[1] < k[1]:
                return None
        return u


class World(object):
    def __init__(self):
        self.alias, self.env, self.objs, self.slots, self.dyn = {}, {}, [], set(), set()
        self.heap, self.what = (), ''
        self.types, self.toks = [], []

    def trivial(self, tok):
        return tok in self.toks and self.toks.index(tok) < len(self.types) and self.types[self.toks.index(tok)].endswith('EmptyType')


def b36(t):
    t = t[1:-1]
    return int(t, 36) + 1 if t else 0


def place(w, k, o, L, st, toks):
    """puts an object into a standing"""
    a, f, d = L[k]
    fp, sp = ('fld', o, f), ('fld', o, a)
    lab = ('o', o)
    if k == 'optional':
        w.slots.add(sp)
        w.env[fp] = st == 'full'
        if st == 'full':
            w.env[('live', sp)] = ('', lab)
    elif k == 'variant':
        w.slots.add(sp)
        w.env[fp] = ('n', st)
        w.env[('live', sp)] = (toks[st], lab)
    elif k == 'vector':
        arr = ('fld', sp, '_data')
        w.slots.add(arr)
        w.env[fp] = ('n', min(st, CAP))
        for i in range(min(st, CAP)):
            w.env[('live', ('idx', arr, i))] = ('', lab + (i,))
        w.env[('fld', o, d)] = ('dyn', lab if st > CAP else None, max(0, st - CAP))
        w.dyn.add(('fld', o, d))
    else:
        ss = ('fld', sp, 'String')
        w.slots.add(ss)
        w.env[fp] = ('e', S + 'Detail::any::AnyType::' + st)
        if st == 'String':
            w.env[('live', ss)] = ('', lab)
        elif st == 'Int':
            w.env[('fld', sp, 'Int')] = ('v', lab)
        elif st in ('Object', 'SerializableObject'):
            w.env[('fld', sp, 'Object')] = ('s', lab)
            w.heap += (lab,)
            return
        w.env[('fld', sp, 'Object')] = ('s', ('nothing',))


def blank(w, k, o, L):
    a, f, d = L[k]
    sp = ('fld', o, a)
    w.slots.add({'vector': ('fld', sp, '_data'), 'any': ('fld', sp, 'String')}.get(k, sp))
    if k == 'vector':
        w.dyn.add(('fld', o, d))
        w.env[('fld', o, d)] = ('dyn', None, 0)
    elif k == 'any':
        w.env[('fld', sp, 'Object')] = ('s', ('nothing',))


def standings(k, n):
    return {'optional': ['empty', 'full'], 'variant': list(range(n)), 'vector': [0, 1, 2, 3], 'any': ['Empty', 'Int', 'String', 'Object']}[k]


def said(k, st, types):
    return {'optional': {'empty': 'empty', 'full': 'holding a value'}.get(st), 'variant': 'holding a %s' % types[st].split('::')[-1] if k == 'variant' else '',
            'vector': 'holding %s values' % st, 'any': {'Empty': 'empty', 'Int': 'holding a number', 'String': 'holding a string', 'Object': 'holding an object'}.get(st)}[k]


def worlds(P, r, L, types, toks):
    me = OWNERS.get(r.scls) or ('variant' if r.scls == S + 'Detail::VariantBase' else None)
    objs = []
    if me and r.fk != 'ctor' and not r.o.get('static'):
        objs.append((('this',), me, False))
    for i, q in enumerate(r.params):
        k = kind_of(q['t'].replace('&', ''))
        if k:
            objs.append((('rpar', i), k, q['t'].startswith('const ')))
    opts = []
    for i, (p, k, const) in enumerate(objs):
        o = standings(k, len(types))
        if i and objs[0][0] == ('this',) and k == me and (kind_name(r.params[p[1]]['t']) == own_name(r)):
            o = o + ['self']
        opts.append(o)
    inner = []
    if me in ('optional', 'variant', 'any') and r.base in ('operator=', 'assign') and len(r.params) == 1 and not any(p[0] == 'rpar' for p, k, c in objs):
        t = r.params[0]['t'].replace('const ', '').replace('&', '').strip().split('::')[-1]
        if me == 'optional' and ('<%s>' % t in r.n or '::%s>' % t in r.n) or me == 'variant' and t in [x.split('::')[-1] for x in types] or me == 'any' and t.startswith(('basic_string', 'string')):
            inner = [t]
    nums = [i for i, q in enumerate(r.params) if r.scls == S + 'inplace_vector' and r.base in ('at', 'operator[]') and 'unsigned' in q['t'] or 'size' in q['t'] and r.base in ('at', 'operator[]')]
    for combo in itertools.product(*(opts + [[0, 1, 2, 3]] * len(nums))):
        for inn in ([False, True] if inner else [False]):
            w = World()
            w.types, w.toks = types, toks
            names = []
            if me and r.fk == 'ctor':
                blank(w, me, ('this',), L)
            for (p, k, const), st in zip(objs, combo):
                who = 'this' if p == ('this',) else 'the argument'
                if st == 'self':
                    w.alias[p] = ('this',)
                    names.append('%s is the object itself' % who)
                    continue
                place(w, k, p, L, st, toks)
                w.objs.append((p, k, const, st))
                names.append('%s %s' % (who, said(k, st, types)))
            for i, v in zip(nums, combo[len(objs):]):
                w.env[('rpar', i)] = ('n', v)
                names.append('index %d' % v)
            if inn:
                a, f, d = L[me]
                s = ('fld', ('this',), a)
                if me == 'any':
                    s = ('fld', s, 'String')
                if ('live', s) not in w.env or me == 'variant' and types[combo[0]].split('::')[-1] != inner[0]:
                    continue
                w.alias[('rpar', 0)] = ('fld', s, '_value')
                names.append('the argument is its own value')
            w.what = ', '.join(names)
            w.env0 = dict(w.env)
            yield w


def kind_name(t):
    return t.replace('const ', '').replace('&', '').replace(S, '').strip().split('<')[0] + '|' + ('<' in t and args_of(t) or '')


def args_of(t):
    x = t.replace('const ', '').replace('&', '').replace(S, '').replace(' ', '')
    return x[x.index('<'):] if '<' in x else ''


def own_name(r):
    n = r.n[:r.n.rindex('::')].replace(S, '')
    t = n.split('<')[0]
    return t + '|' + (args_of(n) if '<' in n else '')


class Judge(object):
    def __init__(self, a, w, L):
        self.a, self.w, self.L = a, w, L

    def content(self, k, o, env):
        """what is there: comparable, None when unknown"""
        a, f, d = self.L[k]
        sp = ('fld', o, a)
        if k in ('optional', 'variant'):
            x = env.get(('live', sp))
            return ('empty',) if x is None else ('full',) + x
        if k == 'vector':
            arr = ('fld', sp, '_data')
            s = tuple(env.get(('live', ('idx', arr, i))) for i in range(CAP + 1))
            dv = env.get(('fld', o, d))
            return (s, dv)
        t = env.get(('fld', o, f))
        name = t[1].split('::')[-1] if plain(t) and t[0] == 'e' else None
        return (t, env.get(('live', ('fld', sp, 'String'))), env.get(('fld', sp, 'Object')) if name in (None, 'Object', 'SerializableObject') else None,
                env.get(('fld', sp, 'Int')) if name in (None, 'Int') else None)

    def agree(self, k, o, env):
        """None when the recording fields agree with what is there; False when unknown; else what is wrong"""
        a, f, d = self.L[k]
        sp = ('fld', o, a)
        fv = env.get(('fld', o, f))
        if k == 'optional':
            if fv not in (True, False):
                return False
            there = ('live', sp) in env
            return None if there == fv else 'says that it holds a value and holds none' if fv else 'holds a value and says that it holds none'
        if k == 'variant':
            if not (plain(fv) and fv[0] == 'n'):
                return False
            x = env.get(('live', sp))
            if x is None:
                return 'holds no value'
            if x[0] not in self.w.toks:
                return False
            return None if self.w.toks.index(x[0]) == fv[1] else 'says that it holds another type than it does'
        if k == 'vector':
            if not (plain(fv) and fv[0] == 'n'):
                return False
            arr = ('fld', sp, '_data')
            s = [('live', ('idx', arr, i)) in env for i in range(CAP + 1)]
            if any(s[fv[1]:]):
                return 'holds a value beyond its size'
            return None if all(s[:fv[1]]) and fv[1] <= CAP else 'holds fewer values than its size says'
        if not (plain(fv) and fv[0] == 'e'):
            return False
        t = fv[1].split('::')[-1]
        live = ('live', ('fld', sp, 'String')) in env
        if live != (t == 'String'):
            return 'holds a string and says that it does not' if live else 'says that it holds a string and holds none'
        if t in ('Object', 'SerializableObject'):
            v = env.get(('fld', sp, 'Object'))
            if v is None:
                return False
            if not (plain(v) and v[0] == 's' and v[1] in self.heap):
                return 'says that it holds an object that is not there'
            self.held.append(v[1])
        return None

    def end(self, u, ret, env, thrown):
        a, w, r, L = self.a, self.w, self.a.r, self.L
        if u[1] == LOST:
            return False
        self.heap, self.held = list(u[0]), []
        me = OWNERS.get(r.scls) or ('variant' if r.scls == S + 'Detail::VariantBase' else None)
        gone = me and (r.fk == 'dtor' or r.fk == 'ctor' and thrown)
        live = [(o, k, const) for o, k, const, st in w.objs if not (o == ('this',) and gone)]
        if me and r.fk == 'ctor' and not thrown:
            live.append((('this',), me, False))
        sure = True
        for o, k, const in live:
            m = self.agree(k, o, env)
            who = '' if o == ('this',) else 'leaves its argument so that it '
            if m:
                a.bad('%s%s%s' % (who, m, ' when it fails' if thrown else ''), 'agree')
                return True
            if m is False:
                sure = False
        if gone:
            x = [e for e in env if e[0] == 'live' and root_of(e[1]) == ('this',) and not w.trivial(env[e][0])]
            if x:
                a.bad('leaves a value behind that nobody destroys%s' % (' when it fails' if thrown else ''), 'left')
                return True
        if not sure:
            return False
        if sorted(self.held, key=repr) != sorted(self.heap, key=repr):
            if len(set(self.held)) != len(self.held):
                a.bad('leaves two owners of one object', 'two')
            else:
                a.bad('leaves an object that nobody deletes%s' % (' when it fails' if thrown else ''), 'leak')
            return True
        for o, k, const in live:
            if const and self.content(k, o, env) != self.content(k, o, w.env0):
                a.bad('changes an object it may only look at', 'const')
                return True
        if not thrown:
            m = self.spec(u, ret, env, me)
            if m:
                a.bad(m, 'spec')
        return True

    def spec(self, u, ret, env, me):
        a, w, r = self.a, self.w, self.a.r
        this = ('this',)
        was = {o: st for o, k, c, st in w.objs}
        args = [(o, k) for o, k, c, st in w.objs if o != this]
        selfed = this in w.alias.values()
        inner = any(v != this for v in w.alias.values())
        q = r.params[0] if r.params else None
        moved = bool(q and q.get('rref'))
        now = self.content(me, this, env) if me else None
        old = self.content(me, this, w.env0) if me and r.fk != 'ctor' else None
        b = r.base
        if me and (r.fk == 'ctor' or b in ('operator=', 'assign', 'reset', 'clear', 'emplace')):
            if selfed:
                if moved or b == 'swap' or not self.same(me, now, old):
                    return None
                return 'does not keep its value when it is assigned to itself'
            if args and args[0][1] == me:
                src = self.content(me, args[0][0], w.env0)
                return self.same(me, now, src)
            if not r.params and r.fk == 'ctor' or b in ('reset', 'clear') or q and 'NullPtr' in q['t']:
                if me == 'optional' and now != ('empty',):
                    return 'holds a value afterwards'
                if me == 'vector' and (any(now[0]) or now[1] and now[1][2]):
                    return 'holds values afterwards'
                return None
            if me == 'optional' and now == ('empty',):
                return 'holds no value afterwards'
            if me in ('optional', 'variant') and b != 'emplace' and len(r.params) == 1 and now[2] is not None and now[2] not in (('p', 0), ('o', this)) and not inner:
                return 'does not hold what it was given'
            return None
        if b == 'swap' and me and args:
            o = args[0][0]
            if self.same(me, now, self.content(me, o, w.env0)) or self.same(me, self.content(me, o, env), old):
                return 'does not exchange the two'
            return None
        if me == 'vector' and b in ('push_back', 'emplace_back'):
            size = lambda c: sum(x is not None for x in c[0]) + (c[1][2] if c[1] else 0)
            if now[1] is not None and size(now) != size(old) + 1:
                return 'does not add exactly one value'
            if any(x is not None and y != x for x, y in zip(old[0], now[0])):
                return 'changes the values it had'
            if size(old) < CAP and now[1] is not None and now[1][2]:
                return 'does not use the room that is left in place'
            return None
        if me == 'optional':
            full = was.get(this) == 'full'
            if b in ('is_initialized', 'operator bool') and ret in (True, False) and ret != full:
                return 'says that it is %s' % ('empty' if full else 'holding a value')
            if b in ('get', 'get_ptr', 'operator*', 'operator->') and not full:
                return 'gives a value although it holds none'
        if b in ('get', 'get_ptr', 'at', 'operator*', 'operator->', 'operator[]'):
            return None
        if me in (None, 'optional', 'variant') and (b in COMPARE or b == 'Compare'):
            vs = [(('rpar', i), q['t']) for i, q in enumerate(r.params)]
            if me:
                vs = [(this, '')] + vs
            if len(vs) != 2 or not isinstance(ret, (bool, tuple)):
                return None
            rank, plainly = [], 0
            for o, t in vs:
                if o in was:
                    rank.append(was[o] if me == 'variant' else int(was[o] == 'full'))
                elif o in w.alias:
                    return None
                else:
                    rank.append(0 if 'NullPtr' in t else 1)
            if rank == [1, 1] or me == 'variant' and rank[0] == rank[1]:
                return None
            x, y = rank
            if b == 'Compare':
                ok = not plain(ret) or ret[0] != 'n' or (ret[1] > 0) - (ret[1] < 0) == x - y
            else:
                ok = not isinstance(ret, bool) or ret == COMPARE[b](x, y)
            if not ok:
                return 'compares values of different kinds wrongly'
        return None

    def same(self, k, x, y):
        if k == 'vector':
            for p, q in zip(x[0], y[0]):
                if (p is None) != (q is None) or p and q and None not in (p[1], q[1]) and p[1] != q[1]:
                    return 'does not hold what it was given'
            if x[1] is not None and y[1] is not None and x[1] != y[1]:
                return 'does not hold what it was given'
            return None
        if k == 'any':
            if x[0] != y[0] and None not in (x[0], y[0]):
                return 'does not hold what it was given'
            if x[1] and y[1] and x[1][1] and y[1][1] and x[1][1] != y[1][1]:
                return 'does not hold what it was given'
            if x[3] != y[3]:
                return 'does not hold what it was given'
            return None
        if x[0] != y[0] or x[0] == 'full' and (x[1] != y[1] or None not in (x[2], y[2]) and x[2] != y[2]):
            return 'does not hold what it was given'
        return None


def check(ctx, P):
    L = loc_names(P)
    E = Expander(P, mk_transparent(FILES))
    E.alias, E.raw = False, True
    # the type tokens of each variant, in the order of its list
    toks = {}
    for f in P.fns.values():
        if f.scls in (S + 'variant', S + 'Detail::VariantBase') and f.fk in ('dtor', 'method') and in_files(f, FILES) and (f.fk == 'dtor' or f.base == 'Destruct'):
            ts = set()
            for n in E.run(f).nodes:
                if n.op == 'call' and n.base == 'Dtor' and (n.cls or '').endswith('MultiStorageFor'):
                    m = TOKEN.search(n.raw.get('fn') or '')
                    if m:
                        ts.add(m.group(1))
            tl = LISTED.findall(f.n)
            if len(ts) == len(tl) and all(t.startswith('S') for t in ts):
                toks[tuple(tl)] = sorted(ts, key=b36)
    done = set()
    for r in sorted(P.fns.values(), key=lambda f: (f.file, f.line, 'Sgx' not in f.n, f.n)):
        if not in_files(r, FILES) or r.o.get('defaulted') or r.o.get('implicit') or r.o.get('acc') in ('private', 'protected'):
            continue
        me = OWNERS.get(r.scls)
        if not me and not (not r.scls and r.base in COMPARE):
            if r.scls != S + 'Detail::VariantBase':
                continue
            me = 'variant'
        if me == 'vector' and 'Iterator' in r.n:
            continue
        if me == 'vector' and ('Sgx' not in r.n or ', %d>' % CAP not in r.n):
            continue
        types = LISTED.findall(r.n)
        if me == 'variant' and tuple(types) not in toks:
            continue
        if me not in (None, 'variant') and me not in L or me == 'variant' and 'variant' not in L:
            ctx.count('operations_given_up')
            continue
        if any(kind_of(q['t'].replace('&', '')) not in (None, me) for q in r.params) and me:
            continue
        ks = [kind_of(q['t'].replace('&', '')) for q in r.params]
        if not me and (len(ks) != 2 or 'optional' not in ks or not all(x in (None, 'optional') for x in ks)):
            continue
        k = (relfile(r.file), r.line, r.scls, len(types), tuple(types).index(S + 'EmptyType') if S + 'EmptyType' in types else -1, tuple((kind_of(q['t'].replace('&', '')), bool(q.get('rref')), q['t'].split('::')[-1] if me in ('variant', 'any') or 'NullPtr' in q['t'] else '') for q in r.params))
        if k in done:
            continue
        done.add(k)
        g = E.run(r)
        n = 0
        for w in worlds(P, r, L, types, toks.get(tuple(types), [])):
            a = Slots(ctx, P, g, r, w, L)
            try:
                a.run([((w.heap, 'ok'), w.env)])
            except AnalysisBroken:
                ctx.count('operations_given_up')
                continue
            J = Judge(a, w, L)
            for u, ret, et in sorted(a.exits, key=repr):
                a.at(u, a.envs[et])
                ctx.count('ends_judged' if J.end(u, ret, a.envs[et], False) else 'ends_undecided')
            for u, et in sorted(a.throws, key=repr):
                a.at(u, a.envs[et])
                ctx.count('ends_judged' if J.end(u, None, a.envs[et], True) else 'ends_undecided')
            ctx.count('abstract_states', a.visited)
            ctx.count('standings')
            n += 1
        ctx.count('operations')
        ctx.sample('%s: %d standings' % (r.where(), n))
