"""What an object writes under a name and what it reads from it: paths of the two functions, put side by side."""
import re
from engine import *
from locks import *
from absx import norm

STREAMS = {'stingray::ObjectOStream': 'w', 'stingray::ObjectIStream': 'r'}
WIDTH = {'b': ('i', 1), 'c': ('i', 1), 'a': ('i', 1), 'h': ('i', 1), 's': ('i', 2), 't': ('i', 2), 'i': ('i', 4), 'j': ('i', 4), 'l': ('i', 8), 'm': ('i', 8), 'x': ('i', 8), 'y': ('i', 8), 'f': ('f', 4), 'd': ('f', 8)}
CAP = 3000


def arg_type(n):
    """the built-in type a value is written or read as, from the instantiation that is called"""
    fn = n.raw.get('fn') or ''
    i = fn.find('erializeI')
    if i < 0:
        return None
    t = fn[i + 9:i + 11]
    return WIDTH.get(t[0]) if len(t) == 2 and t[1] == 'E' else None


class Path(object):
    def __init__(self):
        self.ops = []          # (kind, name, place, how, type, default?, line)
        self.facts = {}        # ('name', N) -> case value, or ('there', N) -> bool
        self.set = frozenset()

    def names(self):
        return {o[1] for o in self.ops}


class Walk(object):
    def __init__(self, P, f):
        self.P, self.f = P, f
        rf = relfile(f.file)

        def t(g, n):
            if not relfile(g.file).startswith('stingraykit/') or g.scls in STREAMS:
                return False
            if g.fk == 'dtor' or g.fk == 'ctor' and (relfile(g.file) != rf or len(g.nodes) > 40 or any(x.get('op') in ('br', 'switch') for x in g.nodes)):
                return False
            if g.fk == 'ctor':
                return True
            return bool(g.cls) and g.scls == f.scls or P.snap.is_new(g) or relfile(g.file) == rf and not g.cls
        E = Expander(P, t, models=locky_models)
        E.alias = False
        self.g = E.run(f)
        self.paths = []
        self.cut = False
        self.steps = 0

    def run(self):
        sys_limit = sys.getrecursionlimit()
        sys.setrecursionlimit(20000)
        try:
            self.go(self.g.entry, {}, [], {}, frozenset(), ())
        finally:
            sys.setrecursionlimit(sys_limit)
        return self.paths

    def res(self, v, env):
        """field path of this, ('read', name), ('str', s), ('scaled', base, op, lit) or None"""
        for _ in range(20):
            if not isinstance(v, tuple) or not v:
                return None
            if v[0] == 'cast':
                v = v[-1]
            elif v[0] in ('addr', 'deref') and len(v) == 2:
                v = v[1]
            elif v[0] == 'str':
                return ('str', v[1])
            elif v[0] == 'this':
                return ('this',)
            elif v[0] == 'enum':
                return ('const', v[-1])
            elif v[0] == 'fld':
                if norm(v) in env:
                    return env[norm(v)]
                b = self.res(v[1], env)
                if isinstance(b, tuple) and b[0] == 'this':
                    return b + (v[2],)
                return b if isinstance(b, tuple) and b[0] == 'read' and v[2] == '_enumVal' else None
            elif v[0] == 'bin' and len(v) == 4 and v[1] in ('+', '-', '*', '/', '%') and isinstance(v[3], tuple) and v[3][:1] == ('lit',) and isinstance(v[3][1], int) and not isinstance(v[3][1], bool):
                b = self.res(v[2], env)
                return ('scaled', b, v[1], v[3][1]) if b else None
            elif norm(v) in env:
                return env[norm(v)]
            else:
                return None
        return None

    def go(self, u, env, ops, facts, seen, _):
        while True:
            self.steps += 1
            if self.steps > 200000 or len(self.paths) > CAP:
                self.cut = True
                return
            if u in seen:
                self.cut = True
                return
            seen = seen | {u}
            n = self.g.nodes[u]
            op = n.op
            if op in ('throw', 'ehexit', 'terminate'):
                return
            if op == 'exit':
                p = Path()
                p.ops, p.facts = ops, facts
                p.set = env.get('#set', frozenset())
                self.paths.append(p)
                return
            if op in ('wr', 'bind', 'bindref') and n.p is not None:
                v = self.res(n.v, env)
                env, ops = self.store(norm(n.p), n.p, v, env, ops)
            elif op == 'ret' and n.ctx.parent is not None and n.ctx.dst is not None:
                env = dict(env)
                env[norm(n.ctx.dst)] = self.res(n.v, env) if n.v is not None else None
            elif op in ('call', 'enter'):
                env, ops = self.call(n, env, ops)
            elif op == 'br' and len(n.s) == 2:
                c, pol = n.c, True
                while isinstance(c, tuple) and c and c[0] == 'not':
                    c, pol = c[1], not pol
                r = self.res(c, env) if not (isinstance(c, tuple) and c and c[0] == 'bin') else None
                if isinstance(r, tuple) and r[0] == 'case':
                    e = r[1:]
                    if not pol:
                        e = (e[0], e[1], not e[2])
                        pol = True
                elif isinstance(r, tuple) and r[0] == 'there':
                    k = ('there', r[1])
                    for s, tv in zip(n.s, (True, False)):
                        if facts.get(k, tv == pol) == (tv == pol):
                            self.go(s, env, ops, dict(facts, **{}) | {k: tv == pol}, seen, ())
                    return
                else:
                    e = self.case(c, env)
                if e:
                    k, val, eq = e
                    for s, tv in zip(n.s, (True, False)):
                        hit = (tv == pol) == eq
                        have = facts.get(k)
                        if hit and have in (None, val) and val not in facts.get(('not', k), ()):
                            self.go(s, env, ops, facts | {k: val}, seen, ())
                        elif not hit and have != val:
                            self.go(s, env, ops, facts | {('not', k): facts.get(('not', k), frozenset()) | {val}}, seen, ())
                    return
                for s in n.s:
                    self.go(s, env, ops, facts | {('unknown', u): s}, seen, ())
                return
            elif op == 'switch':
                k = self.key(n.c, env)
                cs = [(x[0] if isinstance(x, list) else None) for x in n.raw.get('cases') or []]
                named = {c for c in cs if c is not None}
                for s, c in zip(n.s, cs):
                    if k is None:
                        self.go(s, env, ops, facts | {('unknown', u): s}, seen, ())
                    elif c is not None and facts.get(k) in (None, c):
                        self.go(s, env, ops, facts | {k: c}, seen, ())
                    elif c is None and facts.get(k) not in named:
                        self.go(s, env, ops, facts | {('not', k): frozenset(named)}, seen, ())
                return
            if not n.s:
                return
            if len(n.s) > 1:
                for s in n.s[1:]:
                    self.go(s, env, ops, facts, seen, ())
            u = n.s[0]

    def key(self, c, env):
        """what decides: a field that is written under a name, or what was read from it"""
        return self.keyof(self.res(c, env))

    def keyof(self, r):
        if isinstance(r, tuple) and r[0] == 'read':
            return ('name', r[1])
        if isinstance(r, tuple) and r[0] == 'this' and len(r) > 1:
            if r[-1] == '_enumVal':
                r = r[:-1]
            return ('field', r)
        return None

    def case(self, c, env):
        if isinstance(c, tuple) and len(c) == 4 and c[0] == 'bin' and c[1] in ('==', '!='):
            for a, b in ((c[2], c[3]), (c[3], c[2])):
                if isinstance(b, tuple) and b[:1] in (('enum',), ('lit',)):
                    k = self.key(a, env)
                    if k:
                        return k, b[-1], c[1] == '=='
        return None

    def store(self, k, p, v, env, ops):
        env = dict(env)
        env[k] = v
        tgt = self.res(p, {}) if isinstance(p, tuple) and p and p[0] == 'fld' else None
        if isinstance(p, tuple) and p and p[0] == 'deref' and p[1] == ('this',):
            env['#set'] = env.get('#set', frozenset()) | {('*', len(ops), None)}
        if isinstance(tgt, tuple) and tgt[0] == 'this':
            env['#set'] = env.get('#set', frozenset()) | {(tgt, len(ops), v if isinstance(v, tuple) and v[0] == 'const' else None)}
            w = v
            how = None
            if isinstance(w, tuple) and w[0] == 'scaled':
                how, w = w[2:], w[1]
            if isinstance(w, tuple) and w[0] == 'read':
                ops = [o[:2] + (tgt, how) + o[4:] if o[1] == w[1] and (o[2] is None or o[2] == ('local',)) else o for o in ops]
        return env, ops

    def call(self, n, env, ops):
        cls, b = strip_targs(n.cls or ''), n.base
        args = list(n.args or ())
        if cls == 'std::basic_string' and n.raw.get('k') == 'ctor' and n.obj is not None:
            env = dict(env)
            env[norm(n.obj)] = self.res(args[0], env) if args else None
            return env, ops
        if cls in STREAMS and b in ('Serialize', 'Deserialize') and 1 <= len(args) <= 3:
            kind = STREAMS[cls]
            nm = self.res(args[0], env) if len(args) > 1 else ('str', '')
            name = nm[1] if isinstance(nm, tuple) and nm[0] == 'str' else None
            v = args[-1] if len(args) < 3 else args[1]
            pl = self.res(v, env)
            how = None
            if isinstance(pl, tuple) and pl[0] == 'scaled':
                how, pl = pl[2:], pl[1]
            opt = 'optional' in (n.raw.get('fn') or '')
            if kind == 'r' and not (isinstance(pl, tuple) and pl[0] == 'this'):
                pl = ('local',)
                env = dict(env)
                env[norm(v)] = ('read', name)
            elif not (isinstance(pl, tuple) and pl[0] == 'this' and len(pl) > 1):
                pl = None
            env = dict(env)
            if n.dst is not None:
                env[norm(n.dst)] = None
            return env, ops + [(kind, name, pl, how, arg_type(n), opt or len(args) == 3, n.line() or 0)]
        if b in ('Serialize', 'Deserialize', 'SerializeAsValue', 'DeserializeAsValue') and args and isinstance(args[-1], tuple):
            pl = self.res(n.obj, env) if n.obj is not None else None
            return env, ops + [('w' if b.startswith('S') else 'r', '*', None, None, None, False, n.line() or 0)]
        if n.op == 'call' and any(isinstance(a, tuple) and a and a[0] in ('par', 'rpar') and a[1] == 0 for a in [norm(x) for x in args + ([n.obj] if n.obj is not None else [])] if isinstance(a, tuple)) and self.f.params[0].get('n') in str(args) + str(n.obj):
            # the stream is handed to something that is not looked at
            ops = ops + [('?', None, None, None, None, False, n.line() or 0)]
        env = dict(env)
        o = self.res(n.obj, env) if n.obj is not None else None
        if n.dst is not None:
            d = None
            if b in ('operator*', 'operator->', 'get', 'Ref', 'Get', 'release', 'val') and not args or b in ('move', 'forward') and len(args) == 1 and n.obj is None:
                d = o if n.obj is not None else self.res(args[0], env)
            elif b in ('operator==', 'operator!=') and len(args) + (n.obj is not None) == 2:
                xs = ([o] if n.obj is not None else []) + [self.res(a, env) for a in args]
                for x, y in (xs, xs[::-1]):
                    if isinstance(y, tuple) and y[0] == 'const' and self.keyof(x):
                        d = ('case', self.keyof(x), y[1], b == 'operator==')
            elif b in ('operator bool', 'is_initialized') and isinstance(o, tuple) and o[0] == 'read':
                d = ('there', o[1])
            env[norm(n.dst)] = d
        if n.obj is not None and o == ('this',) and not n.raw.get('const') and n.op == 'call':
            env['#set'] = env.get('#set', frozenset()) | {('*', len(ops), None)}
        if b == 'operator=' and n.obj is not None and len(args) == 1:
            env, ops = self.store(norm(n.obj), n.obj, self.res(args[0], env), env, ops)
        elif n.raw.get('k') == 'ctor' and n.obj is not None:
            env[norm(n.obj)] = self.res(args[0], env) if len(args) == 1 else None
        elif n.obj is not None or any(isinstance(self.res(a, env), tuple) and self.res(a, env)[0] == 'read' for a in args):
            # handed to something else: where it ends up is not known
            for a in args:
                r = self.res(a, env)
                if isinstance(r, tuple) and r[0] == 'read':
                    ops = [x[:2] + (None,) + x[3:] if x[1] == r[1] and x[2] == ('local',) else x for x in ops]
        return env, ops


def say(p):
    return '.'.join(p[1:]) if p else '?'


def pairs(P):
    """(class, writer, reader) for every class that does both"""
    by = {}
    for f in P.fns.values():
        if f.base in ('Serialize', 'Deserialize') and f.cls and relfile(f.file).startswith('stingraykit/') and len(f.params) == 1 and f.params[0].get('rec') in STREAMS:
            by.setdefault(f.n.rsplit('::', 1)[0], {})[f.base] = f
    for c in sorted(by):
        if len(by[c]) == 2:
            yield c, by[c]['Serialize'], by[c]['Deserialize']


def compatible(w, r):
    """may the reader be on this path when the writer was on that one"""
    names = {o[1]: o for o in w.ops}
    for k, v in r.facts.items():
        if k[0] == 'there' and v is False and k[1] in names and not names[k[1]][5]:
            return False
        if k[0] == 'there' and v is True and k[1] not in names:
            return False
        if k[0] == 'name' and k[1] in names:
            f = names[k[1]][2]
            if w.facts.get(('field', f), v) != v or v in w.facts.get(('not', ('field', f)), ()):
                return False
        if k[0] == 'not' and k[1][0] == 'name' and k[1][1] in names:
            f = names[k[1][1]][2]
            if w.facts.get(('field', f)) in v and w.facts.get(('field', f)) is not None:
                return False
    return True


def mismatch(w, r):
    """what is lost or comes back elsewhere when r reads what w wrote"""
    out = []
    wn, rn = {}, {}
    for o in w.ops:
        if o[1] in wn and o[1] != '*':
            out.append(('twice', 'two things are written under "%s"' % o[1]))
        wn[o[1]] = o
    for o in r.ops:
        if o[1] in rn and o[1] != '*' and rn[o[1]][2] != o[2]:
            out.append(('again', '"%s" is read into two places' % o[1]))
        rn[o[1]] = o
    for k in wn:
        if k not in rn:
            out.append(('unread', '%s is written and never read' % ('"%s"' % k if k != '*' else 'the object within')))
    for k in rn:
        if k not in wn and not rn[k][5]:
            out.append(('unwritten', '%s is read though it was not written' % ('"%s"' % k if k != '*' else 'the object within')))
    for k in wn:
        if k in rn and k != '*':
            a, b = wn[k], rn[k]
            if a[2] and b[2] and a[2][0] == 'this' and b[2][0] == 'this' and a[2] != b[2]:
                out.append(('place', '"%s" is written from %s and read into %s' % (k, say(a[2]), say(b[2]))))
            elif b[2] == ('local',) and a[2]:
                i = r.ops.index(b)
                if not any(t == '*' or t[:len(a[2])] == a[2] or a[2][:len(t)] == t for t, at, c in r.set if at > i or c is not None and c[1] == r.facts.get(('name', k))):
                    out.append(('dropped', 'what is read from "%s" goes nowhere, where %s was written' % (k, say(a[2]))))
            if a[2] and a[3] and a[3][0] in '/%' and a[3][1] not in (1, -1):
                out.append(('lossy', '"%s" is %s %s %s: the rest is lost' % (k, say(a[2]), a[3][0], a[3][1])))
            elif a[2] and b[2] and b[2][0] == 'this' and (a[3] is None) != (b[3] is None):
                x = a[3] or b[3]
                out.append(('scaled', '"%s" is %s %s %s and not back' % (k, 'written' if a[3] else 'stored', x[0], x[1])))
            if a[4] and b[4] and a[4] != b[4]:
                out.append(('type', '"%s" is written as %s and read as %s' % (k, '%s of %d bytes' % ({'i': 'an integer', 'f': 'a floating-point number'}[a[4][0]], a[4][1]), '%s of %d bytes' % ({'i': 'an integer', 'f': 'a floating-point number'}[b[4][0]], b[4][1]))))
    return out


def tup(v):
    return tuple(tup(x) for x in v) if isinstance(v, (list, tuple)) else v


def literals(f):
    """names that are written or read here"""
    txt, out = {}, set()
    for n in f.nodes:
        if n.get('op') == 'call' and n.get('k') == 'ctor' and strip_targs(n.get('cls') or '') == 'std::basic_string' and n.get('args') and n['args'][0][0] == 'str':
            txt[tup(n.get('obj'))] = n['args'][0][1]
    for n in f.nodes:
        if n.get('op') == 'call' and strip_targs(n.get('cls') or '') in STREAMS and n['n'].rsplit('::', 1)[-1] in ('Serialize', 'Deserialize') and len(n.get('args') or ()) > 1:
            t = txt.get(tup(n['args'][0]))
            if t is None:
                return set()
            out.add(t)
    return out


def streams(P):
    """what the streams themselves write for one kind of value, and read"""
    by = {}
    for f in P.fns.values():
        if not relfile(f.file).startswith('stingraykit/serialization/'):
            continue
        if f.scls in STREAMS and f.base in ('serialize', 'deserialize') and f.params:
            rec = f.n.split('(')[0] + '|' + re.sub(r'\bconst\b|[ &]', '', f.params[0].get('t') or '')
            by.setdefault(rec.split('|')[1], {}).setdefault(f.base, f)
        elif f.base == 'operator()' and f.scls.endswith(('VariantSerializeVisitor', 'VariantDeserializeVisitor')) and f.params and f.params[0].get('rec') != 'stingray::EmptyType':
            by.setdefault('alternative ' + re.sub(r'\bconst\b|[ &]', '', f.params[0].get('t') or ''), {})['deserialize' if 'Deserialize' in f.scls else 'serialize'] = f
    for k in sorted(by):
        if len(by[k]) == 2:
            yield k, by[k]['serialize'], by[k]['deserialize']
