"""Comparisons as functions of the signs of their parts: every path of a comparison is a set of signs the keys may have and a result."""
import itertools, re
from engine import *
from locks import *
from absx import Abs, norm, bare_cast, PATH
from count import Counting, conditions

S = 'stingray::'
X = ('X',)
REL = {'operator<': '<', 'operator>': '>', 'operator<=': '<=', 'operator>=': '>=', 'operator==': '==', 'operator!=': '!='}
LEAF = set(REL) | {'Compare', 'DoCompare', 'DoCompareImpl', 'operator()', 'CompareTo', 'Equals', 'compare', 'strcmp', 'strncmp', 'memcmp', 'Do'}
TESTS = {'<': {-1}, '>': {1}, '<=': {-1, 0}, '>=': {0, 1}, '==': {0}, '!=': {-1, 1}}
KINDS = ('Less', 'Greater', 'RelationalEquals', 'Equals', 'Cmp')
STEPS = 2         # elements of a range that are looked at one by one
ORD, ALL = ('ord',), frozenset((-1, 0, 1))
MANY = 4096


def kind_of(cls):
    """what a comparer's class says its answer means"""
    c = strip_targs(cls or '').split('::')[-1].split('To')[-1]
    if (cls or '').startswith('std::less') and not (cls or '').startswith('std::less_equal'):
        return '<'
    if (cls or '').startswith('std::equal_to'):
        return '=='
    for k, v in (('Less', '<'), ('Greater', '>'), ('RelationalEquals', None), ('Equals', '=='), ('Cmp', 'cmp'), ('MemberListComparer', 'cmp')):
        if c.startswith(k):
            return v
    return None


def neg(s):
    return frozenset(-x for x in s)


class Cmp(Abs):
    heads = ()
    split = Counting.split

    def __init__(self, g, A, B):
        Abs.__init__(self, g, 20000)
        self.A, self.B = A, B
        self.loops = bool(Counting.loop_heads(self))
        self.cut = False

    def arrive(self, i, u, env):
        return [env]

    def run(self, init):
        return Counting.once(self, init)

    # -- keys
    def side(self, p):
        """path -> (side, key)"""
        if p == self.A:
            return ('A', X)
        if p == self.B:
            return ('B', X)
        if isinstance(p, tuple) and p and p[0] in ('fld', 'deref', 'idx') and len(p) > 1:
            s = self.side(p[1])
            if s:
                return (s[0], (p[0], s[1]) + tuple(p[2:]))
        return None

    def read(self, p, u, env):
        s = self.side(p)
        return ('v', ('K',) + s) if s else None

    def get(self, p, u, env):
        p = norm(p)
        if p in env:
            return env[p]
        r = self.read(p, u, env)
        if r is not None:
            return r
        if isinstance(p, tuple) and p and p[0] in ('fld', 'deref', 'idx') and len(p) > 1:
            v = self.get(p[1], u, env)
            k = self.k(v)
            if k:
                return ('v', ('K', k[0], (p[0], k[1]) + tuple(p[2:])))
        return Abs.get(self, p, u, env)

    @staticmethod
    def k(v):
        return v[1][1:] if isinstance(v, tuple) and v and v[0] == 'v' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'K' else None

    @staticmethod
    def s(v):
        return v[1][1:] if isinstance(v, tuple) and v and v[0] == 'v' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'S' else None

    def app(self, name, vs, u, env):
        """a value made of one side's parts alone"""
        sides, parts = set(), []
        for a in vs:
            v = self.ev(a, u, env)
            k = self.k(v)
            if k:
                sides.add(k[0])
                parts.append(k[1])
            elif v is None or isinstance(v, tuple) and v[0] in ('c',) or self.s(v):
                w = norm(a)
                if isinstance(w, tuple) and w and w[0] in ('this', 'gvar', 'rpar', 'fld', 'field'):
                    parts.append(w)
                else:
                    return None
            else:
                parts.append(v)
        return ('v', ('K', sides.pop(), ('app', name) + tuple(parts))) if len(sides) == 1 else None

    def ev(self, v, u, env):
        w = bare_cast(v)
        if isinstance(w, tuple) and w:
            if w[0] == 'un' and w[1] == '-':
                x = self.ev(w[2], u, env)
                if self.s(x):
                    return ('v', ('S', self.s(x)[0], -self.s(x)[1]))
                if isinstance(x, tuple) and x[0] == 'n':
                    return ('n', -x[1])
                return self.app('-', [w[2]], u, env)
            if w[0] == 'addr':
                r = self.app('addr', [w[1]], u, env)
                if r:
                    return r
            if w[0] == 'bin' and w[1] in ('+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>'):
                r = Abs.ev(self, w, u, env)
                q = self.pair(w[2], w[3], u, env) if r is None and w[1] == '-' else None
                if q:
                    return ('v', ('S',) + q)
                return r if r is not None else self.app(w[1], [w[2], w[3]], u, env)
        return Abs.ev(self, v, u, env)

    # -- conditions
    def pair(self, a, b, u, env):
        """-> (key, orientation) when a and b are the same part of both sides"""
        x, y = self.k(self.ev(a, u, env)), self.k(self.ev(b, u, env))
        if x and y and x[0] != y[0] and x[1] == y[1]:
            return x[1], 1 if x[0] == 'A' else -1
        return None

    def sg(self, key, signs, o, pol=True):
        if key[:2] == ('app', 'addr') and signs in (frozenset((0,)), frozenset((-1, 1))):
            return ('c', ('same',), None, pol == (0 in signs)) if key == ('app', 'addr', X) else None
        return ('c', ('sg', key, signs if o > 0 else neg(signs)), None, pol)

    def test(self, op, a, b, u, env):
        va, vb = self.ev(a, u, env), self.ev(b, u, env)
        q = self.pair(a, b, u, env)
        if q:
            return self.sg(q[0], frozenset(TESTS[op]), q[1])
        flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}
        for x, y, o in ((va, vb, op), (vb, va, flip.get(op, op))):
            if self.s(x) and isinstance(y, tuple) and y == ('n', 0):
                return self.sg(self.s(x)[0], frozenset(TESTS[o]), self.s(x)[1])
            if isinstance(x, tuple) and x[0] == 'n' and isinstance(y, tuple) and y[0] == 'n' and op not in ('==', '!='):
                x, y = va[1], vb[1]
                return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
        return None

    def compare(self, a, b, pol, u, env):
        c = self.test('==', a, b, u, env)
        if c is None:
            x, y = self.ev(a, u, env), self.ev(b, u, env)
            if self.k(x) and self.k(y) and x == y:
                return None
            return Abs.compare(self, a, b, pol, u, env)
        t = self.truth(c, env)
        return t == pol if t is not None else c if pol else self.neg(c, env)

    def order(self, op, a, b, u, env):
        return self.test(op, a, b, u, env)

    def cond(self, c, u, env):
        r = self.ev(c, u, env)
        if self.s(r):
            r = self.sg(self.s(r)[0], frozenset((-1, 1)), 1)
            t = self.truth(r, env)
            return t if t is not None else r
        return Abs.cond(self, c, u, env)

    def truth(self, v, env):
        if isinstance(v, tuple) and v and v[0] == 'c' and isinstance(v[1], tuple) and v[1]:
            r = None
            if v[1][0] == 'sg':
                have = env.get(('sg', v[1][1]), ALL)
                r = True if have <= v[1][2] else False if not have & v[1][2] else None
            elif v[1] == ('same',) or v[1][0] == 'truth':
                r = env.get(v[1])
            return r == v[3] if r is not None else None
        if self.s(v):
            have = env.get(('sg', self.s(v)[0]), ALL)
            return False if have == {0} else True if 0 not in have else None
        return Abs.truth(self, v, env)

    def known(self, c):
        return c is True or c is False or isinstance(c, tuple) and c[0] == 'c' and isinstance(c[1], tuple) and c[1] and (c[1][0] == 'sg' or c[1] == ('same',) or c[1][0] == 'truth' and isinstance(c[1][1], tuple) and c[1][1][0] == 'K')

    def took(self, n, tv, u, env):
        return u if self.known(self.cond(n.c, u, env)) else '?'

    def refine(self, c, tv, env):
        if self.known(c) and isinstance(c, tuple):
            p = c[1]
            tv = tv == c[3]
            e = dict(env)
            if p[0] == 'sg':
                have = env.get(('sg', p[1]), ALL)
                have = have & p[2] if tv else have - p[2]
                if not have:
                    return None
                e[('sg', p[1])] = have
                self.note(e, p[1])
            else:
                e[p] = tv
                if p[0] == 'truth':
                    self.note(e, ('truth', p[1][2]))
            return e
        return Abs.refine(self, c, tv, env)

    @staticmethod
    def note(e, key):
        o = e.get(ORD, ())
        if key not in o:
            e[ORD] = o + (key,)

    # -- calls
    def effect(self, n, u, env):
        r = self.leaf(n, u, env)
        if r is not None:
            out = []
            for val, e in r:
                if n.dst is not None:
                    e = self.put(e, n.dst, val)
                out.append((u, e))
            return out
        return Abs.effect(self, n, u, env)

    def leaf(self, n, u, env):
        b, cls = n.base, n.cls or ''
        vs = ([n.obj] if n.obj is not None else []) + list(n.args or ())
        if n.raw.get('k') == 'ctor':
            return None
        if b in ('CompareMembersLess', 'CompareMembersCmp', 'CompareMembersEquals', 'CompareMembersGreater'):
            ms = []
            for i, a in enumerate(n.args):
                a = bare_cast(a)
                if isinstance(a, tuple) and a and a[0] == 'addr' and isinstance(a[1], tuple) and a[1] and a[1][0] == 'field':
                    ms.append(('fld', X, a[1][1].split('::')[-1]))
                elif isinstance(a, tuple) and a and a[0] == 'memfn':
                    ms.append(('app', str(a[1]).split('::')[-1], X))
                else:
                    v = self.ev(a, u, env)
                    ms.append(v[1] if isinstance(v, tuple) and v[0] == 'v' and isinstance(v[1], tuple) and v[1][0] == 'custom' else ('custom', repr(norm(a))))
            return [(('v', ('CM', {'L': '<', 'C': 'cmp', 'E': '==', 'G': '>'}[b[14]], tuple(ms))), env)]
        ks = [self.k(self.ev(a, u, env)) for a in vs]
        two = [(i, k) for i, k in enumerate(ks) if k]
        sides = {k[0] for _, k in two}
        if not two:
            if b == 'operator()' and n.dst is not None:
                return None
            return None
        if len(sides) == 1:
            if b in ('operator++', 'Next') and n.obj is not None and len(vs) <= 2 and norm(n.obj)[0] in ('par', 'var', 'tmp'):
                k = self.k(self.ev(n.obj, u, env))
                if not k or self.depth(k[1]) >= STEPS:
                    self.cut = True
                    return []
                v = ('v', ('K', k[0], ('next', k[1])))
                return [(v, self.put(env, n.obj, v))]
            if b in ('operator bool', 'is_initialized', 'operator!', 'operator unspecified_bool_type') and len(vs) == 1:
                return None
            if b in ('operator->', 'get', 'Get', 'operator*') and len(vs) == 1:
                return [(('v', ('K', two[0][1][0], ('deref', two[0][1][1]))), env)] if b in ('operator->', 'operator*') or cls in SMART else [(self.app(b, vs, u, env), env)]
            if b in REL or b in LEAF:
                return [(self.app(b, vs, u, env), env)]
            return [(self.app(b, vs, u, env), env)] if n.dst is not None else None
        # both sides
        if b in ('min', 'max') and len(vs) == 2 and len(two) == 2 and two[0][1][1] == two[1][1][1]:
            return [(('v', ('sym', b, two[0][1][1])), env)]
        if b in ('equal', 'lexicographical_compare') and len(two) == len(vs) and len(vs) in (3, 4):
            a = [k for k in ks if k[0] == ks[0][0]]
            c = [k for k in ks if k[0] != ks[0][0]]
            if [k[1] for k in a][:len(c)] == [k[1] for k in c] and len(a) == 2:
                key = ('rng',) + tuple(k[1] for k in a) + (('first',) if len(vs) == 3 else ())
                o = 1 if ks[0][0] == 'A' else -1
                return [(self.sg(key, frozenset((0,)) if b == 'equal' else frozenset((-1,)), o), env)]
        if len(two) >= 2 and two[0][1][1] == two[1][1][1] and two[0][1][0] != two[1][1][0]:
            key, o = two[0][1][1], 1 if two[0][1][0] == 'A' else -1
            cm = self.ev(n.obj, u, env) if n.obj is not None else None
            if isinstance(cm, tuple) and cm[0] == 'v' and isinstance(cm[1], tuple) and cm[1][0] == 'CM':
                return self.members(cm[1][1], [self.sub(m, key) for m in cm[1][2]], o, env)
            if len(two) == 2 or b in ('strncmp', 'memcmp') and len(two) == 3:
                rest = tuple(norm(a) for i, a in enumerate(vs) if i not in (two[0][0], two[1][0]) and not (isinstance(a, tuple) and a and a[0] == 'lit') and not (i == 0 and n.obj is not None and n.cls and kind_of(n.cls)))
                if b == 'before' and len(vs) == 2:
                    return [(self.sg(key, frozenset((-1,)), o), env)]
                if b == 'ApplyVisitor' and len(vs) == 2:
                    kd = [w for w, x in (('==', 'equal_to'), ('<', '4less')) if x in (n.raw.get('fn') or '')]
                    return [(self.sg(('visit', key), frozenset(TESTS[kd[0]]), o), env)] if len(kd) == 1 else None
                if b in REL and len(vs) == 2:
                    return [(self.sg(key, frozenset(TESTS[REL[b]]), o), env)]
                if b in LEAF:
                    if n.obj is not None and len(vs) > 2 and rest and rest[0] == norm(n.obj):
                        rest = rest[1:]
                    if rest:
                        key = ('rest', key) + rest
                    if n.raw.get('bool'):
                        kd = '==' if b == 'Equals' else kind_of(n.cls)
                        if kd in TESTS:
                            return [(self.sg(key, frozenset(TESTS[kd]), o), env)]
                        return None
                    return [(('v', ('S', key, o)), env)]
        return None

    @staticmethod
    def depth(k):
        n = 0
        while isinstance(k, tuple) and k and k[0] == 'next':
            n, k = n + 1, k[1]
        return n

    @staticmethod
    def sub(m, key):
        def f(t):
            return key if t == X else tuple(f(y) if isinstance(y, tuple) else y for y in t) if isinstance(t, tuple) else t
        return f(m)

    def members(self, kind, keys, o, env):
        out, e = [], env
        for k in keys + [None]:
            for s in ((-1, 1) if k is not None else (0,)):
                e2 = e
                if k is not None:
                    e2 = self.refine(('c', ('sg', k, frozenset((s,))), None, True), True, e)
                if e2 is not None:
                    out.append((('n', s * o) if kind == 'cmp' else s * o in TESTS[kind], e2))
            if k is not None:
                e = self.refine(('c', ('sg', k, frozenset((0,))), None, True), True, e)
                if e is None:
                    break
        return out

    # -- results
    def results(self):
        """-> [(order, {key: signs}, {(side, key): truth}, same, result set)]"""
        out = []
        for u, ret, et in self.exits:
            env = self.envs[et]
            todo = [(ret, env)]
            while todo:
                r, e = todo.pop()
                if isinstance(r, tuple) and r and r[0] == 'c' and self.known(r):
                    t = self.truth(r, e)
                    for tv in (True, False) if t is None else (t,):
                        e2 = self.refine(r, tv, e)
                        if e2 is not None:
                            todo.append((tv, e2))
                    continue
                if self.k(r) and self.truth(r, e) is None:
                    for tv in (True, False):
                        todo.append((tv, self.refine(('c', ('truth', r[1]), None, True), tv, e)))
                    continue
                if self.s(r):
                    k, o = self.s(r)
                    for x in sorted(e.get(('sg', k), ALL)):
                        e2 = self.refine(('c', ('sg', k, frozenset((x,))), None, True), True, e)
                        if e2 is not None:
                            todo.append((('n', x * o), e2))
                    continue
                if isinstance(r, tuple) and r and r[0] == 'n' and isinstance(r[1], int):
                    r = (r[1] > 0) - (r[1] < 0)
                elif r is not True and r is not False:
                    r = None
                out.append((u, r, e.get(ORD, ()), {k[1]: v for k, v in e.items() if k[0] == 'sg'}, {k[1][1:]: v for k, v in e.items() if k[0] == 'truth' and isinstance(k[1], tuple) and k[1][0] == 'K'}, e.get(('same',))))
        return out


def say(k):
    if k == X:
        return 'the whole'
    if k[0] == 'fld':
        return (say(k[1]) + '.' if k[1] != X else '') + str(k[2])
    if k[0] == 'truth':
        return 'whether there is %s' % say(k[1])
    if k[0] == 'next':
        return 'the one after %s' % say(k[1])
    if k[0] == 'deref':
        return '*' + say(k[1])
    if k[0] == 'app':
        return '%s(%s)' % (k[1], ', '.join(say(x) for x in k[2:] if isinstance(x, tuple) and x and isinstance(x[0], str)))
    if k[0] == 'visit':
        return 'the value held'
    if k[0] == 'rng':
        return 'the elements'
    return str(k)[:60]


def plain(k):
    return k[0] == 'fld' and plain(k[1]) or k == X


def inside(k, p):
    return k == p or isinstance(k, tuple) and any(inside(x, p) for x in k if isinstance(x, tuple))


class Judge(object):
    def __init__(self, kind, paths):
        self.kind = kind
        self.errors = []
        self.surely = []
        truths = {t for p in paths if p[0] == 'ok' and p[1] is not None for t in p[4]}
        self.keys = set()
        self.orient = {}
        self.order = None
        self.sure = all(p[0] == 'ok' and p[1] is not None for p in paths)
        paths = [p for p in paths if p[0] == 'ok' and p[1] is not None]
        self.paths = len(paths)
        for p in paths:
            self.keys |= set(p[2])
        self.rows = []
        for _, res, order, sg, tr, same in paths:
            if same:
                self.rows.append((order, None, res, {}))
                continue
            tks = sorted({k for _, k in tr}, key=repr)
            axes = [[(k, s, None) for s in sorted(sg[k])] for k in sg]
            for k in tks:
                axes.append([(('truth', k), a - b, (a, b)) for a in (0, 1) for b in (0, 1) if tr.get(('A', k), a) == a and tr.get(('B', k), b) == b])
            if len(axes) and self.size(axes) > MANY:
                self.sure = False
                continue
            for combo in itertools.product(*axes):
                self.rows.append((order, {k: s for k, s, _ in combo}, res, {k: ab for k, _, ab in combo if ab}))
        # a pointer whose target is compared too: different pointers say nothing
        self.via = {k for k in self.keys if plain(k) and k != X and any(q != k and q[0] != 'truth' and inside(q[1] if q[0] == 'rng' else q, k) and not plain(q) for q in self.keys)}
        if self.sure:
            for order, a, res, tr in self.rows:
                if a and self.via and all(k in self.via and v == 0 for k, v in a.items()) and 0 in self.means(res):
                    for k in sorted(self.keys, key=repr):
                        if k[:2] == ('fld', X) and len(k) == 3 and k not in self.via and k not in a:
                            self.surely.append(('unseen', 'two with the same %s are said to be alike without a look at %s' % (say(sorted(a, key=repr)[0]), say(k))))
            for k in sorted(self.keys, key=repr):
                if k[0] == 'app' and k[1] in ('get_value_or', 'value_or') and len(k) == 4 and plain(k[2]) and k[2] != X and k[2] not in self.keys and not any(t[1] == k[2] for t in truths) and isinstance(k[3], tuple) and k[3][:1] == ('n',):
                    self.surely.append(('absent', '%s that is absent is taken to be like one that is %s' % (say(k[2]), k[3][1])))
        if self.via and kind not in ('==', '!='):
            self.sure = False
        self.equality() if kind in ('==', '!=') else self.ordering()

    @staticmethod
    def size(axes):
        n = 1
        for a in axes:
            n *= len(a)
        return n

    def means(self, res):
        """signs the whole may have when the answer is res"""
        if self.kind == 'cmp':
            return {res if res is not True and res is not False else int(res)}
        return TESTS[self.kind] if res is True or res == 1 else set(ALL) - TESTS[self.kind]

    def gone(self, key, tr):
        """the part does not exist in either: the pointer to it is null"""
        return any(k[0] == 'truth' and (ab[0] == 0 or ab[1] == 0) and inside(key, k[1]) for k, ab in tr.items())

    def equality(self):
        for order, a, res, tr in self.rows:
            eq = 0 in self.means(res)
            if a is None:
                if not eq:
                    self.errors.append(('same', 'an object differs from itself'))
                continue
            if X in a:
                if eq != (a[X] == 0):
                    self.errors.append(('whole', 'the answer is not the one the comparison it asks gives'))
                continue
            # where other parts differ and the comparison as a whole is asked, a length of one part says nothing
            if not eq:
                sz = [q for q in a if a[q] != 0 and q[:2] in (('app', 'size'), ('app', 'length')) and len(q) == 3]
                other = {k for k in a if a[k] != 0 and k not in sz}
                if sz and other and order and order[-1] in sz and any(X in (o2 or ()) and a2 is not None and other <= {k for k in a2 if a2[k] != 0} and all(a2.get(q, 1) == 0 for q in sz) and r2 != res for o2, a2, r2, _ in self.rows):
                    self.errors.append(('length', 'two that differ in %s are said to differ when %s is not as long, where otherwise the comparison of the whole is asked' % (', '.join(sorted(say(k) for k in other)), say(sz[0][2]))))
            for k in a:
                # as many elements as this side has, whatever the other has
                if k[0] == 'rng' and len(k) == 4 and eq and a[k] == 0 and k[2][:3] == ('app', '+', k[1]) and len(k[2]) == 4 and isinstance(k[2][3], tuple) and inside(k[2][3], X) and a.get(k[2][3]) is None and not any(inside(q, k[2][3]) for q in a if q != k):
                    self.errors.append(('length', 'two are said to be equal when the first elements are, whatever %s is' % say(k[2][3])))
            diff = [k for k in a if a[k] != 0 and k not in self.via and (plain(k) or k[0] in ('rng', 'truth', 'deref') or k[0] == 'app' and k[1] != 'addr')]
            if diff and eq:
                self.errors.append(('equal', 'two that differ in %s are said to be equal' % say(diff[0])))
            if a and not diff and not eq and all(v == 0 for v in a.values()):
                missing = [k for k in self.keys if k not in a]
                if not missing or not any(True for _ in missing):
                    self.errors.append(('differ', 'two that are alike in %s are said to differ' % ', '.join(sorted(say(k) for k in a))))
                elif all(plain(k) for k in missing):
                    self.errors.append(('differ', 'two that are alike in %s are said to differ without a look at %s' % (', '.join(sorted(say(k) for k in a)), ', '.join(sorted(say(k) for k in missing)))))
            if eq and a and not diff:
                for q in a:
                    if q[:2] in (('app', 'size'), ('app', 'length')) and len(q) == 3 and not any(p != q and (p == X or inside(p, q[2]) and p[:2] not in (('app', 'size'), ('app', 'length'))) for p in a):
                        self.errors.append(('size', 'two are said to be equal when %s is as long' % say(q[2])))
            if eq and not diff:
                for k in self.keys:
                    if k not in a and plain(k) and k != X and not any(q[0] == 'app' and inside(q, X) and q[1:2] == ('addr',) for q in a) and X not in a and not any(inside(k, q) or inside(q, k) for q in a):
                        self.errors.append(('unseen', 'two are said to be equal without a look at %s' % say(k)))

    def ordering(self):
        zero = [(o, a, r, tr) for o, a, r, tr in self.rows if a is not None and all(v == 0 for v in a.values())]
        orders = sorted({o for o, a, r, tr in zero if all(k in a for k in o)}, key=len)
        if not orders:
            return
        O = orders[-1]
        if any(o != O[:len(o)] for o in orders):
            self.sure = False
            return
        self.order = O
        for o, a, r, tr in self.rows:
            if a is None:
                if 0 not in self.means(r):
                    self.errors.append(('same', 'an object is ordered before or after itself'))
        answers = {}
        for o, a, r, tr in self.rows:
            if a is None:
                continue
            seen = False
            for i, k in enumerate(O):
                if k not in a:
                    if self.gone(k, tr):
                        continue
                    seen = True
                    if plain(k) and k != X and not any(q not in O or inside(k, q) or inside(q, k) for q in a):
                        # the answer has to be the same for every sign of k
                        if self.means(r) != set(ALL) and any(a.get(q) for q in O[i + 1:]):
                            self.errors.append(('skips', 'an answer is given from %s before %s was looked at' % (', '.join(say(q) for q in O[i + 1:] if a.get(q)), say(k))))
                        elif 0 not in self.means(r) or self.means(r) == {0}:
                            if not any(q not in O for q in a):
                                self.errors.append(('early', 'an answer is given before %s was looked at' % say(k)))
                    break
                if a[k] != 0:
                    if not any(q not in O for q in o):
                        answers.setdefault(k, {}).setdefault(a[k], set()).add(frozenset(self.means(r)))
                    seen = True
                    break
            if not seen and not any(q not in O for q in o):
                if 0 not in self.means(r):
                    self.errors.append(('equal', 'two that are alike in %s are ordered one before the other' % ', '.join(say(q) for q in O if q in a)))
        for k, m in answers.items():
            fits = []
            for w in (1, -1):
                if all(s * w in x for s, xs in m.items() for x in xs):
                    fits.append(w)
            if not fits:
                both = [s for s in m if len(m[s]) > 1]
                if both:
                    self.errors.append(('mixed', 'which comes first does not depend on %s alone where everything before it is alike: what comes later or nothing decides' % say(k)))
                else:
                    self.errors.append(('both', 'when all before is alike, the answer is the same whichever of the two has the greater %s' % say(k)))
            elif len(fits) == 1:
                self.orient[k] = fits[0]


def operands(f):
    """-> (A, B, kind, class of the operands)"""
    ps = f.params

    def path(i):
        return ('rpar', i, ps[i]['n'] or ('#%d' % i))
    ret = f.o.get('ret')
    if f.base in REL:
        if f.cls and len(ps) == 1 and ps[0].get('rec') == f.scls and f.fk != 'ctor' and strip_targs(ps[0]['t']).replace('const ', '').replace(' &', '').strip() == strip_targs(f.scls):
            return ('this',), path(0), REL[f.base], f.scls
        if len(ps) == 2 and ps[0]['t'] == ps[1]['t'] and ps[0].get('rec'):
            return path(0), path(1), REL[f.base], ps[0]['rec']
        return None
    if f.base not in LEAF or ret not in ('int', 'bool'):
        return None
    kind = 'cmp' if ret == 'int' else '==' if f.base == 'Equals' else kind_of(f.scls)
    if kind is None:
        return None
    if len(ps) == 1 and ps[0].get('rec') == f.scls and f.cls:
        return ('this',), path(0), kind, f.scls
    if len(ps) >= 2 and ps[0]['t'] == ps[1]['t'] and f.base in ('Compare', 'DoCompare', 'DoCompareImpl', 'operator()', 'Do', 'Equals') and (ps[0]['n'] and ps[1]['n']):
        return path(0), path(1), kind, ps[0].get('rec') or ps[0]['t']
    return None


def comparisons(P):
    for f in sorted(P.fns.values(), key=lambda f: f.id):
        if not relfile(f.file).startswith('stingraykit/') or f.o.get('defaulted') or f.o.get('implicit') or f.entry is None:
            continue
        o = operands(f)
        if o:
            yield f, o


def graph(P, f):
    rf = relfile(f.file)

    def t(g, n):
        if g.base in LEAF and operands(g) or g.base.startswith('CompareMembers') or not relfile(g.file).startswith('stingraykit/'):
            return False
        if g.fk == 'ctor' and len(g.params) == 1 and g.params[0].get('rec') in (g.scls, f.scls):
            return False
        if g.base == 'ApplyVisitor' or not g.params and g.cls and any(x.get('op') in ('br', 'switch') for x in g.nodes):
            return False
        return relfile(g.file) == rf or bool(g.cls) and g.scls == f.scls or P.snap.is_new(g)
    E = Expander(P, t, models=locky_models)
    E.alias = False
    return E.run(f)


def analyse(P, f, o):
    g = graph(P, f)
    C = Cmp(g, o[0], o[1])
    C.cap = 8000 if C.loops else C.cap
    try:
        C.run([('ok', {})])
    except AnalysisBroken:
        return g, None
    if C.loops and not C.cut:
        return g, None
    return g, Judge(o[2], C.results())
