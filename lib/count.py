"""Exploration with numbers: values are linear forms over the state at the start and over what calls gave back,
branches add facts, and loops are summarised by forms that hold for every number of rounds."""
from collections import deque
from engine import *
from absx import Abs, norm, under, bare_cast, mentions
import lin

DEBUG = 0
FACTS = ('facts',)
NE = ('nonzero',)


class Restart(Exception):
    pass


def numeric(v):
    """value -> form"""
    if isinstance(v, tuple) and v:
        if v[0] == 'n':
            return lin.num(v[1])
        if v[0] == 'v' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'L':
            return (v[1][1], v[1][2])
    if v is False:
        return lin.num(0)
    return None


def value(x):
    c = lin.const(x)
    return ('n', c) if c is not None else ('v', ('L', x[0], x[1]))


def pointer(v):
    """value -> (base, offset form)"""
    if isinstance(v, tuple) and v and v[0] == 'v' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'P':
        return v[1][1], v[1][2]
    return None


def ptr(base, off):
    return ('v', ('P', base, off))


def conditions(v, out):
    if isinstance(v, tuple) and v:
        if v[0] == 'cond' and len(v) == 4:
            out.add(v[1])
        for x in v:
            if isinstance(x, tuple):
                conditions(x, out)


class Counting(Abs):
    signed = ()

    def __init__(self, g, cap=60000):
        Abs.__init__(self, g, cap)
        self.table = {}
        self.first = {}
        self.heads = self.loop_heads()
        self.found = []

    def loop_heads(self):
        g, seen, on, heads = self.g, set(), set(), set()
        st = [(g.entry, iter(g.nodes[g.entry].s))]
        seen.add(g.entry)
        on.add(g.entry)
        while st:
            i, it = st[-1]
            for s in it:
                if s in on:
                    heads.add(s)
                elif s not in seen:
                    seen.add(s)
                    on.add(s)
                    n = g.nodes[s]
                    st.append((s, iter(list(n.s) + ([n.eh] if n.eh is not None else []))))
                    break
            else:
                on.discard(i)
                st.pop()
        return heads

    # -- values
    def facts(self, env):
        return env.get(FACTS, frozenset())

    asked = lin.num(0)

    def holds(self, env, goal):
        self.asked = goal
        return lin.entails(self.facts(env), goal)

    def same(self, env, x, y):
        if x is not None and y is not None:
            self.asked = lin.sub(x, y)
        return x is not None and y is not None and lin.equal(self.facts(env), x, y)

    def nonzero(self, env, x):
        return self.holds(env, lin.add(x, lin.num(-1))) or self.holds(env, lin.add(lin.scale(x, -1), lin.num(-1))) or x in env.get(NE, ()) or lin.scale(x, -1) in env.get(NE, ())

    def assume(self, env, *fs):
        """env with more facts, None when they contradict what is known"""
        t = self.facts(env) | frozenset(f for f in fs if not (lin.const(f) is not None and lin.const(f) >= 0))
        if any(lin.const(f) is not None and lin.const(f) < 0 for f in fs) or not lin.possible(t):
            return None
        if t == self.facts(env):
            return env
        e = dict(env)
        e[FACTS] = t
        return e

    def lf(self, p, u, env):
        return numeric(self.ev(p, u, env))

    def initial(self, p):
        """what the exploration assumes to be at p when it starts"""
        q = p
        while isinstance(q, tuple) and q and q[0] in ('fld', 'deref', 'idx'):
            q = q[1]
        if isinstance(q, tuple) and q and q[0] in ('this', 'rpar', 'gvar'):
            if isinstance(p, tuple) and p[0] == 'rpar' and p[2] in self.signed or p[0] == 'fld' and p[2] in self.signed:
                return value(lin.sym(('s', p)))
            return value(lin.sym(('f0', p)))
        return None

    def read(self, p, u, env):
        return self.initial(p) if isinstance(p, tuple) and p and p[0] in ('fld', 'rpar', 'deref') else None

    def get(self, p, u, env):
        p = norm(p)
        if p in env:
            return env[p]
        return self.read(p, u, env)

    def ev(self, v, u, env):
        w = bare_cast(v)
        if isinstance(w, tuple) and w:
            if w[0] == 'bin' and w[1] in '+-*/%' and len(w[1]) == 1:
                return self.arith(w, u, env)
            if w[0] == 'un' and w[1] == '-':
                x = self.lf(w[2], u, env)
                return value(lin.scale(x, -1)) if x is not None else None
            if w[0] in ('sizeof',) and len(w) > 1 and isinstance(w[1], int):
                return ('n', w[1])
            if w[0] == 'addr':
                return self.address(w, u, env)
        return Abs.ev(self, v, u, env)

    def address(self, w, u, env):
        return Abs.ev(self, w, u, env)

    def arith(self, w, u, env):
        op = w[1]
        a, b = bare_cast(w[2]), bare_cast(w[3])
        pa, pb = pointer(self.ev(a, u, env)), pointer(self.ev(b, u, env))
        if pa or pb:
            if pa and pb:
                return value(lin.sub(pa[1], pb[1])) if op == '-' and pa[0] == pb[0] else None
            if pb and op == '+':
                pa, a, b = pb, b, a
            y = self.lf(b, u, env)
            if pa and y is not None and op in '+-':
                return ptr(pa[0], lin.add(pa[1], y, 1 if op == '+' else -1))
            return None
        if op == '*':
            for q, p in ((a, b), (b, a)):
                if isinstance(q, tuple) and q and q[0] == 'bin' and q[1] == '/':
                    x, k, k2 = self.lf(q[2], u, env), self.lf(q[3], u, env), self.lf(p, u, env)
                    if x is not None and k is not None and k == k2:
                        return value(lin.sym(('fl', x, k)))
        x, y = self.lf(a, u, env), self.lf(b, u, env)
        if x is None or y is None:
            return None
        if op in '+-':
            return value(lin.add(x, y, 1 if op == '+' else -1))
        if op == '*':
            for p, q in ((x, y), (y, x)):
                if lin.const(p) is not None:
                    return value(lin.scale(q, lin.const(p)))
            return None
        if op == '%':
            if lin.const(y) == 1:
                return ('n', 0)
            return value(lin.sym(('mod', x, y)))
        return None

    def truth(self, v, env):
        x = numeric(v)
        if x is not None:
            c = lin.const(x)
            if c is not None:
                return c != 0
            if self.nonzero(env, x):
                return True
            if self.same(env, x, lin.num(0)):
                return False
            return None
        if pointer(v):
            return None
        return Abs.truth(self, v, env)

    def neg(self, r, env):
        x = numeric(r)
        t = self.truth(r, env)
        if t is None and x is not None:
            return ('c', ('cmp', '==', x), None, True)
        return Abs.neg(self, r, env)

    def cond(self, c, u, env):
        r = self.ev(c, u, env)
        t = self.truth(r, env)
        if t is not None:
            return t
        x = numeric(r)
        if x is not None:
            return ('c', ('cmp', '!=', x), None, True)
        return Abs.cond(self, c, u, env)

    def compare(self, a, b, pol, u, env):
        va, vb = self.ev(a, u, env), self.ev(b, u, env)
        x, y = numeric(va), numeric(vb)
        pa, pb = pointer(va), pointer(vb)
        if pa and pb and pa[0] == pb[0]:
            x, y = pa[1], pb[1]
        if x is not None and y is not None:
            d = lin.sub(x, y)
            if self.same(env, d, lin.num(0)):
                return pol
            if self.nonzero(env, d):
                return not pol
            return ('c', ('cmp', '==' if pol else '!=', d), None, True)
        if (x is None) != (y is None) and not (va is True or va is False or vb is True or vb is False):
            return None
        return Abs.compare(self, a, b, pol, u, env)

    def order(self, op, a, b, u, env):
        va, vb = self.ev(a, u, env), self.ev(b, u, env)
        x, y = numeric(va), numeric(vb)
        pa, pb = pointer(va), pointer(vb)
        if pa and pb and pa[0] == pb[0]:
            x, y = pa[1], pb[1]
        if x is None or y is None:
            return None
        if op in ('<', '<='):
            x, y = y, x
        d = lin.sub(x, y)                    # op holds iff d > 0 (or >= 0)
        if op in ('<', '>'):
            d = lin.add(d, lin.num(-1))
        if self.holds(env, d):
            return True
        if self.holds(env, lin.add(lin.scale(d, -1), lin.num(-1))):
            return False
        return ('c', ('cmp', '>=', d), None, True)

    def refine(self, c, tv, env):
        if isinstance(c, tuple) and c[0] == 'c' and isinstance(c[1], tuple) and c[1][0] == 'cmp':
            _, op, d = c[1]
            tv = tv == c[3]
            if op in ('==', '!='):
                if (op == '==') == tv:
                    return self.assume(env, d, lin.scale(d, -1))
                for x in (d, lin.scale(d, -1)):
                    if self.holds(env, x):
                        return self.assume(env, lin.add(x, lin.num(-1)))
                e = dict(env)
                e[NE] = env.get(NE, frozenset()) | {d}
                return e
            return self.assume(env, d) if tv else self.assume(env, lin.add(lin.scale(d, -1), lin.num(-1)))
        return Abs.refine(self, c, tv, env)

    def rmw(self, n, u, env):
        return self.ev(n.v, u, env)

    def fresh(self, env, atom):
        """the symbol gets a new meaning: what was known of it before is about another value"""
        e = None
        old = ('old', atom)
        if any(k not in (FACTS, NE) and mentions(v, atom) for k, v in env.items()) and not any(mentions(v, old) if k not in (FACTS, NE) else any(self.has(f, old) for f in v) for k, v in env.items()):
            def ren(x):
                return old if x == atom else (x[0],) + tuple(again(y) if y is not None else None for y in x[1:3]) if isinstance(x, tuple) and len(x) == 3 and x[0] in ('fl', 'mod') else tuple(ren(y) for y in x) if isinstance(x, tuple) else x

            def again(f):
                return lin.form(dict((ren(a), q) for a, q in f[0]), f[1])
            return {k: frozenset(again(f) if self.has(f, atom) else f for f in v) if k in (FACTS, NE) else (('v', (v[1][0],) + self.reform(v[1], again)) if isinstance(v, tuple) and v[0] == 'v' and isinstance(v[1], tuple) and v[1][0] in ('L', 'P') else ren(v)) if mentions(v, atom) else v
                    for k, v in env.items()}
        for k, v in env.items():
            if k in (FACTS, NE):
                if any(self.has(f, atom) for f in v):
                    e = dict(e or env)
                    e[k] = frozenset(f for f in v if not self.has(f, atom))
            elif mentions(v, atom):
                e = dict(e or env)
                e[k] = ('v', ('lost', k))
        return env if e is None else e

    @staticmethod
    def reform(t, again):
        if t[0] == 'L':
            f = again((t[1], t[2]))
            return f
        return (t[1], again(t[2]))

    @staticmethod
    def has(f, atom):
        return any(a == atom or mentions(a, atom) for a in lin.atoms(f))

    # -- loops
    def shape(self, env):
        return frozenset((k, v) for k, v in env.items() if k not in (FACTS, NE) and k[0] != 'round' and (v is False or numeric(v) is None) and not pointer(v) and k[0] not in ('tmp', 'res') and not self.lost(v) and not (isinstance(v, tuple) and v and v[0] == 'c'))

    @staticmethod
    def lost(v):
        return isinstance(v, tuple) and v[0] == 'v' and isinstance(v[1], tuple) and v[1][0] == 'lost'

    def num_of(self, env, k):
        v = env.get(k)
        if v is False or v is True:
            return None
        if v is None:
            v = self.initial(k) if k[0] in ('fld', 'deref') else self.start(k)
        if v is None:
            return None
        p = pointer(v)
        return (p[0], p[1]) if p else (None, numeric(v)) if numeric(v) is not None else None

    def start(self, k):
        return None

    def keys(self, env):
        return {k for k, v in env.items() if k not in (FACTS, NE) and v is not False and (numeric(v) is not None or pointer(v)) and k[0] not in ('tmp', 'res')}

    def widen(self, hk, i, old, new):
        ks = sorted(self.keys(old) | self.keys(new), key=repr)
        groups = {}
        env = {k: v for k, v in old.items() if k not in ks and k[0] not in ('tmp', 'res') and not (isinstance(v, tuple) and v and v[0] == 'c')}
        for k in ks:
            a, b = self.num_of(old, k), self.num_of(new, k)
            if a is None or b is None or a[0] != b[0]:
                env[k] = ('v', ('lost', k))
                continue
            d = lin.sub(b[1], a[1])
            if d == lin.num(0) or self.same(new, d, lin.num(0)):
                env[k] = value(a[1]) if a[0] is None else ptr(a[0], a[1])
                continue
            for g in groups:
                if self.same(new, g, d):
                    groups[g].append((k, 1, a))
                    break
                if self.same(new, g, lin.scale(d, -1)):
                    groups[g].append((k, -1, a))
                    break
            else:
                groups[d] = [(k, 1, a)]
        old_t = self.table.get(hk)
        made = []
        for x, (d, ms) in enumerate(groups.items()):
            if not self.holds(new, d) and self.holds(new, lin.scale(d, -1)):
                d, ms = lin.scale(d, -1), [(k, -s, a) for k, s, a in ms]
            up = self.holds(new, d) and self.pos(hk, x)
            t = (('t', i, x, len(ms)) if up else ('s', ('t', i, x, len(ms))))
            for k, s, a in ms:
                v = lin.add(a[1], lin.sym(t), s)
                env[k] = value(v) if a[0] is None else ptr(a[0], v)
            made.append((t, d))
        env[FACTS] = frozenset(self.facts(old))
        env[NE] = frozenset()
        env[FACTS] |= self.expected(env)
        return env, made

    def guess(self):
        """the last question was about a number a loop made unknown"""
        return any(isinstance(a, tuple) and a[0] == 's' and isinstance(a[1], tuple) and a[1][0] == 't' and 'own' in a[1] for a in lin.atoms(self.asked))

    def expected(self, env):
        """what may hold at the head of a loop: every arrival there has to bear it out"""
        return frozenset()

    def pos(self, hk, x):
        return True

    def match(self, T, env):
        """env against the summary T: the values of its loop symbols, and what does not fit"""
        votes, wrong = {}, []
        own = {}
        for k in sorted(self.keys(T), key=repr):
            a, b = self.num_of(T, k), self.num_of(env, k)
            if b is None or a[0] != b[0]:
                wrong.append((k, None))
                continue
            ts = [(t, q) for t, q in a[1][0] if self.istee(t)]
            if len(ts) == 1 and abs(ts[0][1]) == 1:
                t, q = ts[0]
                x = lin.scale(lin.sub(b[1], lin.sub(a[1], lin.scale(lin.sym(t), q))), q)
                votes.setdefault(t, []).append(x)
        m = {}
        for t, xs in votes.items():
            best = max(xs, key=lambda x: (sum(1 for y in xs if y == x or self.same(env, x, y)), repr(x)))
            m[t] = best
        for k in sorted(self.keys(T) | self.keys(env), key=repr):
            a, b = self.num_of(T, k), self.num_of(env, k)
            if a is not None and b is not None and a[0] != b[0] and k not in T:
                wrong.append((k, None))
            if a is not None and b is not None and a[0] == b[0] and not self.same(env, lin.subst(a[1], m), b[1]):
                wrong.append((k, a[0]))
        sign = [t for t, d in m.items() if t[0] != 's' and not self.holds(env, d)]
        return m, wrong, sign

    @staticmethod
    def istee(t):
        return t[0] == 't' or t[0] == 's' and isinstance(t[1], tuple) and t[1][0] == 't'

    ROUNDS = 1

    def arrive(self, i, u, env):
        """-> what to go on with: the summary of all rounds, and the first rounds as they are"""
        m = ('round', i)
        k = env.get(m, 0)
        if m in env:
            env = dict(env)
            del env[m]
        T = self.covered(i, u, env)
        if T is None:
            return []
        out = [dict(T)]
        out[0][m] = self.ROUNDS
        if k < self.ROUNDS:
            out.append(dict(env))
            out[1][m] = k + 1
        return out

    def covered(self, i, u, env):
        """a loop begins or goes round -> the state to go on with, None when it is covered"""
        hk = (i, u, self.shape(env))
        T = self.table.get(hk)
        if T is None:
            f = self.first.get(hk)
            if f is None:
                self.first[hk] = env
                return env
            if f == env:
                return env
            T, made = self.widen(hk, i, f, env)
            self.table[hk] = T
            self.made[hk] = made
            self.rounds[hk] = 0
            raise Restart()
        m, wrong, sign = self.match(T, env)
        if wrong or sign:
            # not covered: start again from something weaker
            self.rounds[hk] += 1
            if self.rounds[hk] > 60:
                if DEBUG: print('T', T, '\nENV', env)
                raise AnalysisBroken('no summary for a loop in %s' % self.g.root.n)
            W = dict(T)
            groups = []
            for k, _ in wrong:
                a, b = self.num_of(T, k), self.num_of(env, k)
                if b is None or b[0] != a[0]:
                    W[k] = ('v', ('lost', k))
                    continue
                tee = lin.form({x: q for x, q in a[1][0] if self.istee(x)}, 0)
                base = lin.sub(a[1], tee)
                d = lin.sub(b[1], base)
                for g in groups:
                    if g[0] == tee and self.same(env, g[1], d):
                        g[2].append((k, a[0], base))
                        break
                else:
                    groups.append((tee, d, [(k, a[0], base)]))
            for x, (_, _, ms) in enumerate(groups):
                own = lin.sym(('s', ('t', i, 'own', self.rounds[hk], x)))
                for k, p, base in ms:
                    f = lin.add(base, own)
                    W[k] = value(f) if p is None else ptr(p, f)
            W[FACTS] = frozenset(x for x in self.facts(T) if not any(self.istee(a) for a in lin.atoms(x)))
            for t in sign:
                t2 = ('s', t)
                W = {k: (v if k in (FACTS, NE) else self.renamed(v, t, t2)) for k, v in W.items()}
            W[FACTS] |= self.expected(W)
            self.tried.discard(hk)
            self.table[hk] = W
            raise Restart()
        keep = frozenset(x for x in self.facts(T) if self.holds(env, lin.subst(x, m)))
        if keep != self.facts(T):
            T = dict(T)
            T[FACTS] = keep
            self.table[hk] = T
            raise Restart()
        # guards seen inside the loop, weakened by one, may hold at its head for every round
        if m and (hk not in self.tried):
            cand = set()
            for x in self.facts(env):
                if any(self.istee(a) and a in m for a in lin.atoms(x)) and all(self.istee(a) or not self.made_in(a, hk) for a in lin.atoms(x)):
                    cand.add(lin.add(x, lin.num(1)))
                    cand.add(x)
            good = set()
            f = self.first0.get(hk)
            zero = self.match(T, f)[0] if f is not None else {}
            for x in cand:
                if x in self.facts(T) or f is None:
                    continue
                if self.holds(f, lin.subst(x, zero)) and self.holds(dict(env, **{}) | {FACTS: self.facts(env) | {x}}, lin.subst(x, m)):
                    good.add(x)
            if any(self.istee(a) for a in m) and any(mm != lin.sym(t) for t, mm in m.items()):
                if good:
                    T = dict(T)
                    T[FACTS] = self.facts(T) | frozenset(good)
                    self.table[hk] = T
                    self.tried.add(hk)
                    raise Restart()
        return T

    @staticmethod
    def renamed(v, t, t2):
        x, p = numeric(v) if v is not False else None, pointer(v)
        if x is not None:
            return value(lin.subst(x, {t: lin.sym(t2)}))
        return ptr(p[0], lin.subst(p[1], {t: lin.sym(t2)})) if p else v

    def made_in(self, a, hk):
        f = self.first0.get(hk)
        return f is not None and a not in self.known(f)

    def known(self, env):
        out = set()
        for k, v in env.items():
            if k in (FACTS, NE):
                for f in v:
                    out |= lin.atoms(f)
            else:
                x = numeric(v)
                p = pointer(v)
                for y in (x, p and p[1]):
                    if y is not None:
                        out |= lin.atoms(y)
        return out | {a for a in self.base}

    def run(self, init):
        self.made, self.rounds, self.tried, self.first0 = {}, {}, set(), {}
        self.base = set()
        for _ in range(40):
            self.exits, self.throws, self.envs, self.endof, self.found = set(), set(), {}, {}, []
            for k, v in self.first.items():
                self.first0.setdefault(k, v)
            self.first = {}
            try:
                self.once(init)
                break
            except Restart:
                continue
        else:
            raise AnalysisBroken('loops of %s do not settle' % self.g.root.n)
        return self

    def once(self, init):
        nodes, g = self.g.nodes, self.g
        work = deque()
        seen = {}
        self.parent = seen
        self.visited = 0

        def go(s, u, env, cur):
            for env in self.arrive(s, u, env) if s in self.heads else [env]:
                k = (s, u, self.freeze(env))
                if k not in seen:
                    seen[k] = cur
                    work.append(k)
        for u, env in init:
            go(g.entry, u, env, None)
        while work:
            cur = work.popleft()
            self.last = cur
            i, u, et = cur
            env = self.envs[et]
            n = nodes[i]
            self.visited += 1
            if self.visited > self.cap:
                raise AnalysisBroken('state space exceeded in %s' % g.root.n)
            us = self.step(n, u, env)
            us = [u] if us is None else us
            op = n.op
            for u in us:
                if i == g.exit:
                    self.endof.setdefault((u, id(self.envs[et])), cur)
                    self.exits.add((u, env.get(('ret', 0)), et))
                    continue
                if i == g.ehexit:
                    self.endof.setdefault((u, id(self.envs[et])), cur)
                    self.throws.add((u, et))
                    continue
                if n.eh is not None:
                    ue = self.throw(n, u, env)
                    for x in ue if isinstance(ue, list) else [ue]:
                        if x is not None:
                            go(n.eh, x, env, cur)
                if op == 'br' and len(n.s) == 2:
                    c = self.cond(n.c, u, env)
                    t = self.truth(c, env)
                    for tv, s in ((True, n.s[0]), (False, n.s[1])):
                        if t is not None and tv != t:
                            continue
                        e, u2 = env, u
                        if t is None:
                            u2 = self.took(n, tv, u, env)
                            e = self.refine(c, tv, env)
                            if e is None:
                                continue
                        go(s, u2, e, cur)
                    continue
                if op == 'switch':
                    self.switch(n, u, env, cur, go)
                    continue
                for env2 in self.split(n, u, env):
                    for u2, e in self.move(n, u, env2):
                        for s in n.s:
                            go(s, u2, e, cur)
        return self

    def split(self, n, u, env):
        """a value that depends on an undecided condition: both cases"""
        cs = set()
        for v in (n.v, n.obj) + tuple(n.args or ()):
            conditions(v, cs)
        envs = [env]
        for c in sorted(cs, key=repr)[:3]:
            out = []
            for e in envs:
                k = self.cond(c, u, e)
                if self.truth(k, e) is not None or k is None:
                    out.append(e)
                    continue
                for tv in (True, False):
                    e2 = self.refine(k, tv, e)
                    if e2 is not None:
                        out.append(e2)
            envs = out
        return envs
