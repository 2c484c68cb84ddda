"""The two ring buffers: after every operation the offsets and the wrap flag describe exactly the bytes that are in."""
import re
from engine import *
from locks import *
from comp import by_file, roots
from absx import norm, bare_cast
import lin
from lin import sub, add, num, sym, const
from count import numeric, value, pointer, ptr, FACTS
from bytesx import Op, fld, ZERO, ONE, view_class

S = sym(('f0', ('ringsize',)))
FIELDS = ('_writeOffset', '_readOffset', '_dataIsContiguous', '_lockedDataSize', '_storage')
STORE = ('store',)

RINGS = [
    ('io/BithreadCircularBuffer.cpp', 'BithreadCircularBuffer::Impl', {'Push': 'push', 'Pop': 'pop', 'Clear': 'clear', 'Read': 'read', 'Write': 'write', 'GetDataSize': 'size', 'GetFreeSize': 'free'}),
    ('io/CircularBufferBase.h', 'CircularBufferBase', {'Push': 'store', 'Pop': 'lock', 'ReleaseData': 'pop', 'Clear': 'clear', 'GetSize': 'size', 'GetFreeSize': 'free', 'GetAllData': 'all'}),
]


class Ring(Op):
    def __init__(self, ctx, P, g, r, kind, flag, fs):
        Op.__init__(self, ctx, P, g, r, {})
        self.W, self.R, self.FLAG, self.LOCKED, self.STORAGE = [fld(f) if f else ('none',) for f in fs]
        self.locks = fs[3] is not None
        self.kind, self.flag = kind, flag

    def initial(self, p):
        if p == self.FLAG:
            return self.flag
        return Op.initial(self, p)

    def extent(self, b, u, env):
        return S if b == STORE else Op.extent(self, b, u, env)

    def view(self, p, u, env):
        q = norm(p)
        if q == self.STORAGE:
            return STORE, ZERO, S
        return Op.view(self, p, u, env)

    def call(self, n, u, env):
        b, obj = n.base, n.obj
        if self.quiet:
            return None
        if b == 'GetStorageSize' and n.dst is not None:
            return [(u, value(S), {})]
        if b == 'size' and obj is not None and norm(obj) == self.STORAGE:
            return [(u, value(S), {})]
        if b == 'WriteToStorage' and len(n.args) == 3:
            o, p, q = self.lf(n.args[0], u, env), pointer(self.ev(n.args[1], u, env)), pointer(self.ev(n.args[2], u, env))
            if o is None or p is None or q is None or p[0] != q[0]:
                return [(u, None, {('lost',): True})]
            cnt = sub(q[1], p[1])
            t = self.acc(env, ('taken', p[0]))
            first = numeric(env.get(('from',))) if ('from',) in env else p[1]
            if not self.holds(env, cnt):
                self.bad('a negative number of bytes is stored', 'count')
            elif not self.same(env, cnt, ZERO):
                if not self.holds(env, sub(sub(S, o), cnt)):
                    self.bad('bytes are stored beyond the end of the storage', 'bounds')
                if not self.same(env, p[1], add(first, t)):
                    self.bad('bytes are stored out of order', 'order')
                # the place is the one after the bytes that are in
                w = numeric(self.get(self.W, u, env))
                if w is not None and not self.same(env, o, w):
                    self.bad('bytes are stored at another place than after those that are in', 'place')
            return [(u, None, {('taken', p[0]): value(add(t, cnt)), ('from',): value(first)})]
        if b == 'ReadStorage' and len(n.args) == 2:
            o, k = self.lf(n.args[0], u, env), self.lf(n.args[1], u, env)
            if o is None or k is None:
                return [(u, None, {('lost',): True})]
            self.shown(u, env, o, k)
            t = self.acc(env, ('seen',))
            ups = {('seen',): value(add(t, k))}
            if n.dst is not None:
                self.setview(ups, n.dst, (STORE, o, k))
            return [(u, None, ups)]
        return Op.call(self, n, u, env)

    def shown(self, u, env, o, k):
        if self.same(env, k, ZERO):
            return
        t = self.acc(env, ('seen',))
        r = numeric(self.get(self.R, u, env))
        if r is None or t is None:
            return
        x = add(r, t)
        if not self.same(env, o, x) and not self.same(env, o, sub(x, S)):
            self.bad('bytes are shown from another place than where the data begins', 'place')
        if not self.holds(env, sub(sub(S, o), k)) or not self.holds(env, k):
            self.bad('bytes beyond the end of the storage are shown', 'bounds')
        d = self.data(u, env)
        if d is not None and not self.holds(env, sub(sub(d, t), k)):
            self.bad('more bytes are shown than there are', 'bounds')

    def data(self, u, env):
        w, r, f = numeric(self.get(self.W, u, env)), numeric(self.get(self.R, u, env)), self.get(self.FLAG, u, env)
        if w is None or r is None or not (f is True or f is False):
            return None
        return sub(w, r) if f is True else add(sub(S, r), w)

    def judge(self):
        self.decided = 0
        k = numeric(self.initial(('rpar', 0, self.r.params[0]['n']))) if self.r.params and self.kind in ('push', 'pop') else None
        for u, v, et in sorted(self.exits, key=repr):
            env = self.envs[et]
            self.at(u, env)
            if u != 'ok' or ('lost',) in env:
                continue
            w, r, d = numeric(self.get(self.W, u, env)), numeric(self.get(self.R, u, env)), self.data(u, env)
            was = self.before
            if d is None:
                continue
            self.decided += 1
            f = self.get(self.FLAG, u, env)
            lo, hi = (r, w) if f is True else (w, r)
            for x in (lo, sub(hi, lo), sub(sub(S, hi), ONE)):
                if not self.holds(env, x):
                    self.bad('the offsets kept do not fit the storage and the wrap flag afterwards', 'shape')
                    break
            new = None
            if self.kind == 'push':
                new = add(was, k)
            elif self.kind == 'pop':
                new = sub(was, k)
            elif self.kind == 'clear':
                new = numeric(self.get(self.LOCKED, u, env)) if self.locks else ZERO
            elif self.kind == 'store':
                t = [self.acc(env, ('taken', b)) for b in self.params.values()]
                if t and t[0] is not None and ('from',) in env or t and self.psize() is not None:
                    size = self.psize()
                    discard = 'true' in (self.r.scls or '') or '<true' in (self.r.n or '')
                    if not self.same(env, t[0], size) and not (self.same(env, t[0], S) and self.holds(env, sub(size, S))):
                        self.bad('some of the data passed in is left out', 'all')
                    if self.same(env, r, numeric(self.initial(self.R))):
                        new = add(was, t[0])
                    elif not self.same(env, d, S):
                        self.bad('data is discarded although there is room', 'discard')
            else:
                new = was
            if new is not None and not self.same(env, d, new):
                self.bad('afterwards the buffer does not hold the bytes it should', 'amount')
            if self.kind in ('size', 'free'):
                x = numeric(v)
                y = was if self.kind == 'size' else sub(S, was)
                if x is not None and not self.same(env, x, y):
                    self.bad('another amount is reported than there is', 'ret')
            if self.kind in ('read', 'write'):
                q = self.view(('ret', 0), u, env)
                if q and q[0] == STORE:
                    at, room = (r, d) if self.kind == 'read' else (w, sub(S, d))
                    if not self.holds(env, sub(room, q[2])) or not self.holds(env, sub(sub(S, q[1]), q[2])):
                        self.bad('more is shown than there is', 'bounds')
                    elif not self.same(env, q[1], at) and not self.same(env, q[2], ZERO):
                        self.bad('another place is shown than where the %s' % ('data begins' if self.kind == 'read' else 'room begins'), 'place')
                    elif self.same(env, q[2], ZERO) and not self.same(env, room, ZERO):
                        self.bad('nothing is shown although there is some', 'none')
            if self.kind == 'all':
                s = self.acc(env, ('seen',))
                if s is not None and not self.same(env, s, d):
                    self.bad('not all the data is shown', 'all')
            if self.kind == 'lock':
                s, l = self.acc(env, ('seen',)), numeric(self.get(self.LOCKED, u, env))
                if s is not None and l is not None and not self.same(env, s, l):
                    self.bad('the bytes handed out are not those that stay locked', 'lock')


def run(ctx, P):
    done = 0
    for f, cls, ms in RINGS:
        c = by_file(f)
        E = Expander(P, mk_transparent(c.files), models=locky_models)
        E.alias = False
        for r in roots(P, c):
            if r.base not in ms or re.sub(r'<.*', '', (r.scls or '').replace('stingray::', '')) != cls:
                continue
            fs = [P.snap.field(re.sub(r'<.*', '', r.scls or ''), x) for x in FIELDS]
            if None in fs[:3]:
                ctx.count('ring operations not decided')
                continue
            n = 0
            try:
                g = E.run(r)
                for flag in (True, False):
                    a = Ring(ctx, P, g, r, ms[r.base], flag, fs)
                    w, rd = numeric(a.initial(a.W)), numeric(a.initial(a.R))
                    a.before = sub(w, rd) if flag else add(sub(S, rd), w)
                    lo, hi = (rd, w) if flag else (w, rd)
                    facts = [sub(S, ONE), lo, sub(hi, lo), sub(sub(S, hi), ONE)]
                    seen = sub(hi, lo) if flag else sub(S, rd)
                    k = numeric(a.initial(('rpar', 0, r.params[0]['n']))) if r.params else None
                    if ms[r.base] == 'push':
                        facts.append(sub(sub(S, w) if flag else sub(rd, w), k))
                    if ms[r.base] == 'pop':
                        facts.append(sub(a.before if a.locks else seen, k))
                    if a.locks:
                        l = numeric(a.initial(a.LOCKED))
                        facts.append(sub(seen, l))
                    e = a.assume({a.FLAG: flag}, *facts)
                    a.run([('ok', e)])
                    a.judge()
                    n += a.decided
                    for key, msg in dict((k2, (k2, m2)) for k2, m2 in a.found).values():
                        ctx.report(msg, key=(r.sn, key))
            except AnalysisBroken as e:
                ctx.count('ring operations not decided')
                ctx.sample(str(e)[:200])
                continue
            if n:
                done += 1
                ctx.count('ring operations')
                ctx.count('ring exits', n)
    return done
