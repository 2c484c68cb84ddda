"""Byte transport, operation by operation: which bytes go where, how many, and what the counters say afterwards."""
import re
from engine import *
from locks import *
from comp import by_file, roots
from absx import norm, bare_cast
import lin
from count import Counting, numeric, value, pointer, ptr, FACTS

VIEW = re.compile(r'stingray::BasicByte(Data|Array)\b')
DEBUG = 0
FROM_PTR = re.compile(r'(PKh|Ph)m$')
ONE = lin.num(1)
ZERO = lin.num(0)


def view_class(cls):
    return bool(cls and VIEW.match(cls))


class Bytes(Counting):
    def __init__(self, ctx, P, g, r, spec):
        Counting.__init__(self, g)
        self.ctx, self.P, self.r, self.spec = ctx, P, r, spec
        self.flows = 0
        self.born = {}
        self.params = {}
        for j, p in enumerate(r.params):
            if VIEW.search(p.get('rec') or p.get('t') or ''):
                self.params[('rpar', j, p['n'] or '#%d' % j)] = ('par', j)

    def bad(self, msg, key):
        if self.guess():
            self.ctx.count('not decided after a loop')
            return
        self.found.append((key, '%s (%s): %s; path: %s' % (self.r.where(), short(self.r.n), msg, self.trace())))

    # -- views
    def initial(self, p):
        if isinstance(p, tuple) and p and p[0] == 'fld' and p[2] == '_data':
            b = self.params.get(norm(p[1]))
            if b is not None:
                return ptr(b, ZERO)
            if self.field_is_view(p[1]):
                return ptr(('mem', norm(p[1])), ZERO)
        return Counting.initial(self, p)

    def read(self, p, u, env):
        r = Counting.read(self, p, u, env)
        if r is None and isinstance(p, tuple) and p and p[0] == 'fld':
            q = p
            while isinstance(q, tuple) and q and q[0] in ('fld', 'deref', 'idx'):
                q = q[1]
            if isinstance(q, tuple) and q and q[0] == 'res' and p[2] != '_data':
                return value(lin.sym(('loc', p)))
        return r

    def field_is_view(self, p):
        p = norm(p)
        return p in self.views

    views = frozenset()

    def view(self, p, u, env):
        """-> (base, offset, size) of the bytes an object shows"""
        q = norm(p)
        d, s = pointer(self.get(('fld', q, '_data'), u, env)), numeric(self.get(('fld', q, '_size'), u, env))
        if d is None:
            root = q
            while isinstance(root, tuple) and root and root[0] in ('fld', 'deref'):
                root = root[1]
            if isinstance(root, tuple) and root and root[0] in ('this',) and isinstance(q, tuple) and q[0] in ('fld', 'deref'):
                self.views = self.views | {q}
                d, s = pointer(self.get(('fld', q, '_data'), u, env)), numeric(self.get(('fld', q, '_size'), u, env))
        if d is None or s is None:
            return None
        return d[0], d[1], s

    def setview(self, ups, p, v):
        q = norm(p)
        ups[('fld', q, '_data')] = ptr(v[0], v[1]) if v else None
        ups[('fld', q, '_size')] = value(v[2]) if v else None
        return ups

    def copy(self, env, dst, src, u):
        s = norm(src)
        e = Counting.copy(self, env, dst, src, u)
        if isinstance(s, tuple) and s and (s in self.params or s in self.views):
            v = self.view(s, u, env)
            if v:
                for k, x in self.setview({}, dst, v).items():
                    e = self.put(e, k, x)
        return e

    # -- accounts
    def acc(self, env, k):
        return numeric(env.get(k)) if k in env else ZERO

    def start(self, k):
        return ('n', 0) if k[0] in ('taken', 'put', 'popped', 'pushed') else None

    def flow(self, n, u, env, src, dst, cnt, what):
        """cnt bytes go from src to dst, both (base, offset, size or None)"""
        self.flows += 1
        ups = {}
        # how many
        if not self.holds(env, cnt):
            if DEBUG and not self.guess(): print('COUNT', cnt, self.facts(env))
            self.bad('%s may be asked for a negative number of bytes' % what, 'count')
        for side, name in ((src, 'read'), (dst, 'written')):
            if side is None:
                continue
            b, off, size = side
            if size is not None and not (b[0] == 'ring' and self.spec.get('pad')) and not self.holds(env, lin.sub(lin.sub(size, off), cnt)):
                self.bad('bytes are %s beyond the end of %s' % (name, self.say(b)), 'bounds-' + name)
        # which
        for side, acc in ((src, 'taken'), (dst, 'put')):
            if side is None:
                continue
            b, off, size = side
            t = self.acc(env, (acc, b))
            if b[0] in ('par', 'ring') and t is not None:
                s = lin.add(t, self.skipped(u, env)) if b[0] == 'par' and acc == 'taken' else t
                if not self.same(env, off, s) and not self.same(env, cnt, ZERO):
                    if DEBUG: print('ORDER', off, s, self.facts(env))
                    self.bad('bytes of %s are skipped or used twice' % self.say(b), 'order')
            if b[0] == 'mem' and acc == 'taken':
                self.at_cursor(n, u, env, b, off, cnt, t)
            if b[0] == 'mem' and acc == 'put':
                self.at_write(n, u, env, b, off, cnt, t)
            k = (acc, b)
            ups[k] = value(lin.add(t, cnt)) if t is not None else ('v', ('lost', k))
        return ups

    def at_cursor(self, n, u, env, b, off, cnt, t):
        c = self.spec.get('cursor')
        if c is None or b[1] != ('fld', ('this',), c[0]):
            return
        f = ('fld', ('this',), c[1])
        now = numeric(self.get(f, u, env))
        was = numeric(self.initial(f))
        if now is None or self.same(env, cnt, ZERO):
            return
        if not self.same(env, off, now) and not (t is not None and was is not None and self.same(env, off, lin.add(was, t))):
            self.bad('bytes are taken from %s at another place than the position kept' % self.say(b), 'position')

    def at_write(self, n, u, env, b, off, cnt, t):
        if not self.spec.get('valid'):
            self.at_cursor(n, u, env, b, off, cnt, t)

    def effect(self, n, u, env):
        # what an earlier round got here is another number
        if n.i in self.born:
            for k in self.born[n.i]:
                env = self.fresh(env, (k, n.i))
        r = self.call(n, u, env)
        if r is None:
            return self.unknown(n, u, env)
        if n.i not in self.born:
            t = repr(r)
            self.born[n.i] = [k for k in ('got', 'opt', 'rs', 'ringnum') if "('%s', %d)" % (k, n.i) in t]
        out = []
        for u2, val, ups in r:
            e = self.put(env, n.dst, val) if n.dst is not None else env
            for p, x in ups.items():
                e = self.put(e, p, x)
            out.append((u2, e))
        return out

    def unknown(self, n, u, env):
        if n.dst is not None:
            env = self.fresh(env, norm(n.dst))
        self.quiet = True
        try:
            out = Counting.effect(self, n, u, env)
        finally:
            self.quiet = False
        for j in n.raw.get('mr') or ():
            if isinstance(j, int) and j < len(n.args):
                out = [(u2, self.put(e, norm(n.args[j]), None)) for u2, e in out]
        return out

    def skipped(self, u, env):
        """what a counter of bytes to leave out went down by"""
        s = self.spec.get('skips')
        if s is None:
            return ZERO
        f = ('fld', ('this',), s)
        now, was = numeric(self.get(f, u, env)), numeric(self.initial(f))
        return lin.sub(was, now) if now is not None else ZERO

    def say(self, b):
        return {'par': 'the data passed in', 'ring': 'the buffer', 'mem': 'the storage'}.get(b[0], 'the data')

    # -- calls
    def give(self, n, u, env, v, what, exact=False, extra=None):
        """somebody gets the bytes v shows and says how many were used"""
        a = ('got', n.i)
        env = self.fresh(env, a)
        r = lin.sym(a)
        e = self.assume(env, r, lin.sub(v[2], r))
        if e is None:
            return []
        ups = self.flow(n, u, e, (v[0], v[1], None), None, r, what)
        ups[('offered', v[0])] = value(lin.add(v[1], v[2]))
        ups[FACTS] = self.facts(e)
        ups.update(extra or {})
        return [(u, value(r), ups)]

    def fork(self, u, env, cases):
        """cases: (facts, value, updates)"""
        out = []
        for fs, v, ups in cases:
            e = self.assume(env, *fs)
            if e is not None:
                d = dict(ups)
                d[FACTS] = self.facts(e)
                out.append((u, v, d))
        return out

    def call(self, n, u, env):
        b, obj, args, cls = n.base, n.obj, n.args, n.cls or ''
        if b in ('min', 'max') and len(args) == 2:
            x, y = self.lf(args[0], u, env), self.lf(args[1], u, env)
            if x is None or y is None:
                return None
            lo, hi = (x, y) if b == 'min' else (y, x)
            return self.fork(u, env, [([lin.sub(y, x)], value(lo), {}), ([lin.add(lin.sub(x, y), lin.num(-1))], value(hi), {})])
        if b in ('AlignDown', 'AlignUp') and len(args) == 2 and b == 'AlignDown':
            x, k = self.lf(args[0], u, env), self.lf(args[1], u, env)
            return [(u, value(lin.sym(('fl', x, k))), {})] if x is not None and k is not None else None
        if view_class(cls) and obj is not None:
            r = self.view_call(n, u, env)
            if r is not None:
                return r
        if b in ('operator+', 'operator-') and obj is not None and len(args) == 1:
            p, y = pointer(self.ev(obj, u, env)), self.lf(args[0], u, env)
            if p and y is not None:
                return [(u, ptr(p[0], lin.add(p[1], y, 1 if b == 'operator+' else -1)), {})]
        if b in ('operator+=', 'operator-=') and obj is not None and len(args) == 1:
            p, y = pointer(self.ev(obj, u, env)), self.lf(args[0], u, env)
            if p and y is not None:
                v = ptr(p[0], lin.add(p[1], y, 1 if b == 'operator+=' else -1))
                return [(u, v, {norm(obj): v})]
        if b == 'get_value_or' and cls == 'stingray::optional' and n.dst is not None:
            env = self.fresh(env, ('opt', n.i))
            return [(u, value(lin.sym(('opt', n.i))), {FACTS: self.facts(env)})]
        if b == 'distance' and len(args) == 2:
            p, q = pointer(self.ev(args[0], u, env)), pointer(self.ev(args[1], u, env))
            if p and q and p[0] == q[0]:
                return [(u, value(lin.sub(q[1], p[1])), {})]
        if b in ('copy', 'copy_n') and len(args) == 3:
            p, d = pointer(self.ev(args[0], u, env)), pointer(self.ev(args[2], u, env))
            q = pointer(self.ev(args[1], u, env)) if b == 'copy' else None
            cnt = lin.sub(q[1], p[1]) if p and q and p[0] == q[0] else self.lf(args[1], u, env) if b == 'copy_n' else None
            return self.copied(n, u, env, p, d, cnt)
        if b in ('memcpy', 'memmove') and len(args) == 3:
            return self.copied(n, u, env, pointer(self.ev(args[1], u, env)), pointer(self.ev(args[0], u, env)), self.lf(args[2], u, env))
        if cls == 'stingray::IDataConsumer' and b == 'Process' and len(args) == 2:
            v = self.view(args[0], u, env)
            if v:
                self.use_inside(v, env)
                return self.give(n, u, env, v, 'the consumer')
        if b == 'ConsumeAll' and obj is None and len(args) == 3:
            env = self.fresh(env, ('got', n.i))
            v = self.view(args[1], u, env)
            if v:
                out = []
                for u2, x, ups in self.give(n, u, env, v, 'the consumer'):
                    ups[('cut', n.i)] = True
                    out.append((u2, x, ups))
                # unless it was cancelled everything went
                ups = self.flow(n, u, env, (v[0], v[1], None), None, v[2], 'the consumer')
                ups[('offered', v[0])] = value(lin.add(v[1], v[2]))
                return out + [(u, value(v[2]), ups)]
        if cls == 'stingray::IPacketConsumer' and b == 'Process' and len(args) == 2:
            v = self.view(('fld', norm(args[0]), '_data'), u, env)
            if v:
                ups = self.flow(n, u, env, (v[0], v[1], None), None, v[2], 'the consumer')
                return [(u, True, ups), (u, False, {})]
        if cls in ('stingray::IInputByteStream', 'stingray::IPipe', 'stingray::IByteStream') and b == 'Read' and args:
            v = self.view(args[0], u, env)
            if v:
                a = ('got', n.i)
                env2 = self.fresh(env, a)
                e = self.assume(env2, lin.sub(v[2], lin.sym(a)))
                if e is None:
                    return []
                ups = self.flow(n, u, e, None, (v[0], v[1], lin.add(v[1], v[2])), lin.sym(a), 'the stream')
                if v[0][0] == 'mem':
                    ups[('taken', v[0])] = None       # what was there before is gone
                    ups[('filled', v[0])] = value(lin.sym(a))
                    ups[('taken', v[0])] = ('n', 0)
                ups[FACTS] = self.facts(e)
                return [(u, value(lin.sym(a)), ups)]
        if cls in ('stingray::IOutputByteStream', 'stingray::IPipe', 'stingray::IByteStream') and b == 'Write' and args:
            v = self.view(args[0], u, env)
            if v:
                return self.give(n, u, env, v, 'the stream')
        if cls.endswith('::IPage') and b == 'Write' and len(args) == 3:
            v = self.view(args[1], u, env)
            if v:
                return self.give(n, u, env, v, 'the page')
        if cls.endswith('::IPage') and b == 'Read' and len(args) == 3:
            a = ('got', n.i)
            e = self.fresh(env, a)
            o = self.lf(args[0], u, e)
            ups = {('taken', ('pages',)): value(lin.add(self.acc(e, ('taken', ('pages',))), lin.sym(a))), ('page', n.i): value(o) if o is not None else None}
            return [(u, value(lin.sym(a)), ups)]
        m = re.match(r'stingray::BithreadCircularBuffer(::Reader|::Writer)?$', cls)
        if m:
            r = self.ring_call(n, u, env, m.group(1))
            if r is not None:
                return r
        if b == 'CheckedWriteAll' and len(args) >= 2:
            v = self.view(args[1], u, env)
            if v:
                return [(u, None, self.flow(n, u, env, (v[0], v[1], None), None, v[2], 'the stream'))]
        if cls == 'stingray::Packet' and n.raw.get('k') == 'ctor' and obj is not None and args and not n.raw.get('cm'):
            v = self.view(args[0], u, env)
            return [(u, None, self.setview({}, ('fld', norm(obj), '_data'), v))]
        if cls == 'stingray::Packet' and b in ('GetData', 'GetSize') and n.dst is not None:
            v = self.view(('fld', norm(obj), '_data'), u, env)
            if v is None and isinstance(norm(obj), tuple) and norm(obj)[0] == 'rpar':
                v = (('par', norm(obj)[1]), ZERO, lin.sym(('f0', ('fld', norm(obj), '_size'))))
            if v:
                return [(u, value(v[2]), {})] if b == 'GetSize' else [(u, None, self.setview({}, n.dst, v))]
        if b in ('operator()',) and cls == 'stingray::function' and args and n.dst is not None:
            v = self.view(args[0], u, env)
            if v and self.spec.get('functor'):
                return self.give(n, u, env, v, 'the consumer')
        if b == 'EndOfData':
            self.eod(n, u, env)
        return None

    def use_inside(self, v, env):
        pass

    def copied(self, n, u, env, p, d, cnt):
        if p is None and d is None:
            return None
        if cnt is None:
            ups = {}
            for side, acc in ((p, 'taken'), (d, 'put')):
                if side:
                    ups[(acc, side[0])] = ('v', ('lost', (acc, side[0])))
            return [(u, None, ups)]
        src = (p[0], p[1], self.extent(p[0], u, env)) if p else None
        dst = (d[0], d[1], self.extent(d[0], u, env)) if d else None
        return [(u, ptr(d[0], lin.add(d[1], cnt)) if d else None, self.flow(n, u, env, src, dst, cnt, 'the copy'))]

    def extent(self, b, u, env):
        if b[0] == 'par':
            for p, k in self.params.items():
                if k == b:
                    return numeric(self.initial(('fld', p, '_size')))
            return None
        if b[0] == 'ring':
            return self.ringsize.get(b)
        if b[0] == 'mem':
            s = self.spec.get('valid')
            if s and b[1] == ('fld', ('this',), s[0]):
                return numeric(self.get(('fld', ('this',), s[1]), u, env))
            return numeric(self.get(('fld', b[1], '_size'), u, env))
        return None

    def view_call(self, n, u, env):
        b, obj, args = n.base, n.obj, n.args
        q = norm(obj)
        if n.raw.get('k') == 'ctor':
            if not args:
                return [(u, None, self.setview({}, q, (('none',), ZERO, ZERO)))]
            if FROM_PTR.search(n.fn or '') and len(args) == 2:
                p, s = pointer(self.ev(args[0], u, env)), self.lf(args[1], u, env)
                return [(u, None, self.setview({}, q, (p[0], p[1], s) if p and s is not None else None))]
            v = self.view(args[0], u, env)
            if v is None:
                return [(u, None, self.setview({}, q, None))]
            if len(args) == 1:
                return [(u, None, self.setview({}, q, v))]
            o = self.lf(args[1], u, env)
            s = self.lf(args[2], u, env) if len(args) > 2 else lin.sub(v[2], o) if o is not None else None
            if o is None or s is None:
                return [(u, None, self.setview({}, q, None))]
            left = lin.sub(lin.sub(v[2], o), s)
            return self.fork(u, env, [([left, s, o], None, self.setview({}, q, (v[0], lin.add(v[1], o), s)))])
        if b == 'operator=' and len(args) == 1:
            v = self.view(args[0], u, env)
            return [(u, None, self.setview({}, q, v))]
        if b in ('size', 'data', 'begin', 'end', 'empty'):
            v = self.view(q, u, env)
            if v is None:
                return [(u, None, {})]
            if b == 'size':
                return [(u, value(v[2]), {})]
            if b == 'empty':
                return self.fork(u, env, [([lin.scale(v[2], -1)], True, {}), ([lin.sub(v[2], ONE)], False, {})])
            return [(u, ptr(v[0], v[1] if b != 'end' else lin.add(v[1], v[2])), {})]
        if b == 'clear' and not args:
            return [(u, None, {('fld', q, '_size'): ('n', 0)})]
        if b == 'append':
            return self.append(n, u, env, q)
        if b in ('RequireSize', 'resize') and args:
            k, s = self.lf(args[0], u, env), numeric(self.get(('fld', q, '_size'), u, env))
            if k is None or s is None:
                return None
            return self.fork(u, env, [([lin.sub(s, k)], None, {}), ([lin.add(lin.sub(k, s), lin.num(-1))], None, {('fld', q, '_size'): value(k)})])
        return None

    def append(self, n, u, env, q):
        own = self.view(q, u, env)
        if len(n.args) == 1:
            v = self.view(n.args[0], u, env)
        else:
            p, e = pointer(self.ev(n.args[0], u, env)), pointer(self.ev(n.args[1], u, env))
            v = (p[0], p[1], lin.sub(e[1], p[1])) if p and e and p[0] == e[0] else None
        if v is None or own is None:
            return [(u, None, {('fld', q, '_size'): None})]
        ups = self.flow(n, u, env, (v[0], v[1], None), None, v[2], 'the copy')
        k = ('put', ('mem', q))
        ups[k] = value(lin.add(self.acc(env, k), v[2]))
        ups[('fld', q, '_size')] = value(lin.add(own[2], v[2]))
        return [(u, None, ups)]

    ringsize = {}

    def ring_call(self, n, u, env, part):
        b, obj, args = n.base, n.obj, n.args
        q = norm(obj) if obj is not None else None
        if part is None and b in ('Read', 'Write') and n.dst is not None:
            base = ('ring', b, n.i)
            s = lin.sym(('rs', n.i))
            env = self.fresh(env, ('rs', n.i))
            self.ringsize = dict(self.ringsize)
            self.ringsize[base] = s
            return [(u, None, self.setview({('ringof', norm(n.dst)): ('s', base), ('taken', base): ('n', 0), ('put', base): ('n', 0), FACTS: self.facts(env)}, n.dst, (base, ZERO, s)))]
        if part is None:
            if b in ('GetFreeSize', 'GetDataSize', 'GetTotalSize') and n.dst is not None:
                env = self.fresh(env, ('ringnum', n.i))
                return [(u, value(lin.sym(('ringnum', n.i))), {FACTS: self.facts(env)})]
            return None
        if n.raw.get('k') == 'ctor' and len(args) == 1 or b == 'operator=' and len(args) == 1:
            a = norm(args[0])
            v = self.view(a, u, env)
            ups = self.setview({}, q, v)
            ups[('ringof', q)] = env.get(('ringof', a))
            return [(u, None, ups)]
        v = self.view(q, u, env)
        if v is None:
            return None
        if b in ('size',):
            return [(u, value(v[2]), {})]
        if b in ('data', 'begin'):
            return [(u, ptr(v[0], v[1]), {})]
        if b == 'end':
            return [(u, ptr(v[0], lin.add(v[1], v[2])), {})]
        if b == 'GetData' and n.dst is not None:
            return [(u, None, self.setview({}, n.dst, v))]
        if b in ('Pop', 'Push') and len(args) == 1:
            x = self.lf(args[0], u, env)
            k = ('popped' if b == 'Pop' else 'pushed', v[0])
            old = self.acc(env, k)
            if x is None or old is None:
                return [(u, None, {k: ('v', ('lost', k))})]
            if not self.holds(env, lin.sub(v[2], lin.add(old, x))) and not self.allowed_pop(x, v, env):
                self.bad('more is %s than the buffer showed' % ('popped' if b == 'Pop' else 'pushed'), 'bounds-ring')
            return [(u, None, {k: value(lin.add(old, x))})]
        return None

    def allowed_pop(self, x, v, env):
        return bool(self.spec.get('pad'))         # what a region shows follows from what is free: the room is checked by the ring's own rule

    def eod(self, n, u, env):
        """the consumer is told that there is nothing left"""
        for k in env:
            if isinstance(k, tuple) and k and k[0] == 'ringof' and env[k][1][1] == 'Read':
                base = env[k][1]
                s = self.ringsize[base]
                t = self.acc(env, ('popped', base)) or ZERO
                left = lin.sub(s, t)
                if self.same(env, left, ZERO):
                    continue
                if any(x[0] and len(x[0]) == 1 and x[0][0][0][0] == 'fl' and self.same(env, x[0][0][0][1], left) and self.same(env, (x[0], 0), ZERO) for x in [((f[0]), 0) for f in self.facts(env)]):
                    continue
                self.bad('the end of the data is announced while the buffer holds some', 'eod')
        c = self.spec.get('left')
        if c is not None:
            x = self.total(c, u, env)
            if x is not None and not self.same(env, x, ZERO) and not self.holds(env, lin.scale(x, -1)):
                self.bad('the end of the data is announced while there is some left', 'eod')

    def throw(self, n, u, env):
        return u


# ---- operations and what they promise

def fld(*names):
    p = ('this',)
    for n in names:
        p = ('fld', p, n)
    return p


class Op(Bytes):
    """one operation with its specification"""
    quiet = False

    def step(self, n, u, env):
        if n.op == 'throw' and u == 'ok':
            return ['thrown']
        if n.op in ('catch', 'enter_catch'):
            return ['ok']
        return None

    def throw(self, n, u, env):
        if n.op == 'throw' or u == 'thrown':
            return 'thrown'
        # a call of somebody else's code failed; what the library itself throws on the way is checked arithmetic
        return 'thrown' if n.op == 'call' and self.foreign(n) else 'lib'

    @staticmethod
    def foreign(n):
        return (n.cls or '') in ('stingray::IDataConsumer', 'stingray::IPacketConsumer') or n.base in ('ConsumeAll',)

    def call(self, n, u, env):
        if self.quiet:
            return None
        if n.base == 'clear' and view_class(n.cls) and n.obj is not None:
            b = ('mem', norm(n.obj))
            v = self.view(n.obj, u, env)
            t = self.acc(env, ('taken', b))
            if v and t is not None and self.spec.get('drain') and b[1] == fld(self.spec['drain']) and not any(k[0] == 'cut' for k in env) and not self.same(env, t, v[2]):
                self.bad('the bytes kept are dropped before all of them were handed on', 'dropped')
        at = self.spec.get('at')
        if at and (n.cls or '').endswith('ByteStream') and n.base in ('Seek', 'Read', 'Write') and n.obj is not None and norm(n.obj) == ('deref', fld(at[0])):
            if n.base == 'Seek' and n.args:
                x = self.lf(n.args[0], u, env)
                return [(u, None, {('sought',): value(x) if x is not None else None})]
            x, w = self.acc(env, ('sought',)) if ('sought',) in env else None, self.total(at[1], u, env)
            if x is not None and w is not None and not self.same(env, x, w):
                self.bad('the stream below is used at another place than the position kept', 'position')
            elif ('sought',) not in env and not at[2]:
                self.bad('the stream below is used without going to the position kept', 'position')
        lim = self.spec.get('limit')
        if lim and (n.cls or '').endswith('ByteStream') and n.base in ('Read', 'Write') and n.args:
            v, m = self.view(n.args[0], u, env), self.total(lim, u, env)
            if v and m is not None and not self.holds(env, lin.sub(m, v[2])):
                self.bad('the stream below is given more than the part that is left', 'bounds-limit')
        return Bytes.call(self, n, u, env)

    def total(self, names, u, env):
        """sum of signed fields"""
        r = ZERO
        for s, n in names:
            x = numeric(self.get(fld(*n.split('.')) if isinstance(n, str) else n, u, env))
            if x is None:
                return None
            r = lin.add(r, x, s)
        return r

    def was(self, names):
        r = ZERO
        for s, n in names:
            x = numeric(self.initial(fld(*n.split('.')) if isinstance(n, str) else n))
            if x is None:
                return None
            r = lin.add(r, x, s)
        return r

    def moved(self, env):
        """bytes of the parameter that went somewhere, or came in"""
        r = ZERO
        for b in list(self.params.values()) + ([('par', self.spec['packet'])] if 'packet' in self.spec else []):
            for k in ('taken', 'put'):
                x = self.acc(env, (k, b))
                if x is None:
                    return None
                r = lin.add(r, x)
        return r

    def psize(self):
        for p in self.params:
            return numeric(self.initial(('fld', p, '_size')))
        if 'packet' in self.spec:
            return lin.sym(('f0', ('fld', ('rpar', self.spec['packet'], self.r.params[self.spec['packet']]['n']), '_size')))

    def waived(self, env):
        """a setting of the object or a malformed request lets the operation drop what it was given"""
        for f in self.facts(env):
            if len(f[0]) == 1 and f[0][0][1] == 1 and f[1] == -1:
                a = f[0][0][0]
                if isinstance(a, tuple) and a[0] == 'f0' and a[1][0] == 'fld' and self.boolean(a[1]):
                    return True
        size = self.psize()
        if size is not None and any(self.is_mod(f, size) for f in self.facts(env) if f[1] == -1 and len(f[0]) == 1):
            return True
        return any(self.is_mod(f, size) for f in env.get(FACTS0, ()))

    @staticmethod
    def is_mod(f, size):
        return len(f[0]) == 1 and isinstance(f[0][0][0], tuple) and f[0][0][0][0] == 'mod' and f[0][0][0][1] == size

    def boolean(self, p):
        for rec in self.P.recs.values():
            for q in rec:
                for f in q.get('fields', ()):
                    if f['n'] == p[2] and f.get('t', '').replace('const ', '') == 'bool':
                        return True
        return False

    def judge(self):
        for u, v, et in sorted(self.exits, key=repr):
            env = self.envs[et]
            self.at(u, env)
            if u != 'ok':
                continue
            self.leave(u, v, env)
        for u, et in sorted(self.throws, key=repr):
            env = self.envs[et]
            self.at(u, env)
            if u == 'thrown':
                self.failed(u, env)

    def rings(self, env):
        return sorted((k[1] for k in env if isinstance(k, tuple) and k and k[0] == 'taken' and isinstance(k[1], tuple) and k[1][0] == 'ring'), key=repr)

    def ring_ok(self, u, env, failed):
        for b in self.rings(env):
            if b[1] == 'Read':
                t, p = self.acc(env, ('taken', b)), self.acc(env, ('popped', b))
                if t is None or p is None or self.same(env, t, p):
                    continue
                off = self.acc(env, ('offered', b))
                if off is not None and self.same(env, p, off) and any(self.has_mod(f, t) for f in self.odd(env)):
                    continue
                if self.same(env, t, ZERO) and self.padding(p, b, env):
                    continue
                self.bad('%s bytes are removed from the buffer than the consumer took%s' % ('other', ' and the operation fails' if failed else ''), 'pop')
            else:
                t, p = self.acc(env, ('put', b)), self.acc(env, ('pushed', b))
                if t is None or p is None or self.same(env, t, p) or failed and self.same(env, p, ZERO):
                    continue
                if self.same(env, t, ZERO) and self.padding(p, b, env):
                    continue
                if DEBUG: print(b, t, p, self.ringsize, {k: v for k, v in env.items() if k[0] in ('pushed', 'put', 'taken')})
                self.bad('other bytes are added to the buffer than were copied into it', 'push')

    def expected(self, env):
        out = set()
        T = self.moved(env)
        for names, sign, what in self.spec.get('delta', ()):
            now, was = self.total(names, 'ok', env), self.was(names)
            if what == 'moved' and None not in (now, was, T):
                d = lin.sub(lin.sub(now, was), lin.scale(T, sign))
                out |= {d, lin.scale(d, -1)}
        size = self.psize()
        if None not in (T, size):
            out.add(lin.sub(size, T))
        return frozenset(x for x in out if lin.const(x) is None)

    def odd(self, env):
        """forms known not to be zero"""
        return [f for f in env.get(('nonzero',), ())] + [(f[0], 0) for f in self.facts(env) if f[1] < 0]

    @staticmethod
    def has_mod(f, t):
        return any(isinstance(a, tuple) and a[0] == 'mod' and a[1] == t for a, _ in f[0])

    def padding(self, p, b, env):
        pad = self.spec.get('pad')
        if pad is None:
            return False
        x = numeric(self.initial(fld(pad)))
        return self.same(env, p, x) or self.same(env, p, self.ringsize[b])

    def leave(self, u, v, env):
        s = self.spec
        self.ring_ok(u, env, False)
        T = self.moved(env)
        sk = self.skipped(u, env)
        size = self.psize()
        if s.get('ret'):
            r = numeric(v)
            if s['ret'] == 'bool':
                if T is not None and size is not None:
                    if v is True and not self.same(env, T, size) and not self.same(env, size, ZERO) and not (self.same(env, T, ZERO) and self.waived(env)):
                        self.bad('the packet is reported as accepted but was not moved', 'ret')
                    if v is False and not self.same(env, T, ZERO):
                        self.bad('the packet was moved but is reported as not accepted', 'ret')
            elif r is not None and T is not None and not any(k[0] == 'lost' for k in env):
                if not self.same(env, r, lin.add(T, sk)):
                    drop = size is not None and self.same(env, r, size)
                    if drop and (self.same(env, T, ZERO) and self.waived(env) or self.full(u, env)):
                        pass
                    elif s['ret'] == 'all' and drop and self.cutoff(env):
                        pass
                    else:
                        self.bad('the count returned is not the number of bytes that were moved', 'ret')
        if s.get('all') and T is not None and size is not None and not self.same(env, T, size) and not self.cutoff(env):
            self.bad('some of the data passed in is left out', 'all')
        for names, sign, what in s.get('delta', ()):
            now, was = self.total(names, u, env), self.was(names)
            X = T if what == 'moved' else self.acc(env, ('taken', ('pages',))) if what == 'pages' else self.acc(env, ('taken', ('mem', fld(what)))) if isinstance(what, str) else None
            if now is None or was is None or X is None:
                continue
            d = lin.sub(now, was)
            if self.same(env, d, lin.scale(X, sign)):
                continue
            if any(self.has_mod(f, X) for f in self.odd(env)) and self.same(env, d, lin.scale(lin.sub(X, self.modof(X, env)), sign)):
                continue
            self.bad('the position kept does not move by the number of bytes that were moved', 'delta')
        for X, lo, hi in s.get('pending', ()):
            self.pending(u, env, X, lo, hi)
        if s.get('drain'):
            b = ('mem', fld(s['drain']))
            now, was = numeric(self.get(fld(s['drain'], '_size'), u, env)), numeric(self.initial(fld(s['drain'], '_size')))
            t, p = self.acc(env, ('taken', b)), self.acc(env, ('put', b))
            if None not in (now, was, t, p) and not self.cutoff(env) and not self.same(env, lin.sub(now, was), lin.sub(p, t)):
                self.bad('the bytes kept are not those taken in and not yet handed on', 'kept')
        seen = [k for k in env if k[0] == 'observed']
        for k in seen:
            x = numeric(env[k])
            if x is not None and T is not None and not self.same(env, x, T):
                self.bad('the observer is shown other bytes than the consumer took', 'observed')
        if s.get('observer') and not seen:
            self.bad('the observer is not shown what the consumer took', 'observed')

    def modof(self, X, env):
        for f in self.odd(env):
            for a, _ in f[0]:
                if isinstance(a, tuple) and a[0] == 'mod' and a[1] == X:
                    return lin.sym(a)
        return ZERO

    def full(self, u, env):
        f = self.spec.get('full')
        if f is None:
            return False
        x = numeric(self.get(fld(f, '_size'), u, env))
        return x is not None and self.same(env, x, ZERO)

    @staticmethod
    def cutoff(env):
        return any(isinstance(k, tuple) and k and k[0] == 'cut' for k in env)

    def pending(self, u, env, X, lo, hi):
        b = ('mem', fld(X))
        t = self.acc(env, ('taken', b))
        if t is None or self.cutoff(env):
            return
        have = [f for f in (lo, hi) if f and self.field(f)]
        if have and len(have) < 2:
            return
        now = lin.sub(numeric(self.get(fld(hi), u, env)) or ZERO, numeric(self.get(fld(lo), u, env)) or ZERO) if have else ZERO
        if ('filled', b) in env:
            x = numeric(env[('filled', b)])
            if x is not None and not self.same(env, now, lin.sub(x, t)):
                # nothing came: whatever the positions are they show nothing
                if self.same(env, x, ZERO) and self.same(env, now, ZERO):
                    return
                self.bad('bytes that were read but not handed on are forgotten', 'pending')
        elif have:
            was = lin.sub(numeric(self.initial(fld(hi))), numeric(self.initial(fld(lo))))
            if not self.same(env, now, lin.sub(was, t)):
                self.bad('the position kept does not move by the number of bytes that were moved', 'delta')

    def field(self, name):
        cls = self.r.cls
        for rec in self.P.recs.get(cls, ()):
            if any(f['n'] == name for f in rec.get('fields', ())):
                return True
        return False

    def failed(self, u, env):
        self.ring_ok(u, env, True)
        for names, sign, what in self.spec.get('delta', ()):
            if what not in ('moved', 'pages'):
                X = self.acc(env, ('taken', ('mem', fld(what))))
            else:
                X = self.acc(env, ('taken', ('pages',))) if what == 'pages' else self.moved(env)
            now, was = self.total(names, u, env), self.was(names)
            if now is None or was is None or X is None or self.same(env, lin.sub(now, was), lin.scale(X, sign)):
                continue
            if any(self.has_mod(f, X) for f in self.odd(env)) and self.same(env, lin.sub(now, was), lin.scale(lin.sub(X, self.modof(X, env)), sign)):
                continue
            self.bad('the operation fails with bytes moved and its position unchanged, or the other way round', 'fail')


FACTS0 = ('nonzero',)
P_ = 1
M_ = -1

SPECS = [
    # file, class, method, specification
    ('io/BufferedDataSource.cpp', 'BufferedDataSource', 'Read', {}),
    ('io/BufferedDataConsumer.cpp', 'BufferedDataConsumer', 'Process', {'ret': True}),
    ('io/PacketBuffer.h', 'PacketBuffer', 'Process', {'ret': 'bool', 'packet': 0, 'pad': '_paddingSize'}),
    ('io/PacketBuffer.h', 'PacketBuffer', 'Read', {'pad': '_paddingSize'}),
    ('io/ByteArrayDataSource.h', 'ByteArrayDataSource', 'Read', {'cursor': ('_data', '_processed'), 'delta': [([(1, '_processed')], 1, '_data')], 'inv': [[(1, '_data._size'), (-1, '_processed')]],
                                                                 'left': [(1, '_data._size'), (-1, '_processed')]}),
    ('io/BufferedPipe.cpp', 'BufferedPipe', 'Read', {'ret': True, 'cursor': ('_buffer', '_bufferOffset'), 'valid': ('_buffer', '_bufferSize'), 'pending': [('_buffer', '_bufferOffset', '_bufferSize')],
                                                     'inv': [[(1, '_bufferSize'), (-1, '_bufferOffset')], [(1, '_buffer._size'), (-1, '_bufferSize')]]}),
    ('io/BufferedPipe.cpp', 'BufferedPipe', 'Write', {'ret': True}),
    ('io/PipeDataSource.cpp', 'PipeDataSource', 'Read', {'pending': [('_buffer', '_bufferOffset', '_bufferSize')], 'inv': [[(1, '_bufferSize'), (-1, '_bufferOffset')], [(1, '_buffer._size'), (-1, '_bufferSize')]]}),
    ('io/ByteStreamDataSource.h', 'ByteStreamDataSource', 'Read', {'pending': [('_buffer', None, None)]}),
    ('io/BufferedDataMediator.h', 'BufferedDataMediator', 'Process', {'ret': True, 'drain': '_buffer'}),
    ('io/BufferedDataMediator.h', 'BufferedDataMediator', 'Read', {'drain': '_buffer'}),
    ('io/BufferedStream.h', 'BufferedStream', 'Read', {'ret': True, 'cursor': ('_buffer', '_inBufferOffset'), 'valid': ('_buffer', '_bufferSize'), 'delta': [([(1, '_bufferOffset'), (1, '_inBufferOffset')], 1, 'moved')],
                                                       'inv': [[(1, '_buffer._size'), (-1, '_bufferSize')]]}),
    ('io/BufferedStream.h', 'BufferedStream', 'Write', {'ret': True, 'delta': [([(1, '_bufferOffset'), (1, '_inBufferOffset')], 1, 'moved')]}),
    ('io/MemoryByteStream.h', 'MemoryByteStream', 'Read', {'ret': True, 'cursor': ('_data', '_offset'), 'delta': [([(1, '_offset')], 1, 'moved')], 'inv': [[(1, '_data._size'), (-1, '_offset')]]}),
    ('io/MemoryByteStream.h', 'MemoryByteStream', 'Write', {'ret': True, 'cursor': ('_data', '_offset'), 'delta': [([(1, '_offset')], 1, 'moved')], 'inv': [[(1, '_data._size'), (-1, '_offset')]]}),
    ('io/ByteStreamWithOffset.h', 'ByteStreamWithOffset', 'Read', {'ret': True, 'delta': [([(1, '_position')], 1, 'moved')], 'at': ('_stream', [(1, '_offset'), (1, '_position')], False)}),
    ('io/ByteStreamWithOffset.h', 'ByteStreamWithOffset', 'Write', {'ret': True, 'delta': [([(1, '_position')], 1, 'moved')], 'at': ('_stream', [(1, '_offset'), (1, '_position')], False)}),
    ('io/ByteStreamWithOffsetAndSize.h', 'ByteStreamWithOffsetAndSize', 'Read', {'ret': True, 'delta': [([(1, '_position')], 1, 'moved')], 'at': ('_stream', [(1, '_offset'), (1, '_position')], False),
                                                                                 'limit': [(1, '_endOffset'), (-1, '_offset'), (-1, '_position')]}),
    ('io/ByteStreamWithOffsetAndSize.h', 'ByteStreamWithOffsetAndSize', 'Write', {'ret': True, 'delta': [([(1, '_position')], 1, 'moved')], 'at': ('_stream', [(1, '_offset'), (1, '_position')], False),
                                                                                  'limit': [(1, '_endOffset'), (-1, '_offset'), (-1, '_position')]}),
    ('io/DataPacketer.h', 'ConsumerPacketer', 'Process', {'ret': True}),
    ('io/DataUtils.h', 'TakingConsumer', 'Process', {'ret': True, 'delta': [([(1, '_leftToTake')], -1, 'moved')]}),
    ('io/DataUtils.h', 'SkippingConsumer', 'Process', {'ret': True, 'skips': '_leftToSkip'}),
    ('io/IDataSource.h', '', 'ConsumeAll', {'ret': True}),
    ('io/IDataSource.h', 'InterceptingDataConsumer', 'Process', {'ret': True, 'observer': True}),
    ('io/IDataSource.h', 'InterceptingDataSource', 'DoPush', {'ret': True, 'observer': True}),
    ('io/IDataSource.h', 'ReactiveDataSource::ReactiveDataConsumer', 'Process', {'ret': True}),
    ('io/DataAligner.h', 'DataAligner', 'Align', {'ret': True, 'drain': '_buffer', 'inv': [[(1, '_alignment'), (-1, '_buffer._size')]]}),
    ('io/DataSourceReader.cpp', 'DataStorage', 'Process', {'ret': True}),
    ('io/ByteDataConsumer.cpp', 'ByteDataConsumer', 'Process', {'ret': True, 'full': '_destination'}),
    ('io/PagedBuffer.cpp', 'PagedBuffer', 'Read', {'delta': [([(1, '_currentOffset')], 1, 'pages')]}),
    ('io/PagedBuffer.cpp', 'PagedBuffer', 'Push', {'all': True}),
    ('io/BithreadPipe.h', 'BithreadPipe', 'Read', {'ret': True}),
    ('io/SynchronizedPipe.h', 'SynchronizedPipe', 'Write', {'ret': True}),
    ('io/IInputByteStream.h', '', 'ReadAll', {'ret': True}),
    ('io/IOutputByteStream.h', '', 'WriteAll', {'ret': True}),
    ('BandwidthReporter.h', 'BandwidthReporter', 'DoPush', {'ret': True}),
]


def observed(a, n, u, env):
    v = a.view(n.args[0], u, env)
    if v is None:
        return None
    return [(u, None, {('observed', n.i): value(v[2]) if v[0][0] == 'par' and a.same(env, v[1], ZERO) else value(lin.num(-1))})]


class Observed(Op):
    def call(self, n, u, env):
        if not self.quiet and n.base == 'operator()' and n.cls == 'stingray::function' and n.args:
            r = observed(self, n, u, env)
            if r is not None:
                return r
        return Op.call(self, n, u, env)


def named(P, cls, x):
    """specification with the members as they are called now"""
    if isinstance(x, dict):
        return {k: v if k in ('ret', 'packet') else named(P, cls, v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(named(P, cls, y) for y in x)
    if isinstance(x, str) and x.startswith('_'):
        a = x.split('.')
        n = P.snap.field(cls, a[0])
        if n is None:
            raise AnalysisBroken('%s has no member %s any more' % (cls, a[0]))
        return '.'.join([n] + a[1:])
    return x


def explore(ctx, P, E, r, spec):
    spec = named(P, re.sub(r'<.*', '', r.scls or ''), spec)
    g = E.run(r)
    a = (Observed if spec.get('observer') else Op)(ctx, P, g, r, spec)
    env = {}
    for inv in spec.get('inv', ()):
        for _, nm in inv:
            a.total([(1, nm)], 'ok', env)
        x = a.was(inv)
        e = a.assume(env, x) if x is not None else None
        env = e if e is not None else env
    for s, nm in [(0, x) for inv in spec.get('inv', ()) for _, x in inv]:
        if nm.endswith('._size'):
            a.views = a.views | {fld(*nm.split('.')[:-1])}
    a.views = a.views | {fld(x) for x in (spec.get('drain'), spec.get('full')) if x}
    a.run([('ok', env)])
    a.judge()
    return a


def run(ctx, P):
    seen = set()
    done = 0
    for f, cls, m, spec in SPECS:
        c = by_file(f)
        E = Expander(P, mk_transparent(c.files), models=locky_models)
        E.alias = False
        rs = [r for r in roots(P, c) if r.base == m and re.sub(r'<.*', '', (r.scls or '').replace('stingray::', '')) == cls]
        for r in rs:
            if r.id in seen:
                continue
            seen.add(r.id)
            try:
                a = explore(ctx, P, E, r, spec)
            except AnalysisBroken as e:
                ctx.count('operations not decided')
                ctx.sample(str(e)[:200])
                continue
            done += 1
            ctx.count('operations')
            ctx.count('transfers', a.flows)
            ctx.count('exits', len(a.exits))
            for key, msg in dict((k, (k, m2)) for k, m2 in a.found).values():
                ctx.report(msg, key=(r.sn, key))
    return done
