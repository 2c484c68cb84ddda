"""Where a stream stands: seeking, telling, and the stream that consists of chunks."""
import re
from engine import *
from locks import *
from comp import by_file, roots
from absx import norm, bare_cast, under
import lin
from lin import sub, add, num, sym, const
from count import numeric, value, pointer, ptr, FACTS
from bytesx import Op, fld, named, ZERO, ONE

MODES = ('Begin', 'Current', 'End')
END = sym(('f0', ('end',)))
BELOW = ('below',)

# class -> what its position is, the greatest one there is, where the end is, and how the stream below follows
STREAMS = [
    ('io/MemoryByteStream.h', 'MemoryByteStream', {'pos': [(1, '_offset')], 'top': [(1, '_data._size')], 'end': [(1, '_data._size')]}),
    ('io/ByteStreamWithOffset.h', 'ByteStreamWithOffset', {'pos': [(1, '_position')], 'top': None, 'end': [(1, 'END'), (-1, '_offset')], 'joint': [(1, '_offset'), (1, '_position')]}),
    ('io/ByteStreamWithOffsetAndSize.h', 'ByteStreamWithOffsetAndSize', {'pos': [(1, '_position')], 'top': [(1, '_endOffset'), (-1, '_offset')], 'end': [(1, '_endOffset'), (-1, '_offset')]}),
    ('io/BufferedStream.h', 'BufferedStream', {'pos': [(1, '_bufferOffset'), (1, '_inBufferOffset')], 'top': None, 'end': [(1, 'END')], 'unread': ('_bufferSize', '_bufferOffset')}),
]


def mode_of(v):
    return v[1].split('::')[-1] if isinstance(v, tuple) and v and v[0] == 'e' else None


class Position(Op):
    ENUM = 'stingray::SeekMode::'

    def __init__(self, ctx, P, g, r, spec):
        Op.__init__(self, ctx, P, g, r, spec)
        self.signed = tuple(p['n'] for p in r.params if (p.get('t') or '') in ('long long', 'long', 'int'))

    def step(self, n, u, env):
        if u == 'ok' and n.op == 'throw':
            return ['thrown']
        if n.op in ('catch', 'enter_catch'):
            return ['ok']
        return None

    def throw(self, n, u, env):
        if n.op == 'throw' or u in ('thrown', 'lib'):
            return u if u != 'ok' else 'thrown'
        return 'lib'

    def initial(self, p):
        if p == BELOW:
            return value(sym(('f0', BELOW)))
        return Op.initial(self, p)

    def start(self, k):
        return self.initial(k) if k == BELOW else Op.start(self, k)

    def mode(self, a, u, env):
        return mode_of(self.get(norm(a), u, env)) or mode_of(self.ev(a, u, env))

    def call(self, n, u, env):
        b, cls, obj = n.base, n.cls or '', n.obj
        if self.quiet:
            return None
        if cls == 'stingray::SeekMode' and n.raw.get('k') == 'ctor' and obj is not None and n.args:
            m = self.mode(n.args[0], u, env)
            return [(u, None, {norm(obj): ('e', self.ENUM + m) if m else None})]
        if cls.endswith('ByteStream') and obj is not None and self.kept(obj):
            if b == 'Seek' and n.args:
                x = self.lf(n.args[0], u, env)
                m = self.mode(n.args[1], u, env) if len(n.args) > 1 else 'Begin'
                at = numeric(self.get(BELOW, u, env))
                y = None if x is None or m is None else x if m == 'Begin' else add(END, x) if m == 'End' else add(at, x) if at is not None else None
                return [(u, None, {BELOW: value(y) if y is not None else ('v', ('lost', BELOW))})]
            if b == 'Tell':
                return [(u, self.get(BELOW, u, env), {})]
        return Op.call(self, n, u, env)

    @staticmethod
    def kept(p):
        p = norm(p)
        return isinstance(p, tuple) and p[0] == 'deref' and isinstance(p[1], tuple) and p[1][0] == 'fld' and p[1][1] == ('this',)

    def sum(self, names, u, env, first=False):
        t = ZERO
        for s, nm in names:
            x = END if nm == 'END' else self.was([(1, nm)]) if first else self.total([(1, nm)], u, env)
            if x is None:
                return None
            t = add(t, x, s)
        return t

    def judge(self, kind, mode=None):
        self.decided = 0
        pos, top, end = self.spec['pos'], self.spec.get('top'), self.spec.get('end')
        p0 = self.sum(pos, 'ok', {}, True)
        hi = self.sum(top, 'ok', {}, True) if top else None
        want = None
        if kind == 'Seek':
            off = numeric(self.initial(('rpar', 0, self.r.params[0]['n'])))
            want = off if mode == 'Begin' else add(off, p0) if mode == 'Current' else add(off, self.sum(end, 'ok', {}, True))
        for u, v, et in sorted(self.exits, key=repr):
            env = self.envs[et]
            self.at(u, env)
            if u != 'ok':
                continue
            p1 = self.sum(pos, u, env)
            if p1 is None:
                continue
            self.decided += 1
            if kind == 'Tell':
                x = numeric(v)
                if x is not None and not self.same(env, x, p0):
                    self.bad('another position is told than the one kept', 'tell')
                if not self.same(env, p1, p0):
                    self.bad('telling the position changes it', 'tell')
                continue
            if not self.same(env, p1, want):
                self.bad('the position kept is another than the one asked for (%s)' % mode, 'seek')
                continue
            if not self.spec.get('unread'):
                if self.spec.get('joint'):
                    b, w = numeric(self.get(BELOW, u, env)), self.sum(self.spec['joint'], u, env)
                    if b is not None and w is not None and not self.same(env, b, w):
                        self.bad('the stream below is left at another place than the position kept (%s)' % mode, 'below')
                if not self.holds(env, want) or hi is not None and not self.holds(env, sub(hi, want)):
                    self.bad('a position out of range is accepted (%s)' % mode, 'range')
            else:
                size, base = self.spec['unread']
                s, o, b = [numeric(self.get(k, u, env)) for k in (fld(size), fld(base), BELOW)]
                if s is not None and o is not None and b is not None and self.same(env, s, ZERO) and not self.same(env, o, b):
                    self.bad('the stream below is left at another place than the position kept (%s)' % mode, 'below')
        for u, et in sorted(self.throws, key=repr):
            env = self.envs[et]
            self.at(u, env)
            if u not in ('thrown', 'lib'):
                continue
            p1 = self.sum(pos, u, env)
            if p1 is None:
                continue
            self.decided += 1
            if kind == 'Tell' and u == 'thrown':
                self.bad('the position is not told although it is in range', 'tell')
            if kind == 'Seek' and not self.same(env, p1, p0) and (self.spec.get('joint') or not self.same(env, p1, want)):
                self.bad('the operation fails and leaves another position than before (%s)' % mode, 'fail')
            if kind == 'Seek' and u == 'thrown' and self.assume(env, want, *([sub(hi, want)] if hi is not None else [])) is not None:
                self.bad('a position in range is refused (%s)' % mode, 'refused')


def world(r, ms=MODES):
    """the parameter that says from where, and its values"""
    for j, p in enumerate(r.params):
        if (p.get('rec') or '') == 'stingray::SeekMode':
            return [(m, {('rpar', j, p['n']): ('e', Position.ENUM + m)}) for m in ms]
    return [('Begin', {})]


def positions(ctx, P):
    done = 0
    for f, cls, spec in STREAMS:
        c = by_file(f)
        E = Expander(P, mk_transparent(c.files), models=locky_models)
        E.alias = False
        for r in roots(P, c):
            if r.base not in ('Seek', 'Tell') or re.sub(r'<.*', '', (r.scls or '').replace('stingray::', '')) != cls:
                continue
            try:
                sp = {k: [(s, x if x == 'END' else named(P, re.sub(r'<.*', '', r.scls), x)) for s, x in v] if isinstance(v, list) else named(P, re.sub(r'<.*', '', r.scls), v) for k, v in spec.items()}
                g = E.run(r)
                n = 0
                for mode, env in (world(r) if r.base == 'Seek' else [(None, {})]):
                    a = Position(ctx, P, g, r, sp)
                    fs = []
                    for inv in ([sp['pos']] if sp['pos'] else []) + ([sp['top'], sp['top'] + [(-s, x) for s, x in sp['pos']]] if sp.get('top') else []):
                        x = a.sum(inv, 'ok', {}, True)
                        if x is None:
                            raise AnalysisBroken('the position of %s has no number' % cls)
                        fs.append(x)
                    if any(x.endswith('._size') for _, x in sp.get('top') or ()):
                        a.views = a.views | {fld(*x.split('.')[:-1]) for _, x in sp['top'] if x.endswith('._size')}
                    if sp.get('unread'):
                        # nothing read ahead: the stream below stands at the base
                        s, b = [numeric(a.initial(fld(x))) for x in sp['unread']]
                        inits = [a.assume(dict(env), s, lin.scale(s, -1)), a.assume(dict(env), sub(s, ONE), *fs)]
                        inits[0] = a.put(inits[0], BELOW, value(b))
                    else:
                        inits = [a.assume(dict(env), *fs)]
                        if sp.get('joint'):
                            inits[0] = a.put(inits[0], BELOW, value(a.sum(sp['joint'], 'ok', {}, True)))
                    a.run([('ok', e) for e in inits])
                    a.judge(r.base, mode)
                    n += a.decided
                    for key, msg in dict((k2, (k2, m2)) for k2, m2 in a.found).values():
                        ctx.report(msg, key=(r.sn, key))
            except AnalysisBroken as e:
                ctx.count('positions not decided')
                ctx.sample(str(e)[:200])
                continue
            if n:
                done += 1
                ctx.count('positions')
                ctx.count('position exits', n)
    return done


# ---- the stream made of chunks

def chunk(k):
    return ('v', ('chunk', k))


def index(v):
    return v[1][1] if isinstance(v, tuple) and v and v[0] == 'v' and isinstance(v[1], tuple) and v[1][0] == 'chunk' else None


def csize(k):
    return sym(('f0', ('csize', k)))


TOP = ('chunks',)


class Chunks(Position):
    """a container of so many chunks of unknown sizes, standing in one of them"""
    LIMIT = 7

    def __init__(self, ctx, P, g, r, fs, at, many):
        Position.__init__(self, ctx, P, g, r, {})
        self.CONT, self.CHUNK, self.OFF, self.SIZE = [fld(x) for x in fs]
        self.at0, self.many0 = at, many

    def initial(self, p):
        if p == self.CHUNK:
            return chunk(self.at0)
        if p == TOP:
            return ('n', self.many0)
        return Position.initial(self, p)

    def arrive(self, i, u, env):
        k = env.get(('round', i), 0)
        if k > self.LIMIT:
            self.cut = True
            return []
        e = dict(env)
        e[('round', i)] = k + 1
        return [e]

    cut = False

    def many(self, env):
        return env[TOP][1] if TOP in env else self.many0

    def size(self, k, env):
        x = env.get(('csize', k))
        return numeric(x) if x is not None else csize(k)

    def before(self, k, env):
        t = ZERO
        for j in range(k):
            t = add(t, self.size(j, env))
        return t

    def iter(self, p, u, env):
        p = norm(p)
        while isinstance(p, tuple) and p and p[0] in ('deref', 'addr') and index(self.ev(p, u, env)) is None and index(self.get(p, u, env)) is None:
            p = p[1]
        k = index(self.get(p, u, env))
        return k if k is not None else index(self.ev(p, u, env))

    def is_cont(self, obj):
        q = norm(obj)
        while isinstance(q, tuple) and q and q[0] == 'deref':
            q = q[1]
        return q == self.CONT

    def call(self, n, u, env):
        b, obj, args = n.base, n.obj, n.args or ()
        if self.quiet:
            return None
        if obj is not None and self.is_cont(obj):
            if b in ('begin', 'cbegin'):
                return [(u, chunk(0), {})]
            if b in ('end', 'cend'):
                return [(u, chunk(self.many(env)), {})]
            if b == 'empty':
                return [(u, self.many(env) == 0, {})]
            if b == 'size':
                return [(u, ('n', self.many(env)), {})]
            if b == 'push_back' and args:
                k = self.many(env)
                v = env.get(('made', norm(args[0])))
                if v is None:
                    return [(u, None, {('lost',): True})]
                src, s = pointer(v[1]), numeric(v[2])
                t = self.acc(env, ('moved',))
                if not self.same(env, src[1], t):
                    self.bad('bytes of the data passed in are stored out of order', 'order')
                ups = {TOP: ('n', k + 1), ('csize', k): value(s), ('moved',): value(add(t, s))}
                # the chunk is filled from its beginning, and it is the last
                self.place(env, k, ZERO, t)
                for p, x in env.items():
                    if index(x) == k and p == self.CHUNK:
                        ups[p] = None
                return [(u, None, ups)]
        if b in ('operator==', 'operator!=') and len(args) + (obj is not None) == 2:
            xs = ([obj] if obj is not None else []) + list(args)
            i, j = [self.iter(x, u, env) for x in xs]
            if i is not None and j is not None:
                return [(u, (i == j) == (b == 'operator=='), {})]
        if b in ('operator++', 'operator--') and obj is not None:
            k = self.iter(obj, u, env)
            if k is not None:
                k2 = k + (1 if b == 'operator++' else -1)
                if not 0 <= k2 <= self.many(env):
                    self.bad('the chunk kept is moved beyond the last one', 'chunk')
                    return []
                return [(u, chunk(k2 if not args else k), {norm(obj): chunk(k2)})]
        if b in ('operator->', 'operator*') and obj is not None:
            k = self.iter(obj, u, env)
            if k is not None:
                if k >= self.many(env):
                    self.bad('a chunk is used beyond the last one', 'chunk')
                    return []
                return [(u, ('v', ('chunkp', k)), {})]
        if (n.raw.get('k') == 'ctor' or b == 'operator=') and obj is not None and len(args) == 1:
            k = self.iter(args[0], u, env)
            if k is not None:
                return [(u, chunk(k), {norm(obj): chunk(k)})]
        k = self.in_chunk(obj, u, env) if obj is not None else None
        if k is not None:
            if b == 'size':
                return [(u, value(self.size(k, env)), {})]
            if b in ('begin', 'data', 'cbegin'):
                return [(u, ptr(('chunk', k), ZERO), {})]
            if b in ('end', 'cend'):
                return [(u, ptr(('chunk', k), self.size(k, env)), {})]
            if b == 'empty':
                return [(u, False, {})]
        if n.raw.get('k') == 'ctor' and obj is not None and len(args) == 2:
            p, s = pointer(self.ev(args[0], u, env)), self.lf(args[1], u, env)
            if p and s is not None and p[0][0] == 'par':
                return [(u, None, {('made', norm(obj)): ('v', ptr(*p), value(s))})]
        return Position.call(self, n, u, env)

    def in_chunk(self, obj, u, env):
        q = norm(obj)
        while isinstance(q, tuple) and q and q[0] in ('deref', 'addr'):
            q = q[1]
        v = self.get(q, u, env)
        return v[1][1] if isinstance(v, tuple) and v and v[0] == 'v' and isinstance(v[1], tuple) and v[1][0] == 'chunkp' else None

    def place(self, env, k, off, t):
        """the bytes that move next are those at the position that is reached"""
        here = add(self.before(k, env), off)
        there = add(self.start_pos(), t)
        if not self.same(env, here, there):
            self.bad('other bytes of the stream are moved than those at the position reached', 'place')

    def start_pos(self):
        return add(self.before(self.at0, {}), numeric(self.initial(self.OFF)))

    def copied(self, n, u, env, p, d, cnt):
        if p is None or d is None or cnt is None or {p[0][0], d[0][0]} != {'par', 'chunk'}:
            return [(u, None, {('lost',): True})]
        c, o = (p, d) if p[0][0] == 'chunk' else (d, p)
        t = self.acc(env, ('moved',))
        self.flows += 1
        if not self.same(env, cnt, ZERO):
            if not self.holds(env, cnt):
                self.bad('the copy may be asked for a negative number of bytes', 'count')
            elif not self.holds(env, sub(sub(self.size(c[0][1], env), c[1]), cnt)):
                self.bad('bytes beyond the end of a chunk are used', 'bounds')
            elif not self.holds(env, sub(sub(self.psize(), o[1]), cnt)):
                self.bad('bytes beyond the end of the data passed in are used', 'bounds')
            elif not self.same(env, o[1], t):
                self.bad('bytes of the data passed in are used out of order', 'order')
            else:
                self.place(env, c[0][1], c[1], t)
        return [(u, ptr(d[0], add(d[1], cnt)), {('moved',): value(add(t, cnt))})]

    def judge(self, kind, mode=None):
        self.decided = 0
        p0 = self.start_pos()
        total0 = self.before(self.many0, {})
        want = None
        if kind == 'Seek':
            off = numeric(self.initial(('rpar', 0, self.r.params[0]['n'])))
            want = off if mode == 'Begin' else add(off, p0) if mode == 'Current' else add(off, total0)
        for u, v, et in sorted(self.exits, key=repr):
            env = self.envs[et]
            self.at(u, env)
            if u != 'ok' or ('lost',) in env:
                continue
            k, o = index(self.get(self.CHUNK, u, env)), numeric(self.get(self.OFF, u, env))
            if self.CHUNK in env and env[self.CHUNK] is None or k is None or o is None:
                continue
            self.decided += 1
            p1 = add(self.before(k, env), o)
            m = self.many(env)
            if not self.holds(env, o) or (not self.same(env, o, ZERO) if k == m else not self.holds(env, sub(self.size(k, env), o))):
                self.bad('the position kept lies outside its chunk', 'shape')
                continue
            if kind == 'Tell':
                x = numeric(v)
                if x is not None and not self.same(env, x, p0):
                    self.bad('another position is told than the one kept', 'tell')
                continue
            if kind == 'Seek':
                if not self.same(env, p1, want):
                    self.bad('the position kept is another than the one asked for (%s)' % mode, 'seek')
                elif not self.holds(env, want) or not self.holds(env, sub(total0, want)):
                    self.bad('a position out of range is accepted (%s)' % mode, 'range')
                continue
            t = self.acc(env, ('moved',))
            if not self.same(env, p1, add(p0, t)):
                self.bad('the position kept does not move by the number of bytes that were moved', 'delta')
            x = numeric(v)
            if x is not None and not self.same(env, x, t):
                self.bad('the count returned is not the number of bytes that were moved', 'ret')
            s = self.get(self.SIZE, u, env)
            if numeric(s) is not None and not self.same(env, numeric(s), self.before(m, env)):
                self.bad('the size kept is not the size of all chunks', 'size')
            if not self.same(env, t, self.psize()) and not (kind == 'Read' and self.same(env, p1, self.before(m, env))):
                self.bad('the operation stops early though nothing stood in its way', 'all')
        for u, et in sorted(self.throws, key=repr):
            env = self.envs[et]
            self.at(u, env)
            if u != 'thrown' or ('lost',) in env:
                continue
            k, o = index(self.get(self.CHUNK, u, env)), numeric(self.get(self.OFF, u, env))
            if k is None or o is None:
                continue
            self.decided += 1
            p1 = add(self.before(k, env), o)
            if kind == 'Seek' and self.many0 and self.assume(env, want, sub(total0, want)) is not None:
                self.bad('a position in range is refused (%s)' % mode, 'refused')
            if kind == 'Tell' or kind == 'Write' or kind == 'Read' and not self.same(env, p0, total0):
                self.bad('the operation gives up by itself although there is something to do', 'gives-up')
            if kind == 'Seek' and not self.same(env, p1, p0):
                self.bad('the operation fails and leaves another position than before (%s)' % mode, 'fail')


def chunks(ctx, P, kinds):
    c = by_file('io/ChunkedMemoryByteStream.h')
    E = Expander(P, mk_transparent(c.files), models=locky_models)
    E.alias = False
    done = 0
    for r in roots(P, c):
        if r.base not in kinds:
            continue
        cls = re.sub(r'<.*', '', r.scls or '')
        fs = [P.snap.field(cls, x) for x in ('_container', '_chunk', '_chunkOffset', '_totalSize')]
        if None in fs:
            ctx.count('chunk operations not decided')
            continue
        try:
            g = E.run(r)
            n = 0
            for many in range(0, 4 if r.base in ('Seek', 'Tell') else 3):
                for at in range(many + 1):
                    for mode, env in (world(r) if r.base == 'Seek' else [(None, {})]):
                        a = Chunks(ctx, P, g, r, fs, at, many)
                        o, s = numeric(a.initial(a.OFF)), numeric(a.initial(a.SIZE))
                        t = a.before(many, {})
                        facts = [o, sub(s, t), sub(t, s)] + [sub(csize(k), ONE) for k in range(many)]
                        facts += [lin.scale(o, -1)] if at == many else [sub(csize(at), o)]
                        if r.base in ('Read', 'Write'):
                            facts.append(sub(a.psize(), ONE))
                        e = a.assume(dict(env), *facts)
                        a.run([('ok', e)])
                        a.judge(r.base, mode)
                        n += a.decided
                        for key, msg in dict((k2, (k2, m2)) for k2, m2 in a.found).values():
                            ctx.report(msg, key=(r.sn, key))
        except AnalysisBroken as e:
            ctx.count('chunk operations not decided')
            ctx.sample(str(e)[:200])
            continue
        if n:
            done += 1
            ctx.count('chunk operations')
            ctx.count('chunk exits', n)
    return done
