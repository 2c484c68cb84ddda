"""Lists with positions, explored operation by operation: the content of a sequence is where it came from and what was done to it since.

Positions are symbolic: ('at', index token), 'end', ('rest', predicate).  A comparison of an index with a size becomes a fact of the path."""
from engine import *
from locks import *
from comp import by_file, roots
from cont import *
from absx import norm, under, bare_cast
from collops import SNAPSHOT

S = 'stingray::'
UNKNOWN = ('?',)
INDEXED = {'Get', 'TryGet', 'Set', 'Insert', 'RemoveAt'}


def add(a, b):
    if a == ('n', 0):
        return b
    if b == ('n', 0):
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'n':
        return ('n', a[1] + b[1]) if a[1] + b[1] <= 3 else None
    return None


class Seq(Cont):
    def __init__(self, ctx, P, g, r, what, mode, guard=None):
        Cont.__init__(self, g, None)
        self.ctx, self.P, self.r, self.what, self.mode, self.guard = ctx, P, r, what, mode, guard

    def bad(self, msg, key, always=False):
        if always or (self.mode == 'P15') == (key in SNAPSHOT or key == 'foreign'):
            self.ctx.report('%s (%s): %s; path: %s' % (self.r.where(), self.what, msg, self.trace()), key=(self.r.sn, key))

    def step(self, n, u, env):
        if n.op == 'throw' and u == 'ok':
            return ['throws']
        if n.op in ('catch', 'enter_catch') and u == 'throws':
            return ['ok']
        return None

    def losing(self, u):
        return 'lost' if u == 'ok' else u

    # -- content
    def content(self, env, t):
        return (env.get(('base', t), UNKNOWN), env.get(('ops', t), (UNKNOWN,)))

    def fresh(self, env, t, kind, src=None):
        e = Cont.fresh(self, env, t, kind, src)
        if kind in SEQ:
            e[('base', t)], e[('ops', t)] = (env.get(('base', src), UNKNOWN), env.get(('ops', src), (UNKNOWN,))) if src is not None else ('empty', ())
        return e

    def lose(self, env, t):
        e = Cont.lose(self, env, t)
        if env.get(('cont', t)) in SEQ:
            e[('ops', t)] = (UNKNOWN,)
        return e

    def log(self, env, t, *op):
        e = Cont.lose(self, env, t)
        o = env.get(('ops', t), (UNKNOWN,))
        if None in op or UNKNOWN in op or UNKNOWN in o or len(o) >= 6:
            o = (UNKNOWN,)
        elif op[0] == 'ins' and o and o[-1] == ('del', op[1]):
            o = o[:-1] + (('set',) + op[1:],)
        elif op[0] == 'set' and o and o[-1][:2] == op[:2] and o[-1][0] in ('set', 'ins'):
            o = o[:-1] + ((o[-1][0],) + op[1:],)
        elif op[0] == 'delr' and op[2] == 'end' and o and o[-1][0] == 'rmif' and op[1] == ('rest', o[-1][1]):
            o = o[:-1] + (('without', o[-1][1]),)
        else:
            o = o + (op,)
        e[('ops', t)] = o
        return e

    def eltok(self, el, env):
        t, pos, k, part = el
        if env.get(('cont', t)) in SEQ and part is None and pos == 'at':
            return ('v', ('elem', self.content(env, t), k))
        return Cont.eltok(self, el, env)

    def tag(self, p, u, env):
        t = Cont.tag(self, p, u, env)
        if t is None:
            p = norm(p)
            v = env.get(p)
            if isinstance(v, tuple) and v[0] == 'v' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'cref':
                return v[1][1]
        return t

    def equal(self, x, y, env):
        i, j = self.it(x), self.it(y)
        if i is not None and j is not None and i[1] == j[1]:
            for a, b in ((i, j), (j, i)):
                if a[2] == 'end' and b[2] == 'at' and isinstance(b[3], tuple) and b[3][0] == 'v' and isinstance(b[3][1], tuple) and b[3][1][0] == 'found':
                    return False
        return Cont.equal(self, x, y, env)

    def move(self, n, u, env):
        if n.op in ('wr', 'bind', 'bindref') and n.p is not None and not n.raw.get('rmw'):
            t = self.tag(n.v, u, env) if n.v is not None and isinstance(bare_cast(n.v), tuple) else None
            if t is not None and norm(n.p) != t:
                return [(u, self.put(env, n.p, ('v', ('cref', t))))]
        return Cont.move(self, n, u, env)

    def store(self, n, u, env, el, src):
        t, pos, k, part = el
        if env.get(('cont', t)) in SEQ:
            self.mutate(n, u, env, t, 'value')
            return self.log(env, t, 'set', k if pos == 'at' else None, self.ev(src, u, env) if src is not None else None)
        return Cont.store(self, n, u, env, el, src)

    def rmw(self, n, u, env):
        v = self.ev(n.v, u, env)
        return ('n', max(-1, min(3, v[1]))) if isinstance(v, tuple) and v[0] == 'n' else None

    # -- indices
    def sum(self, a, u, env):
        """-> (value, constant added to it)"""
        a = bare_cast(a)
        if isinstance(a, tuple) and a and a[0] == 'bin' and a[1] in ('+', '-'):
            for x, y in ((a[2], a[3]),) + (((a[3], a[2]),) if a[1] == '+' else ()):
                k = self.ev(y, u, env)
                if isinstance(k, tuple) and k[0] == 'n':
                    v, c = self.sum(x, u, env)
                    if v is not None and v[0] == 'v':
                        return v, c + (k[1] if a[1] == '+' else -k[1])
        v = Cont.ev(self, a, u, env)
        if isinstance(v, tuple) and v[0] == 'v' and isinstance(v[1], tuple) and v[1][:1] == ('plus',):
            return v[1][1], v[1][2]
        return (v if isinstance(v, tuple) and v[0] in 'nv' else None), 0

    def ev(self, v, u, env):
        w = bare_cast(v)
        if isinstance(w, tuple) and w and w[0] == 'bin' and w[1] in ('+', '-'):
            x, k = self.sum(w, u, env)
            if x is not None and x[0] == 'v':
                return ('v', ('plus', x, k)) if k else x
        return Cont.ev(self, v, u, env)

    def order(self, op, a, b, u, env):
        x, y = self.sum(a, u, env), self.sum(b, u, env)
        if op in ('>', '<='):
            x, y = y, x
        pol = op in ('<', '>')
        if x[0] is None and y[0] is None:
            return None
        d = y[1] - x[1]
        if x[0] is None or y[0] is None or d not in (0, 1):
            # a comparison, of which only the parties are known
            x, y = [z[0] if z[0] is not None and z[0][0] == 'v' else ('v', ('unknown', op, norm(w))) for z, w in ((x, b if op in ('>', '<=') else a), (y, a if op in ('>', '<=') else b))]
            return ('c', ('lt', x, y), None, pol)
        x, y = x[0], y[0]
        if d == 0 and x[0] == y[0] == 'v' and x[1][:1] == ('found',) and y[1][:1] == ('size',) and UNKNOWN not in x[1][1] and self.size(x[1][1]) == self.size(y[1][1]) != UNKNOWN:
            return pol
        if d == 1:
            # x < y + 1
            x, y, pol = y, x, not pol
        k = ('lt', x, y)
        if k in env:
            return env[k] == pol
        if x == y:
            return not pol
        return ('c', k, None, pol)

    def inside(self, n, env, t, i, atmost=False):
        """index i is used with container t"""
        if i is None or not isinstance(i, tuple) or i[0] != 'v' or not (isinstance(i[1], tuple) and i[1] and i[1][0] == 'rpar'):
            return
        lts = [(k, r) for k, r in env.items() if isinstance(k, tuple) and len(k) == 3 and k[0] == 'lt' and i in k[1:]]
        if not lts:
            if not [k for k in env if isinstance(k, tuple) and k and k[0] in ('eq', 'truth') and k[1] == i[1]]:
                self.bad('uses an index without comparing it with the size', 'unchecked')
            return
        own = self.content(env, t)
        other = [k[2] if k[1] == i else k[1] for k, r in lts]
        if all(o[0] == 'v' and isinstance(o[1], tuple) and o[1][:1] == ('size',) and UNKNOWN not in o[1][1] and UNKNOWN not in o[1][1][1] and UNKNOWN not in own and o[1][1][0] != own[0] for o in other):
            self.bad('compares an index with the size of other items than it is used with', 'unchecked')
            return
        for k, r in lts:
            o = k[2] if k[1] == i else k[1]
            if not (isinstance(o, tuple) and o[0] == 'v' and isinstance(o[1], tuple) and o[1][:1] == ('size',)) or UNKNOWN in own or UNKNOWN in o[1][1]:
                return
            if self.size(o[1][1]) != self.size(own):
                return
        for k, r in lts:
            if k[1] == i and r is True or atmost and k[2] == i and r is False:
                return
        self.bad('uses an index that is not below the size' if not atmost else 'uses an index that is greater than the size', 'range')

    @staticmethod
    def size(c):
        if UNKNOWN in c or UNKNOWN in c[1]:
            return UNKNOWN
        return (c[0], tuple(o for o in c[1] if o[0] != 'set'))

    # -- calls
    def member(self, n, u, env, kind):
        if kind not in SEQ:
            return Cont.member(self, n, u, env, kind)
        b, obj, args = n.base, n.obj, n.args
        t = self.tag(obj, u, env)
        if t is None:
            return None
        vals = [self.ev(a, u, env) for a in args]

        def one(val=None, e=env):
            return [(u, e, val, {})]

        def pos(v):
            i = self.it(v)
            if i is None or i[1] != t:
                return None
            return 'end' if i[2] == 'end' else ('at', i[3]) if i[2] == 'at' else ('rest', i[3]) if i[2] == 'rest' else None
        if b in ('begin', 'cbegin'):
            return one(('s', ('it', t, 'at', ('n', 0))))
        if b == 'size':
            c = self.content(env, t)
            return one(('v', ('size', (c[0], self.size(c)[1] if self.size(c) != UNKNOWN else (UNKNOWN,)))))
        if b == 'empty':
            c = self.content(env, t)
            if c == ('empty', ()):
                return one(True)
            if UNKNOWN in c[1]:
                return one(None)
            k = ('empty', c)
            if k in env:
                return one(env[k])
            return [(u, dict(env, **{}) | {k: r}, r, {}) for r in (True, False)]
        if b in ('operator[]', 'at', 'front', 'back') and n.dst is not None:
            i = vals[0] if args else ('n', 0) if b == 'front' else None
            if b == 'operator[]':
                self.inside(n, env, t, i)
            return one(('v', ('el', t, 'at', i)) if i is not None else None)
        if b in MUT_SEQ or b == 'clear':
            for v in vals:
                self.foreign(n, t, self.it(v))
            self.mutate(n, u, env, t, b)
            ret = None
            if b == 'clear':
                e = self.emptied(env, t)
                e = dict(e)
                e[('base', t)], e[('ops', t)] = 'empty', ()
            elif b in ('push_back', 'emplace_back') and len(vals) == 1:
                e = self.log(env, t, 'ins', 'end', vals[0])
            elif b == 'emplace_back' and len(vals) == 2 and isinstance(vals[0], tuple) and vals[0][0] == 'e':
                e = self.log(env, t, 'entry', vals[0][1].rsplit('::', 1)[-1], vals[1] if vals[1] is not None else UNKNOWN)
            elif b in ('insert', 'emplace') and len(vals) == 2:
                p = pos(vals[0])
                if p and p[0] == 'at':
                    self.inside(n, env, t, p[1], atmost=True)
                    p = p[1]
                e = self.log(env, t, 'ins', p, vals[1])
                ret = vals[0] if p is not None else None
            elif b == 'erase' and len(vals) == 1:
                p = pos(vals[0])
                if p and p[0] == 'at':
                    self.inside(n, env, t, p[1])
                    p = p[1]
                elif p == 'end':
                    self.bad('erases the end of the list', 'erase-end')
                e = self.log(env, t, 'del', p)
                ret = vals[0] if p is not None else None
            elif b == 'erase' and len(vals) == 2:
                e = self.log(env, t, 'delr', pos(vals[0]), pos(vals[1]))
            elif b == 'pop_back':
                e = self.log(env, t, 'del', 'last')
            elif b == 'shrink_to_fit':
                e = env
            elif b == 'swap' and len(args) == 1:
                s = self.tag(args[0], u, env)
                if s is None or env.get(('cont', s)) not in SEQ:
                    e = self.lose(env, t)
                else:
                    self.mutate(n, u, env, s, b)
                    e = dict(env)
                    for k in ('base', 'ops', 'lost'):
                        for x, y in ((s, t), (t, s)):
                            e.pop((k, y), None)
                            if (k, x) in env:
                                e[(k, y)] = env[(k, x)]
            else:
                e = self.lose(env, t)
            return one(ret if ret is not None else ('s', ('it', t, 'seq', 0)) if b in ('insert', 'emplace', 'erase') else None, e)
        return Cont.member(self, n, u, env, kind)

    def iter_call(self, n, u, env, cls):
        b, obj, args = n.base, n.obj, n.args
        vals = [self.ev(a, u, env) for a in args]
        its = [self.it(v) for v in vals]
        i = its[0] if its else None
        if n.raw.get('k') != 'ctor' and any(j is not None and env.get(('cont', j[1])) in SEQ for j in its + [self.it(self.get(obj, u, env)) if obj is not None else None]):
            if b in ('next', 'operator+'):
                if obj is not None:
                    i, vals = self.it(self.get(obj, u, env)), [None] + vals
                k = vals[1] if len(vals) > 1 else ('n', 1)
                p = add(i[3], k) if i is not None and i[2] == 'at' and k is not None else None
                return [(u, env, ('s', ('it', i[1], 'at', p)) if p is not None else ('s', ('it', i[1], 'seq', 0)) if i is not None else None, {})]
            if b in ('distance', 'operator-') and len(vals) + (obj is not None) == 2:
                x, y = its if obj is None else (its[0], self.it(self.get(obj, u, env)))
                if b == 'operator-' and obj is None:
                    x, y = y, x
                if x and y and x[1] == y[1]:
                    if x[2] == 'at' and x[3] == ('n', 0) and y[2] == 'at':
                        return [(u, env, y[3], {})]
                    if x[2] == 'rest' and y[2] == 'end':
                        return [(u, env, ('v', ('removed', x[3])), {})]
                    if x[2] == 'at' and x[3] == ('n', 0) and y[2] == 'end':
                        c = self.content(env, x[1])
                        return [(u, env, ('v', ('size', (c[0], self.size(c)[1] if self.size(c) != UNKNOWN else (UNKNOWN,)))), {})]
                return [(u, env, None, {})]
            if b == 'find' and obj is None and len(vals) == 3 and i is not None:
                c = self.content(env, i[1])
                whole = i[2] == 'at' and i[3] == ('n', 0) and its[1] is not None and its[1][1] == i[1] and its[1][2] == 'end'
                if not whole or vals[2] is None or UNKNOWN in c[1]:
                    return [(u, env, ('s', ('it', i[1], 'seq', 0)), {}), (u, env, ('s', ('it', i[1], 'end', 0)), {})]
                k = ('has', c, vals[2])
                out = []
                for r in (True, False):
                    if env.get(k, r) == r:
                        out.append((u, dict(env) | {k: r}, ('s', ('it', i[1], 'at', ('v', ('found', c, vals[2])))) if r else ('s', ('it', i[1], 'end', 0)), {}))
                return out
            if b == 'remove_if' and obj is None and len(vals) == 3 and i is not None:
                t = i[1]
                self.mutate(n, u, env, t, b)
                whole = i[2] == 'at' and i[3] == ('n', 0) and its[1] is not None and its[1][1] == t and its[1][2] == 'end'
                return [(u, self.log(env, t, 'rmif', vals[2] if whole else None), ('s', ('it', t, 'rest', vals[2])) if whole and vals[2] is not None else None, {})]
            if b in ('operator++', 'operator--', 'operator+=', 'operator-=') and obj is not None:
                o = self.it(self.get(obj, u, env))
                if o is not None:
                    if b == 'operator++' and o[2] == 'end':
                        self.bad('moves an iterator past the end', 'past-end')
                        return []
                    p = add(o[3], ('n', 1)) if b == 'operator++' and o[2] == 'at' else None
                    v = ('s', ('it', o[1], 'at', p)) if p is not None else ('s', ('it', o[1], 'seq', 0))
                    return [(u, self.put(env, obj, v), self.get(obj, u, env) if args else v, {})]
        return Cont.iter_call(self, n, u, env, cls)

    def outcall(self, n, u, env):
        b = n.base
        if n.raw.get('k') == 'ctor' and n.cls == S + 'KeyValuePair' and len(n.args) == 2 and n.obj is not None:
            v = [self.ev(a, u, env) for a in n.args]
            return [(u, self.put(env, n.obj, ('v', ('pair', v[0], v[1]))), None, {})]
        if b in ('Lock', 'Unlock') and n.obj is not None and self.guard is not None and norm(n.obj) == self.guard:
            e = dict(env)
            e[('held',)] = max(0, e.get(('held',), 0) + (1 if b == 'Lock' else -1))
            return [(u, e, None, {})]
        if b == 'Any' and len(n.args) == 1:
            d = self.ev(n.args[0], u, env)
            if isinstance(d, tuple) and d[0] == 's':
                k = ('any', d)
                o = env.get(('ops', d[1][1])) if d[1][0] == 'enum' else None
                if d[1] == ('empty',):
                    return [(u, env, False, {})]
                if o and UNKNOWN not in o:
                    return [(u, dict(env) | {k: True}, True, {})]
                return [(u, dict(env) | {k: r}, r, {}) for r in (True, False) if env.get(k, r) == r]
        if b == 'operator()' and n.cls == S + 'signal':
            e = dict(env)
            e[('fired',)] = min(2, e.get(('fired',), 0) + 1)
            e[('diff',)] = self.ev(n.args[0], u, env) if n.args else None
            x = env.get(self.PI) if self.PI else None
            e[('firedwith',)] = (e.get(('held',), 0) > 0, x)
            return [(u, e, None, {})]
        if b == 'make_optional_value' and len(n.args) == 1:
            return [(u, env, ('s', ('just', self.ev(n.args[0], u, env))), {})]
        if b == 'operator()' and n.raw.get('bool') and len(n.args) == 2 and not n.cls.endswith('::function'):
            v = [self.ev(a, u, env) for a in n.args]
            if 'Equal' in n.cls and None not in v:
                k = ('same', frozenset(v))
                return [(u, dict(env) | {k: r}, r, {}) for r in (True, False) if env.get(k, r) == r]
        return None


def explorations(ctx, P, mode):
    """-> (root, class kind, exploration, arguments, paths, initial state)"""
    snap = P.snap
    # generic list
    for cls, fn, own in ((S + 'GenericList', 'collection/GenericList.h', False), (S + 'TransactionalList', 'collection/TransactionalList.h', True)):
        if mode == 'P15' and not own:
            continue
        need = {'': ['_items', '_itemsHolder']} if not own else {'::Transaction': ['_impl', '_oldItems', '_newItems', '_newItemsHolder', '_cachedDiff'], '::ImplData': ['Items', 'Guard'], '': ['_impl']}
        F = {}
        for c2, fs in need.items():
            for f in fs:
                F[c2, f] = snap.field(cls + c2, f)
                if not F[c2, f]:
                    ctx.broken('%s of %s vanished' % (f, cls + c2))
        c = by_file(fn)
        E = Expander(P, mk_transparent(c.files), models=locky_models)
        E.alias = False
        done = set()
        for r in roots(P, c):
            tr = r.scls == cls + '::Transaction'
            if not tr and r.scls != cls or r.fk in ('ctor', 'dtor') or r.base == 'operator=':
                continue
            sig = (r.sn, tuple(p['t'].split('<')[0] for p in r.params))
            if sig in done:
                continue
            done.add(sig)
            this = ('this',)
            p = {}
            if not own:
                p = {'N': ('fld', this, F['', '_items']), 'H': ('fld', this, F['', '_itemsHolder']), 'G': None}
                states = [('N', False), ('N', True)]
            else:
                impl = ('deref', ('fld', this, F['::Transaction' if tr else '', '_impl']))
                p = {'I': ('fld', impl, F['::ImplData', 'Items']), 'G': ('deref', ('fld', impl, F['::ImplData', 'Guard']))}
                states = [('I', True)]
                if tr:
                    p.update({'O': ('fld', this, F['::Transaction', '_oldItems']), 'N': ('fld', this, F['::Transaction', '_newItems']), 'H': ('fld', this, F['::Transaction', '_newItemsHolder']), 'D': ('fld', this, F['::Transaction', '_cachedDiff'])})
                    states = [('I', False), ('N', False, False), ('N', False, True), ('N', True, False), ('N', True, True)]
            g = E.run(r)
            par = [('rpar', i, q['n']) for i, q in enumerate(r.params)]
            pres = [None]
            if r.base == 'Apply' and par:
                pres = ['Added', 'Removed', 'Updated']
            for st in states:
                for pre in pres:
                    env = {('erased',): 0, ('held',): 0, ('fired',): 0}

                    def cont(t, base, shared):
                        env[('cont', t)], env[('base', t)], env[('ops', t)], env[('lost', t)] = 'vector', base, (), True
                        env[('shared', t)] = shared
                    if own:
                        cont('I', 'I', True)
                        env[p['I']] = ('s', 'I')
                        if tr:
                            env[p['O']] = ('s', 'I')
                            env[p['N']], env[p['H']], env[p['D']] = False, False, False
                            if st[0] == 'N':
                                cont('N', 'N', st[1])
                                env[p['N']] = ('s', 'N')
                                env[p['H']] = ('s', ('holder', 'N')) if st[1] else False
                                env[p['D']] = ('s', ('diff0',)) if st[2] else False
                    else:
                        cont('N', 'N', st[1])
                        env[p['N']] = ('s', 'N')
                        env[p['H']] = ('s', ('holder', 'N')) if st[1] else False
                    if pre:
                        item = ('fld', par[0], 'Item')
                        env[('fld', par[0], 'Op')] = ('e', 'stingray::CollectionOp::' + pre)
                        env[('fld', item, 'Key')] = ('v', ('rpar', 'key'))
                        env[('fld', item, 'Value')] = ('v', ('rpar', 'value'))
                    else:
                        for q in par:
                            env[q] = ('v', q)
                    what = '%s%s' % ('committed items' if st[0] == 'I' else 'own items' + (', an enumeration is alive' if st[1] else ', no enumeration is alive') + (', difference known' if len(st) > 2 and st[2] else ''),
                                     ', operation ' + pre if pre else '')
                    a = Seq(ctx, P, g, r, what, mode, p['G'])
                    a.PI = p.get('I')
                    a.pre = pre
                    try:
                        a.run([('ok', env)])
                    except AnalysisBroken:
                        ctx.count('operations_given_up')
                        continue
                    ctx.count('explorations')
                    ctx.count('abstract_states', a.visited)
                    yield r, own, tr, a, par, p, st
            ctx.count('operations')
            ctx.sample(r.where())
