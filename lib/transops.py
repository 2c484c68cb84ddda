"""Transactional collections, explored operation by operation from every consistent state of items, added and removed; P15 and P16 judge the same explorations."""
import re
from engine import *
from locks import *
from comp import by_file, roots
from cont import *
from absx import norm, under, bare_cast
from collops import SNAPSHOT

S = 'stingray::'
TRANS = {S + 'TransactionalSet': ('collection/TransactionalSet.h', 'set'), S + 'TransactionalDictionary': ('collection/TransactionalDictionary.h', 'dict')}
DIRECTION = re.compile(r'(Forward|Reverse)(Find)?EnumerationDirection')
KEYED = {'Contains', 'ContainsKey', 'Find', 'ReverseFind', 'Get', 'TryGet', 'Add', 'Set', 'Remove'}
# key state: (in items, in added, in removed)
STATES = {'set': [(0, 0, 0), (0, 1, 0), (1, 0, 0), (1, 0, 1)], 'dict': [(0, 0, 0), (0, 1, 0), (1, 0, 0), (1, 0, 1), (1, 1, 1)]}
OTHERS = [(('no', 'no'),) * 3, (('yes', 'yes'), ('no', 'no'), ('no', 'no')), (('yes', 'no'), ('no', 'yes'), ('yes', 'no')), (('no', 'yes'), ('yes', 'no'), ('no', 'no')), (('no', 'yes'), ('no', 'no'), ('no', 'yes'))]

FEW = [OTHERS[0], (('yes', 'no'), ('no', 'no'), ('no', 'no')), (('no', 'no'), ('no', 'yes'), ('no', 'no'))]


class Trans(Cont):
    def __init__(self, ctx, P, g, r, what, mode, key, guard):
        Cont.__init__(self, g, key)
        self.ctx, self.P, self.r, self.what, self.mode, self.guard = ctx, P, r, what, mode, guard

    def bad(self, msg, key, always=False):
        if always or (self.mode == 'P15') == (key in SNAPSHOT or key == 'foreign'):
            self.ctx.report('%s (%s): %s; path: %s' % (self.r.where(), self.what, msg, self.trace()), key=(self.r.sn, key))

    def step(self, n, u, env):
        if n.op == 'throw' and u == 'ok':
            return ['throws']
        if n.op in ('catch', 'enter_catch') and u == 'throws':
            return ['ok']
        return None

    def losing(self, u):
        return 'lost' if u == 'ok' else u

    def name(self, t):
        return {'I': 'items', 'A': 'added elements', 'R': 'removed elements'}.get(t, 'content')

    def claims(self, t, env):
        v = env.get(self.PA) if self.PA else None
        return isinstance(v, tuple) and v[0] == 's' and v[1] == t

    def pkey(self, el, env):
        return ('pk', self.eltok((el[0], el[1], el[2], 'second'), env) if env.get(('cont', el[0])) in MAPS else 'K')

    def decide(self, n, u, env, vals):
        return self.fork(u, env, vals)

    def fork(self, u, env, vals):
        ks = None
        if len(vals) == 2 and all(isinstance(v, tuple) and v[0] == 'v' for v in vals):
            if vals[0] == vals[1]:
                return [(u, env, True, {})]
            ks = ('veq', frozenset(vals))
            r = same(env, *vals)
            if r is not None:
                return [(u, env, r, {})]
        out = []
        for t in (True, False):
            e = env
            if ks is not None:
                e = dict(env)
                e[ks] = t
            out.append((u, e, t, {}))
        return out

    @staticmethod
    def holder(v):
        return v[1][1] if isinstance(v, tuple) and v[0] == 's' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'holder' else None

    def outcall(self, n, u, env):
        b = n.base
        if n.raw.get('k') == 'ctor' and not n.args and isinstance(n.obj, tuple) and n.obj[0] == 'tmp':
            return [(u, self.put(env, n.obj, ('v', 'fresh')), None, {})]
        if b in ('Lock', 'Unlock') and n.obj is not None and norm(n.obj) == self.guard:
            e = dict(env)
            e[('held',)] = max(0, e.get(('held',), 0) + (1 if b == 'Lock' else -1))
            return [(u, e, None, {})]
        if b in ('Bind', 'make_shared_ptr') and len(n.args) >= 2:
            vals = [self.ev(a, u, env) for a in n.args]
            hs = [self.holder(v) for v in vals]
            m = DIRECTION.search(n.raw.get('fn') or '')
            if m and any(hs):
                d = (m.group(1), bool(m.group(2)), 'DiffEnumerator' in n.raw['fn'])
                rest = tuple(v for h, v in zip(hs, vals) if h is None)
                if b == 'Bind':
                    rest = tuple(v for v, a in list(zip(vals, n.args))[1:] if self.holder(v) is None)
                return [(u, env, ('s', ('view', d, tuple(h for h in hs if h), rest)), {})]
        if b == 'MakeSimpleEnumerable' and len(n.args) == 1:
            v = self.ev(n.args[0], u, env)
            if isinstance(v, tuple) and v[0] == 's' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'view':
                return [(u, env, v, {})]
        if b == 'operator()' and n.cls == 'stingray::signal':
            e = dict(env)
            e[('fired',)] = min(2, e.get(('fired',), 0) + 1)
            e[('diff',)] = self.ev(n.args[0], u, env) if n.args else None
            e[('firedwith',)] = (e.get(('held',), 0) > 0,) + tuple(e.get((k, self.items(e)), '?') for k in ('in', 'bef', 'aft', 'val'))
            return [(u, e, None, {})]
        return None

    def items(self, env):
        v = env.get(self.PI)
        return v[1] if isinstance(v, tuple) and v[0] == 's' else None


def same(env, a, b):
    """whether two value tokens are known to be equal"""
    if a == b:
        return True
    cl = {a}
    pairs = [(set(k[1]), r) for k, r in env.items() if isinstance(k, tuple) and len(k) == 2 and k[0] == 'veq' and isinstance(k[1], frozenset)]
    grown = True
    while grown:
        grown = False
        for p, r in pairs:
            if r is True and p & cl and not p <= cl:
                cl |= p
                grown = True
    if b in cl:
        return True
    for p, r in pairs:
        if r is False and len(p) == 2:
            x, y = sorted(p, key=repr)
            for m, o in ((x, y), (y, x)):
                if m in cl and same_true(pairs, o, b):
                    return False
    return None


def same_true(pairs, a, b):
    cl = {a}
    grown = True
    while grown:
        grown = False
        for p, r in pairs:
            if r is True and p & cl and not p <= cl:
                cl |= p
                grown = True
    return b in cl


def explorations(ctx, P, mode):
    """-> (root, kind, whether it is a transaction's operation, exploration, initial key state, others, paths)"""
    snap = P.snap
    for cls in sorted(TRANS):
        fn, kind = TRANS[cls]
        F = {}
        for c2, f in (('::Transaction', '_impl'), ('::Transaction', '_added'), ('::Transaction', '_addedHolder'), ('::Transaction', '_removed'), ('::Transaction', '_removedHolder'), ('::ImplData', 'Items'),
                      ('::ImplData', 'ItemsHolder'), ('::ImplData', 'Guard'), ('', '_impl')):
            x = snap.field(cls + c2, f)
            if not x:
                ctx.broken('%s of %s vanished' % (f, cls + c2))
            F[c2, f] = x
        c = by_file(fn)
        E = Expander(P, mk_transparent(c.files), models=locky_models)
        E.alias = False
        for r in roots(P, c):
            own = r.scls == cls + '::Transaction'
            if not (own or r.scls == cls) or r.fk in ('ctor', 'dtor'):
                continue
            b = r.base
            this = ('this',)
            impl = ('deref', ('fld', this, F['::Transaction' if own else '', '_impl']))
            p = {'PI': ('fld', impl, F['::ImplData', 'Items']), 'HI': ('fld', impl, F['::ImplData', 'ItemsHolder']), 'G': ('deref', ('fld', impl, F['::ImplData', 'Guard']))}
            if own:
                p.update({'PA': ('fld', this, F['::Transaction', '_added']), 'HA': ('fld', this, F['::Transaction', '_addedHolder']),
                          'PR': ('fld', this, F['::Transaction', '_removed']), 'HR': ('fld', this, F['::Transaction', '_removedHolder'])})
            g = E.run(r)
            par = [('rpar', i, q['n']) for i, q in enumerate(r.params)]
            key = par[0] if b in KEYED and par else None
            given = par[1] if len(par) > 1 else None
            pres = [None]
            if b == 'Apply' and par:
                item = ('fld', par[0], 'Item')
                key = item if kind == 'set' else ('fld', item, 'Key')
                given = ('fld', item, 'Value') if kind == 'dict' else None
                pres = ['Added', 'Removed', 'Updated']
            for st in STATES[kind] if own else [(0, 0, 0), (1, 0, 0)]:
                for oth in (FEW if b == 'RemoveWhere' else OTHERS) if own else OTHERS[:2]:
                    for live in (('', 'IAR') if b == 'RemoveWhere' and oth != OTHERS[0] else ('', 'IAR', 'I', 'A', 'R')) if own else ('', 'I'):
                        for pre in pres:
                            env = {('erased',): 0, ('held',): 0, ('fired',): 0}
                            for k, t, x, gr in zip(('PI', 'PA', 'PR'), 'IAR', st, oth):
                                if k not in p:
                                    continue
                                env[('cont', t)] = 'set' if kind == 'set' else 'map'
                                env[('in', t)], env[('bef', t)], env[('aft', t)] = x, gr[0], gr[1]
                                env[('shared', t)] = t in live
                                env[p[k]] = ('s', t)
                                env[p['H' + k[1]]] = ('s', ('holder', t)) if t in live else False
                                if x and kind == 'dict':
                                    env[('val', t)] = ('v', 'new') if t == 'A' else ('v', 'old')
                            if kind == 'dict' and st == (1, 1, 1):
                                env[('veq', frozenset((('v', 'new'), ('v', 'old'))))] = False
                            if given is not None:
                                env[given] = ('v', 'given')
                            if pre:
                                env[('fld', par[0], 'Op')] = ('e', 'stingray::CollectionOp::' + pre)
                            what = 'key %s, %s, %s%s' % ({(0, 0, 0): 'unknown', (0, 1, 0): 'added', (1, 0, 0): 'in the items', (1, 0, 1): 'in the items and removed', (1, 1, 1): 'in the items, removed and added again'}[st],
                                                         'other elements' if oth != OTHERS[0] else 'no other elements', 'enumerations alive' if live else 'no enumeration alive', ', operation ' + pre if pre else '')
                            a = Trans(ctx, P, g, r, what, mode, key, p['G'])
                            a.PI, a.PA = p['PI'], p.get('PA')
                            a.kind, a.given, a.live, a.pre = kind, given, live, pre
                            try:
                                a.run([('ok', env)])
                            except AnalysisBroken:
                                ctx.count('operations_given_up')
                                continue
                            ctx.count('explorations')
                            ctx.count('abstract_states', a.visited)
                            yield r, kind, own, a, st, oth, p, par
            ctx.count('operations')
            ctx.sample(r.where())
