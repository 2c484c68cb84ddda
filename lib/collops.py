"""The generic collections, explored operation by operation from every abstract content; P15 and P21 judge the same explorations."""
from engine import *
from locks import *
from comp import by_file, roots
from cont import *
from absx import norm, under

S = 'stingray::'
# class: (file, kind, pointer to the items, holder of the items)
COLL = {
    S + 'GenericSet': ('collection/GenericSet.h', 'set', '_items', '_itemsHolder'),
    S + 'GenericDictionary': ('collection/GenericDictionary.h', 'dict', '_map', '_mapHolder'),
    S + 'SortedMultiSet': ('collection/SortedMultiSet.h', 'mset', '_items', '_itemsHolder'),
    S + 'MultiMapDictionary': ('collection/MultiMapDictionary.h', 'mdict', '_map', '_mapHolder'),
    S + 'GenericList': ('collection/GenericList.h', 'list', '_items', '_itemsHolder'),
}
SNAPSHOT = {'shared', 'foreign', 'enum-mixed', 'enum-bare', 'enum-other'}
KEYED = {'Contains', 'Count', 'Find', 'ReverseFind', 'Add', 'Remove', 'RemoveFirst', 'RemoveAll', 'ContainsKey', 'CountKey', 'Get', 'TryGet', 'GetFirst', 'TryGetFirst', 'GetAll', 'Set'}


class Op(Cont):
    def __init__(self, ctx, P, g, r, what, mode, key):
        Cont.__init__(self, g, key)
        self.ctx, self.P, self.r, self.what, self.mode = ctx, P, r, what, mode

    def bad(self, msg, key, always=False):
        if always or (key in SNAPSHOT or self.mode == 'P21') and (self.mode == 'P15') == (key in SNAPSHOT) or key == 'foreign':
            self.ctx.report('%s (%s): %s; path: %s' % (self.r.where(), self.what, msg, self.trace()), key=(self.r.sn, key))

    def step(self, n, u, env):
        if n.op == 'throw' and u == 'ok':
            return ['throws']
        if n.op in ('catch', 'enter_catch') and u == 'throws':
            return ['ok']
        return None

    def losing(self, u):
        return 'lost' if u == 'ok' else u


def container_kind(r):
    for k in sorted(CLASSES, key=len, reverse=True):
        if ('::' + k + '<') in r.n.split('::', 2)[-1].replace('Generic', '') or '<std::' + k + '<' in r.n or '<stingray::' + k + '<' in r.n:
            return k
    return None


def explorations(ctx, P, mode):
    """-> (root, method, kind, exploration, initial state, ptr path, holder path) for every operation and initial state"""
    snap = P.snap
    for cls in sorted(COLL):
        fn, kind, ptr, hold = COLL[cls]
        ptr, hold = snap.field(cls, ptr), snap.field(cls, hold)
        if not ptr or not hold:
            ctx.broken('the items or the holder of %s vanished' % cls)
        PT, HD = ('fld', ('this',), ptr), ('fld', ('this',), hold)
        c = by_file(fn)
        E = Expander(P, mk_transparent(c.files), models=locky_models)
        E.alias = False
        done = set()
        for r in roots(P, c):
            nested = r.scls.startswith(cls + '::') and r.base == 'GetEnumerator'
            if r.scls != cls and not nested or r.fk == 'dtor':
                continue
            hf = [f for f, t in snap.cur_fields(r.scls).items() if 'shared_ptr' in t] if nested else []
            ck = container_kind(r) or {'mset': 'multiset', 'mdict': 'multimap', 'list': 'vector'}.get(kind)
            if ck is None:
                continue
            b = r.base
            # one instantiation per kind of container
            sig = (r.sn, ck, tuple(p['t'].split('<')[0] for p in r.params))
            if sig in done:
                continue
            done.add(sig)
            g = E.run(r)
            par = [('rpar', i, p['n']) for i, p in enumerate(r.params)]
            copy = len(par) == 1 and r.params[0].get('rec') == cls and (r.fk == 'ctor' or b == 'operator=')
            if r.fk == 'ctor':
                cont0 = [None]
            else:
                ns = (0, 1) if ck in UNIQUE else (0, 1, 2)
                gs = ('no', 'yes')
                cont0 = [(n, x, y) for n in ns for x in gs for y in gs] if kind != 'list' else [(0, 'no', 'no'), (None, None, None)]
            for c0 in cont0:
                for live in ((False,) if r.fk == 'ctor' else (False, True)):
                    env = {('erased',): 0}
                    if c0 is not None:
                        n0, b0, a0 = c0
                        env[('cont', 'I')] = ck
                        if n0 is not None:
                            env[('in', 'I')], env[('bef', 'I')], env[('aft', 'I')] = n0, b0, a0
                        else:
                            env[('lost', 'I')] = True
                        if n0 == 1 and kind in ('dict', 'mdict'):
                            env[('val', 'I')] = ('v', 'old')
                        env[('shared', 'I')] = live
                        for f in hf:
                            env[('fld', ('this',), f)] = ('s', ('holder', 'I'))
                        env[PT] = ('s', 'I')
                        env[HD] = ('s', ('holder', 'I')) if live else False
                    others = [None]
                    if copy:
                        others = [(1, 'yes', 'no'), (0, 'no', 'yes')] if kind != 'list' else [(None, None, None)]
                    for o in others:
                        e0 = dict(env)
                        if o is not None:
                            e0[('cont', 'O')] = ck
                            e0[('shared', 'O')] = True
                            e0[('fld', par[0], ptr)] = ('s', 'O')
                            if o[0] is not None:
                                e0[('in', 'O')], e0[('bef', 'O')], e0[('aft', 'O')] = o
                            else:
                                e0[('lost', 'O')] = True
                        what = []
                        if c0 is not None and c0[0] is not None:
                            what.append('%s with the key, %s' % ({0: 'no element', 1: 'one element', 2: 'two elements'}[c0[0]], 'others' if 'yes' in c0 else 'no others'))
                        what.append('an enumeration is alive' if live else 'no enumeration is alive')
                        a = Op(ctx, P, g, r, ', '.join(what), mode, par[0] if b in KEYED and par else None)
                        a.kind, a.ck = kind, ck
                        try:
                            a.run([('ok', e0)])
                        except AnalysisBroken:
                            ctx.count('operations_given_up')
                            continue
                        ctx.count('explorations')
                        ctx.count('abstract_states', a.visited)
                        ctx.count('lookups', a.lookups)
                        ctx.count('changes', a.writes)
                        a.nested = nested
                        yield r, b, kind, a, c0, o, PT, HD, par
            ctx.count('operations')
            ctx.sample(r.where())
