"""Observable collections announce every change exactly once, with the right kind and element."""
from engine import *
from locks import *
from comp import by_file, entry_graphs
from cond import *

RULE = ('on every path: a successful change of the wrapped collection is followed, before the next change and before the operation returns, by exactly one notification of the matching kind that carries the '
        'changed element, under the collection lock; no notification without a change; populators send each element once, as added; views pass each kind of change on with its meaning')
EXPLAIN = 'typestate (change pending / announced) with value tracking of the kind and provenance of the arguments over the flow graph of every operation; views are explored once per kind of change'
ASSUMES = ['GenericList, GenericSet, GenericDictionary and the multi collections report honestly whether they changed (their Add/Remove results)']

S = 'stingray::'
ADD, SET, REM, BULK = {'Add', 'Insert', 'AddMany'}, {'Set'}, {'Remove', 'RemoveAt', 'RemoveFirst', 'TryRemove'}, {'Clear', 'RemoveAll', 'RemoveWhere'}
LOOKUP = {'ContainsKey', 'Contains', 'TryGet'}
DIRECT = [('collection/ObservableListWrapper.h', 'ObservableListWrapper', '_wrapped'), ('collection/ObservableSetWrapper.h', 'ObservableSetWrapper', '_wrapped'),
          ('collection/ObservableDictionaryWrapper.h', 'ObservableDictionaryWrapper', '_wrapped'), ('collection/MultiMapObservableDictionary.h', 'MultiMapObservableDictionary', '_wrapped'),
          ('collection/SortedObservableMultiSet.h', 'SortedObservableMultiSet', '_wrapped'), ('ObservableValue.h', 'ObservableValue', '_val')]
PASS, NONE = 'pass', 'none'
# view -> {kind: what is announced}
VIEWS = [
    ('collection/ObservableDictionaryKeyValue.h', 'ReadonlyObservableDictionaryKeyValue', {'Added': 'value', 'Updated': 'value', 'Removed': 'null'}),
    ('collection/TransactionalDictionaryKeyValue.h', 'ReadonlyTransactionalDictionaryKeyValue', {'Added': 'value', 'Updated': 'value', 'Removed': 'null'}),
    ('collection/ObservableSetEntry.h', 'ReadonlyObservableSetEntry', {'Added': 'true', 'Removed': 'false'}),
    ('collection/DictionaryKeysSet.h', 'ObservableDictionaryKeysSet', {'Added': PASS, 'Removed': PASS, 'Updated': NONE}),
    ('collection/ListCaster.h', 'ObservableListCaster', {'Added': PASS, 'Removed': PASS, 'Updated': PASS}),
    ('collection/SetCaster.h', 'ObservableSetCaster', {'Added': PASS, 'Removed': PASS, 'Updated': PASS}),
    ('collection/DictionaryCaster.h', 'ObservableDictionaryCaster', {'Added': PASS, 'Removed': PASS, 'Updated': PASS}),
]


def is_notify(n):
    return n.op in ('call', 'enter') and n.cls == S + 'signal' and n.base == 'operator()'


def is_slot(n):
    return n.op in ('call', 'enter') and n.cls == S + 'function' and n.base == 'operator()' and isinstance(n.obj, tuple) and root_of(n.obj)[0] in ('par', 'rpar')


def run(ctx, P):
    snap = P.snap
    for f, c, w in DIRECT:
        rw = snap.field(S + c, w)
        rs = snap.field(S + c, '_onChanged')
        if rw is None or rs is None:
            ctx.broken('state of %s vanished' % c)
        for r, g in entry_graphs(P, by_file(f)):
            if r.scls != S + c:
                continue
            if r.fk in ('ctor', 'dtor'):
                continue
            ctx.count('operations')
            ctx.count('graph_nodes', len(g.nodes))
            if any(is_slot(n) and len(n.args) and notify_op_arg(n) for n in g.nodes):
                populator(ctx, c, r, g)
            elif c == 'ObservableValue' and any(is_slot(n) for n in g.nodes):
                continue
            else:
                direct(ctx, (S + c, rw), (S + c, rs), c, r, g)
    for f, c, exp in VIEWS:
        seen = 0
        for r, g in entry_graphs(P, by_file(f)):
            if r.scls != S + c:
                continue
            if any(is_slot(n) and notify_op_arg(n) for n in g.nodes):
                ctx.count('operations')
                populator(ctx, c, r, g)
            if any(is_notify(n) and (fldq(n.obj) or ('', ''))[1] == snap.field(S + c, '_onChanged') for n in g.nodes) and r.fk not in ('ctor', 'dtor'):
                seen += 1
                ctx.count('graph_nodes', len(g.nodes))
                for k in sorted(exp):
                    ctx.count('view_cases')
                    view(ctx, (S + c, snap.field(S + c, '_onChanged')), c, r, g, k, exp[k])
        if not seen:
            ctx.broken('no change handler found in %s' % c)
    ctx.need('mutation sites', ctx.stats.get('mutation_sites', 0), 18)
    ctx.need('notification sites', ctx.stats.get('notification_sites', 0), 18)
    ctx.need('populators', ctx.stats.get('populators', 0), 6)


def notify_op_arg(n):
    ft = n.raw.get('n', '')
    return 'CollectionOp' in ft


def track_enums(n, en):
    """enumerators held by temporaries"""
    if n.op in ('wr', 'bind') and isinstance(n.p, tuple) and n.p and n.p[0] in LOCAL:
        d = dict(en)
        d.pop(n.p, None)
        e = value_enum(n.v, en)
        if e:
            d[n.p] = e
        return frozenset(d.items())
    if n.op == 'call' and n.raw.get('k') == 'ctor' and isinstance(n.obj, tuple) and n.obj and n.obj[0] in LOCAL:
        d = dict(en)
        d.pop(n.obj, None)
        if len(n.args) == 1:
            e = value_enum(n.args[0], en)
            if e:
                d[n.obj] = e
        return frozenset(d.items())
    return en


def value_enum(v, en):
    v = bare(v)
    if isinstance(v, tuple) and v and v[0] == 'enum':
        return str(v[1]).rsplit('::', 1)[-1]
    return dict(en).get(v)


def direct(ctx, wq, sq, cname, r, g):
    C = Conds(g)
    bad = {}
    listy = cname == 'ObservableListWrapper'
    dicty = cname == 'ObservableDictionaryWrapper'
    valuey = cname == 'ObservableValue'
    muts, nots = set(), set()

    def mutation(n):
        if n.op not in ('call', 'enter', 'wr'):
            return None
        if n.op == 'wr':
            return 'val' if valuey and fldq(n.p) == wq else None
        if fldq(n.obj) != wq or n.raw.get('const') or n.raw.get('k') in ('ctor', 'dtor'):
            return None
        if valuey:
            return 'val' if n.base in ('operator=', 'assign', 'swap') else None
        for k, s in (('add', ADD), ('set', SET), ('rem', REM), ('bulk', BULK)):
            if n.base in s:
                return k
        return None

    def args_ok(kind, margs, nargs, late, n):
        nargs = list(nargs)
        if kind in ('add', 'set', 'val'):
            i = 0
            for a in margs:
                while i < len(nargs) and not C.same(a, nargs[i]):
                    i += 1
                if i == len(nargs):
                    return 'an element other than the one stored'
                i += 1
            if listy and len(nargs) == 2 and len(margs) == 1 and not last_index(nargs[0], late):
                return 'an index other than that of the new last element'
            return None
        if margs and nargs and not C.same(margs[0], nargs[0]) and not C.same(margs[-1], nargs[0]):
            return 'an element other than the one removed'
        for a in nargs[1:]:
            if any(C.same(a, m) for m in margs):
                continue
            rt = root_of(bare(a))
            if rt in late or (isinstance(a, tuple) and fldq(a) == wq):
                return 'a value that was read after the removal'
            if isinstance(rt, tuple) and rt and rt[0] in ('par', 'rpar') and len(margs) < 2:
                return 'a value that is not the removed one'
        return None

    def last_index(a, late):
        v = C.single(a)
        if isinstance(v, tuple) and v[0] == 'bin' and v[1] == '-' and v[3] == ('lit', 1):
            m = C.call_of(v[2])
            return m is not None and m.base == 'GetCount' and bare(v[2]) in late
        m = C.call_of(a)
        return m is not None and m.base == 'GetCount' and m.dst not in late

    # state: (locks, pending, enums, existence facts)
    # pending: (kind, node, args, untested result or None, locals defined since)
    def step(n, st):
        ls, pend, en, ex = st
        ls2, lse = lock_transfer(n, ls)
        en = track_enums(n, en)
        k = mutation(n)
        if k:
            muts.add((n.where()))
            if pend is not None:
                bad.setdefault(('missed', pend[1]), 'is not announced before the next change at %s' % n.where())
            if not held(ls):
                bad.setdefault(('nolock', n.i), 'is made without the lock')
            if k == 'bulk':
                bad.setdefault(('bulk', n.i), 'changes several elements with no notification for each')
            if k == 'val' and not (ex and ex[0] == 'differs'):
                bad.setdefault(('same', n.i), 'is made without finding the new value different')
            args = tuple(n.args) if n.op != 'wr' else (n.v,)
            res = n.dst if n.raw.get('bool') else None
            pend = (k, n.i, args, res, frozenset())
            return (ls2, pend, en, ex), None
        if is_notify(n) and fldq(n.obj) == sq:
            nots.add(n.where())
            if pend is None:
                bad.setdefault(('spurious', n.i), 'announces a change that was not made, or announces it twice')
            else:
                kind = pend[0]
                na = n.args if valuey else n.args[1:]
                op = None if valuey else value_enum(n.args[0], en)
                if not valuey and op is None:
                    op = enum_of(C.single(n.args[0]))
                want = {'add': {'Added'}, 'rem': {'Removed'}, 'set': {'Updated'}, 'bulk': {'Removed'}, 'val': {None}}[kind]
                if kind == 'set' and dicty:
                    e = ex[1] if ex and ex[0] == 'exists' else None
                    want = {'Updated'} if e is True else {'Added'} if e is False else set()
                if op not in want:
                    bad.setdefault(('kind', n.i), 'announces %s although the change at %s is %s' % (
                        op, g.nodes[pend[1]].where(), 'of kind ' + '/'.join(str(x) for x in want) if want else 'of a kind not established beforehand'))
                if valuey:
                    a = na[0] if na else None
                    if not (fldq(a) == wq or C.same(a, pend[2][0])):
                        bad.setdefault(('arg', n.i), 'announces a value other than the one stored')
                else:
                    w = args_ok(kind, pend[2], na, pend[4], n)
                    if w:
                        bad.setdefault(('arg', n.i), 'announces ' + w)
                if not held(ls):
                    bad.setdefault(('nolock', n.i), 'is made without the lock')
                pend = None
            return (ls2, pend, en, ex), (lse, pend, en, ex)
        if n.op == 'call' and fldq(n.obj) == wq and n.base in LOOKUP and n.dst is not None and pend is None:
            ex = ('asked', n.dst)
        if pend is not None:
            ds = set()
            if n.dst is not None:
                ds.add(n.dst)
            if n.op in ('wr', 'bind') and isinstance(n.p, tuple):
                ds.add(root_of(n.p))
            if n.op == 'call' and n.raw.get('k') == 'ctor':
                ds.add(n.obj)
            if fldq(n.obj) == wq and n.op == 'call':
                ds |= {root_of(bare(a)) for a in n.args if isinstance(a, tuple)}
            ds = {d for d in ds if isinstance(d, tuple) and d and d[0] in LOCAL}
            if ds:
                pend = pend[:4] + (pend[4] | ds,)
        if n.op == 'exit' and n.ctx.parent is None and pend is not None:
            bad.setdefault(('missed', pend[1]), 'is not announced')
        return (ls2, pend, en, ex), (lse, pend, en, ex)

    def branch(n, tv, st, key):
        ls, pend, en, ex = st
        if isinstance(key, tuple) and len(key) == 2:
            k, pol = key
            v = tv == pol
            if pend is not None and pend[3] is not None and k == pend[3]:
                if v:
                    pend = pend[:3] + (None,) + pend[4:]
                else:
                    if pend[0] == 'add':
                        ex = ('exists', True)
                    pend = None
            if ex and ex[0] == 'asked' and k == ex[1]:
                ex = ('exists', v)
            if valuey:
                m = C.call_of(k)
                if m is not None and m.base == 'operator()' and any(fldq(a) == wq for a in m.args):
                    ex = ('differs',) if not v else ('equal',)
        return ls, pend, en, ex
    ex = Explorer(g, step, branch=branch, interesting=lambda k: True)
    ex.run((frozenset(), None, frozenset(), None))
    ctx.count('mutation_sites', len(muts))
    ctx.count('notification_sites', len(nots))
    for s in sorted(muts):
        ctx.sample('change at ' + s)
    for (k, i), what in bad.items():
        n = g.nodes[i]
        ctx.report('the %s at %s %s' % ('change' if k in ('missed', 'bulk', 'same') else 'notification', n.where(), what), key=(k, cname, n.ctx.fn.sn, n.base))


def populator(ctx, cname, r, g):
    ctx.count('populators')
    bad = {}

    # state: (items fetched, announced since)
    def step(n, st):
        cnt, en = st
        en = track_enums(n, en)
        if is_slot(n) and notify_op_arg(n):
            op = value_enum(n.args[0], en)
            if op != 'Added':
                bad.setdefault(('kind', n.i), 'sends an element of the current state as %s' % op)
            return (min(cnt + 1, 2), en), (cnt, en)
        if n.op in ('call', 'enter') and n.base == 'Next' and 'IEnumerator' in n.cls:
            if cnt != 1:
                bad.setdefault(('count', n.i), 'moves on after sending an element %s' % ('not at all' if cnt == 0 else 'more than once'))
            return (0, en), (0, en)
        return (cnt, en), (cnt, en)
    Explorer(g, step).run((0, frozenset()))
    if not any(n.op in ('call', 'enter') and n.base == 'Next' for n in g.nodes):
        ctx.broken('populator %s does not enumerate' % r.where())
    for (k, i), what in bad.items():
        n = g.nodes[i]
        ctx.report('%s: %s %s' % (n.where(), short(r.sn), what), key=('pop', k, cname, r.sn))


def view(ctx, sq, cname, r, g, kind, exp):
    C = Conds(g)
    bad = {}

    def about_op(o):
        o = bare(o)
        return isinstance(o, tuple) and o and (o[0] in ('par', 'rpar') or (o[0] == 'fld' and o[2] == 'Op'))

    def truth(v):
        op, e, pol, o = C.compare(v, True)
        if op and e in ('Added', 'Removed', 'Updated') and about_op(o):
            return ((e == kind) == (op == '==')) == pol
        return None

    # state: (announcements, null-ness of temporaries and variables)
    def step(n, st):
        cnt, nu = st
        d = dict(nu)
        if n.op == 'call' and n.raw.get('k') == 'ctor' and isinstance(n.obj, tuple) and n.obj and n.obj[0] in LOCAL:
            d.pop(n.obj, None)
            if len(n.args) == 1:
                d[n.obj] = what(n.args[0], d)
            elif not n.args and n.cls in (S + 'optional', S + 'shared_ptr'):
                d[n.obj] = 'null'
        elif n.op in ('wr', 'bind') and isinstance(n.p, tuple) and n.p and n.p[0] in LOCAL and n.v != n.p:
            d[n.p] = what(n.v, d)
        elif n.op == 'call' and n.base == 'operator=' and isinstance(n.obj, tuple) and n.obj[0] in LOCAL and n.args:
            d[n.obj] = what(n.args[0], d)
        if is_notify(n) and fldq(n.obj) == sq:
            cnt += 1
            if cnt > 1:
                bad.setdefault(('twice', n.i), 'announces a change of kind %s twice' % kind)
                return (1, nu), None
            if exp == NONE:
                bad.setdefault(('none', n.i), 'announces a change of kind %s, which changes nothing here' % kind)
            elif exp == PASS:
                a = bare(n.args[0])
                v = C.single(a)
                if not (isinstance(v, tuple) and v[0] in ('par', 'rpar')) and enum_of(v) != kind:
                    bad.setdefault(('pass', n.i), 'announces a change of kind %s as %s' % (kind, enum_of(v) or show(v)))
            else:
                w = what(n.args[0], d)
                if w != exp:
                    bad.setdefault(('val', n.i), 'announces %s for a change of kind %s' % (w, kind))
        d = {k: v for k, v in d.items() if v != 'value'}
        return (cnt, frozenset(d.items())), (cnt, frozenset(d.items()))

    def what(v, d):
        v = bare(v)
        t = truth(v)
        if t is not None:
            return 'true' if t else 'false'
        if isinstance(v, tuple) and v:
            if v[0] == 'null' or v == ('gvar', 'stingray::null'):
                return 'null'
            if v[0] == 'lit':
                return 'true' if v[1] is True else 'false' if v[1] is False else 'value'
            if v in d:
                return d[v]
            if v[0] == 'cond':
                t = truth(v[1])
                if t is not None:
                    return what(v[2] if t else v[3], d)
        return 'value'

    def branch(n, tv, st, key):
        if n.op == 'br':
            t = truth(n.c)
            if t is not None and t != tv:
                return None
        elif n.op == 'switch':
            o = bare(C.single(n.c))
            lab = [str(c[1]).rsplit('::', 1)[-1] if isinstance(c, (list, tuple)) else c for c, s in zip(n.raw.get('cases', []), n.s) if s == tv]
            alln = [str(c[1]).rsplit('::', 1)[-1] if isinstance(c, (list, tuple)) else c for c in n.raw.get('cases', [])]
            if any(x in ('Added', 'Removed', 'Updated') for x in alln):
                if kind in alln:
                    return st if kind in lab else None
                return st if any(x in ('default', 'none') for x in lab) else None
        return st
    E = Explorer(g, step, branch=branch)
    E.run((0, frozenset()))
    filtered = any(n.op in ('call', 'enter') and n.base == 'operator()' and 'ompar' in n.cls for n in g.nodes)
    finals = {k[1][0] for k in E.seen if g.nodes[k[0]].op == 'exit' and g.nodes[k[0]].ctx.parent is None}
    if exp != NONE and (1 not in finals or (not filtered and 0 in finals)):
        bad[('silent', g.entry)] = 'does not announce a change of kind %s' % kind
    for (k, i), w in bad.items():
        n = g.nodes[i]
        ctx.report('%s: %s %s' % (r.where() if k == 'silent' else n.where(), short(r.sn), w), key=('view', k, cname, kind))
