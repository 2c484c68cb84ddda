"""Transactions: isolated, exclusive, committed as a whole."""
import transops
import transexcl
import merge
from transops import *
from absx import Abs

RULE = ('every operation of the transactions over sets and dictionaries is explored from every consistent state of a key (unknown, added, in the items, removed, replaced) with and without other elements and enumerations: the '
        'view (items without removed plus added) changes exactly as the operation says, the bookkeeping stays consistent, results and lookups answer for the view, the items are only changed by a commit, which makes them equal '
        'to the view, announces the difference exactly once under the lock afterwards and forgets the changes; a transaction starts only while there is no other and always ends; the merging enumerators deliver the view')
EXPLAIN = 'finite-predicate abstract interpretation with an abstract model of the three containers over the interprocedural flow graph of every operation, judged against a specification per operation'
ASSUMES = ['the standard containers and the comparers behave as specified', 'one thread at a time uses a transaction']


def run(ctx, P):
    for r, kind, own, a, st, oth, p, par in transops.explorations(ctx, P, 'P16'):
        judge(ctx, a, r, kind, own, st, oth, p, par)
    transexcl.check(ctx, P)
    merge.check(ctx, P)
    for k, m in (('operations', 40), ('explorations', 1500), ('ends_judged', 3000)):
        ctx.need(k.replace('_', ' '), ctx.stats.get(k, 0), m)


def view(kind, st, vals):
    i, a, r = st
    return vals.get('A') if a else vals.get('I') if i and not r else None


def judge(ctx, a, r, kind, own, st, oth, p, par):
    b = r.base
    i0, a0, r0 = st
    seen0 = bool(a0 or i0 and not r0)
    tok0 = (('v', 'new') if a0 else ('v', 'old')) if seen0 else None
    others = any('yes' in x for x in oth)
    pre = a.pre
    if b == 'Apply':
        b = {'Added': 'Add' if kind == 'set' else 'Set', 'Removed': 'Remove', 'Updated': 'Set' if kind == 'dict' else 'Refuse'}[pre]
    loses = b == 'Refuse' or b == 'Get' and not seen0
    for u, et in sorted(a.throws, key=repr):
        a.at(u, a.envs[et])
        if u == 'throws' and not loses and not (b == 'Commit' and (oth != transops.OTHERS[0])):
            a.bad('fails with an exception of its own', 'throws')
    ends = [(u, v, a.envs[et]) for u, v, et in sorted(a.exits, key=repr)]
    if loses and ends:
        a.bad('accepts a change it does not support' if b == 'Refuse' else 'returns although there is no such key', 'refuse')
        return
    for u, ret, env in ends:
        a.at(u, env)
        T = {}
        for k in ('I', 'A', 'R') if own else ('I',):
            v = env.get(p['P' + k])
            T[k] = v[1] if isinstance(v, tuple) and v[0] == 's' and a.known(env, v[1]) else None
        if u == 'lost' or None in T.values():
            ctx.count('ends_undecided')
            continue
        ctx.count('ends_judged')

        def must(ok, msg, key):
            if not ok:
                a.bad(msg, key)
        n = {k: env[('in', t)] for k, t in T.items()}
        gr = {k: (env[('bef', t)], env[('aft', t)]) for k, t in T.items()}
        val = {k: env.get(('val', t)) for k, t in T.items()}

        def says(x, what='its result does not say what happened'):
            if ret is True or ret is False:
                must(ret == bool(x), what, 'result')
            elif isinstance(ret, tuple) and ret[0] == 'n':
                must(ret[1] == int(x), what, 'result')
        if b != 'Commit':
            must((n['I'], gr['I']) == (i0, oth[0]) and (kind == 'set' or not i0 or val['I'] in (None, ('v', 'old'))), 'changes the items of the collection before they are committed', 'items')
            must(env.get(('fired',)) == 0, 'announces changes that are not committed', 'fired')
        if not own:
            readers(ctx, a, b, must, says, ret, env, bool(i0), ('v', 'old') if i0 else None, par, oth, 'no others' if oth == transops.OTHERS[0] else '', (('view',), T), i0)
            continue
        keep = (n['A'], gr['A'], n['R'], gr['R']) == (a0, oth[1], r0, oth[2])
        # the bookkeeping stays consistent
        if b != 'Commit' and 'chg' not in gr['I']:
            must(not n['R'] or n['I'], 'notes an element as removed that is not in the items', 'consistent')
            if kind == 'set':
                must(not (n['A'] and n['I']), 'notes an element as added that is in the items', 'consistent')
            elif n['A'] and n['I']:
                must(n['R'], 'notes a key as added that is in the items without noting the old entry as removed', 'consistent')
                x, y = val['A'], val['I']
                if x is not None and y is not None:
                    must(transops.same(env, x, y) is False, 'notes an entry as changed without it being different from the one in the items', 'consistent')
            if kind == 'dict' and n['R'] and n['I'] and val['R'] is not None and val['I'] is not None:
                must(val['R'] == val['I'], 'notes another value as removed than the items have', 'consistent')
        seen = bool(n['A'] or n['I'] and not n['R'])
        tok = (val['A'] if n['A'] else val['I']) if seen else None

        def is_(x, y):
            return x is None or y is None or transops.same(env, x, y) is not False and (transops.same(env, x, y) is True or not (x[0] == y[0] == 'v'))
        if b == 'Add':
            must(seen, 'the element is not there afterwards', 'content')
            says(not seen0)
            if kind == 'dict':
                must(is_(tok, tok0 if seen0 else ('v', 'given')), 'changes the value of a key that was there already' if seen0 else 'does not store the value it was given', 'value')
            must((gr['A'], gr['R']) == oth[1:], 'changes other elements', 'others')
        elif b == 'Set':
            must(seen and is_(tok, ('v', 'given')), 'does not store the value it was given', 'value')
            must((gr['A'], gr['R']) == oth[1:], 'changes other elements', 'others')
        elif b == 'Remove':
            must(not seen, 'the element is still there afterwards', 'content')
            says(seen0)
            must((gr['A'], gr['R']) == oth[1:], 'changes other elements', 'others')
        elif b == 'RemoveWhere':
            if seen0:
                pk = env.get(('pk', 'K' if kind == 'set' else tok0))
                must(pk is not None, 'does not look at every element', 'where-all')
                if pk is not None:
                    must(seen == (not pk) and (not seen or kind == 'set' or is_(tok, tok0)), 'does not remove exactly the elements the condition holds for', 'content')
                    if oth == transops.OTHERS[0]:
                        says(bool(pk), 'its result is not the number of removed elements')
            else:
                must(not seen, 'brings back an element', 'content')
                if oth == transops.OTHERS[0]:
                    says(0, 'its result is not the number of removed elements')
        elif b == 'Clear':
            must(not seen, 'leaves an element', 'content')
            must(not n['A'] and gr['A'] == ('no', 'no'), 'leaves added elements', 'content')
            must(gr['R'] == gr['I'], 'does not note all items as removed', 'content')
        elif b == 'Revert':
            must(not n['A'] and not n['R'] and gr['A'] == gr['R'] == ('no', 'no'), 'keeps changes that should be given up', 'content')
        elif b == 'Commit':
            dirty = a0 or r0 or 'yes' in oth[1] + oth[2]
            if not dirty:
                must(env.get(('fired',)) == 0, 'announces a commit without changes', 'fired')
                must((n['I'], gr['I']) == (i0, oth[0]), 'changes the items without changes to commit', 'items')
                continue
            must(env.get(('fired',)) == 1, 'does not announce the changes' if not env.get(('fired',)) else 'announces the changes more than once', 'fired')
            must(n['I'] == int(seen0) and (kind == 'set' or not seen0 or val['I'] in (None, tok0)), 'does not make the items equal to what the transaction showed', 'content')
            for x in (0, 1):
                if oth[1][x] == 'yes' and oth[0][x] == 'no':
                    must(gr['I'][x] != 'no', 'does not add all added elements to the items', 'content')
                if oth[2][x] == 'yes' and oth[1][x] == 'no':
                    must(gr['I'][x] != 'yes', 'does not remove all removed elements from the items', 'content')
                if oth[1][x] == oth[2][x] == 'no':
                    must(gr['I'][x] == oth[0][x], 'changes other items', 'others')
            must(not n['A'] and not n['R'] and gr['A'] == gr['R'] == ('no', 'no'), 'keeps the changes it has committed', 'forget')
            fw = env.get(('firedwith',))
            if fw:
                must(fw[0], 'announces the changes without holding the lock', 'unlocked')
                if '?' not in fw[1:4]:
                    must(fw[1:4] == (n['I'],) + gr['I'], 'announces the changes before the items have them', 'early')
            d = env.get(('diff',))
            if isinstance(d, tuple) and d[0] == 's' and d[1][0] == 'view':
                must(d[1][1] == ('Forward', False, True) and d[1][2] == ('A', 'R'), 'announces something else than the difference', 'diff')
            continue
        elif b == 'Diff':
            if isinstance(ret, tuple) and ret[0] == 's' and ret[1][0] == 'view':
                must(ret[1][1] == ('Forward', False, True) and ret[1][2] == (T['A'], T['R']), 'does not describe the difference to the items', 'diff')
            must(keep, 'changes the content', 'readonly')
        elif b == 'IsDirty':
            says(a0 or r0 or 'yes' in oth[1] + oth[2], 'answers wrongly whether there are changes')
            must(keep, 'changes the content', 'readonly')
        else:
            readers(ctx, a, b, must, says, ret, env, seen0, tok0, par, oth, 'no others' if oth == transops.OTHERS[0] else '', ('view', T), i0 + a0 - r0)
            if b in ('Contains', 'ContainsKey', 'Get', 'TryGet', 'Find', 'ReverseFind', 'GetEnumerator', 'Reverse', 'GetCount', 'IsEmpty'):
                must(keep, 'changes the content', 'readonly')


def readers(ctx, a, b, must, says, ret, env, seen, tok, par, oth, alone, how, count):
    own = how[0] == 'view'
    T = how[1]
    if b in ('Contains', 'ContainsKey'):
        says(seen, 'answers wrongly whether the element is there')
    elif b == 'GetCount':
        if alone:
            says(count, 'counts the elements wrongly')
    elif b == 'IsEmpty':
        if alone:
            says(not count, 'answers wrongly whether it is empty')
        elif not own:
            says(False, 'answers wrongly whether it is empty')
    elif b == 'Get':
        if isinstance(ret, tuple) and ret[0] in 'vn':
            must(ret == tok, 'does not give the value of that key', 'value')
    elif b == 'TryGet':
        says(seen)
        got = env.get(norm(par[1])) if len(par) > 1 else None
        if not seen:
            must(got == ('v', 'given'), 'changes the caller\'s value although the key is not there', 'out')
        elif got is not None:
            must(got == tok, 'does not pass on the value of that key', 'out')
    elif b in ('Find', 'ReverseFind', 'GetEnumerator', 'Reverse') and isinstance(ret, tuple) and ret[0] == 's' and isinstance(ret[1], tuple):
        e = ret[1]
        if e[0] == 'empty':
            must(not seen if 'Find' in b else not seen and oth == transops.OTHERS[0], 'does not find an element that is there' if 'Find' in b else 'delivers nothing', 'find')
        elif 'Find' in b and not seen:
            must(e[0] == 'empty', 'finds an element that is not there', 'find')
        elif own and e[0] == 'view':
            want = {'Find': ('Forward', True, False), 'ReverseFind': ('Reverse', True, False), 'GetEnumerator': ('Forward', False, False), 'Reverse': ('Reverse', False, False)}[b]
            must(e[1] == want, 'enumerates in another way than it should', 'direction')
            must(e[2] == ('I', 'A', 'R') and tuple(T[k] for k in 'IAR') == ('I', 'A', 'R'), 'enumerates something else than items, added and removed elements', 'direction')
            if 'Find' in b and e[3] and None not in e[3]:
                must(e[3] == (('v', 'K'),), 'looks for another element', 'direction')
        elif not own and e[0] == 'enum' and len(e) > 3 and e[2] is not None and 'Find' in b:
            must(e[2] == (('key', 1, 'rit') if b == 'ReverseFind' else ('key', 1, 'it')), 'the enumeration does not start at the element that was looked for', 'find-start')
            if e[3] is not None:
                must(e[3][0] == ('rend' if b == 'ReverseFind' else 'end'), 'the enumeration does not end where it should', 'find-end')
