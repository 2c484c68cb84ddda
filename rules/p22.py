"""Lists: positions, and commits of list transactions."""
import merge
from seqops import *

RULE = ('every operation of the list and of its transactions is explored from every prior state, with contents as symbolic edit scripts and indices as symbols compared with sizes: an index is only used on paths that compared it with the size of '
        'that very content and found it inside, the operation edits exactly the position and value it was given, lookups answer for the current content, a list transaction never changes committed items, forgets '
        'a difference it computed earlier with every edit, and commits by publishing its items and then announcing the difference from the old to the new content once under the lock')
EXPLAIN = 'finite-predicate abstract interpretation with symbolic edit scripts and path facts about indices over the interprocedural flow graph of every operation'
ASSUMES = ['the standard sequence containers behave as specified']


def run(ctx, P):
    for r, own, tr, a, par, p, st in explorations(ctx, P, 'P22'):
        judge(ctx, a, r, own, tr, par, p, st)
    merge.populator(ctx, P)
    for k, m in (('operations', 20), ('explorations', 60), ('ends_judged', 80)):
        ctx.need(k.replace('_', ' '), ctx.stats.get(k, 0), m)


def tagof(v):
    return v[1] if isinstance(v, tuple) and v[0] == 's' else None


def judge(ctx, a, r, own, tr, par, p, st):
    b = r.base
    arg = [('v', q) for q in par]
    if b == 'Apply':
        b = {'Added': 'Insert', 'Removed': 'RemoveAt', 'Updated': 'Set'}[a.pre]
        arg = [('v', ('rpar', 'key')), ('v', ('rpar', 'value'))]
    for u, et in sorted(a.throws, key=repr):
        a.at(u, a.envs[et])
        if u == 'throws' and b in ('Add', 'Contains', 'IndexOf', 'TryGet', 'Remove', 'RemoveAll', 'Clear', 'GetCount', 'IsEmpty', 'Revert', 'Diff', 'IsDirty'):
            a.bad('fails with an exception of its own', 'throws')
        if u == 'throws' and b in INDEXED and arg:
            lts = [(k, v) for k, v in a.envs[et].items() if isinstance(k, tuple) and len(k) == 3 and k[0] == 'lt' and arg[0] in k[1:]]
            sizes = [k[2] if k[1] == arg[0] else k[1] for k, v in lts]
            if lts and all(o[0] == 'v' and isinstance(o[1], tuple) and o[1][0] == 'size' for o in sizes):
                below = [v for k, v in lts if k[1] == arg[0]]
                above = [v for k, v in lts if k[2] == arg[0]]
                if True in below:
                    a.bad('refuses a position that exists', 'refuses')
                elif b == 'Insert' and not (True in above) and False in below:
                    a.bad('refuses to insert behind the last element', 'refuses')
    for u, ret, et in sorted(a.exits, key=repr):
        env = a.envs[et]
        a.at(u, env)
        if u == 'lost':
            ctx.count('ends_undecided')
            continue

        def must(ok, msg, key):
            if not ok:
                a.bad(msg, key)

        def says(x, what='its result does not say what happened'):
            if (ret is True or ret is False) and ret != bool(x):
                a.bad(what, 'result')
        cur0 = 'N' if not own or st[0] == 'N' else 'I'
        start = (cur0, ())
        if own and not tr:
            cur = tagof(env.get(p['I']))
        else:
            n = env.get(p['N'])
            if n is False:
                cur = tagof(env.get(p.get('O')))
            else:
                cur = tagof(n)
        if cur is None:
            ctx.count('ends_undecided')
            continue
        c = a.content(env, cur)
        sure = UNKNOWN not in c and UNKNOWN not in c[1]
        ctx.count('ends_judged')
        if tr:
            must(env.get(p['I']) == ('s', 'I') or b == 'Commit', 'changes the committed items before the commit', 'items')
            must(env.get(('fired',)) == 0 or b == 'Commit', 'announces changes that are not committed', 'fired')
            if tagof(env.get(p['D'])) == ('diff0',) and sure and c != start:
                a.bad('keeps the difference that was computed before this change', 'stale-diff')
        want = start
        found = None
        if b in ('Contains', 'IndexOf', 'Remove') and arg:
            found = env.get(('has', start, arg[0]))
        tok = ('v', ('found', start, arg[0])) if arg else None
        if b == 'Add' and arg:
            want = (cur0, (('ins', 'end', arg[0]),))
        elif b == 'Set' and len(arg) == 2:
            want = (cur0, (('set', arg[0], arg[1]),))
        elif b == 'Insert' and len(arg) == 2:
            want = (cur0, (('ins', arg[0], arg[1]),))
        elif b == 'RemoveAt' and arg:
            want = (cur0, (('del', arg[0]),))
        elif b == 'Remove' and arg:
            if found is None:
                ctx.count('ends_undecided')
                continue
            if found:
                want = (cur0, (('del', tok),))
            says(found)
        elif b == 'RemoveAll':
            want = (cur0, (('without', arg[0]),)) if arg else c
            if isinstance(ret, tuple) and ret[0] == 'v' and ret[1][0] != 'removed':
                a.bad('its result is not the number of removed elements', 'result')
        elif b == 'Clear':
            want = ('empty', ())
        elif b == 'Revert':
            want = ('I', ())
            must(env.get(p['N']) is False or env.get(p['N']) is None, 'keeps the changes that should be given up', 'content')
            must(env.get(p['D']) is not None and tagof(env.get(p['D'])) != ('diff0',), 'keeps the difference of changes it gave up', 'stale-diff')
        elif b == 'Commit':
            commit(ctx, a, r, env, p, st, must)
            continue
        if sure and c != want and not (any(o[-1] == 'last' for o in c[1]) and any(isinstance(k, tuple) and k and k[0] == 'eq' for k in env)):
            a.bad('the content afterwards is not what the operation says (%s)' % script(c, want), 'content')
        if b == 'Contains' and found is not None:
            says(found, 'answers wrongly whether the value is there')
        elif b == 'IndexOf' and found is not None:
            if ret is False or isinstance(ret, tuple) and ret[0] == 's':
                must((ret is not False) == found, 'answers wrongly whether the value is there', 'result')
                if found and isinstance(ret, tuple) and isinstance(ret[1], tuple) and ret[1][0] == 'just' and isinstance(ret[1][1], tuple) and ret[1][1][0] in ('n', 'v'):
                    must(ret[1][1] == tok, 'does not give the position of the value', 'result')
        elif b == 'Get' and arg:
            if isinstance(ret, tuple) and ret[0] == 'v' and isinstance(ret[1], tuple) and ret[1][0] == 'elem':
                must(ret[1][1:] == (start, arg[0]), 'does not give the value at that position', 'value')
        elif b == 'TryGet' and len(arg) == 2:
            lt = [v for k, v in env.items() if isinstance(k, tuple) and len(k) == 3 and k[0] == 'lt' and k[1] == arg[0] and isinstance(k[2], tuple) and k[2][0] == 'v' and k[2][1] == ('size', start)]
            out = env.get(norm(par[1]))
            if lt and u == 'ok':
                says(lt[0])
                if not lt[0]:
                    must(out is None or out == arg[1], 'changes the caller\'s value although the position does not exist', 'out')
                elif isinstance(out, tuple) and out[0] == 'v':
                    must(out == ('v', ('elem', start, arg[0])), 'does not pass on the value at that position', 'out')
        elif b == 'GetCount':
            if isinstance(ret, tuple) and ret[0] in ('n', 'v') and (ret[0] == 'n' or ret[1][0] == 'size'):
                must(ret == ('v', ('size', start)), 'does not give the number of elements', 'result')
        elif b == 'IsEmpty':
            if ('empty', start) in env:
                says(env[('empty', start)], 'answers wrongly whether it is empty')
            elif any(isinstance(k, tuple) and len(k) == 2 and k[0] == 'empty' for k in env) and ret in (True, False):
                a.bad('answers for other items than its own', 'result')
        elif b in ('GetEnumerator', 'Reverse') and isinstance(ret, tuple) and ret[0] == 's' and isinstance(ret[1], tuple) and ret[1][0] == 'enum':
            t = ret[1][1]
            if t is not None and UNKNOWN not in a.content(env, t)[1]:
                must(a.content(env, t) == start, 'enumerates other items than its own', 'result')
        elif b == 'IsDirty':
            if st[0] == 'I':
                says(False, 'claims changes although there are none')
        elif b == 'Diff':
            diff(a, env, ret, st, must)


def script(c, want):
    return 'expected %s, found %s' % (edits(want), edits(c))


def edits(c):
    def w(x):
        if isinstance(x, tuple) and x and x[0] == 'v' and isinstance(x[1], tuple):
            return {'rpar': str(x[1][-1]), 'found': 'the found position', 'elem': 'an element', 'size': 'the size'}.get(x[1][0], '?')
        return str(x[1]) if isinstance(x, tuple) and len(x) == 2 and x[0] == 'n' else str(x)
    return {'N': 'own items', 'I': 'committed items', 'empty': 'nothing'}.get(c[0], 'other items') + ''.join(' ' + {'ins': 'insert at', 'del': 'erase at', 'set': 'set'}.get(o[0], o[0]) + ' ' + ' '.join(w(x) for x in o[1:]) for o in c[1])


def commit(ctx, a, r, env, p, st, must):
    items = tagof(env.get(p['I']))
    old = tagof(env.get(p['O']))
    must(env.get(p['N']) in (False, None), 'keeps its own items after the commit', 'forget')
    must(tagof(env.get(p['D'])) is None or st[0] == 'I', 'keeps the difference it has committed', 'forget')
    if st[0] == 'I':
        must(env.get(('fired',)) == 0 and items == 'I', 'announces or changes something without changes', 'fired')
        return
    anys = [v for k, v in env.items() if isinstance(k, tuple) and len(k) == 2 and k[0] == 'any']
    if env.get(('fired',)) == 0:
        if True in anys:
            a.bad('does not announce the changes', 'fired')
        must(items == 'I', 'changes the committed items without announcing it', 'silent')
        if not anys and items == 'I':
            a.bad('gives up the changes instead of committing them', 'dropped')
        return
    if False in anys:
        a.bad('announces a commit without changes', 'fired')
    must(env.get(('fired',)) == 1, 'announces the changes more than once', 'fired')
    if items is not None:
        c = a.content(env, items)
        must(UNKNOWN in c[1] or c == ('N', ()), 'does not make the items what the transaction showed', 'content')
        if old is not None:
            must(old == items, 'goes on from other items than it has committed', 'old')
    fw = env.get(('firedwith',))
    if fw:
        must(fw[0], 'announces the changes without holding the lock', 'unlocked')
        if items is not None and tagof(fw[1]) is not None:
            must(fw[1] == ('s', items), 'announces the changes before the items have them', 'early')
    diff(a, env, env.get(('diff',)), st, must)


def diff(a, env, d, st, must):
    """d describes the difference from the committed items to the own ones"""
    if not (isinstance(d, tuple) and d[0] == 's' and isinstance(d[1], tuple)):
        return
    if st[0] == 'I':
        must(d[1][0] in ('empty', 'enum'), 'describes a difference although there is none', 'diff')
        return
    if d[1] == ('diff0',):
        must(st[2], 'describes another difference', 'diff')
        return
    if d[1] == ('empty',):
        a.bad('describes no difference although there are changes', 'diff')
        return
    if d[1][0] != 'enum' or d[1][1] is None:
        return
    ops = env.get(('ops', d[1][1]))
    if ops is None or UNKNOWN in ops or any(o[0] != 'entry' for o in ops):
        return
    O, N = ('I', ()), ('N', ())

    def lt(i, c):
        return env.get(('lt', ('n', i), ('v', ('size', c))))
    got = {}
    for o in ops:
        pr = o[2]
        if not (isinstance(pr, tuple) and pr[0] == 'v' and pr[1][0] == 'pair'):
            return
        key, val = pr[1][1:]
        if not (isinstance(val, tuple) and val[0] == 'v' and isinstance(val[1], tuple) and val[1][0] == 'elem' and val[1][1] in (O, N)):
            return
        must((val[1][1] == O) == (o[1] == 'Removed'), 'the difference has %s as %s' % ('an element of the old content' if val[1][1] == O else 'an element of the new content', o[1].lower()), 'diff')
        i = val[1][2]
        if not (isinstance(i, tuple) and i[0] == 'n'):
            return
        got.setdefault(i[1], []).append(o[1])
        if key is not None and isinstance(key, tuple) and key[0] == 'n' and i[1] < 3:
            if o[1] != 'Removed' or lt(i[1], N) is True:
                must(key == i, 'the difference gives another position than the element has', 'diff')
            elif lt(i[1], N) is False:
                gone = [j for j in got if j < i[1] and lt(j, N) is False and 'Removed' in got[j]]
                must(key == ('n', i[1] - len(gone)), 'the difference gives another position than the element has after the removals before it', 'diff')
    for i in (0, 1):
        x, y = lt(i, O), lt(i, N)
        if x is None or y is None:
            continue
        if x and y:
            s = env.get(('same', frozenset((('v', ('elem', O, ('n', i))), ('v', ('elem', N, ('n', i)))))))
            if s is None:
                continue
            want = [[]] if s else [['Removed', 'Added'], ['Updated']]
        else:
            want = [['Removed'] if x else ['Added'] if y else []]
        must(got.get(i, []) in want, 'the difference does not lead from the old to the new content at a position where they %s' % ('are equal' if x and y and want == [[]] else 'differ'), 'diff-step')
