"""Sets, dictionaries and multi-collections do to their content exactly what the operation says."""
from collops import *

RULE = ('every operation of the sets, dictionaries, multi-sets and multi-dictionaries is explored from every abstract content (key absent, present once or twice; elements before and behind): adding, setting and removing leave '
        'exactly the content the operation names and everything else untouched, the result says truthfully what happened, lookups find an element exactly when it is there and start at the right one, and erased or past-the-end '
        'positions are never used')
EXPLAIN = 'finite-predicate abstract interpretation with an abstract model of containers and iterators over the interprocedural flow graph of every operation, judged against a specification per operation'
ASSUMES = ['the standard containers and the comparer behave as specified']


def run(ctx, P):
    for r, b, kind, a, c0, o, PT, HD, par in explorations(ctx, P, 'P21'):
        if kind == 'list':
            continue
        judge_op(ctx, a, r, b, kind, c0, o, PT, par)
    for k, m in (('operations', 40), ('explorations', 300), ('ends_judged', 300)):
        ctx.need(k.replace('_', ' '), ctx.stats.get(k, 0), m)


def judge_op(ctx, a, r, b, kind, c0, o, PT, par):
    exits = [(u, v, a.envs[et]) for u, v, et in sorted(a.exits, key=repr)]
    throws = [(u, a.envs[et]) for u, et in sorted(a.throws, key=repr)]
    if c0 is None and o is None:
        return
    if o is not None:
        for u, v, env in exits:
            a.at(u, env)
            t = env.get(PT)
            if not isinstance(t, tuple) or t[0] != 's' or ('lost', t[1]) in env or ('in', t[1]) not in env:
                ctx.count('ends_undecided')
                continue
            ctx.count('ends_judged')
            if tuple(env[(k, t[1])] for k in ('in', 'bef', 'aft')) != o:
                a.bad('the copy does not have the content of the original', 'copy')
            if tuple(env.get((k, 'O')) for k in ('in', 'bef', 'aft')) != o:
                a.bad('copying changes the original', 'copy')
        return
    n0, b0, a0 = c0
    val = ('v', par[1]) if len(par) > 1 else None
    if b in ('Get', 'GetFirst'):
        if n0 == 0 and exits:
            a.bad('returns although there is no such key', 'get-absent')
        if n0 and any(u == 'throws' for u, env in throws):
            a.bad('refuses a key that is there', 'get-present')
    elif any(u == 'throws' for u, env in throws):
        a.bad('fails with an exception of its own', 'throws')
    for u, ret, env in exits:
        a.at(u, env)
        t = env.get(PT)
        if not isinstance(t, tuple) or t[0] != 's' or u == 'lost' or ('lost', t[1]) in env or ('in', t[1]) not in env:
            ctx.count('ends_undecided')
            continue
        t = t[1]
        ctx.count('ends_judged')
        n, bf, af = env[('in', t)], env[('bef', t)], env[('aft', t)]
        untouched = (bf, af) == (b0, a0)
        v = env.get(('val', t))

        def must(ok, msg, key):
            if not ok:
                a.bad(msg, key)

        def says(x, what='its result does not say what happened'):
            if ret is True or ret is False or isinstance(ret, tuple) and ret[0] == 'n':
                y = ('n', int(x)) if isinstance(ret, tuple) else x if isinstance(x, bool) else x != 0
                must(ret == y, what, 'result')
        if b in ('Contains', 'ContainsKey'):
            says(n0 > 0, 'answers wrongly whether the element is there')
        elif b in ('Count', 'CountKey'):
            says(n0, 'counts the elements wrongly')
        elif b == 'IsEmpty':
            says(n0 == 0 and b0 == a0 == 'no', 'answers wrongly whether it is empty')
        elif b == 'GetCount':
            if n0 == 0 and b0 == a0 == 'no':
                says(0, 'counts the elements wrongly')
        elif b in ('Find', 'ReverseFind', 'GetAll'):
            if isinstance(ret, tuple) and ret[0] == 's' and isinstance(ret[1], tuple):
                e = ret[1]
                if n0 == 0:
                    must(e[0] == 'empty', 'finds an element that is not there', 'find-absent')
                else:
                    must(e[0] != 'empty', 'does not find an element that is there', 'find-present')
                    if e[0] == 'enum' and len(e) > 3 and e[2] is not None:
                        want = ('key', 1, 'rit') if b == 'ReverseFind' else ('key', n0, 'it')
                        must(e[2] == want, 'the enumeration does not start at the element that was looked for', 'find-start')
                        if e[3] is not None:
                            must(e[3][0] == {'Find': 'end', 'ReverseFind': 'rend'}.get(b, 'aft0' if a0 == 'yes' else 'end'), 'the enumeration does not end where it should', 'find-end')
        elif b == 'GetEnumerator' and a.nested:
            if isinstance(ret, tuple) and ret[0] == 's' and ret[1][0] == 'enum' and len(ret[1]) > 3 and ret[1][2] is not None:
                last = ('aft', 0, 'rit') if a0 == 'yes' else ('key', 1, 'rit') if n0 else ('bef', 0, 'rit') if b0 == 'yes' else ('rend', 0, 'rit')
                must(ret[1][2] == last and ret[1][3][0] == 'rend', 'the reverse enumeration does not go through all elements backwards', 'enum-all')
        elif b == 'GetEnumerator':
            if isinstance(ret, tuple) and ret[0] == 's' and ret[1][0] == 'enum' and len(ret[1]) > 3 and ret[1][2] is not None:
                full = ret[1][2][0] == 'all' or ret[1][2] == {True: ('bef0', 0, 'it')}.get(b0 == 'yes', ('key', n0, 'it') if n0 else ('aft0', 0, 'it') if a0 == 'yes' else ('end', 0, 'it'))
                must(full and ret[1][3][0] == 'end', 'the enumeration does not go through all elements', 'enum-all')
            elif isinstance(ret, tuple) and ret[0] == 's' and ret[1][0] == 'empty':
                must(n0 == 0 and b0 == a0 == 'no', 'the enumeration does not go through all elements', 'enum-all')
        elif b in ('Get', 'GetFirst'):
            right(a, must, ret, n0, t)
        elif b in ('TryGet', 'TryGetFirst'):
            says(n0 > 0)
            got = env.get(norm(par[1])) if len(par) > 1 else None
            if n0 == 0:
                must(par[1] not in env, 'changes the caller\'s value although the key is not there', 'out-absent')
            elif got is None:
                must(par[1] in a_written(a), 'does not pass on the value', 'out')
            else:
                right(a, must, got, n0, t)
        elif b == 'Add':
            must(untouched, 'changes other elements', 'others')
            if kind in ('set', 'dict'):
                says(n0 == 0)
                must(n == 1, 'the element is not there afterwards', 'content')
                if kind == 'dict' and v is not None:
                    must(v == (('v', 'old') if n0 else val), 'changes the value of a key that was there already' if n0 else 'does not store the value it was given', 'value')
            else:
                must(n == n0 + 1, 'does not add exactly one element', 'content')
                if kind == 'mdict' and v is not None and n == 1:
                    must(v == val, 'does not store the value it was given', 'value')
        elif b == 'Set':
            must(untouched, 'changes other elements', 'others')
            must(n == 1, 'the key is not there afterwards', 'content')
            if v is not None:
                must(v == val, 'does not store the value it was given', 'value')
        elif b == 'Remove':
            must(untouched, 'changes other elements', 'others')
            says(n0 > 0)
            must(n == 0, 'the element is still there', 'content')
        elif b == 'RemoveFirst':
            must(untouched, 'changes other elements', 'others')
            given = len(par) > 1 and env.get(par[1]) is not False and env.get(par[1]) is not None
            if not given:
                says(n0 > 0)
                must(n == max(0, n0 - 1), 'does not remove exactly one element', 'content')
                if n0:
                    must(env.get(('erk', t)) in (None, n0), 'does not remove the first element', 'first')
            else:
                eq = [env.get(('veq', k), env.get(('veq', 'val')) if n0 == 1 else None) for k in range(n0, 0, -1)]
                if True in eq:
                    k = n0 - eq.index(True)
                    says(True)
                    must(n == n0 - 1 and env.get(('erk', t)) in (None, k), 'does not remove exactly the first element with that value', 'content')
                elif None not in eq:
                    says(False)
                    must(n == n0, 'removes an element with another value', 'content')
                else:
                    must(ret is not False, 'gives up before it has looked at every element of the key', 'gives-up')
        elif b == 'RemoveAll':
            must(untouched, 'changes other elements', 'others')
            says(n0)
            must(n == 0, 'does not remove all elements', 'content')
        elif b == 'RemoveWhere':
            pk = [env.get(('pk', k)) for k in range(1, n0 + 1)]
            if n0:
                must(None not in pk, 'does not look at every element', 'where-all')
            if None not in pk:
                must(n == n0 - pk.count(True), 'does not remove exactly the elements the condition holds for', 'content')
            must(not (env.get(('owed', t)) is True), 'leaves an element the condition holds for', 'owed')
            if b0 == 'no':
                must(bf == 'no', 'changes other elements', 'others')
            e = env.get(('erased',))
            if e is not None and isinstance(ret, tuple) and ret[0] == 'n':
                must(ret[1] == e, 'its result is not the number of removed elements', 'result')
        elif b == 'Clear':
            must(n == 0 and bf == af == 'no', 'leaves elements behind', 'content')
        if b in ('Contains', 'ContainsKey', 'Count', 'CountKey', 'IsEmpty', 'GetCount', 'Find', 'ReverseFind', 'GetAll', 'GetEnumerator', 'Reverse', 'Get', 'GetFirst', 'TryGet', 'TryGetFirst'):
            must(untouched and n == n0, 'changes the content', 'readonly')


def right(a, must, got, n0, t):
    if n0 == 1 and isinstance(got, tuple) and got[0] in ('v', 'n') and got != ('v', 'K'):
        must(got == ('v', 'old'), 'does not give the value of that key', 'value')
    elif n0 > 1 and isinstance(got, tuple) and got[0] == 'v' and isinstance(got[1], tuple) and got[1][0] == 'value':
        must(got[1][2:4] == ('key', n0), 'does not give the first value of that key', 'value')


def a_written(a):
    out = set()
    for n in a.g.nodes:
        if n.op == 'call' and n.base == 'operator=' and n.obj is not None:
            out.add(norm(n.obj))
        if n.op == 'wr':
            out.add(norm(n.p))
    return out
