"""Enumerations are snapshots: copy-on-write of the collections."""
import transops
import seqops
from collops import *

RULE = ('every operation of a copy-on-write collection is explored from every content, with and without an enumeration alive: items that an enumeration still uses are never changed (the collection goes on with its own copy), '
        'every enumeration handed out holds on to exactly the items it goes through, the collection always knows of an enumeration of its current items, two collections never share items they may change, '
        'and iterators are only used with the container they came from')
EXPLAIN = 'finite-predicate abstract interpretation with an abstract model of containers, iterators and holders over the interprocedural flow graph of every operation'
ASSUMES = ['a weak reference that can be locked means that an enumeration may be alive']


def run(ctx, P):
    for r, b, kind, a, c0, o, PT, HD, par in explorations(ctx, P, 'P15'):
        ends = [(u, a.envs[et], 'when it returns') for u, v, et in a.exits] + [(u, a.envs[et], 'when it ends with an exception') for u, et in a.throws if r.fk != 'ctor']
        for u, env, when in sorted(ends, key=repr):
            a.at(u, env)
            judge(ctx, a, env, PT, HD, when)
        ctx.count('ends_judged', len(ends))
    for r, kind, own, a, st, oth, p, par in transops.explorations(ctx, P, 'P15'):
        ends = [(u, a.envs[et], 'when it returns') for u, v, et in a.exits] + [(u, a.envs[et], 'when it ends with an exception') for u, et in a.throws]
        for u, env, when in sorted(ends, key=repr):
            a.at(u, env)
            for k, what in (('I', 'items'), ('A', 'added elements'), ('R', 'removed elements')):
                if 'P' + k in p:
                    judge(ctx, a, env, p['P' + k], p['H' + k], when, what)
        ctx.count('ends_judged', len(ends))
    for r, own, tr, a, par, p, st in seqops.explorations(ctx, P, 'P15'):
        ends = [(u, a.envs[et], 'when it returns') for u, v, et in a.exits] + [(u, a.envs[et], 'when it ends with an exception') for u, et in a.throws]
        for u, env, when in sorted(ends, key=repr):
            a.at(u, env)
            if tr:
                judge(ctx, a, env, p['N'], p['H'], when)
                if when == 'when it returns' and env.get(p['N']) is not False and env.get(p['N']) is not None and env[p['N']] in (env.get(p['I']), env.get(p['O'])):
                    a.bad('%s the items it changes are the committed ones' % when, 'aliased', always=True)
        ctx.count('ends_judged', len(ends))
    for k, m in (('operations', 40), ('explorations', 300), ('ends_judged', 500)):
        ctx.need(k.replace('_', ' '), ctx.stats.get(k, 0), m)


def judge(ctx, a, env, PT, HD, when, what='items'):
    t = env.get(PT)
    h = env.get(HD)
    if not (isinstance(t, tuple) and t[0] == 's'):
        return
    t = t[1]
    hold = h[1][1] if isinstance(h, tuple) and h[0] == 's' and isinstance(h[1], tuple) and h[1] and h[1][0] == 'holder' else None
    if hold is not None and hold != t:
        a.bad('%s the collection takes an enumeration of other %s for one of its current %s' % (when, what, what), 'stale-holder', always=True)
    if hold is None and h is False and env.get(('shared', t)) is True:
        a.bad('%s the current %s are shared with %s, and the collection does not know: the next change would show through' % (when, what, 'the other collection' if t == 'O' else 'an enumeration'), 'untracked', always=True)
    if t == 'O':
        a.bad('%s two collections share the items they change' % when, 'aliased', always=True)
