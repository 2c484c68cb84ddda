"""The atomic integers: every operation is one indivisible change by the specified amount and returns the specified value.

Numbers are linear over symbols: what the count was when an atomic primitive met it, and the parameters."""
from engine import *
from comp import *
from locks import mk_transparent
from absx import Abs, bare_cast
import re

FILES = ['thread/atomic/AtomicInt.h']
RMW = [(re.compile(r'^__(?:sync|atomic)_(add|sub)(?:_and)?_fetch(?:_n)?(?:_\d+)?$'), 'new'), (re.compile(r'^__(?:sync|atomic)_fetch_(?:and_)?(add|sub)(?:_n)?(?:_\d+)?$'), 'old')]
VCAS = re.compile(r'^__sync_val_compare_and_swap(_\d+)?$')
BCAS = re.compile(r'^__sync_bool_compare_and_swap(_\d+)?$')
LOAD = re.compile(r'^__atomic_load(_n|_\d+)?$')
STORE = re.compile(r'^__atomic_store(_n|_\d+)?$')
SWAP = re.compile(r'^__(atomic_exchange|sync_lock_test_and_set)(_n|_\d+)?$')


def lin(*terms):
    d = {}
    for s, k in terms:
        d[s] = d.get(s, 0) + k
    return ('lin', tuple(sorted(((s, k) for s, k in d.items() if k), key=repr)))


def add(a, b, m=1):
    return lin(*(list(a[1]) + [(s, m * k) for s, k in b[1]]))


def islin(v):
    return isinstance(v, tuple) and v and v[0] == 'lin'


def shallow(v):
    return lin(*[((s[:3] + (lin(),)) if isinstance(s, tuple) and s[0] == 'F' else s, k) for s, k in v[1]])


class Atom(Abs):
    """u = (('change', what it was, what it became) | None, 'ok' | 'lost' | 'twice' | 'plain')"""
    def __init__(self, g, r):
        Abs.__init__(self, g, cap=20000)
        self.r = r

    def ev(self, v, u, env):
        v = bare_cast(v)
        if isinstance(v, tuple) and v:
            if v[0] == 'lit' and isinstance(v[1], int) and not isinstance(v[1], bool):
                return lin(('1', v[1]))
            if v[0] == 'rpar' and v not in env:
                return lin((v[:2], 1))
            if v[0] == 'un' and v[1] == '-':
                a = self.ev(v[2], u, env)
                return add(lin(), a, -1) if islin(a) else None
            if v[0] == 'bin' and v[1] in ('+', '-'):
                a, b = self.ev(v[2], u, env), self.ev(v[3], u, env)
                return add(a, b, 1 if v[1] == '+' else -1) if islin(a) and islin(b) else None
        return Abs.ev(self, v, u, env)

    def truth(self, v, env):
        if islin(v):
            return self.equal(v, lin(), env) is False or (None if v[1] else False)
        return Abs.truth(self, v, env)

    def equal(self, x, y, env):
        for a, b in ((x, y), (y, x)):
            if a is False and islin(b):
                return self.equal(lin(), b, env)
        if islin(x) and islin(y):
            d = dict(add(x, y, -1)[1])
            if not d:
                return True
            if list(d) == ['1']:
                return False
            fs = [s for s in d if isinstance(s, tuple) and s[0] == 'F']
            if fs and len(d) <= 2:
                # what a failed exchange saw differs from what it expected
                for s in fs:
                    t = add(lin((s, 1)), s[3], -1)
                    if shallow(add(x, y, -1)) in (shallow(t), shallow(add(lin(), t, -1))):
                        return False
                return None
            return None
        return Abs.equal(self, x, y, env)

    def reads(self, v, d):
        """the value is made of the number itself"""
        v = bare_cast(v)
        if not isinstance(v, tuple) or not v or d > 6 or v[0] == 'addr':
            return False
        if v[:2] == ('rpar', 0):
            return True
        return v[0] in ('un', 'bin', 'cond') and any(self.reads(x, d + 1) for x in v[1:])

    def target(self, a):
        a = bare_cast(a)
        return isinstance(a, tuple) and a and (a[0] == 'addr' and bare_cast(a[1])[:2] == ('rpar', 0))

    def change(self, u, old, new):
        if new == old:
            return u
        return (('change', old, new), 'twice' if u[0] else u[1])

    def call(self, n, u, env):
        b = n.base or ''
        if not n.args or not self.target(n.args[0]):
            return None
        v = lin((('v', n.i), 1))
        arg = [self.ev(a, u, env) for a in n.args[1:]]
        for rx, gives in RMW:
            m = rx.match(b)
            if m:
                if not islin(arg[0]):
                    return [((u[0], 'lost'), None, None)]
                new = add(v, arg[0], 1 if m.group(1) == 'add' else -1)
                return [(self.change(u, v, new), new if gives == 'new' else v, None)]
        if LOAD.match(b):
            return [(u, v, None)]
        if STORE.match(b) or SWAP.match(b):
            if not islin(arg[0]):
                return [((u[0], 'lost'), None, None)]
            return [((('change', v, arg[0]), 'twice' if u[0] else u[1]), v if SWAP.match(b) else None, None)]
        if VCAS.match(b) or BCAS.match(b):
            e, d = arg[:2]
            if not islin(e) or not islin(d):
                return [((u[0], 'lost'), None, None)]
            par = 0
            for s, k in e[1]:
                if isinstance(s, tuple) and s[0] == 'F' and s[1] == n.i:
                    par = 1 - s[2]
            f = lin((('F', n.i, par, shallow(e)), 1))
            yes = (('change', e, d), 'twice' if u[0] else u[1])
            return [(u, False if BCAS.match(b) else f, None), (yes, True if BCAS.match(b) else e, None)]
        return [((u[0], 'lost'), None, None)]

    def step(self, n, u, env):
        if n.op in ('rd', 'wr') and n.p is not None and bare_cast(n.p)[:2] == ('rpar', 0):
            return [(u[0], 'plain')]
        if n.op in ('ret', 'wr', 'br') and self.reads(n.c if n.op == 'br' else n.v, 0):
            return [(u[0], 'plain')]
        return None


def strip(v):
    """failed observations without what they were compared to"""
    if islin(v):
        return lin(*[((s[:2]) if isinstance(s, tuple) and s[0] == 'F' else s, k) for s, k in v[1]])
    return v


P1, P2 = lin((('rpar', 1), 1)), lin((('rpar', 2), 1))
SPEC = {
    'Inc': (lin(('1', 1)), 'new'), 'Dec': (lin(('1', -1)), 'new'),
    'Add': (P1, 'new'), 'Sub': (add(lin(), P1, -1), 'new'),
    'Load': (None, 'old'), 'Store': ('set', None), 'CompareAndExchange': ('cas', None),
}


def judge(a, r, u, ret):
    if u[1] == 'plain':
        return 'uses the number without an atomic primitive'
    if u[1] == 'lost':
        return None
    if u[1] == 'twice':
        return 'changes the number in more than one step'
    what, gives = SPEC[r.base]
    ch = u[0]
    if r.base == 'Load':
        if ch:
            return 'changes the number'
        if islin(ret) and not (len(ret[1]) == 1 and ret[1][0][1] == 1 and isinstance(ret[1][0][0], tuple) and ret[1][0][0][0] in ('v', 'F')):
            return 'does not give the number that it read'
        return None
    if what == 'set':
        if not ch:
            return 'may leave the number as it is'
        if ch[2] != P1:
            return 'stores another number than the one it was given'
        return None
    if what == 'cas':
        if ch:
            if ch[1] != P1:
                return 'exchanges the number although it is not the expected one'
            if ch[2] != P2:
                return 'stores another number than the one it was given'
            if islin(ret) and ret != P1:
                return 'does not give the number that was there'
        elif islin(ret) and ret == P1:
            return 'says that it exchanged the number and did not'
        return None
    if not ch:
        return 'may leave the number as it is'
    if add(ch[2], ch[1], -1) != what:
        return 'changes the number by another amount than specified'
    if islin(ret) and strip(ret) != strip(ch[2]):
        return 'does not give the number it made'
    return None


def check(ctx, P):
    E = Expander(P, mk_transparent(FILES))
    E.alias, E.raw = False, True
    done = set()
    for r in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.n)):
        if not in_files(r, FILES) or not r.scls.endswith('BasicAtomicInt') or r.base not in SPEC or r.n in done:
            continue
        done.add(r.n)
        a = Atom(E.run(r), r)
        try:
            a.run([((None, 'ok'), {})])
        except AnalysisBroken:
            ctx.count('operations_given_up')
            continue
        for u, ret, et in sorted(a.exits, key=repr):
            m = judge(a, r, u, ret)
            ctx.count('ends_undecided' if u[1] == 'lost' else 'ends_judged')
            if m:
                a.at(u, a.envs[et])
                ctx.report('%s: %s; path: %s' % (r.where(), m, a.trace()), key=(r.sn, m))
        ctx.count('atomic_operations')
        ctx.count('operations')
        ctx.sample(r.where())
