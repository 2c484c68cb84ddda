"""Abstract model of the standard containers, their iterators and copy-on-write holders, on top of the finite-predicate exploration.

A container is known by a tag.  Its content is abstracted to: how many elements equivalent to one tracked key it has (0..3, all keys are
represented by the tracked one), whether it has elements before and behind it ('no', 'yes' untouched, 'chg' changed, maybe empty), the value
kept under the key, and whether somebody else (an enumeration) shares it.  Iterators are positions in that abstraction.  Every lookup is
resolved into its possible outcomes when it is made, so branches on it are decided.  What the model does not know gives no report."""
import re
from engine import *
from absx import Abs, norm, under, bare_cast, PATH

STD = {'set', 'map', 'multiset', 'multimap', 'vector', 'deque', 'list'}
OWN = {'flat_set', 'flat_map', 'ordered_set', 'ordered_map', 'inplace_vector'}
UNIQUE = {'set', 'map', 'flat_set', 'flat_map', 'ordered_set', 'ordered_map'}
MULTI = {'multiset', 'multimap'}
MAPS = {'map', 'multimap', 'flat_map', 'ordered_map'}
SEQ = {'vector', 'deque', 'list', 'inplace_vector'}
CLASSES = STD | OWN
SEQPOS = {'seq', 'at', 'rest'}
ITER = re.compile(r'iterator|Iterator')
ALGO_WRITE = {'remove_if', 'remove', 'sort', 'stable_sort', 'reverse', 'rotate', 'fill', 'fill_n', 'unique', 'partition', 'stable_partition', 'iter_swap', 'swap_ranges', 'transform', 'replace', 'replace_if',
              'move', 'copy', 'copy_backward', 'move_backward', 'inplace_merge', 'generate'}
MADE = re.compile(r'make_shared_ptrI(?:K)?(?:St|N8stingray)(\d+)([A-Za-z_]+)')
MUT_SEQ = {'push_back', 'push_front', 'emplace_back', 'emplace_front', 'pop_back', 'pop_front', 'resize', 'assign', 'insert', 'emplace', 'erase', 'swap', 'splice', 'sort', 'remove', 'remove_if', 'shrink_to_fit'}


def kind_of(cls):
    """short class name of a container class, or None"""
    if not cls:
        return None
    s = cls.split('<')[0].rsplit('::', 1)
    if s[-1] in STD and s[0] in ('std', 'std::__cxx1998', 'std::__debug', 'std::__cxx11') or s[-1] in OWN and s[0] == 'stingray':
        return s[-1]
    return None


def made(n):
    """kind of container a make_shared_ptr call makes, or None"""
    m = MADE.search(n.raw.get('fn') or '')
    if not m:
        return None
    k = m.group(2)[:int(m.group(1))]
    return k if k in CLASSES else None


class Cont(Abs):
    def __init__(self, g, key=None, cap=60000):
        Abs.__init__(self, g, cap)
        self.key = key
        self.kinds = {}
        self.writes = self.lookups = 0
        self.const = set()          # tags that must never change

    def bad(self, msg, key):
        raise NotImplementedError

    # hooks
    def mutated(self, tag, n, u, env, how):
        pass

    def outcall(self, n, u, env):
        """calls the rule itself knows -> as Abs.call"""
        return None

    # -- containers
    def tag(self, p, u, env):
        p = norm(p)
        if isinstance(p, tuple) and p and p[0] == 'deref':
            v = self.get(p[1], u, env)
            if isinstance(v, tuple) and v and v[0] == 's' and self.iscont(v[1], env):
                return v[1]
            return None
        if isinstance(p, tuple) and ('cont', p) in env:
            return p
        return None

    @staticmethod
    def iscont(t, env):
        return ('cont', t) in env

    def fresh(self, env, t, kind, src=None):
        """container t now exists; a copy of src, empty without"""
        e = dict(env)
        e[('cont', t)] = kind
        for k in ('in', 'bef', 'aft', 'val', 'lost', 'erased', 'shared', 'owed', 'erk', 'ver', 'tested'):
            e.pop((k, t), None)
            if src is not None and k in ('in', 'bef', 'aft', 'val', 'lost', 'erk', 'erased') and (k, src) in env:
                e[(k, t)] = env[(k, src)]
        if src is None:
            e[('in', t)], e[('bef', t)], e[('aft', t)] = 0, 'no', 'no'
        # iterators into an earlier container with this tag are gone
        return {k: v for k, v in e.items() if not (isinstance(v, tuple) and v and v[0] == 's' and isinstance(v[1], tuple) and v[1] and v[1][0] in ('it', 'rit', 'elp') and v[1][1] == t)}

    def lose(self, env, t):
        e = dict(env)
        for k in ('in', 'bef', 'aft', 'val', 'owed', 'tested', 'erk'):
            e.pop((k, t), None)
        e[('lost', t)] = True
        return e

    def known(self, env, t):
        return ('in', t) in env and ('lost', t) not in env

    # -- iterators
    def nexts(self, env, t, pos, k):
        """positions after (pos, k)"""
        def after(stage):
            out = []
            if stage <= 0:
                n = env[('in', t)]
                if n:
                    return [('key', n)]
            if stage <= 1:
                a = env[('aft', t)]
                if a in ('yes', 'chg'):
                    out.append(('aft0', 0))
                if a in ('no', 'chg'):
                    out.append(('end', 0))
            return out
        if pos in ('bef0', 'bef'):
            return [('bef', 0)] + after(0)
        if pos == 'key':
            return [('key', k - 1)] if k > 1 else after(1)
        if pos in ('aft0', 'aft'):
            return [('aft', 0), ('end', 0)]
        return []

    def first(self, env, t):
        out = []
        b = env[('bef', t)]
        if b in ('yes', 'chg'):
            out.append(('bef0', 0))
        if b in ('no', 'chg'):
            out += [x for x in self.nexts(env, t, 'bef', 0) if x[0] != 'bef']
        return out

    def upper(self, env, t):
        a = env[('aft', t)]
        return ([('aft0', 0)] if a in ('yes', 'chg') else []) + ([('end', 0)] if a in ('no', 'chg') else [])

    def prevs(self, env, t, pos, k):
        n, b, a = env[('in', t)], env[('bef', t)], env[('aft', t)]
        if pos == 'end' and a in ('yes', 'chg'):
            return [('aft', 0)] + (self.prevs(env, t, 'aft0', 0) if a == 'chg' else [])
        if pos == 'aft':
            return [('aft', 0)]
        if pos in ('end', 'aft0'):
            if n:
                return [('key', 1)]
            return self.prevs(env, t, 'key', n)
        if pos == 'key' and k < n:
            return [('key', k + 1)]
        if pos == 'key':
            return ([('bef', 0)] if b in ('yes', 'chg') else []) + ([('rend', 0)] if b in ('no', 'chg') else [])
        return [('rend', 0)] if pos == 'bef0' else [('bef', 0)]

    @staticmethod
    def it(v):
        return v[1] if isinstance(v, tuple) and v and v[0] == 's' and isinstance(v[1], tuple) and v[1] and v[1][0] in ('it', 'rit') else None

    def elem(self, p, u, env):
        """element an lvalue path denotes -> (tag, pos, k, part)"""
        p = norm(p)
        part = None
        for _ in range(3):
            if not isinstance(p, tuple) or not p:
                return None
            v = env.get(p)
            if isinstance(v, tuple) and v and v[0] == 'v' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'el':
                return v[1][1:4] + (part or (v[1][4] if len(v[1]) > 4 else None),)
            if p[0] == 'deref':
                v = self.get(p[1], u, env)
                if isinstance(v, tuple) and v and v[0] == 's' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'elp':
                    return v[1][1:4] + (part,)
                return None
            if p[0] == 'fld' and p[2] in ('first', 'second'):
                part = p[2]
                p = p[1]
                continue
            return None
        return None

    def eltok(self, el, env):
        t, pos, k, part = el
        kind = env.get(('cont', t))
        if part == 'second' or part is None and kind in SEQ:
            if pos == 'key' and ('val', t) in env:
                return env[('val', t)]
            return ('v', ('value', t, pos, k))
        if part is None and kind in MAPS:
            return None
        return ('v', 'K') if pos == 'key' else ('v', ('key', pos[:3]))

    def read(self, p, u, env):
        if isinstance(p, tuple) and p and p[0] == 'fld' and isinstance(p[1], tuple) and p[1][0] == 'deref':
            h = self.get(p[1][1], u, env)
            if isinstance(h, tuple) and h[0] == 's' and isinstance(h[1], tuple) and h[1] and h[1][0] == 'holder' and self.iscont(h[1][1], env):
                return ('s', h[1][1])
        if self.key is not None and p == self.key:
            return ('v', 'K')
        if isinstance(p, tuple) and p and p[0] in ('fld', 'deref', 'res', 'tmp', 'var'):
            el = self.elem(p, u, env)
            if el is not None:
                return self.eltok(el, env)
        return None

    def get(self, p, u, env):
        p = norm(p)
        v = env.get(p)
        if isinstance(v, tuple) and v and v[0] == 'v' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'el':
            el = self.elem(p, u, env)
            if el is not None:
                r = self.eltok(el, env)
                return r if r is not None else v
        return Abs.get(self, p, u, env)

    def equal(self, x, y, env):
        for a, b in ((x, y), (y, x)):
            if a == ('v', 'K') and isinstance(b, tuple) and b[0] == 'v' and isinstance(b[1], tuple) and b[1][0] == 'key':
                return False
        i, j = self.it(x), self.it(y)
        if i is not None and j is not None:
            if i[1] != j[1] or i[0] != j[0]:
                return None
            a, b = i[2:], j[2:]
            if a != b and (a[0] in SEQPOS or b[0] in SEQPOS):
                return None
            if a != b:
                # two names of an element before or behind may mean the same one
                if {a[0], b[0]} <= {'bef', 'bef0'} or {a[0], b[0]} <= {'aft', 'aft0'}:
                    return None if 'bef' in (a[0], b[0]) and 'bef0' not in (a[0], b[0]) or 'aft' in (a[0], b[0]) and 'aft0' not in (a[0], b[0]) else False
                return False
            return None if a[0] in ('bef', 'aft', 'seq') else True
        return Abs.equal(self, x, y, env)

    def took(self, n, tv, u, env):
        if env.get(('sizes',), 0) >= 2:
            return self.losing(u)
        return u

    def losing(self, u):
        return 'lost'

    # -- changes
    def mutate(self, n, u, env, t, how):
        self.writes += 1
        if env.get(('shared', t)) is True:
            self.bad('changes the %s while an enumeration that was handed out still uses it' % self.name(t), 'shared')
        self.mutated(t, n, u, env, how)

    def name(self, t):
        return 'items'

    def foreign(self, n, t, i):
        if i is not None and i[1] != t:
            self.bad('uses an iterator into another container than the one it is passed to', 'foreign')

    def renumber(self, env, t, k):
        """the key element with k left was erased"""
        e = {}
        for p, v in env.items():
            i = self.it(v)
            if i is not None and i[1] == t and i[2] == 'key':
                if i[3] == k:
                    v = ('s', (i[0], t, 'dead', 0))
                elif i[3] > k:
                    v = ('s', (i[0], t, 'key', i[3] - 1))
            e[p] = v
        return e

    def counted(self, e, t, by=1):
        e = dict(e)
        if by is None:
            e[('erased',)] = None
        elif e.get(('erased',), 0) is not None:
            e[('erased',)] = min(3, e.get(('erased',), 0) + by)
        return e

    def erase_at(self, n, u, env, t, i):
        """-> [(env, position of the next element)]"""
        pos, k = i[2], i[3]
        if pos == 'end' or pos == 'dead':
            self.bad('erases %s' % ('the end position' if pos == 'end' else 'an element that was already erased'), 'erase-' + pos)
            return []
        if not self.known(env, t):
            return [(env, None)]
        if pos == 'key':
            e = self.renumber(env, t, k)
            e = self.counted(e, t)
            nxt = self.nexts(e, t, 'key', k)
            e[('in', t)] = env[('in', t)] - 1
            e[('erk', t)] = k
            if e.get(('tested', t)) == ('key', k, True):
                e.pop(('tested', t))
                e.pop(('owed', t), None)
            return [(e, x) for x in nxt]
        grp = 'bef' if pos.startswith('bef') else 'aft'
        e = self.counted(env, t)
        e[(grp, t)] = 'chg'
        if (e.get(('tested', t)) or (None,))[0] == pos:
            if e[('tested', t)][2] is True:
                e.pop(('owed', t), None)
            e.pop(('tested', t))
        return [(e, x) for x in self.nexts(e, t, pos, k)]

    def insert_key(self, n, u, env, t, val, kind):
        """-> [(env, iterator, inserted)]"""
        c = env.get(('in', t))
        if c is None or ('lost', t) in env:
            return [(self.lose(env, t), None, None)]
        if kind in UNIQUE and c:
            return [(env, ('s', ('it', t, 'key', c)), False)]
        if c >= 3:
            return [(self.lose(env, t), None, None)]
        e = {}
        for p, v in env.items():
            i = self.it(v)
            e[p] = ('s', (i[0], t, 'key', i[3] + 1)) if i is not None and i[1] == t and i[2] == 'key' else v
        e[('in', t)] = c + 1
        if val is not None:
            e[('val', t)] = val
        else:
            e.pop(('val', t), None)
        return [(e, ('s', ('it', t, 'key', 1)), True)]

    # -- calls
    def effect(self, n, u, env):
        b = n.base
        if b == 'operator=' and n.obj is not None and len(n.args) == 1:
            el = self.elem(n.obj, u, env)
            if el is not None:
                e = self.store(n, u, env, el, n.args[0])
                return [(u, e if n.dst is None else self.put(e, n.dst, None))]
        r = self.cont_call(n, u, env)
        if r is not None:
            out = []
            for u2, e, val, parts in r:
                if n.dst is not None:
                    e = self.put(e, n.dst, val)
                    for f, x in parts.items():
                        e[('fld', norm(n.dst), f)] = x
                out.append((u2, e))
            return out
        return Abs.effect(self, n, u, env)

    def store(self, n, u, env, el, src):
        t, pos, k, part = el
        self.mutate(n, u, env, t, 'value')
        e = dict(env)
        if part != 'first' and pos == 'key':
            v = self.ev(src, u, env) if src is not None else None
            if v is not None and self.known(env, t) and env[('in', t)] == 1:
                e[('val', t)] = v
            else:
                e.pop(('val', t), None)
        elif pos != 'key' and self.known(env, t):
            e['bef' if pos.startswith('bef') else 'aft', t] = 'chg'
        return e

    def move(self, n, u, env):
        if n.op == 'wr':
            el = self.elem(n.p, u, env)
            if el is not None:
                v = self.rmw(n, u, env) if n.raw.get('rmw') else None
                e = self.store(n, u, env, el, None if n.raw.get('rmw') else n.v)
                if n.raw.get('rmw') and el[1] == 'key' and v is not None:
                    e[('val', el[0])] = v
                return [(u, e)]
        return Abs.move(self, n, u, env)

    def rmw(self, n, u, env):
        v = self.ev(n.v, u, env)
        if isinstance(v, tuple) and v and v[0] == 'n':
            return ('n', max(-1, min(3, v[1])))
        return None

    def cont_call(self, n, u, env):
        """-> [(u, env, value, parts of the result)] or None"""
        b, obj, args = n.base, n.obj, n.args
        x = self.outcall(n, u, env)
        if x is not None:
            return x
        cls = n.cls or ''
        # making containers and holders
        if b in ('make_shared_ptr', 'make_unique_ptr'):
            k = made(n)
            if k:
                t = ('t', n.i)
                if not args:
                    return [(u, self.fresh(env, t, k), ('s', t), {})]
                if len(args) == 1:
                    s = self.tag(args[0], u, env)
                    if s is not None and env.get(('cont', s)) == k:
                        return [(u, self.fresh(env, t, k, s), ('s', t), {})]
                e = self.fresh(env, t, k)
                return [(u, self.lose(e, t), ('s', t), {})]
            for a in args:
                v = self.ev(a, u, env)
                if isinstance(v, tuple) and v and v[0] == 's' and self.iscont(v[1], env):
                    e = dict(env)
                    e[('shared', v[1])] = True
                    return [(u, e, ('s', ('holder', v[1])), {})]
                if isinstance(v, tuple) and v and v[0] == 's' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'holder':
                    return [(u, env, ('s', ('enum', v[1][1], None)), {})]
            return None
        if cls == 'stingray::weak_ptr' and obj is not None:
            if b == 'expired':
                return [(u, env, self.neg(self.cond(obj, u, env), env), {})]
            if b == 'lock':
                return [(u, self.copy(env, n.dst, obj, u) if n.dst is not None else env, self.get(obj, u, env), {})]
        if b in ('EnumeratorFromStlContainer', 'EnumeratorFromStlIterators', 'EnumerableFromStlContainer', 'EnumerableFromStlIterators'):
            return self.enumeration(n, u, env)
        if b in ('MakeEmptyEnumerator', 'MakeEmptyEnumerable'):
            return [(u, env, ('s', ('empty',)), {})]
        if cls == 'stingray::shared_ptr' and n.raw.get('k') == 'ctor' and obj is not None and len(args) == 2 and bare_cast(args[1])[0] == 'null':
            return [(u, self.copy(env, obj, args[0], u), None, {})]
        if b == 'operator shared_ptr' and obj is not None:
            return [(u, env, self.get(obj, u, env), {})]
        if b in ('WrapEnumerator', 'WrapEnumerable', 'WrapMapEnumerator', 'KeysEnumerator', 'ValuesEnumerator') and args:
            return [(u, env, self.ev(args[0], u, env), {})]
        kind = kind_of(cls)
        if kind and obj is not None and n.raw.get('k') not in ('ctor', 'dtor'):
            return self.member(n, u, env, kind)
        if kind and n.raw.get('k') == 'ctor' and obj is not None:
            t = norm(obj)
            e = self.fresh(env, t, kind)
            e[t] = ('s', t)
            if args:
                s = self.tag(args[0], u, env)
                if len(args) == 1 and s is not None:
                    e = self.fresh(e, t, kind, s)
                    e[t] = ('s', t)
                else:
                    e = self.lose(e, t)
            return [(u, e, None, {})]
        if n.raw.get('k') == 'dtor':
            return [(u, env, None, {})]
        return self.iter_call(n, u, env, cls)

    def enumeration(self, n, u, env):
        args = n.args
        vals = [self.ev(a, u, env) for a in args]
        hold = None
        for v in vals:
            if isinstance(v, tuple) and v and v[0] == 's' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'holder':
                hold = v[1][1]
        its = [self.it(v) for v in vals if self.it(v) is not None]
        t = its[0][1] if its else self.tag(args[0], u, env) if args else None
        if len(its) >= 2 and its[0][1] != its[1][1]:
            self.bad('makes an enumeration of iterators into two different containers', 'enum-mixed')
        if t is not None and self.watched(t, env):
            if hold is None and len(args) < (3 if its else 2):
                self.bad('hands out an enumeration that does not keep its items alive', 'enum-bare')
            elif hold is not None and hold != t:
                self.bad('hands out an enumeration that keeps other items alive than it goes through', 'enum-other')
        frm = its[0][2:] + (its[0][0],) if its else None
        to = its[1][2:] if len(its) > 1 else None
        if frm is None and t is not None and self.known(env, t):
            frm, to = ('all', 0, 'it'), ('end', 0)
        return [(u, env, ('s', ('enum', t, frm, to)), {})]

    def watched(self, t, env):
        return True

    def member(self, n, u, env, kind):
        b, obj, args = n.base, n.obj, n.args
        t = self.tag(obj, u, env)
        if t is None:
            return None
        vals = [self.ev(a, u, env) for a in args]
        its = [self.it(v) for v in vals]
        K = self.known(env, t)

        def one(val=None, e=env, parts=None):
            return [(u, e, val, parts or {})]

        def itv(x, how='it'):
            return ('s', (how, t) + tuple(x))
        if kind in SEQ:
            if b in ('begin', 'cbegin'):
                return one(('s', ('it', t, 'seq', 0)))
            if b in ('end', 'cend'):
                return one(('s', ('it', t, 'end', 0)))
            if b in ('rbegin', 'crbegin', 'rend', 'crend'):
                return one(('s', ('rit', t, 'seq', 0)))
            if b in MUT_SEQ or b == 'clear':
                for i in its:
                    self.foreign(n, t, i)
                self.mutate(n, u, env, t, b)
                if b == 'clear':
                    return one(None, self.emptied(env, t))
                e = self.lose(env, t)
                e[('chg', t)] = True
                return one(('s', ('it', t, 'seq', 0)) if b in ('insert', 'emplace', 'erase') else None, e)
            if b in ('operator[]', 'at', 'front', 'back') and n.dst is not None:
                return one(('v', ('el', t, 'seq', 0)))
            if b == 'empty' and K:
                return one(not env[('in', t)])
            if b == 'operator=' and len(args) == 1:
                return self.assign(n, u, env, t, kind, args[0])
            return one(None)
        if b in ('begin', 'cbegin') and K:
            return [(u, env, itv(x), {}) for x in self.first(env, t)]
        if b in ('end', 'cend'):
            return one(itv(('end', 0)))
        if b in ('rbegin', 'crbegin') and K:
            return [(u, env, itv(x, 'rit'), {}) for x in self.prevs(env, t, 'end', 0)]
        if b in ('rend', 'crend'):
            return one(itv(('rend', 0), 'rit'))
        if b in ('find', 'lower_bound', 'upper_bound', 'count', 'contains', 'equal_range') and len(args) == 1:
            self.lookups += 1
            if vals[0] != ('v', 'K') or not K:
                return one(None)
            c = env[('in', t)]
            if b == 'count':
                return one(('n', c))
            if b == 'contains':
                return one(c > 0)
            if b == 'find':
                return one(itv(('key', c) if c else ('end', 0)))
            ups = self.upper(env, t)
            if b == 'upper_bound':
                return [(u, env, itv(x), {}) for x in ups]
            lows = [('key', c)] if c else ups
            if b == 'lower_bound':
                return [(u, env, itv(x), {}) for x in lows]
            if n.dst is None:
                return one(None)
            return [(u, env, None, {'first': itv(('key', c) if c else x), 'second': itv(x)}) for x in ups]
        if b == 'empty' and K:
            if env[('in', t)]:
                return one(False)
            g = {env[('bef', t)], env[('aft', t)]}
            return one(False) if 'yes' in g else one(True) if g == {'no'} else [(u, env, True, {}), (u, env, False, {})]
        if b == 'size':
            e = dict(env)
            if K and env[('bef', t)] == env[('aft', t)] == 'no':
                return one(('n', env[('in', t)]))
            e[('sizes',)] = min(2, e.get(('sizes',), 0) + 1)
            return one(None, e)
        if b == 'clear':
            self.mutate(n, u, env, t, b)
            return one(None, self.emptied(env, t))
        if b == 'erase':
            for i in its:
                self.foreign(n, t, i)
            self.mutate(n, u, env, t, b)
            if len(args) == 1 and its[0] is not None and its[0][1] == t:
                return [(u, e, itv(x) if x is not None else None, {}) for e, x in self.erase_at(n, u, env, t, its[0])]
            if len(args) == 1 and vals[0] == ('v', 'K') and K:
                c = env[('in', t)]
                e = env
                for k in range(c, 0, -1):
                    e = self.renumber(e, t, k)
                e = self.counted(e, t, c)
                e[('in', t)] = 0
                if c:
                    e[('erk', t)] = c
                return one(('n', c), e)
            grp = self.group(vals[0]) if len(args) == 1 else None
            if grp and K:
                e = self.counted(env, t, None)
                if env[(grp, t)] != 'no':
                    e[(grp, t)] = 'chg'
                return one(None, e)
            if len(args) == 2 and K and all(i is not None and i[1] == t for i in its):
                (p1, k1), (p2, k2) = its[0][2:], its[1][2:]
                if p1 == p2 and k1 == k2 and p1 not in ('bef', 'aft'):
                    return one(itv((p2, k2)))
                if p1 == 'key' and k1 == env[('in', t)] and p2 in ('aft0', 'end'):
                    e = env
                    for k in range(k1, 0, -1):
                        e = self.renumber(e, t, k)
                    e = self.counted(e, t, k1)
                    e[('in', t)] = 0
                    e[('erk', t)] = k1
                    return one(itv((p2, k2)), e)
            return one(None, self.lose(env, t))
        if b in ('insert', 'emplace', 'emplace_hint', 'insert_or_assign', 'try_emplace'):
            for i in its:
                self.foreign(n, t, i)
            self.mutate(n, u, env, t, b)
            rest = list(zip(args, vals))
            hint = bool(rest) and its[0] is not None
            if hint:
                rest = rest[1:]
            if len(rest) == 1 and kind in MAPS:
                a = norm(rest[0][0])
                kv = [env.get(('fld', a, f), self.read(('fld', a, f), u, env)) for f in ('first', 'second')]
                rest = [(None, kv[0]), (None, kv[1])] if kv[0] is not None else []
            grp = self.group(rest[0][1]) if rest and K else None
            if grp:
                e = dict(env)
                if env[(grp, t)] != 'yes':
                    e[(grp, t)] = 'yes'
                e[('grown', t)] = True
                return one(None, e)
            if not rest or rest[0][1] != ('v', 'K'):
                return one(None, self.lose(env, t))
            val = rest[1][1] if len(rest) > 1 else None
            out = []
            for e, i, ins in self.insert_key(n, u, env, t, val, kind):
                if b == 'insert_or_assign' and ins is False:
                    e = dict(e)
                    if val is not None:
                        e[('val', t)] = val
                    else:
                        e.pop(('val', t), None)
                parts = {} if hint or kind in MULTI else {'first': i, 'second': ins}
                out.append((u, e, i if not parts else None, {f: x for f, x in parts.items() if x is not None}))
            return out
        if b == 'operator[]' or b == 'at':
            if vals and vals[0] == ('v', 'K') and K:
                if b == 'operator[]' and not env[('in', t)]:
                    self.mutate(n, u, env, t, b)
                    e = self.insert_key(n, u, env, t, ('n', 0), kind)[0][0]
                    return one(('v', ('el', t, 'key', 1, 'second')), e)
                if env[('in', t)]:
                    return one(('v', ('el', t, 'key', 1, 'second')))
                return one(None)
            return one(None, self.lose(env, t) if b == 'operator[]' else env)
        if b == 'swap' and len(args) == 1:
            s = self.tag(args[0], u, env)
            self.mutate(n, u, env, t, b)
            if s is None:
                return one(None, self.lose(env, t))
            self.mutate(n, u, env, s, b)
            e = {k: v for k, v in env.items() if not (isinstance(k, tuple) and len(k) == 2 and k[1] in (s, t) and k[0] in ('in', 'bef', 'aft', 'val', 'lost', 'erk'))}
            for x, y in ((s, t), (t, s)):
                for k in ('in', 'bef', 'aft', 'val', 'lost', 'erk'):
                    if (k, x) in env:
                        e[(k, y)] = env[(k, x)]
            return one(None, e)
        if b == 'operator=' and len(args) == 1:
            return self.assign(n, u, env, t, kind, args[0])
        if n.raw.get('const'):
            return one(None)
        return one(None, self.lose(env, t))

    @staticmethod
    def group(v):
        """group of elements a key other than the tracked one belongs to"""
        if isinstance(v, tuple) and v and v[0] == 'v' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'key' and v[1][1] in ('bef', 'aft'):
            return v[1][1]
        return None

    def assign(self, n, u, env, t, kind, src):
        s = self.tag(src, u, env)
        self.mutate(n, u, env, t, 'operator=')
        if s is None:
            return [(u, self.lose(env, t), None, {})]
        e = dict(env)
        for k in ('in', 'bef', 'aft', 'val', 'lost', 'erk'):
            e.pop((k, t), None)
            if (k, s) in env:
                e[(k, t)] = env[(k, s)]
        return [(u, e, None, {})]

    def emptied(self, env, t):
        e = dict(env)
        for k in ('val', 'owed', 'tested', 'lost', 'erk'):
            e.pop((k, t), None)
        e[('in', t)], e[('bef', t)], e[('aft', t)] = 0, 'no', 'no'
        return e

    # -- iterators, comparers, predicates
    def iter_call(self, n, u, env, cls):
        b, obj, args = n.base, n.obj, n.args
        vals = [self.ev(a, u, env) for a in args]
        ov = self.get(obj, u, env) if obj is not None else None
        oi = self.it(ov)
        if obj is not None and oi is None and b in ('operator*', 'operator->', 'operator++', 'operator--') and ITER.search(cls):
            return [(u, self.put(env, obj, None) if b in ('operator++', 'operator--') else env, None, {})]
        if n.raw.get('k') == 'ctor' and obj is not None and len(args) == 1:
            i = self.it(vals[0])
            if i is not None:
                v = vals[0]
                if 'reverse_iterator' in cls and i[0] == 'it':
                    if not self.known(env, i[1]) or i[2] in ('seq', 'dead'):
                        return [(u, self.put(env, obj, None), None, {})]
                    return [(u, self.put(env, obj, ('s', ('rit', i[1]) + x)), None, {}) for x in self.prevs(env, i[1], i[2], i[3])]
                return [(u, self.put(env, obj, v), None, {})]
        if oi is not None:
            if b in ('operator*', 'operator->') and not args:
                if oi[2] in ('end', 'rend'):
                    self.bad('dereferences the end of the container', 'deref-end')
                    return []
                if oi[2] == 'dead':
                    self.bad('uses an element after erasing it', 'deref-dead')
                    return []
                if b == 'operator*':
                    return [(u, env, ('v', ('el',) + oi[1:]), {})]
                return [(u, env, ('s', ('elp',) + oi[1:]), {})]
            if b == 'operator++':
                return self.advance(n, u, env, oi, obj, bool(args), ov)
            if b in ('operator--', 'operator+=', 'operator-='):
                return [(u, self.put(env, obj, None), None, {})]
            if b == 'base' and oi[0] == 'rit':
                return [(u, env, None, {})]
        if b in ('next', 'std::next') and args and self.it(vals[0]) is not None:
            i = self.it(vals[0])
            k = vals[1] if len(vals) > 1 else ('n', 1)
            if i[2] == 'seq' or i[2] == 'end' and not (isinstance(k, tuple) and k[0] == 'n' and k[1] > 0):
                return [(u, env, vals[0], {})]
            if not (isinstance(k, tuple) and k[0] == 'n' and 0 <= k[1] <= 3) or not self.known(env, i[1]) or i[2] == 'dead':
                return [(u, env, None, {})]
            ps = [i[2:]]
            for _ in range(k[1]):
                ps = [y for x in ps for y in self.nexts(env, i[1], x[0], x[1])]
            return [(u, env, ('s', ('it', i[1]) + tuple(x)), {}) for x in dict.fromkeys(ps)]
        if b in ('values_iterator', 'keys_iterator') and args:
            return [(u, env, vals[0], {})]
        if b in ALGO_WRITE and args and obj is None:
            ts = [self.it(v)[1] for v in vals if self.it(v) is not None]
            e = env
            for t in dict.fromkeys(ts):
                if b in ('copy', 'transform', 'move', 'copy_backward', 'move_backward') and self.it(vals[0]) is not None and self.it(vals[0])[1] == t and self.it(vals[-1 if b != 'transform' else 2 if len(vals) > 2 else -1]) is None:
                    continue
                self.mutate(n, u, e, t, b)
                e = self.lose(e, t)
            if ts:
                return [(u, e, None, {})]
        # comparers
        ab = ([ov] if obj is not None and b in ('operator==', 'operator!=') else []) + vals
        if b == 'operator()' and len(args) == 2 and n.raw.get('bool') and not cls.endswith('::function'):
            return self.comparer(n, u, env, cls, vals)
        if b == 'operator()' and n.raw.get('bool') and cls.endswith('::function'):
            return self.predicate(n, u, env)
        if b in ('operator bool', 'is_initialized') and obj is not None and norm(obj)[0] == 'rpar' and self.truth(ov, env) is None:
            return [(u, self.put(env, obj, ('s', 'given')), True, {}), (u, self.put(env, obj, False), False, {})]
        if b in ('find', 'find_if', 'find_if_not') and obj is None and len(vals) >= 2:
            i = self.it(vals[0])
            if i is not None and i[2] == 'seq':
                return [(u, env, vals[0], {}), (u, env, ('s', (i[0], i[1], 'end', 0)), {})]
        # containers handed to something that may change them
        mr = n.raw.get('mr') or []
        e = env
        for j, a in enumerate(args):
            t = self.tag(a, u, env)
            if t is not None and j in mr:
                self.mutate(n, u, e, t, b)
                e = self.lose(e, t)
        if e is not env:
            return [(u, e, None, {})]
        return None

    def advance(self, n, u, env, oi, obj, post, ov):
        t = oi[1]
        if oi[2] in ('end', 'rend'):
            self.bad('moves an iterator past the end', 'past-end')
            return []
        if oi[2] == 'dead':
            self.bad('moves an iterator to an element that was erased', 'inc-dead')
            return []
        if not self.known(env, t) or oi[2] == 'seq':
            return [(u, env if oi[2] == 'seq' else self.put(env, obj, None), ov if oi[2] == 'seq' else None, {})]
        e = env
        tst = env.get(('tested', t))
        if tst is not None and tst[2] is True and tst[:2] == oi[2:]:
            e = dict(env)
            e[('owed', t)] = True
        step = self.nexts if oi[0] == 'it' else self.prevs
        out = []
        for x in step(env, t, oi[2], oi[3]):
            v = ('s', (oi[0], t) + tuple(x))
            out.append((u, self.put(e, obj, v), ov if post else v, {}))
        return out

    def comparer(self, n, u, env, cls, vals):
        def rank(v):
            if v == ('v', 'K'):
                return 1
            if isinstance(v, tuple) and v and v[0] == 'v' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'key':
                return {'bef': 0, 'aft': 2}.get(v[1][1])
            return None
        a, b = (rank(v) for v in vals)
        r = None
        if a is not None and b is not None and (a != b or a == 1):
            if 'Less' in cls or cls.endswith('less'):
                r = a < b
            elif 'Greater' in cls or cls.endswith('greater'):
                r = a > b
            elif 'Equal' in cls or cls.endswith('equal_to'):
                r = a == b
            if r is not None:
                return [(u, env, r, {})]
        return self.decide(n, u, env, vals)

    def decide(self, n, u, env, vals):
        """a comparison of values: both outcomes, the same again for the same element"""
        k = None
        for v in vals:
            if isinstance(v, tuple) and v and v[0] == 'v' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'value' and v[1][2] == 'key':
                k = ('veq', v[1][3])
            elif v == env.get(('val', v[1][1] if isinstance(v, tuple) and isinstance(v[1], tuple) and len(v[1]) > 1 else None)) and v is not None:
                k = k or ('veq', 'val')
        if k is None and any(v == ('v', 'old') for v in vals):
            k = ('veq', 1)
        if k is not None and k in env:
            return [(u, env, env[k], {})]
        out = []
        for t in (True, False):
            e = env
            if k is not None:
                e = dict(env)
                e[k] = t
            out.append((u, e, t, {}))
        return out

    def claims(self, t, env):
        """elements of t that a condition holds for must be removed from t"""
        return True

    def pkey(self, el, env):
        return ('pk', el[2])

    def predicate(self, n, u, env):
        """a user predicate applied to an element"""
        el = None
        for a in n.args:
            el = el or self.elem(a, u, env)
        out = []
        for r in (True, False):
            e = dict(env)
            if el is not None and self.claims(el[0], env):
                t = el[0]
                if e.get(('owed', t)) is True:
                    self.bad('goes on to the next element without removing the one the condition holds for', 'owed')
                e[('tested', t)] = (el[1], el[2], r)
            if el is not None:
                if el[1] == 'key':
                    k = self.pkey(el, env)
                    if k in env and env[k] != r:
                        continue
                    e[k] = r
            out.append((u, e, r, {}))
        return out
