"""What the functions that make enumerations hand to the enumerators they make: which sources, in which order, and whether every walk starts anew."""
import re
from engine import *
from locks import *
from comp import by_file, roots
from absx import Abs, norm, under, bare_cast

S = 'stingray::'
CLASSES = ['JoiningEnumerator', 'JoiningEnumerable', 'SimpleEnumerable', 'EnumeratorDiff', 'EnumeratorTaker', 'EnumeratorCaster', 'EnumeratorOfType', 'EnumeratorTransformer', 'EnumerableTransformer', 'EnumeratorFlattener',
           'EnumeratorWrapper', 'EnumerableWrapper', 'IteratorsRangeEnumerator', 'StlIteratorsEnumerable', 'OneItemEnumerator', 'OneItemEnumerable', 'EmptyEnumerator', 'EmptyEnumerable', 'FuncEnumerator']
WORD = re.compile('(%s)' % '|'.join('%d%s' % (len(c), c) for c in CLASSES))
ORDINAL = ['first', 'second', 'third', 'fourth']


def tagged(v, k):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == 's' and isinstance(v[1], tuple) and v[1][:1] == (k,)


def class_of(fn):
    m = WORD.search(fn or '')
    return re.sub(r'^\d+', '', m.group(1)) if m else None


class Wire(Abs):
    def __init__(self, g):
        Abs.__init__(self, g)

    def ev(self, v, u, env):
        w = bare_cast(v)
        if isinstance(w, tuple) and w and w[0] == 'closure' and isinstance(w[1], tuple):
            if w[1][0] == 'memfn' and w[1][2].endswith('::GetEnumerator') and len(w) > 2:
                x = self.ev(w[2], u, env)
                return ('s', ('lazy', x))
            return None
        if isinstance(w, tuple) and w and w[0] == 'addr' and isinstance(w[1], tuple) and w[1][0] == 'fn':
            return ('s', ('fn', w[1][2].split('<')[0].rsplit('::', 1)[-1]))
        return Abs.ev(self, v, u, env)

    def read(self, p, u, env):
        if isinstance(p, tuple) and p and p[0] == 'deref':
            v = self.get(p[1], u, env)
            if tagged(v, 'role') or tagged(v, 'made'):
                return v
        return None

    def throw(self, n, u, env):
        return None

    def effect(self, n, u, env):
        b, obj, args, fn = n.base, n.obj, n.args, n.raw.get('fn') or ''

        def ret(v):
            return [(u, self.put(env, n.dst, v) if n.dst is not None else env)]
        if b == 'make_shared_ptr':
            return ret(('s', ('made', class_of(fn.split('make_shared_ptr', 1)[-1]), tuple(self.ev(a, u, env) for a in args))))
        if n.raw.get('k') == 'ctor' and n.cls == S + 'MakeShared' and obj is not None:
            return [(u, self.put(env, obj, ('s', ('maker', class_of(fn)))))]
        if n.raw.get('k') == 'ctor' and n.cls == S + 'shared_ptr' and len(args) > 1 and obj is not None:
            return [(u, self.copy(env, obj, args[0], u))]
        if n.raw.get('k') == 'ctor' and obj is not None and not args and norm(obj) == ('this',):
            return [(u, env)]
        if b == 'Bind' and args:
            return ret(('s', ('bound', self.ev(args[0], u, env), tuple(self.ev(a, u, env) for a in args[1:]))))
        if b in ('GetEnumerator', 'ToEnumerator') and n.dst is not None:
            v = self.get(obj, u, env) if obj is not None else self.ev(args[0], u, env)
            return ret(('s', ('eager', v)) if tagged(v, 'role') or tagged(v, 'made') else None)
        if b in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend') and obj is not None and n.dst is not None:
            v = self.get(obj, u, env)
            return ret(('s', (b.replace('c', ''), v)) if tagged(v, 'role') else None)
        if b in ('WrapEnumerator', 'WrapEnumerable'):
            return ret(('s', ('made', 'Enumera%sWrapper' % ('tor' if b.endswith('tor') else 'ble'), tuple(self.ev(a, u, env) for a in args))))
        if b in ('EnumerableFromStlContainer', 'EnumerableFromStlIterators', 'EnumeratorFromStlContainer', 'EnumeratorFromStlIterators'):
            return ret(('s', ('made', b, tuple(self.ev(a, u, env) for a in args))))
        return Abs.effect(self, n, u, env)


def role(v):
    """-> (index of the parameter, how it is used)"""
    if tagged(v, 'role'):
        return v[1][1], 'as it is'
    if isinstance(v, tuple) and v[0] == 's' and isinstance(v[1], tuple) and len(v[1]) == 2 and v[1][0] in ('lazy', 'eager', 'begin', 'end', 'rbegin', 'rend') and tagged(v[1][1], 'role'):
        return v[1][1][1][1], v[1][0]
    return None


JOIN = ({'JoiningEnumerator', 'JoiningEnumerable'}, [0, 1])
# what each of them makes, and which parameters it hands on, in the order of the arguments
EXPECT = {
    'Concat': JOIN, 'JoinEnumerators': JOIN, 'JoinEnumerables': JOIN,
    'Diff': ({'EnumeratorDiff'}, [0, 1, 2]),
    'Take': ({'EnumeratorTaker'}, [0, 1]),
    'Skip': ({'SkipEnumerator'}, [0, 1]),
    'Transform': ({'EnumeratorTransformer', 'EnumerableTransformer'}, [0, 1]),
    'Cast': ({'EnumeratorCaster'}, [0]),
    'OfType': ({'EnumeratorOfType'}, [0]),
    'Flatten': ({'EnumeratorFlattener'}, [0]),
    'Where': ({'EnumeratorWrapper', 'EnumerableWrapper'}, [0, None, 1]),
    'WrapEnumerator': ({'EnumeratorWrapper'}, [0, 1, 2]),
    'WrapEnumerable': ({'EnumerableWrapper'}, [0, 1, 2]),
    'EnumeratorFromStlIterators': ({'IteratorsRangeEnumerator'}, [0, 1, 2]),
    'EnumerableFromStlIterators': ({'StlIteratorsEnumerable'}, [0, 1, 2]),
    'EnumeratorFromStlContainer': ({'IteratorsRangeEnumerator'}, [0, 0, 1]),
    'EnumerableFromStlContainer': ({'StlIteratorsEnumerable'}, [0, 0, 1]),
}
FILES = ['collection/EnumerableHelpers.h', 'collection/EnumerableWrapper.h', 'collection/EnumerableFromStlContainer.h']


def unwrap(v):
    """-> (class, arguments, made anew for every walk) or None"""
    if not tagged(v, 'made'):
        return None
    c, args = v[1][1:]
    if c == 'SimpleEnumerable':
        if len(args) == 1 and tagged(args[0], 'bound'):
            f = args[0][1][1]
            if tagged(f, 'maker'):
                return f[1][1], args[0][1][2], True
            if tagged(f, 'fn'):
                return f[1][1], args[0][1][2], True
        return None
    return c, args, False


def mentioned(g, p):
    def has(t):
        return t == p or isinstance(t, (tuple, list)) and any(has(x) for x in t if isinstance(x, (tuple, list)))
    return any(has(x) for n in g.nodes for x in (n.p, n.v, n.c, n.obj, tuple(n.args or ())) if x is not None)


def factories(ctx, P, fn):
    c = by_file(fn)
    E = Expander(P, mk_transparent(c.files), models=locky_models)
    E.alias = False
    seen = set()
    for r in roots(P, c):
        if r.scls or r.base not in EXPECT or not r.params:
            continue
        k = (r.base, r.line)
        if k in seen:
            continue
        seen.add(k)
        classes, order = EXPECT[r.base]
        a = Wire(E.run(r))
        try:
            a.run([('x', {('rpar', i, q['n']): ('s', ('role', i)) for i, q in enumerate(r.params)})])
        except AnalysisBroken:
            ctx.count('operations_given_up')
            continue
        for i, q in enumerate(r.params):
            if q['n'] and i in order and not mentioned(a.g, ('rpar', i, q['n'])):
                ctx.report('%s: makes no use of its %s argument' % (r.where(), ORDINAL[i]), key=(r.sn, r.line, 'left out'))
        many = 'IEnumerator<' not in r.params[0]['t'] and r.base != 'WrapEnumerator' and not r.base.startswith('EnumeratorFrom')
        for u, ret, et in sorted(a.exits, key=repr):
            m = unwrap(ret)
            if m is None or m[0] is None:
                ctx.count('ends_undecided')
                continue
            ctx.count('ends_judged')
            made, args, lazy = m

            def bad(msg, key):
                ctx.report('%s: %s' % (r.where(), msg), key=(r.sn, r.line, key))
            if made not in classes:
                if made in CLASSES:
                    bad('makes a %s' % made, 'class')
                continue
            used = set()
            for i, x in enumerate(args):
                p = role(x)
                if p is None:
                    continue
                used.add(p[0])
                want = order[i] if i < len(order) else None
                if want is not None and p[0] != want:
                    bad('hands its %s argument to %s in place of the %s' % (ORDINAL[p[0]], made, ORDINAL[want]), 'order')
                if want == 0 and p[1] == 'eager' and many and lazy:
                    bad('the enumeration it makes can be walked only once: every walk shares the same enumerator', 'once')
                if r.base.endswith('FromStlContainer') and i < 2 and p[1] not in ('as it is', ('begin', 'end')[i]):
                    bad('hands the %s of the container to %s as the %s' % (p[1], made, ('begin', 'end')[i]), 'ends')
            if r.base.endswith(('FromStlContainer', 'FromStlIterators')):
                last = len(r.params) - 1
                if 'shared_ptr' in r.params[last]['t'] and r.params[last]['t'].replace('const ', '').startswith(S + 'shared_ptr') and last >= (1 if 'Container' in r.base else 2) and last not in used and len(args) >= 2 and all(x is not None for x in args):
                    bad('does not hand on what keeps the elements alive', 'lifetime')
        ctx.count('factories')
        ctx.sample(r.where())


# enumerables: class -> (what GetEnumerator makes, the members' constructor parameters in the order of the arguments)
MAKERS = {
    'Detail::JoiningEnumerable': ('JoiningEnumerator', [0, 1]),
    'Enumerable::Detail::EnumerableTransformer': ('EnumeratorTransformer', [0, 1]),
    'Detail::EnumerableWrapper': ('EnumeratorWrapper', [0, 1, 2]),
    'Detail::StlIteratorsEnumerable': ('IteratorsRangeEnumerator', [0, 1, 2]),
    'Detail::OneItemEnumerable': ('OneItemEnumerator', [0]),
}


def enumerables(ctx, P, fn):
    c = by_file(fn)
    E = Expander(P, mk_transparent(c.files), models=locky_models)
    E.alias = False
    by = {}
    for r in roots(P, c):
        k = r.scls[len(S):] if r.scls.startswith(S) else r.scls
        if k in MAKERS and (r.fk == 'ctor' and len(r.params) == len(MAKERS[k][1]) or r.base == 'GetEnumerator'):
            by.setdefault((k, r.n[:r.n.rindex('::')] if '::' in r.n else r.n), {}).setdefault('ctor' if r.fk == 'ctor' else 'get', r)
    done = set()
    for (k, inst), rs in sorted(by.items()):
        if len(rs) < 2 or k in done:
            continue
        done.add(k)
        made, order = MAKERS[k]
        a = Wire(E.run(rs['ctor']))
        try:
            a.run([('x', {('rpar', i, q['n']): ('s', ('role', i)) for i, q in enumerate(rs['ctor'].params)})])
            ends = [a.envs[et] for u, ret, et in a.exits]
        except AnalysisBroken:
            ends = []
        for e in ends[:4]:
            f = {p: v for p, v in e.items() if isinstance(p, tuple) and p and p[0] == 'fld' and under(p, ('this',)) and tagged(v, 'role')}
            r = rs['get']
            b = Wire(E.run(r))
            for p, v in sorted(f.items(), key=repr):
                if p[1] == ('this',) and not mentioned(b.g, p) and not any(mentioned(b.g, ('fld', ('this',), p[2], x)) for x in (r.scls, '')):
                    ctx.report('%s: makes no use of the %s argument of the constructor' % (r.where(), ORDINAL[v[1][1]]), key=(r.sn, 'left out'))
            try:
                b.run([('x', f)])
            except AnalysisBroken:
                ctx.count('operations_given_up')
                continue
            for u, ret, et in sorted(b.exits, key=repr):
                m = unwrap(ret)
                if m is None:
                    ctx.count('ends_undecided')
                    continue
                ctx.count('ends_judged')
                if m[0] != made:
                    continue
                used = set()
                for i, x in enumerate(m[1]):
                    p = role(x)
                    if p is not None:
                        used.add(p[0])
                    if p is not None and i < len(order) and p[0] != order[i]:
                        ctx.report('%s: hands the %s argument of the constructor to %s in place of the %s' % (r.where(), ORDINAL[p[0]], made, ORDINAL[order[i]]), key=(r.sn, 'order'))
                missing = sorted(set(range(len(rs['ctor'].params))) - used)
                if missing and len(m[1]) < len(order) and None not in m[1] and set(missing) <= set(v[1][1] for v in f.values()):
                    ctx.report('%s: does not hand the %s argument of the constructor on to %s' % (r.where(), ORDINAL[missing[0]], made), key=(r.sn, 'left out'))
        ctx.count('enumerables')
        ctx.sample(rs['get'].where())


def joiners(ctx, P):
    """operator %: what was joined so far comes first"""
    c = by_file(FILES[0])
    E = Expander(P, mk_transparent(c.files), models=locky_models)
    E.alias = False
    for r in roots(P, c):
        if r.base != 'operator%' or r.scls not in (S + 'EnumeratorJoiner', S + 'EnumerableJoiner'):
            continue
        g = E.run(r)
        fld = ('fld', ('this',), '_result')
        for have in (True, False):
            a = Wire(g)
            sofar = ('s', ('role', 0)) if have else False
            par = ('rpar', 0, r.params[0]['n'])
            try:
                a.run([('x', {fld: sofar, par: ('s', ('role', 1))})])
            except AnalysisBroken:
                ctx.count('operations_given_up')
                continue
            for u, ret, et in sorted(a.exits, key=repr):
                v = a.envs[et].get(fld)
                if v is None:
                    ctx.count('ends_undecided')
                    continue
                ctx.count('ends_judged')
                m = unwrap(v)
                rs = [role(x) for x in m[1]] if m else None
                if not have:
                    if v is False:
                        ctx.report('%s: does not take over what is joined first' % r.where(), key=(r.sn, 'first'))
                elif v == ('s', ('role', 0)) or v == ('s', ('role', 1)) or rs and None not in rs and set(x[0] for x in rs) != {0, 1}:
                    ctx.report('%s: loses %s' % (r.where(), 'what was joined so far' if v == ('s', ('role', 1)) else 'what is joined'), key=(r.sn, 'lost'))
                elif rs and None not in rs and [x[0] for x in rs] != [0, 1]:
                    ctx.report('%s: puts what is joined before what was joined so far' % r.where(), key=(r.sn, 'order'))
        ctx.count('factories')
        ctx.sample(r.where())


def check(ctx, P):
    for fn in FILES:
        factories(ctx, P, fn)
        enumerables(ctx, P, fn)
    joiners(ctx, P)
