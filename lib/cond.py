"""Conditions and values of a flow graph, seen through local variables, copies and comparison operators."""
from engine import *

LOCAL = ('var', 'tmp', 'res', 'par')


def bare(v):
    while isinstance(v, tuple) and v and v[0] in ('deref', 'addr', 'icast', 'cast', 'decay'):
        v = v[1]
    return v


def fldq(p):
    """(class, field) of an access path's last field"""
    p = bare(p)
    return (p[3], p[2]) if isinstance(p, tuple) and len(p) > 3 and p[0] == 'fld' else None


def enum_of(v):
    for x in leaves(v):
        if x[0] == 'enum':
            return str(x[1]).rsplit('::', 1)[-1]
    return None


class Conds(object):
    def __init__(self, g):
        self.g = g
        self.defs = {}      # local -> values assigned to it
        self.calls = {}     # local -> call nodes whose result it is
        for n in g.nodes:
            if n.op in ('call', 'join', 'model', 'enter') and n.dst is not None:
                self.calls.setdefault(n.dst, []).append(n)
            elif n.op in ('wr', 'bind', 'bindref') and isinstance(n.p, tuple) and n.p and n.p[0] in LOCAL and n.v != n.p:
                self.defs.setdefault(n.p, []).append(n.v)
            elif n.op == 'ret' and n.ctx.dst is not None and n.v != n.ctx.dst:
                self.defs.setdefault(n.ctx.dst, []).append(n.v)
            if n.op in ('call', 'enter') and n.raw.get('k') == 'ctor' and isinstance(n.obj, tuple) and n.obj and n.obj[0] in LOCAL and len(n.args) == 1:
                self.defs.setdefault(n.obj, []).append(n.args[0])

    def single(self, v):
        """follow copies of a local while its value is unambiguous"""
        seen = set()
        v = bare(v)
        while isinstance(v, tuple) and v and v[0] in LOCAL and v not in seen:
            seen.add(v)
            d = self.defs.get(v, [])
            c = [m for m in self.calls.get(v, []) if m.op != 'join']
            if len(d) == 1 and not c:
                v = bare(d[0])
            else:
                break
        return v

    def call_of(self, v):
        v = self.single(v)
        c = self.makers(v)
        return c[0] if len(c) == 1 else None

    def makers(self, v):
        """calls whose result v is; an inlined call that only passes on the result of another is left out"""
        c = [m for m in self.calls.get(v, []) if m.op != 'join']
        if len(c) > 1:
            c = [m for m in c if m.op != 'enter'] or c
        return c

    def same(self, a, b):
        return bare(a) == bare(b) or self.single(a) == self.single(b)

    def compare(self, c, pol):
        """condition -> (op '=='/'!=', enumerator, polarity, operand) or (None, None, polarity, value)"""
        for _ in range(12):
            if not isinstance(c, tuple) or not c:
                break
            if c[0] == 'un' and c[1] == '!':
                c, pol = c[2], not pol
                continue
            if c[0] == 'bin' and c[1] in ('==', '!='):
                e = enum_of(c)
                o = c[2] if enum_of(c[3]) else c[3]
                return c[1], e, pol, o
            m = [m for m in self.calls.get(c, []) if m.op != 'join'] if c[0] in LOCAL else []
            if len(m) == 1 and m[0].base in ('operator==', 'operator!='):
                m = m[0]
                vals = [x for x in (m.obj,) + tuple(m.args) if x is not None]
                es = [enum_of(self.single(x)) for x in vals]
                e = next((x for x in es if x), None)
                o = next((x for x, y in zip(vals, es) if not y), None)
                return m.base[8:], e, pol, o
            if m:
                break
            d = self.defs.get(c, []) if c[0] in LOCAL else []
            if len(d) == 1:
                c = d[0]
                continue
            break
        return None, None, pol, c

    def atom(self, c, pol=True):
        """strip negations, copies, likeliness hints and truth conversions: -> (leaf value or call node, polarity)"""
        for _ in range(16):
            if not isinstance(c, tuple) or not c:
                return c, pol
            if c[0] == 'un' and c[1] == '!':
                c, pol = c[2], not pol
                continue
            if c[0] in ('icast', 'cast'):
                c = c[1]
                continue
            if c[0] == 'bin' and c[1] in ('==', '!=') and (_nul(c[2]) or _nul(c[3])):
                if c[1] == '==':
                    pol = not pol
                c = c[3] if _nul(c[2]) else c[2]
                continue
            if c[0] in LOCAL:
                m = [m for m in self.calls.get(c, []) if m.op != 'join']
                d = self.defs.get(c, [])
                if len(m) == 1 and not d:
                    m = m[0]
                    if m.sn == '__builtin_expect':
                        c = m.args[0]
                        continue
                    if m.base == 'operator!' and m.obj is not None:
                        c, pol = m.obj, not pol
                        return ('truth', bare(c)), pol
                    if m.base in ('operator bool', 'is_initialized', 'get', 'operator->') and m.obj is not None:
                        return ('truth', bare(m.obj)), pol
                    return m, pol
                if len(d) == 1 and not m:
                    c = d[0]
                    continue
            return c, pol
        return c, pol

    def test(self, n, tv, kp):
        """what a branch tells: (leaf value or call node, truth), seen through && and || temporaries"""
        if n.op != 'br':
            return None, None
        if isinstance(kp, tuple) and len(kp) == 2 and isinstance(kp[0], tuple) and kp[0] and kp[0][0] in LOCAL:
            leaf, pol = self.atom(kp[0], kp[1])
        else:
            leaf, pol = self.atom(n.c)
        return leaf, tv == pol


def _nul(x):
    return isinstance(x, tuple) and x and (x[0] == 'null' or x[0] == 'lit' and (x[1] is False or x[1] == 0))


def sources(C, v, through_obj=False):
    """everything v is made from: (values, calls and constructor nodes) reached through copies, construction and call arguments"""
    if not hasattr(C, 'ctors'):
        C.ctors = {}
        for n in C.g.nodes:
            if n.op in ('call', 'enter') and n.raw.get('k') == 'ctor' and n.obj is not None:
                C.ctors.setdefault(n.obj, []).append(n)
    vals, nodes = set(), set()
    st = [v]
    while st:
        x = bare(st.pop())
        if not isinstance(x, tuple) or x in vals:
            continue
        vals.add(x)
        if x and x[0] in LOCAL:
            st.extend(C.defs.get(x, ()))
            for m in C.makers(x):
                nodes.add(m.i)
                st.extend(m.args)
                if m.obj is not None and through_obj:
                    st.append(m.obj)
            for m in C.ctors.get(x, ()):
                nodes.add(m.i)
                st.extend(m.args)
        elif x and x[0] in ('fld', 'idx', 'post'):
            st.append(x[1])
        elif x and x[0] in ('un', 'bin', 'cond'):
            st.extend(y for y in x[1:] if isinstance(y, tuple))
    return vals, nodes
