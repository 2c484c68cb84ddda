"""Interprocedural flow-graph engine over the facts produced by tool/sgx.cpp.

A *program* is a set of lowered functions.  `expand` builds, for one entry function, a context-sensitive
interprocedural graph by inlining every callee the rule declares transparent: parameters, `this`, lambda captures,
references bound in constructors (RAII helpers) and copies of smart pointers are substituted by canonical access
paths, destructor calls and exceptional edges are explicit.  `explore` runs a finite-state property over that graph,
tracking the truth of local boolean values so that infeasible branch combinations are not reported.
"""
import json, sys, os, re
from collections import defaultdict, deque

sys.setrecursionlimit(20000)

SMART = {'stingray::shared_ptr', 'stingray::self_count_ptr', 'stingray::weak_ptr', 'stingray::unique_ptr', 'std::unique_ptr', 'std::shared_ptr',
         'stingray::optional', 'stingray::ScopedHolder', 'stingray::toolkit_ptr'}
PTRS = {'stingray::shared_ptr', 'stingray::self_count_ptr', 'stingray::unique_ptr', 'std::unique_ptr', 'std::shared_ptr'}
SHARED = {'stingray::shared_ptr', 'stingray::self_count_ptr', 'stingray::weak_ptr', 'stingray::unique_ptr', 'std::unique_ptr', 'std::shared_ptr', 'stingray::toolkit_ptr'}   # copies refer to the same object
DEREF_NAMES = {'operator*', 'operator->', 'get', 'get_ptr', 'release'}


class AnalysisBroken(Exception):
    pass


def short(q):
    """strip namespaces stingray::, template args for display"""
    return strip_targs(q).replace('stingray::', '')


_targs_cache = {}
def strip_targs(q):
    r = _targs_cache.get(q)
    if r is not None:
        return r
    out = []
    d = 0
    i = 0
    n = len(q)
    while i < n:
        c = q[i]
        if c == '<' and not q.startswith('operator<', max(0, i - 8)):
            d += 1
        elif c == '<' and q.startswith('operator<', max(0, i - 8)):
            # operator< or operator<< : keep literal
            if d == 0:
                out.append(c)
        elif c == '>' and d > 0 and not (i > 0 and q[i - 1] == '-'):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    r = ''.join(out)
    _targs_cache[q] = r
    return r


class Fn(object):
    __slots__ = ('o', 'id', 'n', 'sn', 'cls', 'scls', 'base', 'file', 'line', 'nodes', 'entry', 'exit', 'ehexit', 'params', 'vars', 'fk', 'acc', 'virt', '_wp', '_rpo', '_tiny')

    def __init__(self, o):
        self.o = o
        self.id = o['id']
        self.n = o['n']
        self.sn = strip_targs(o['n'])
        self.cls = o.get('cls', '')
        self.scls = strip_targs(self.cls)
        self.base = self.sn.rsplit('::', 1)[-1]
        self.file = o['f']
        self.line = o['l']
        self.nodes = o['nodes']
        self.entry = o['entry']
        self.exit = o['exit']
        self.ehexit = o['ehexit']
        self.params = o['params']
        self.vars = o['vars']
        self.fk = o['fk']
        self.acc = o.get('acc')
        self.virt = o.get('virt', False)
        self._wp = None
        self._rpo = None
        self._tiny = None

    def written(self):
        """keys of params / vars written (beyond their initialisation)"""
        if self._wp is None:
            w = defaultdict(int)
            for nd in self.nodes:
                if nd['op'] == 'wr':
                    p = nd['p']
                    if isinstance(p, list) and p and p[0] in ('par', 'var'):
                        w[(p[0], p[1])] += 1
                elif nd['op'] == 'call' and nd.get('dst') and isinstance(nd['dst'], list) and nd['dst'][0] == 'var':
                    w[('var', nd['dst'][1])] += 1
                # address taken: treat as written
                for v in (nd.get('args') or []):
                    if isinstance(v, list) and v and v[0] == 'addr' and isinstance(v[1], list) and v[1][0] in ('par', 'var'):
                        w[(v[1][0], v[1][1])] += 2
            self._wp = w
        return self._wp

    def rpo(self):
        if self._rpo is None:
            seen = set()
            order = []
            st = [(self.entry, 0)]
            seen.add(self.entry)
            nodes = self.nodes
            while st:
                n, i = st.pop()
                su = nodes[n].get('s', [])
                if 'eh' in nodes[n]:
                    su = su + [nodes[n]['eh']]
                if i < len(su):
                    st.append((n, i + 1))
                    m = su[i]
                    if m not in seen:
                        seen.add(m)
                        st.append((m, 0))
                else:
                    order.append(n)
            order.reverse()
            self._rpo = order
        return self._rpo

    def where(self):
        return '%s (%s:%d)' % (short(self.n), relfile(self.file), self.line)


REPO = os.environ.get('SGX_REPO', '/repo')


def relfile(f):
    f = os.path.normpath(f)
    if f.startswith(REPO + '/'):
        return f[len(REPO) + 1:]
    return f


class Program(object):
    def __init__(self):
        self.fns = {}
        self.recs = {}
        self.enums = {}
        self.vars = {}
        self.by_sn = defaultdict(list)
        self.by_cls = defaultdict(list)
        self.tus = []
        self._mt = None
        self._callers = None
        self._over = None
        self._norm_ret = None

    def load(self, path, seen):
        with open(path, 'rb') as f:
            for line in f:
                h = hash(line)
                if h in seen:
                    continue
                seen.add(h)
                o = json.loads(line)
                k = o['kind']
                if k == 'fn':
                    old = self.fns.get(o['id'])
                    if old is None:
                        fn = Fn(o)
                        self.fns[fn.id] = fn
                        self.by_sn[fn.sn].append(fn)
                        if fn.cls:
                            self.by_cls[fn.scls].append(fn)
                elif k == 'rec':
                    key = o['n']
                    l = self.recs.setdefault(key, [])
                    if not any(x['fields'] == o['fields'] and x['bases'] == o['bases'] and x['f'] == o['f'] for x in l):
                        l.append(o)
                elif k == 'enum':
                    self.enums.setdefault(o['n'], o)
                elif k == 'var':
                    self.vars.setdefault(o['n'], o)

    def rec(self, name):
        l = self.recs.get(name)
        return l[0] if l else None

    # ---- call graph helpers
    def overriders(self, fid):
        if self._over is None:
            self._over = defaultdict(list)
            for f in self.fns.values():
                for b in f.o.get('over', []):
                    self._over[b].append(f)
        out = []
        st = [fid]
        seen = set()
        while st:
            x = st.pop()
            for f in self._over.get(x, []):
                if f.id not in seen:
                    seen.add(f.id)
                    out.append(f)
                    st.append(f.id)
        return out

    def callers(self):
        """fn id -> set of ids of functions that call it directly; plus set of address-taken ids"""
        if self._callers is None:
            c = defaultdict(set)
            taken = set()

            def walk(v):
                if isinstance(v, list):
                    if v and v[0] in ('memfn', 'fn') and len(v) >= 2 and isinstance(v[1], str):
                        taken.add(v[1])
                    for x in v:
                        walk(x)
            for f in self.fns.values():
                for nd in f.nodes:
                    if nd['op'] == 'call' and 'fn' in nd:
                        c[nd['fn']].add(f.id)
                    for k in ('args', 'v', 'obj', 'callee', 'c'):
                        if k in nd:
                            walk(nd[k])
            self._callers = (c, taken)
        return self._callers

    # ---- may-throw summary
    STD_NOTHROW = re.compile(r'^(std::.*::(empty|size|begin|end|rbegin|rend|cbegin|cend|pop_front|pop_back|clear|swap|front|back|data|operator->|operator\*|operator\+\+|operator--|operator==|operator!=|operator\[\]|c_str|length|max_size|capacity|get|splice|key_comp|value_comp|top|pop)|std::(move|forward|swap|distance|advance|min|max|make_pair|next|prev|begin|end|copy|operator==|operator!=|addressof|declval|get|size)|operator (new|delete)|__.*)$')

    def callee_targets(self, nd):
        """resolved direct target functions for may-throw purposes; None = unknown"""
        fid = nd.get('fn')
        if fid is None:
            return None
        if nd.get('virt') and not nd.get('nonvirt'):
            return None
        f = self.fns.get(fid)
        return [f] if f else None

    def call_may_throw(self, nd, mt, std_alloc):
        if nd.get('nt'):
            return False
        fid = nd.get('fn')
        if fid is None:
            if nd.get('n') == '__atomic':
                return False
            return True
        if nd.get('virt') and not nd.get('nonvirt'):
            return True
        if fid in mt:
            return mt[fid]
        sn = strip_targs(nd['n'])
        if sn.startswith('std::') or sn.startswith('__') or sn.startswith('operator'):
            if self.STD_NOTHROW.match(sn):
                return False
            return std_alloc
        return True

    def may_throw(self, std_alloc=True):
        if self._mt is None:
            self._mt = {}
        if std_alloc in self._mt:
            return self._mt[std_alloc]
        mt = {fid: False for fid in self.fns}
        # reverse deps
        callers, _ = self.callers()
        work = deque(self.fns.keys())
        inq = set(work)
        while work:
            fid = work.popleft()
            inq.discard(fid)
            f = self.fns[fid]
            if mt[fid] or f.o.get('nt'):
                continue
            # reachability to ehexit following only throwing edges
            seen = {f.entry}
            st = [f.entry]
            hit = False
            while st:
                n = st.pop()
                if n == f.ehexit:
                    hit = True
                    break
                nd = f.nodes[n]
                for m in nd.get('s', []):
                    if m not in seen:
                        seen.add(m)
                        st.append(m)
                if 'eh' in nd and nd['eh'] not in seen:
                    op = nd['op']
                    t = True
                    if op == 'call':
                        t = self.call_may_throw(nd, mt, std_alloc)
                    elif op == 'new':
                        t = std_alloc
                    if t:
                        seen.add(nd['eh'])
                        st.append(nd['eh'])
            if hit:
                mt[fid] = True
                for c in callers.get(fid, ()):
                    if not mt[c] and c not in inq:
                        work.append(c)
                        inq.add(c)
        self._mt[std_alloc] = mt
        return mt


# ------------------------------------------------------------------ canonical paths

def show(p):
    if p is None:
        return '-'
    if not isinstance(p, tuple):
        return str(p)
    if not p:
        return '()'
    k = p[0]
    if k == 'this':
        return 'this'
    if k == 'par':
        return 'arg%s' % (p[2],) if len(p) > 2 else 'arg'
    if k == 'rpar':
        return str(p[2])
    if k == 'fld':
        b = show(p[1])
        if b == 'this':
            return p[2]
        if b.startswith('*'):
            return b[1:] + '->' + p[2]
        return b + '.' + p[2]
    if k == 'deref':
        return '*' + show(p[1])
    if k == 'addr':
        return '&' + show(p[1])
    if k == 'var':
        return str(p[2]).split('@')[0]
    if k == 'tmp':
        return '<tmp>'
    if k == 'res':
        return '<result>'
    if k == 'idx':
        return show(p[1]) + '[]'
    if k == 'gvar':
        return short(str(p[1]))
    if k == 'lit':
        return str(p[1])
    if k == 'sync':
        return 'lock(' + show(p[1]) + ')'
    return k + '(' + ','.join(show(x) for x in p[1:]) + ')'


def leaves(p, out=None):
    """all sub-tuples"""
    if out is None:
        out = []
    if isinstance(p, tuple):
        out.append(p)
        for x in p[1:]:
            if isinstance(x, tuple):
                leaves(x, out)
    return out


def root_of(p):
    while isinstance(p, tuple) and p and p[0] in ('fld', 'deref', 'addr', 'idx', 'post', 'icast', 'cast', 'decay'):
        p = p[1]
    return p


class N(object):
    __slots__ = ('i', 'op', 'raw', 'ctx', 's', 'eh', 'obj', 'args', 'p', 'v', 'c', 'dst', 'n', 'sn', 'fn', 'base', 'cls', 'inl', 'extra')

    def __init__(self, i, op, raw, ctx):
        self.i = i
        self.op = op
        self.raw = raw
        self.ctx = ctx
        self.s = []
        self.eh = None
        self.obj = self.p = self.v = self.c = self.dst = None
        self.args = ()
        self.n = self.sn = self.base = ''
        self.fn = None
        self.cls = ''
        self.inl = False
        self.extra = None

    def line(self):
        return self.raw.get('l', 0) if self.raw else 0

    def where(self):
        f = self.ctx.fn
        l = self.line() or f.line
        s = '%s:%d in %s' % (relfile(f.file), l, short(f.n))
        c = self.ctx
        chain = []
        while c.parent is not None and len(chain) < 6:
            chain.append(short(c.parent.fn.n).rsplit('::', 1)[-1] + ':' + str(c.callline))
            c = c.parent
        if chain:
            s += ' (via ' + ' <- '.join(chain) + ')'
        return s


class Ctx(object):
    __slots__ = ('i', 'fn', 'parent', 'this', 'args', 'dst', 'callline', 'lam', 'depth', 'stack')


class Graph(object):
    def __init__(self):
        self.nodes = []
        self.ctxs = []
        self.entry = self.exit = self.ehexit = None
        self.origin = {}   # object path -> source path (copies of smart pointers, reference members)
        self.resval = {}   # ('res',ctx,n) -> canonical value
        self.truncated = []
        self.lams = {}
        self.types = {}
        self.fnset = set()


class Expander(object):
    def __init__(self, prog, transparent, max_depth=14, max_nodes=60000, std_alloc=True, resolve_virtual=None, models=None, tiny=True):
        self.P = prog
        self.transparent = transparent
        self.max_depth = max_depth
        self.max_nodes = max_nodes
        self.mt = prog.may_throw(std_alloc)
        self.std_alloc = std_alloc
        self.resolve_virtual = resolve_virtual
        self.models = models
        self.tiny_on = tiny
        self.alias = True       # copies of smart pointers stand for the pointer they were copied from
        self.raw = False        # pointers are values of their own: nothing is replaced by what it was copied from

    def run(self, fn, this=('this',), args=None):
        g = Graph()
        self.g = g
        g.root = fn
        g.raw = self.raw
        c = self._ctx(fn, None, this, args if args is not None else tuple(('rpar', i, p['n'] or ('#%d' % i)) for i, p in enumerate(fn.params)), None, 0, None, 0)
        g.entry, g.exit, g.ehexit = self._inline(c)
        g.root = fn
        return g

    def _ctx(self, fn, parent, this, args, dst, line, lam, depth):
        c = Ctx()
        c.i = len(self.g.ctxs)
        c.fn = fn
        c.parent = parent
        c.this = this
        c.args = args
        c.dst = dst
        c.callline = line
        c.lam = lam
        c.depth = depth
        c.stack = (parent.stack if parent else frozenset()) | {fn.id}
        self.g.ctxs.append(c)
        self.g.fnset.add(fn.id)
        return c

    # ---- path resolution
    def res(self, c, v):
        if not isinstance(v, list):
            return v if v is None else ('lit', v)
        if not v:
            return None
        k = v[0]
        g = self.g
        if k == 'this':
            return c.this if c.this is not None else ('this?',)
        if k == 'par':
            i = v[1]
            if i < len(c.args):
                a = c.args[i]
                fn = c.fn
                if c.parent is not None and i < len(fn.params) and not fn.params[i].get('ref') and (self.raw or ('par', i) in fn.written()):
                    return ('par', c.i, i)
                return a if a is not None else ('par', c.i, i)
            return ('par', c.i, i)
        if k == 'var':
            info = c.fn.vars.get(v[1])
            if info and 'init' in info:
                if info.get('ref'):
                    r = g.resval.get(('bind', c.i, v[1]))
                    if r is None:
                        r = self.res(c, info['init'])
                        g.resval[('bind', c.i, v[1])] = r
                    if r is not None:
                        return r
                elif not self.raw and (info.get('ptr') or info.get('t', '').endswith('*')) and c.fn.written()[('var', v[1])] <= 1:
                    r = g.resval.get(('bind', c.i, v[1]))
                    if r is None:
                        g.resval[('bind', c.i, v[1])] = ('var', c.i, v[1])
                        r = self.res(c, info['init'])
                        g.resval[('bind', c.i, v[1])] = r
                    if r is not None:
                        return r
            return ('var', c.i, v[1])
        if k == 'outer':
            lc = c.lam
            cc = c
            if lc is None:
                return ('outer?', c.i, json.dumps(v[1]))
            return self.res(lc, v[1])
        if k == 'fld':
            b = self.res(c, v[1])
            p = ('fld', b, v[2], strip_targs(v[3]) if len(v) > 3 and v[3] else '')
            o = g.origin.get(('ref', p))
            if o is not None:
                return o
            return p
        if k == 'deref':
            x = self.res(c, v[1])
            return self.deref(x)
        if k == 'addr':
            x = self.res(c, v[1])
            if isinstance(x, tuple) and x and x[0] == 'deref':
                return x[1]
            return ('addr', x)
        if k in ('res', 'tmp'):
            p = (k, c.i, v[1])
            return g.resval.get(p, p)
        if k == 'ret':
            if c.dst is not None:
                return c.dst
            return ('ret', c.i)
        if k == 'new':
            return ('new', c.i, v[1], v[2])
        if k == 'lambda':
            t = ('lambda', v[1], c.i)
            return t
        if k in ('lit', 'str', 'null', 'enum', 'fn', 'memfn', 'gvar', 'typeid'):
            return tuple(v)
        if k == 'icast':
            return self.res(c, v[2])
        if k == 'decay':
            return self.res(c, v[1])
        if k == 'post':
            return ('post', self.res(c, v[1]))
        out = [k]
        for x in v[1:]:
            if isinstance(x, list):
                out.append(self.res(c, x))
            else:
                out.append(x)
        return tuple(out)

    def deref(self, x):
        if isinstance(x, tuple) and x:
            if x[0] == 'addr':
                return x[1]
            o = self.g.origin.get(x)
            n = 0
            while o is not None and n < 10:
                x = o
                o = self.g.origin.get(x)
                n += 1
            if isinstance(x, tuple) and x and x[0] == 'addr':
                return x[1]
        return ('deref', x)

    def origin_of(self, x):
        n = 0
        o = self.g.origin.get(x)
        while o is not None and n < 10:
            x = o
            o = self.g.origin.get(x)
            n += 1
        return x

    def _new(self, op, raw, c):
        n = N(len(self.g.nodes), op, raw, c)
        self.g.nodes.append(n)
        return n

    def _tiny_val(self, fn):
        """trivial accessor: straight line, no calls/writes, one ret -> value tree, else None"""
        if fn._tiny is None:
            fn._tiny = False
            if len(fn.nodes) <= 8 and fn.fk in ('method', 'func', 'lambda'):
                val = None
                ok = True
                n = fn.entry
                steps = 0
                while steps < 12:
                    nd = fn.nodes[n]
                    if nd['op'] in ('nop', 'rd', 'ret'):
                        if nd['op'] == 'ret':
                            val = nd.get('v')
                        if len(nd['s']) != 1:
                            ok = False
                            break
                        n = nd['s'][0]
                    elif nd['op'] == 'exit':
                        break
                    else:
                        ok = False
                        break
                    steps += 1
                if ok and val is not None and isinstance(val, list) and val[0] in ('fld', 'addr', 'deref', 'par', 'this', 'lit', 'enum', 'var', 'gvar', 'idx', 'null'):
                    fn._tiny = (val,)
        return fn._tiny

    def _inline(self, c):
        g = self.g
        fn = c.fn
        m = {}
        for i in fn.rpo():
            nd = fn.nodes[i]
            n = self._new(nd['op'], nd, c)
            m[i] = n
        for i in (fn.exit, fn.ehexit):
            if i not in m:
                nd = fn.nodes[i]
                m[i] = self._new(nd['op'], nd, c)
        for i in fn.rpo():
            nd = fn.nodes[i]
            n = m[i]
            op = nd['op']
            n.s = [m[j].i for j in nd.get('s', [])]
            if 'eh' in nd:
                n.eh = m[nd['eh']].i
            if op in ('rd',):
                n.p = self.res(c, nd['p'])
            elif op == 'wr':
                n.p = self.res(c, nd['p'])
                n.v = self.res(c, nd['v'])
                if nd.get('init') and nd.get('ref'):
                    pp = ('fld', self.res(c, nd['p'][1]), nd['p'][2], strip_targs(nd['p'][3]) if len(nd['p']) > 3 else '')
                    g.origin[('ref', pp)] = n.v
                    n.p = pp
                    n.op = 'bindref'
                elif nd.get('init') and isinstance(n.v, tuple) and n.v and n.v[0] in ('addr', 'fld', 'rpar', 'deref', 'lambda', 'gvar', 'tmp', 'var') and self._localobj(n.p) and (not self.raw or n.v[0] in ('addr', 'lambda')):
                    g.origin[n.p] = n.v
            elif op == 'bind':
                n.p = ('var', c.i, nd['p'][1])
                n.v = self.res(c, nd['v'])
                g.resval[('bind', c.i, nd['p'][1])] = n.v
            elif op in ('br', 'switch'):
                n.c = self.res(c, nd['c'])
            elif op == 'ret':
                n.v = self.res(c, nd['v']) if nd.get('v') is not None else None
            elif op == 'new':
                n.dst = self.res(c, nd['dst'])
            elif op == 'delete':
                n.p = self.res(c, nd['p'])
            elif op in ('throw', 'rethrow'):
                pass
            elif op == 'call':
                self._call(c, n, nd)
        return m[fn.entry].i, m[fn.exit].i, m[fn.ehexit].i

    def _localobj(self, p):
        r = root_of(p)
        return isinstance(r, tuple) and r and r[0] in ('var', 'tmp', 'res', 'ret', 'lambda')

    def _call(self, c, n, nd):
        g = self.g
        n.n = nd.get('n', '')
        n.sn = strip_targs(n.n) if n.n else ''
        n.base = n.sn.rsplit('::', 1)[-1]
        n.cls = strip_targs(nd['cls']) if 'cls' in nd else ''
        n.fn = nd.get('fn')
        if 'obj' in nd:
            n.obj = self.res(c, nd['obj'])
        n.args = tuple(self.res(c, a) for a in nd.get('args', []))
        rawdst = None
        if 'dst' in nd:
            d = nd['dst']
            if d[0] == 'res':
                rawdst = ('res', c.i, d[1])
            elif d[0] == 'tmp':
                rawdst = ('tmp', c.i, d[1])
            else:
                rawdst = self.res(c, d)
            n.dst = rawdst
        # ---- accessor models
        if n.base in ('move', 'forward', 'RequireNotNull', 'addressof') and len(n.args) >= 1 and rawdst is not None and (n.sn in ('std::move', 'std::forward') or 'RequireNotNull' in n.sn):
            g.resval[rawdst] = n.args[0]
            n.op = 'model'
            if n.sn in ('std::move', 'std::forward'):
                n.eh = None
            return
        if not self.raw and n.cls in SMART and n.base in ('operator*', 'operator->', 'get', 'get_ptr') and rawdst is not None and n.obj is not None:
            if n.base in ('operator->', 'get', 'get_ptr') and not nd.get('lv'):
                g.resval[rawdst] = self.origin_of(n.obj)
            else:
                g.resval[rawdst] = self.deref(n.obj)
            if n.base == 'get' and n.cls == 'stingray::optional':
                g.resval[rawdst] = self.deref(n.obj)
            n.op = 'model'
            return
        if self.models and rawdst is not None:
            r = self.models(self, c, n, nd)
            if r is not None:
                g.resval[rawdst] = r
                n.op = 'model'
                return
        if self._closures(c, n, nd, rawdst):
            return
        cls_n = n.cls
        nd = n.raw
        if self.alias and nd.get('k') == 'ctor' and n.args and (nd.get('cm') and cls_n in SHARED or cls_n in PTRS):
            if n.obj is not None and n.obj != n.args[0] and (self._localobj(n.obj) or root_of(n.obj)[0] == 'new'):
                g.origin.setdefault(n.obj, n.args[0])
        # ---- direct target
        fns = self._targets(c, n, nd)
        if fns:
            self._inline_calls(c, n, nd, fns, rawdst)
            return
        # algorithms of the standard library call the functors they are given before they return
        if self.sync_call(n):
            lams = []
            for a in n.args:
                o = self.origin_of(a)
                if isinstance(o, tuple) and o and o[0] == 'lambda' and o[1] in self.P.fns and o[1] not in c.stack and c.depth < self.max_depth:
                    lams.append((o, a))
            if lams:
                self._inline_callbacks(c, n, nd, lams, rawdst)
                return
        # opaque: does it throw?
        if n.eh is not None and not self.P.call_may_throw(nd, self.mt, self.std_alloc):
            n.eh = None
        if nd.get('cm') and n.obj is not None and n.args and self._localobj(n.obj) and n.obj != n.args[0] and nd.get('k') == 'ctor':
            # copies of functors / lambdas / pointers into local objects keep their identity
            a = n.args[0]
            if isinstance(a, tuple) and a and (a[0] == 'lambda' or g.origin.get(a) and g.origin[a][0] == 'lambda'):
                g.origin.setdefault(n.obj, a if a[0] == 'lambda' else g.origin[a])

    def closure_of(self, x):
        x = self.origin_of(x)
        while isinstance(x, tuple) and x and x[0] == 'deref':
            x = self.origin_of(x[1])
        return x if isinstance(x, tuple) and x and x[0] == 'closure' else None

    def _closures(self, c, n, nd, rawdst):
        """values of Bind() expressions kept in local function objects, and calls of such objects"""
        g = self.g
        if rawdst is not None and n.args and n.sn in ('stingray::wrap_ref', 'stingray::wrap_const_ref'):
            g.resval[rawdst] = ('addr', n.args[0])
            n.op, n.eh = 'model', None
            return True
        if rawdst is not None and n.sn == 'stingray::make_assigner' and n.args:
            g.resval[rawdst] = ('assigner', n.args[0])
            n.op, n.eh = 'model', None
            return True
        if rawdst is not None and n.sn == 'stingray::Bind' and n.args:
            t = self.origin_of(n.args[0])
            if isinstance(t, tuple) and t and t[0] in ('memfn', 'fn', 'assigner', 'lambda') and not any('PlaceHolder' in repr(a) or '_1' in repr(a) for a in n.args[1:]):
                g.resval[rawdst] = ('closure', t) + tuple(n.args[1:])
                n.op = 'model'
                return True
            return False
        if nd.get('k') == 'ctor' and n.cls in ('stingray::function', 'stingray::function_storage', 'stingray::optional') and len(n.args) == 1 and n.obj is not None and self._localobj(n.obj):
            cl = self.closure_of(n.args[0])
            if cl:
                g.origin[n.obj] = cl
            return False
        if rawdst is not None and n.base == 'operator bool' and n.obj is not None and n.cls in ('stingray::optional', 'stingray::function') and self.closure_of(n.obj):
            g.resval[rawdst] = ('cl', n.obj)
            n.op, n.eh = 'model', None
            return True
        if n.base == 'operator()' and n.obj is not None and n.cls in ('stingray::function', 'stingray::function_storage'):
            cl = self.closure_of(n.obj)
            if not cl:
                return False
            t = cl[1]
            args = cl[2:]
            raw = {k: v for k, v in nd.items() if k in ('op', 'l', 's', 'eh', 'dst', 'bool', 'lv')}
            if t[0] in ('memfn', 'fn'):
                raw.update(fn=t[1], n=t[2], args=[])
                n.n = t[2]
                n.sn = strip_targs(n.n)
                n.base = n.sn.rsplit('::', 1)[-1]
                n.fn = t[1]
                n.obj = None
                if t[0] == 'memfn':
                    if not args:
                        return False
                    o = args[0]
                    n.obj = o[1] if isinstance(o, tuple) and o and o[0] == 'addr' else ('deref', o)
                    if n.obj == ('deref', ('this',)):
                        n.obj = ('this',)
                    n.cls = strip_targs(n.sn.rsplit('::', 1)[0])
                    raw['cls'] = n.cls
                    args = args[1:]
                n.args = tuple(a[1] if isinstance(a, tuple) and a and a[0] == 'addr' else a for a in args)
                if raw['n'].endswith('::swap'):
                    raw['mr'] = [0]
            elif t[0] == 'assigner':
                raw.update(n='operator=', args=[])
                n.n = n.sn = n.base = 'operator='
                n.cls = ''
                n.fn = None
                n.obj = t[1]
                n.args = args
            else:
                return False
            n.raw = raw
            n.extra = 'closure'
        return False

    def _targets(self, c, n, nd):
        P = self.P
        fid = nd.get('fn')
        if fid is None:
            # call through pointer-to-member / function pointer with known value
            cv = nd.get('callee')
            if cv is not None:
                v = self.origin_of(self.res(c, cv))
                if isinstance(v, tuple) and v and v[0] in ('memfn', 'fn') and v[1] in P.fns:
                    f = P.fns[v[1]]
                    if f.id not in c.stack and c.depth < self.max_depth and self.transparent(f, n):
                        return [f]
            return None
        f = P.fns.get(fid)
        if nd.get('virt') and not nd.get('nonvirt'):
            if self.resolve_virtual:
                l = self.resolve_virtual(P, n, nd)
                if l is not None:
                    l = [x for x in l if x.id not in c.stack]
                    return l or None
            if n.obj != ('this',):
                return None
            # the object under analysis: its class decides
            rc = self.g.root.cls
            own = [x for x in P.overriders(fid) if x.cls == rc]
            f = own[0] if own else f
        if f is None:
            return None
        if f.id in c.stack or c.depth >= self.max_depth:
            if self.transparent(f, n):
                self.g.truncated.append((f.id, n.i))
            return None
        if self.tiny_on and 'dst' in nd:
            t = self._tiny_val(f)
            if t:
                d = nd['dst']
                key = ('res', c.i, d[1]) if d[0] == 'res' else None
                if key:
                    cc = self._ctx(f, c, n.obj, n.args, None, nd.get('l', 0), self._lamctx(n.obj), c.depth + 1)
                    self.g.resval[key] = self.res(cc, t[0])
                    # keep the reads visible: inline anyway if transparent, else treat as model
                    if not self.transparent(f, n):
                        n.op = 'model'
                        n.eh = None
                        return None
                    n.extra = 'tiny'
        if not self.transparent(f, n):
            return None
        if len(self.g.nodes) > self.max_nodes:
            self.g.truncated.append((f.id, n.i))
            return None
        return [f]

    def _lamctx(self, obj):
        o = self.origin_of(obj) if obj is not None else None
        if isinstance(o, tuple) and o and o[0] == 'lambda':
            return self.g.ctxs[o[2]]
        return None

    def sync_call(self, n):
        return n.sn.startswith('std::') and not n.sn.startswith('std::function')

    def _inline_callbacks(self, c, n, nd, lams, rawdst):
        # call node -> (each callback zero or more times) -> join
        g = self.g
        succ = list(n.s)
        eh = n.eh
        if eh is not None and not self.P.call_may_throw(nd, self.mt, self.std_alloc):
            pass
        n.s = []
        n.eh = None
        join = self._new('join', nd, c)
        join.s = succ
        join.dst = rawdst
        n.s.append(join.i)
        for o, a in lams:
            f = self.P.fns[o[1]]
            cc = self._ctx(f, c, a, tuple(('par', len(g.ctxs), i) for i in range(len(f.params))), None, nd.get('l', 0), g.ctxs[o[2]], c.depth + 1)
            e, x, h = self._inline(cc)
            n.s.append(e)
            g.nodes[x].s = [n.i]
            g.nodes[x].op = 'inlexit'
            if eh is not None:
                g.nodes[h].s = [eh]
                g.nodes[h].op = 'inleh'
            else:
                g.nodes[h].op = 'terminate'
        n.extra = 'callbacks'

    def _inline_calls(self, c, n, nd, fns, rawdst):
        g = self.g
        succ = list(n.s)
        eh = n.eh
        n.s = []
        n.eh = None
        n.inl = True
        n.op = 'enter'
        join = self._new('join', nd, c)
        join.s = succ
        join.dst = rawdst
        join.n, join.sn, join.base, join.cls, join.obj, join.args, join.fn = n.n, n.sn, n.base, n.cls, n.obj, n.args, n.fn
        for f in fns:
            obj = n.obj
            args = n.args
            cc = self._ctx(f, c, obj if f.cls else None, args, rawdst, nd.get('l', 0), self._lamctx(obj), c.depth + 1)
            e, x, h = self._inline(cc)
            n.s.append(e)
            g.nodes[x].s = [join.i]
            g.nodes[x].op = 'inlexit'
            g.nodes[x].dst = rawdst
            if eh is not None:
                g.nodes[h].s = [eh]
                g.nodes[h].op = 'inleh'
            else:
                g.nodes[h].op = 'terminate'
            # value of a call that returns one canonical value
            if rawdst is not None and rawdst not in g.resval and len(fns) == 1 and (nd.get('lv') or not self.raw and not nd.get('bool')):
                vals = set()
                for k in range(e, len(g.nodes)):
                    m = g.nodes[k]
                    if m.op == 'ret' and m.ctx is cc:
                        vals.add(m.v)
                if len(vals) == 1:
                    v = vals.pop()
                    if isinstance(v, tuple) and v and v != rawdst and (nd.get('lv') or v[0] in ('addr', 'fld', 'deref', 'gvar', 'rpar', 'new', 'enum')) and root_of(v) != rawdst:
                        if nd.get('lv') or nd.get('dst', [''])[0] == 'res':
                            g.resval[rawdst] = v


# ------------------------------------------------------------------ finite-state exploration

UNK = ('?',)


class Explorer(object):
    """Path-sensitive exploration.  transfer(node, state) -> (state_or_states, eh_state_or_None)
    state is hashable. Branch facts over local values are tracked."""

    def __init__(self, g, transfer, branch=None, cap=200000, track=True, interesting=None):
        self.g = g
        self.transfer = transfer
        self.branch = branch
        self.cap = cap
        self.track = track
        self.interesting = interesting
        self.degraded = False
        self._count_uses()

    def _keys_in(self, v, out):
        if isinstance(v, tuple) and v:
            if v[0] in ('res', 'var', 'tmp', 'par', 'ret', 'rpar'):
                out.append(v)
                return
            for x in v[1:]:
                if isinstance(x, tuple):
                    self._keys_in(x, out)

    def _count_uses(self):
        uses = defaultdict(int)
        for n in self.g.nodes:
            ks = []
            if n.op in ('br', 'switch'):
                self._keys_in(n.c, ks)
            elif n.op in ('wr', 'bind'):
                self._keys_in(n.v, ks)
            elif n.op == 'ret':
                self._keys_in(n.v, ks)
            for k in ks:
                uses[k] += 1
        self.uses = uses
        # branch-relevant keys: closure backwards from branch conditions through copies
        rel = set()
        for n in self.g.nodes:
            if n.op in ('br', 'switch'):
                ks = []
                self._keys_in(n.c, ks)
                rel.update(ks)
        changed = True
        copies = []
        for n in self.g.nodes:
            if n.op in ('wr', 'bind') and isinstance(n.p, tuple) and n.p and n.p[0] in ('var', 'tmp', 'par', 'res', 'ret'):
                copies.append((n.p, n.v))
            elif n.op == 'ret' and n.ctx.dst is not None:
                copies.append((n.ctx.dst, n.v))
        while changed:
            changed = False
            for p, v in copies:
                if p in rel:
                    ks = []
                    self._keys_in(v, ks)
                    for k in ks:
                        if k not in rel:
                            rel.add(k)
                            changed = True
        self.rel = rel

    # -- boolean evaluation under env
    def ev(self, v, env):
        """-> True / False / (key, polarity) / None"""
        if not isinstance(v, tuple) or not v:
            return None
        k = v[0]
        if k == 'lit':
            if isinstance(v[1], bool):
                return v[1]
            if isinstance(v[1], int):
                return v[1] != 0
            return None
        if k == 'null':
            return False
        if k == 'un' and v[1] == '!':
            r = self.ev(v[2], env)
            if r is True:
                return False
            if r is False:
                return True
            if r is None:
                return None
            return (r[0], not r[1])
        if k in ('res', 'var', 'tmp', 'par', 'ret', 'rpar', 'cl'):
            x = env.get(v)
            if x is not None:
                if x is True or x is False:
                    return x
                return x
            return (v, True)
        if k == 'bin' and v[1] in ('==', '!='):
            l, r = v[2], v[3]
            pol = v[1] == '=='
            for a, b in ((l, r), (r, l)):
                if isinstance(b, tuple) and b and b[0] in ('lit', 'null') and (b[0] == 'null' or isinstance(b[1], bool) or b[1] == 0):
                    rb = self.ev(b, env)
                    ra = self.ev(a, env)
                    if ra is True or ra is False:
                        return (ra == rb) == pol
                    if isinstance(ra, tuple) and (b[0] == 'null' or isinstance(b[1], bool) or b[1] == 0):
                        p = ra[1] if rb else not ra[1]
                        return (ra[0], p if pol else not p)
            keys = []
            self._keys_in(v, keys)
            if keys and self._local_only(v):
                # canonical comparison key
                key = ('cmp',) + tuple(sorted((self.sub(l, env), self.sub(r, env)), key=repr))
                a, b = self.sub(l, env), self.sub(r, env)
                if a == b and a[0] in ('lit', 'enum'):
                    return pol
                if a[0] in ('lit', 'enum') and b[0] in ('lit', 'enum') and a[0] == b[0]:
                    return (a == b) == pol
                return (key, pol)
            return None
        if k == 'bin' and v[1] in ('<', '>', '<=', '>='):
            if self._local_only(v):
                return ((v[0], v[1], self.sub(v[2], env), self.sub(v[3], env)), True)
        return None

    def sub(self, v, env):
        if isinstance(v, tuple) and v and v[0] in ('var', 'tmp', 'par', 'res'):
            x = env.get(v)
            if x is True or x is False:
                return ('lit', x)
            if isinstance(x, tuple) and len(x) == 2 and x[1] is True and isinstance(x[0], tuple):
                return x[0]
        return v

    def _local_only(self, v):
        if not isinstance(v, tuple):
            return True
        if not v:
            return True
        if v[0] in ('fld', 'deref', 'gvar', 'idx', 'post', 'expr', 'addr'):
            return False
        return all(self._local_only(x) for x in v[1:] if isinstance(x, tuple))

    def value(self, v, env):
        """abstract value to bind: True/False/(key,pol)/None"""
        r = self.ev(v, env)
        if r is None:
            return None
        if r is True or r is False:
            return r
        return r

    @staticmethod
    def _mentions(t, k):
        if t == k:
            return True
        if isinstance(t, tuple):
            for x in t:
                if isinstance(x, tuple) and Explorer._mentions(x, k):
                    return True
        return False

    def kill(self, env, key):
        bad = [k for k, val in env.items() if self._mentions(k, key) or (isinstance(val, tuple) and self._mentions(val, key))]
        if bad:
            env = {k: v for k, v in env.items() if k not in bad}
        return env

    def run(self, init):
        g = self.g
        start = (g.entry, init, ())
        seen = {start: None}
        work = deque([start])
        self.parent = seen
        self.clobj = {k for k, v in g.origin.items() if isinstance(v, tuple) and v and v[0] == 'closure'}
        nodes = g.nodes
        count = 0
        track = self.track
        while work:
            cur = work.popleft()
            ni, st, envt = cur
            n = nodes[ni]
            count += 1
            if count > self.cap:
                if track:
                    # degrade: restart without branch facts
                    self.degraded = True
                    self.track = False
                    return self.run(init)
                raise AnalysisBroken('state space exceeded in %s' % g.root.n)
            r = self.transfer(n, st)
            if r is None:
                continue
            ns, es = r
            if not isinstance(ns, list):
                ns = [ns]
            succs = n.s
            env = dict(envt) if track else {}
            op = n.op
            env2 = env
            nexts = None
            if track:
                if op in ('wr', 'bind') and isinstance(n.p, tuple) and n.p and n.p[0] in ('var', 'tmp', 'par', 'res'):
                    if n.p in self.rel:
                        val = self.value(n.v, env) if not n.raw.get('rmw') else None
                        env2 = self.kill(env, n.p)
                        if val is not None and not (isinstance(val, tuple) and self._mentions(val, n.p)):
                            env2 = dict(env2)
                            env2[n.p] = val
                elif op == 'ret' and n.ctx.dst is not None and n.ctx.dst in self.rel and n.ctx.dst[0] in ('var', 'tmp', 'res', 'par'):
                    val = self.value(n.v, env)
                    env2 = self.kill(env, n.ctx.dst)
                    if val is not None and not (isinstance(val, tuple) and self._mentions(val, n.ctx.dst)):
                        env2 = dict(env2)
                        env2[n.ctx.dst] = val
                elif op == 'call' and n.obj in self.clobj and (n.raw.get('k') == 'ctor' or n.base in ('reset', 'operator=')):
                    env2 = dict(env)
                    env2[('cl', n.obj)] = n.raw.get('k') == 'ctor'
                    if n.dst is not None:
                        env2 = self.kill(env2, n.dst)
                elif op in ('call',) and n.dst is not None:
                    env2 = self.kill(env, n.dst)
                elif op == 'enter' and n.dst is not None:
                    env2 = self.kill(env, n.dst)
                    # by-value scalar parameters
                elif op in ('inlexit', 'inleh'):
                    ci = n.ctx.i
                    bad = [k for k, v in env.items() if self._ctxof(k) == ci and not self._referenced(env, k)]
                    if bad:
                        # keep facts that another entry depends on
                        env2 = {k: v for k, v in env.items() if k not in bad}
                if op == 'br' and len(succs) == 2:
                    c = self.ev(n.c, env)
                    if c is True:
                        nexts = [(succs[0], env2, True)]
                    elif c is False:
                        nexts = [(succs[1], env2, False)]
                    elif c is not None:
                        key, pol = c
                        f = env.get(key) if not isinstance(env.get(key), tuple) else None
                        if f is not None:
                            tv = (f == pol)
                            nexts = [(succs[0] if tv else succs[1], env2, tv)]
                        else:
                            nexts = []
                            rec = self._worth(key)
                            for tv, s in ((True, succs[0]), (False, succs[1])):
                                e3 = env2
                                if rec:
                                    e3 = dict(env2)
                                    e3[key] = (tv == pol)
                                nexts.append((s, e3, tv))
            if nexts is None:
                if op == 'br' and len(succs) == 2:
                    nexts = [(succs[0], env2, True), (succs[1], env2, False)]
                else:
                    nexts = [(s, env2, None) for s in succs]
            envcache = {}
            for s, e, tv in nexts:
                et = envcache.get(id(e))
                if et is None:
                    et = tuple(sorted(e.items(), key=repr)) if e else ()
                    envcache[id(e)] = et
                for st2 in ns:
                    st3 = st2
                    if tv is not None and self.branch is not None:
                        st3 = self.branch(n, tv, st2, self.evalkey(n, env))
                        if st3 is None:
                            continue
                    elif op == 'switch' and self.branch is not None:
                        st3 = self.branch(n, s, st2, None)
                        if st3 is None:
                            continue
                    k = (s, st3, et)
                    if k not in seen:
                        seen[k] = cur
                        work.append(k)
            if n.eh is not None and es is not None:
                for e1 in (es if isinstance(es, list) else [es]):
                    k = (n.eh, e1, envt)
                    if k not in seen:
                        seen[k] = cur
                        work.append(k)
        self.visited = count
        self.seen = seen
        return seen

    def evalkey(self, n, env):
        return self.ev(n.c, env)

    def _worth(self, key):
        if key[0] in ('res', 'var', 'tmp', 'par', 'rpar', 'ret'):
            return self.uses.get(key, 0) >= 2 or (self.interesting is not None and self.interesting(key))
        return True

    def _ctxof(self, k):
        if isinstance(k, tuple) and k:
            if k[0] in ('res', 'var', 'tmp', 'par') and len(k) > 1 and isinstance(k[1], int):
                return k[1]
            if k[0] in ('cmp', 'bin'):
                for x in k[1:]:
                    r = self._ctxof(x)
                    if r is not None:
                        return r
        return None

    def _referenced(self, env, k):
        for kk, v in env.items():
            if isinstance(v, tuple) and kk != k and self._mentions(v, k):
                return True
        return False

    def trace(self, key, limit=14):
        out = []
        k = key
        n = 0
        while k is not None and n < 100000:
            out.append(k)
            k = self.parent.get(k)
            n += 1
        out.reverse()
        lines = []
        last = None
        for (ni, st, env) in out:
            nd = self.g.nodes[ni]
            if nd.op in ('br', 'call', 'enter', 'wr', 'ret', 'throw', 'enter_catch', 'ehexit', 'inleh'):
                l = (relfile(nd.ctx.fn.file), nd.line())
                if l != last and l[1]:
                    lines.append('%s:%d' % l)
                    last = l
        if len(lines) > limit:
            lines = lines[:3] + ['...'] + lines[-(limit - 3):]
        return ' > '.join(lines)
