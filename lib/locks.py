"""Lock-set analysis shared by the locking properties."""
import re
from engine import *

RAII_FILES = ('thread/GenericMutexLock.h', 'thread/GenericSemaphoreLock.h', 'ScopeExit.h', 'thread/CancellationRegistrator.h', 'function/FunctorInvoker.h')


def in_files(f, files):
    rf = relfile(f.file)
    if rf.startswith('stingraykit/'):
        rf = rf[len('stingraykit/'):]
    return rf in files


def locky_models(X, c, n, nd):
    """values of accessors that hand out a lock"""
    if n.base in ('GetSync', 'DoGetSync'):
        return ('sync', n.obj)
    if n.base in ('self_count_ptr_from_this', 'shared_from_this') and n.obj is not None:
        return ('addr', n.obj)
    return None


def mk_transparent(files, extra=None, never=None):
    fs = set(files) | set(RAII_FILES)

    def t(f, n):
        if never and never(f, n):
            return False
        if f.sn.startswith('stingray::signal_locker::'):
            return True
        if in_files(f, fs):
            return True
        if extra and extra(f, n):
            return True
        return False
    return t


def prim(n):
    """-> ('lock'|'unlock', path) for primitive mutex operations"""
    if n.op == 'call' and n.base in ('Lock', 'Unlock') and n.cls in ('stingray::posix::PosixMutex', 'stingray::PosixMutex', 'stingray::signal_policies::threading::DummyMutex'):
        return ('lock' if n.base == 'Lock' else 'unlock', n.obj)
    return None


def add(ls, p, d):
    out = []
    found = False
    for q, k in ls:
        if q == p:
            found = True
            k += d
            if k != 0:
                out.append((q, k))
        else:
            out.append((q, k))
    if not found:
        out.append((p, d))
    return frozenset(out)


def held(ls):
    return [q for q, k in ls if k > 0]


def lock_transfer(n, ls):
    p = prim(n)
    if p:
        if p[0] == 'lock':
            return add(ls, p[1], 1), ls
        return add(ls, p[1], -1), ls     # a failing unlock leaves the mutex locked
    return ls, ls


def accesses(n):
    """lvalue paths touched by this node"""
    out = []
    if n.op == 'rd':
        out.append(n.p)
    elif n.op == 'wr':
        out.append(n.p)
    elif n.op in ('call', 'model'):
        if n.obj is not None:
            out.append(n.obj)
        for a in n.args:
            out.append(a)
    elif n.op == 'delete':
        out.append(n.p)
    return out


READERS = {'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'find', 'lower_bound', 'upper_bound', 'equal_range', 'front', 'back', 'data', 'at', 'get', 'get_ptr',
           'operator*', 'operator->', 'size', 'empty', 'count', 'lock', 'operator bool', 'operator!', 'expired', 'top'}


def mutated(n):
    """lvalue paths this node may modify (a call on a field counts as modifying the field and what it points to)"""
    if n.op == 'wr':
        return [n.p]
    if n.op == 'call':
        out = []
        k = n.raw.get('k')
        if n.obj is not None and k not in ('ctor',) and not n.raw.get('const') and not n.raw.get('static') and n.base not in READERS and not (n.base == 'operator[]' and 'map' not in n.cls):
            out.append(n.obj)
        if n.sn not in ('std::move', 'std::forward', 'std::addressof'):
            for i in n.raw.get('mr', ()):
                if i < len(n.args):
                    out.append(n.args[i])
        return [p for p in out if p is not None]
    return []


def subflds(p, out=None):
    """field sub-paths of an access path (not descending into call arguments)"""
    if out is None:
        out = []
    while isinstance(p, tuple) and p:
        k = p[0]
        if k == 'fld':
            out.append(p)
            p = p[1]
        elif k in ('deref', 'addr', 'idx', 'post', 'sync'):
            if k == 'idx' and len(p) > 2:
                subflds(p[2], out)
            p = p[1]
        elif k in ('bin', 'un', 'init'):
            for x in p[1:]:
                if isinstance(x, tuple):
                    subflds(x, out)
            return out
        else:
            return out
    return out


FACTORIES = ('MakeToken', 'make_shared_ptr', 'make_self_count_ptr', 'make_unique_ptr')


def climb(P, fns, files=None, raii=(), api_only=False):
    """entry points from which the given functions are analysed: private helpers, helpers that are not part of the
    confirmed interface and members of scope-guard classes are seen through their callers"""
    callers, taken = P.callers()
    snap = getattr(P, 'snap', None)
    roots = set()
    seen = set()
    st = list(fns)
    while st:
        f = st.pop()
        if f.id in seen:
            continue
        seen.add(f.id)
        cl = [P.fns[x] for x in callers.get(f.id, ()) if x in P.fns and x != f.id]
        if f.fk == 'lambda':
            e = f.o.get('encl')
            if e in P.fns:
                st.append(P.fns[e])
            else:
                roots.add(f.id)
            continue
        if f.scls in raii or strip_targs(f.scls) in raii:
            incl = [x for x in cl if files is None or in_files(x, files) or (x.scls in raii)]
            st.extend(incl)
            if f.fk == 'dtor' and not incl:
                roots.add(f.id)
            continue
        if f.fk in ('ctor', 'dtor'):
            roots.add(f.id)
            continue
        if f.base in FACTORIES and cl:
            st.extend(x for x in cl if files is None or in_files(x, files))
            continue
        private = f.acc in ('private', 'protected') or f.o.get('internal') or (snap is not None and snap.is_new(f))
        if private and cl and f.id not in taken and not f.virt:
            st.extend(cl)
            continue
        roots.add(f.id)
    return [P.fns[x] for x in sorted(roots)]
