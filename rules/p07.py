"""Waits: the decision to wait is taken under the lock, the wait releases exactly that lock, the decision is taken again afterwards, and cancellation gets through."""
from engine import *
from locks import *
from comp import by_file, entry_graphs
from rules.p06 import fld

RULE = ('at every wait on a condition variable: the mutex it waits with is held exactly once and no other lock is held; a branch on the awaited state was taken under this hold of the lock; after the wait '
        'a branch on the awaited state is taken again before the state is changed or the operation returns; a cancelled or timed out wait is noticed before the next wait')
EXPLAIN = 'lockset plus typestate (checked, waited, re-checked, cancellation seen) over the interprocedural flow graph; branches are tied to the awaited state by value dependence'
ASSUMES = ['the awaited state of each condition variable is the listed one']

S = 'stingray::'
# condition variable -> awaited state
WAITS = [
    ('thread/ThreadTaskExecutor.cpp', 'ThreadTaskExecutor', '_condVar', ['ThreadTaskExecutor::_queue']),
    ('thread/ThreadPool.cpp', 'ThreadPool::WorkerWrapper', '_cond', ['ThreadPool::WorkerWrapper::_task']),
    ('thread/ThreadPool.cpp', 'ThreadPool', '_cond', ['ThreadPool::_task']),
    ('thread/ThreadPool.cpp', 'ThreadPool', '_completedCond', ['ThreadPool::_task', 'ThreadPool::_workers']),
    ('thread/CancellationToken.cpp', 'CancellationToken::Impl', '_cond', ['CancellationToken::Impl::_cancelled', 'CancellationToken::Impl::_cancelDone']),
    ('thread/Barrier.h', 'Barrier', '_cv', ['Barrier::_releasing', 'Barrier::_currentCount']),
    ('thread/posix/PosixThreadEngine.cpp', 'PosixThread', '_cv', ['PosixThread::_started']),
    ('timer/Timer.cpp', 'Timer', '_cond', ['Timer::CallbackQueue::_container']),
    ('future.h', 'Detail::future_impl_base', '_condition', ['Detail::future_impl_base::_result']),
    ('thread/JoiningCancellationToken.cpp', 'JoiningCancellationToken', '_cond', []),
    ('io/AsyncByteStream.cpp', 'AsyncByteStream', '_condVar', ['AsyncByteStream::_streamOpQueue']),
    ('io/AsyncByteStream.cpp', 'AsyncByteStream', '_syncCondVar', ['AsyncByteStream::_syncDone', 'AsyncByteStream::_syncNext']),
    ('io/BithreadPipe.h', 'BithreadPipe', '_full', ['BithreadPipe::_data']),
    ('io/BithreadPipe.h', 'BithreadPipe', '_empty', ['BithreadPipe::_data']),
    ('io/SynchronizedPipe.h', 'SynchronizedPipe', '_cv', ['SynchronizedPipe::_pipe']),
    ('io/PacketBuffer.h', 'PacketBuffer', '_bufferFull', ['PacketBuffer::_buffer']),
    ('io/PacketBuffer.h', 'PacketBuffer', '_bufferEmpty', ['PacketBuffer::_packetQueue']),
    ('io/PagedBuffer.cpp', 'PagedBuffer', '_writeCond', ['PagedBuffer::_activeWrite']),
    ('io/PagedBuffer.cpp', 'PagedBuffer', '_dataPushed', ['PagedBuffer::_pages', 'PagedBuffer::_currentOffset', 'PagedBuffer::_tailSize']),
    ('io/SharedCircularBuffer.h', 'SharedCircularBuffer', '_bufferFull', ['SharedCircularBuffer::_buffer']),
    ('io/SharedCircularBuffer.h', 'SharedCircularBuffer', '_bufferEmpty', ['SharedCircularBuffer::_buffer']),
    ('io/SharedCircularBuffer.h', 'SharedWriteSynchronizer', '_writeCond', ['SharedWriteSynchronizer::_writeAllow']),
    ('diagnostics/AsyncProfiler.cpp', 'AsyncProfiler', '_condition', ['AsyncProfiler::_sessions']),
] + [('collection/Transactional%s.h' % k, 'Transactional%s::ImplData' % k, 'TransactionCompleted', ['Transactional%s::ImplData::HasTransaction' % k]) for k in ('List', 'Set', 'Dictionary')]

ONCE = {  # operations that report back after one wait; their callers call again
    'PacketBuffer::Process', 'PacketBuffer::Read', 'PagedBuffer::Read', 'DataBuffer::Process', 'DataBuffer::Read', 'BufferedDataConsumer::Process', 'BufferedDataSource::Read',
}
WAIT_FIRST = {('AsyncByteStream::Sync', '_syncCondVar'): 'a request queued in this very critical section cannot have been served yet, and the wait is limited to a second'}
TWO_LOCKS = {('PacketBuffer::Process', '_writeMutex'): 'one writer at a time, also while it waits for space'}

VALUES = {S + x for x in ('optional', 'shared_ptr', 'unique_ptr', 'variant', 'CircularBuffer', 'inplace_vector')}  # their own assertions are not checks of the waiter


def run(ctx, P):
    snap = P.snap
    by = {}
    for f, c, cond, st in WAITS:
        rc = snap.field(S + c, cond)
        if rc is None:
            ctx.broken('%s::%s vanished' % (c, cond))
        fs = set()
        for x in st:
            k, y = x.rsplit('::', 1)
            r = snap.field(S + k, y)
            if r:
                fs.add((S + k, r))
        by.setdefault(f, {})[(S + c, rc)] = fs
    waits = set()
    for f, conds in sorted(by.items()):
        for r, g in entry_graphs(P, by_file(f)):
            W = {}
            for n in g.nodes:
                if n.op in ('call', 'enter') and n.base in ('Wait', 'TimedWait') and n.cls == S + 'PosixConditionVariable':
                    q = fld(n.obj)
                    W[n.i] = (q[3], q[2]) if q else None
            if not W:
                continue
            ctx.count('entry_points')
            ctx.count('graph_nodes', len(g.nodes))
            analyse(ctx, P, f, conds, r, g, W, waits)
    for s in sorted(waits):
        ctx.sample('%s in %s line %s' % (s[1], short(P.fns[s[0]].n), s[2]))
    ctx.count('wait_sites', len(waits))
    ctx.need('wait sites', len(waits), 24)


def analyse(ctx, P, f, conds, r, g, W, waits):
    defs = {}
    results = {}
    tokens = {}
    compares = {}
    notok = set()
    for n in g.nodes:
        if n.raw.get('k') == 'ctor' and n.op in ('call', 'enter') and (n.cls == S + 'DummyCancellationToken' or n.cls == S + 'TimedCancellationToken' and len(n.args) == 1):
            notok.add(n.obj)
        if n.op in ('call', 'enter') and n.base in ('operator==', 'operator!=') and n.dst is not None:
            compares.setdefault(n.dst, []).append(n)
        if n.op in ('call', 'join', 'model', 'enter') and n.dst is not None:
            defs.setdefault(n.dst, []).append((n.obj,) + tuple(n.args))
            if n.i in W:
                results[n.dst] = n.i
            if n.cls.endswith('CancellationToken') and n.base in ('operator bool', 'IsCancelled'):
                tokens[n.dst] = n.base
        elif n.op in ('wr', 'bind') and isinstance(n.p, tuple) and n.p and n.p[0] in ('var', 'tmp', 'res', 'par'):
            defs.setdefault(n.p, []).append((n.v,))
        elif n.op == 'ret' and n.ctx.dst is not None:
            defs.setdefault(n.ctx.dst, []).append((n.v,))

    cache = {}

    def deps(v):
        """(fields, wait results, token checks) a value depends on"""
        k = repr(v)
        if k in cache:
            return cache[k]
        cache[k] = (frozenset(), frozenset(), False)
        fs, ws, tk = set(), set(), False
        st = [v]
        seen = set()
        while st:
            x = st.pop()
            if not isinstance(x, tuple) or not x or x in seen:
                continue
            seen.add(x)
            if x[0] == 'fld' and len(x) > 3:
                fs.add((x[3], x[2]))
            if x in results:
                ws.add(results[x])
                continue
            if x in tokens:
                tk = True
            if x in defs:
                for d in defs[x]:
                    st.extend(y for y in d if isinstance(y, tuple))
            st.extend(y for y in x[1:] if isinstance(y, tuple))
        cache[k] = (frozenset(fs), frozenset(ws), tk)
        return cache[k]

    def look(c, pol, full=False):
        """(comparison, enumerator, polarity) a condition stands for, seen through variables and negation"""
        for _ in range(12):
            if not isinstance(c, tuple) or not c:
                break
            if c[0] == 'un' and c[1] == '!':
                c, pol = c[2], not pol
            elif c[0] == 'bin' and c[1] in ('==', '!='):
                return (c[1], enum_of(c), pol) + ((c,) if full else ())
            elif c in compares and len(compares[c]) == 1:
                m = compares[c][0]
                return (m.base[8:], next((e for e in [enum_of(a) for a in (m.obj,) + tuple(m.args)] if e), None), pol) + ((c,) if full else ())
            elif c in defs and len(defs[c]) == 1 and len(defs[c][0]) == 1 and c not in tokens:
                c = defs[c][0][0]
            else:
                break
        return (None, None, pol, c) if full else (None, None, pol)

    brs = {}
    for n in g.nodes:
        if n.op in ('br', 'switch') and n.c is not None and n.ctx.fn.scls not in VALUES:
            brs[n.i] = deps(n.c)
    bad = {}
    pending = []

    # state: (locks, {(mutex) checked cond}, waited cond or None, cancel-unchecked waits)
    def step(n, st):
        ls, chk, wt, cu = st
        ls2, lse = lock_transfer(n, ls)
        pr = prim(n)
        if pr and pr[0] == 'unlock' and dict(ls).get(pr[1], 0) == 1:
            chk = frozenset()
        if n.i in W:
            cond = W[n.i]
            waits.add((n.ctx.fn.id, cond[1] if cond else '?', n.raw.get('l')))
            m = n.args[0] if n.args else None
            d = dict(ls)
            key = (n.ctx.fn.sn, r.sn)
            if d.get(m, 0) != 1:
                bad.setdefault(('lock', n.i), 'with %s held %d times' % (show(m), d.get(m, 0)))
            for o in held(ls):
                if o != m and (short(r.sn), o[2] if o[0] == 'fld' else '') not in TWO_LOCKS:
                    bad.setdefault(('other', n.i), 'with %s held too' % show(o))
            if cond not in conds:
                ctx.broken('%s waits for an unlisted condition variable %s' % (n.where(), show(n.obj)))
            elif conds[cond]:
                if cond not in chk and (short(n.ctx.fn.sn), cond[1]) not in WAIT_FIRST:
                    bad.setdefault(('unchecked', n.i), 'without a check of the awaited state under this hold of the lock')
            if n.i in cu and len(n.args) > 1 and n.args[1] not in notok:
                bad.setdefault(('cancel', n.i), 'again although the previous wait may have been cancelled')
            s2 = (ls2, frozenset(), (n.i, cond), frozenset([n.i]))
            return s2, None
        if wt is not None and wt[1] in conds:
            for p in mutated(n):
                for q in subflds(p)[:1]:
                    if (q[3], q[2]) in conds[wt[1]] and not (n.op == 'call' and n.raw.get('k') == 'dtor'):
                        bad.setdefault(('use', wt[0]), 'and then changes %s without checking it again (%s)' % (show(q), n.where()))
            if n.op in ('call', 'enter', 'model') and n.base in ('operator*', 'operator->', 'front', 'back', 'top'):
                q = fld(n.obj)
                if q and (q[3], q[2]) in conds[wt[1]]:
                    bad.setdefault(('use', wt[0]), 'and then uses %s without checking it again (%s)' % (show(q), n.where()))
        if n.op == 'exit' and n.ctx.parent is None and wt is not None and wt[1] in conds and short(r.sn) not in ONCE:
            bad.setdefault(('norecheck', wt[0]), 'and returns without checking the awaited state again')
        return (ls2, chk, wt, cu), (lse, chk, wt, cu)

    def branch(n, tv, st, key):
        ls, chk, wt, cu = st
        d = brs.get(n.i)
        if d is None:
            return st
        fs, ws, tk = d
        for cond, need in conds.items():
            if fs & need:
                chk = chk | {cond}
                if wt is not None and wt[1] == cond:
                    wt = None
        if ws:
            cu = cu - ws
            if wt is not None and wt[0] in ws and not broadcasted(n, tv, look):
                wt = None
        if tk:
            cu = frozenset()
            if wt is not None and token_gone(n, tv, look, tokens):
                wt = None
        return (ls, chk, wt, cu)
    ex = Explorer(g, step, branch=branch)
    ex.run((frozenset(), frozenset(), None, frozenset()))
    for (k, i), what in bad.items():
        n = g.nodes[i]
        ctx.report('%s waits for %s %s; entry point %s' % (n.where(), show(n.obj), what, r.where()), key=(k, n.ctx.fn.sn, W[i][1] if W[i] else '?'))


def enum_of(v):
    for x in leaves(v):
        if x[0] == 'enum':
            return str(x[1]).rsplit('::', 1)[-1]
    return None


def broadcasted(n, tv, look):
    """may the branch be taken after a wait that was really notified?"""
    if n.op == 'switch':
        lab = [c for c, s in zip(n.raw.get('cases', []), n.s) if s == tv]
        names = [str(c[1]).rsplit('::', 1)[-1] if isinstance(c, list) else c for c in lab]
        return any(x in ('Broadcasted', 'none', 'default') for x in names) and not any(x in ('Cancelled', 'TimedOut') for x in names)
    op, e, pol = look(n.c, tv)
    if op in ('==', '!='):
        eq = pol if op == '==' else not pol
        if e == 'Broadcasted':
            return eq
        if e in ('Cancelled', 'TimedOut'):
            return not eq
    return True


def token_gone(n, tv, look, tokens):
    """may the branch be taken with a token that was cancelled?"""
    op, e, pol, c = look(n.c, tv, True)
    if op is not None or c not in tokens:
        return True
    return pol == (tokens[c] == 'IsCancelled')
