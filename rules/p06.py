"""No lost wake-ups: a state change somebody waits for is broadcast in the same operation, under the same lock."""
from engine import *
from locks import *
from comp import by_file, entry_graphs

RULE = ('on every path of every operation, each listed change of the state a condition variable waits for is matched by a Broadcast of that condition variable: earlier in the same critical section, or '
        'later before the operation waits or returns')
EXPLAIN = 'obligation typestate (change made / broadcast done) over the interprocedural flow graph of each entry point; a broadcast only counts before the change while the lock is held throughout'
ASSUMES = ['waiters re-check what they waited for (P07)', 'a change made by the only thread that waits for it needs no broadcast (listed)']

S = 'stingray::'
ADD = {'push_back', 'push_front', 'emplace_back', 'emplace_front', 'push', 'insert', 'emplace', 'Push', 'push_many', 'Insert'}
DROP = {'pop_front', 'pop_back', 'pop', 'Pop', 'clear', 'Clear', 'erase', 'Remove', 'Erase'}
SETV = {'operator=', 'emplace', 'reset_to'}
UNSET = {'reset', 'Reset'}
SWAP = {'swap'}
TRUE, FALSE, ANY = ('lit', True), ('lit', False), None


class Ob(object):
    def __init__(self, file, cls, field, kinds, ccls, cond, skip_fns=(), skip_if=None, at='both', only=None, by='Broadcast', note=''):
        self.file, self.cls, self.field, self.kinds, self.ccls, self.cond = file, S + cls, field, kinds, S + ccls, cond
        self.skip_fns, self.skip_if, self.at, self.only, self.by, self.note = skip_fns, skip_if, at, only, by, note


BCW, BCR = S + 'BithreadCircularBuffer::Writer', S + 'BithreadCircularBuffer::Reader'
TABLE = [
    Ob('thread/ThreadTaskExecutor.cpp', 'ThreadTaskExecutor', '_queue', ADD, 'ThreadTaskExecutor', '_condVar'),
    Ob('thread/ThreadPool.cpp', 'ThreadPool::WorkerWrapper', '_task', SETV, 'ThreadPool::WorkerWrapper', '_cond'),
    Ob('thread/ThreadPool.cpp', 'ThreadPool', '_task', SETV, 'ThreadPool', '_cond'),
    Ob('thread/ThreadPool.cpp', 'ThreadPool', '_task', UNSET, 'ThreadPool', '_completedCond', at='wait'),
    Ob('thread/ThreadPool.cpp', 'ThreadPool::WorkerWrapper', '_task', UNSET, 'ThreadPool::WorkerWrapper', '_completedHandler', at='wait', by='call', skip_if=('truthy', True, '_completed'),
       note='the pool is told that a worker is free before the worker waits'),
    Ob('thread/ThreadPool.cpp', 'ThreadPool::WorkerWrapper', '_task', SETV, 'ThreadPool::WorkerWrapper', '_completed', by='false', note='a new task makes the worker report again'),
    Ob('timer/Timer.cpp', 'Timer::CallbackQueue', '_container', ADD | {'Push'}, 'Timer', '_cond', skip_fns=('Timer::ThreadFunc', 'Timer::CallbackQueue::Push'), note='the timer thread is the only waiter'),
    Ob('io/AsyncByteStream.cpp', 'AsyncByteStream', '_streamOpQueue', ADD, 'AsyncByteStream', '_condVar', skip_fns=('AsyncByteStream::ThreadFunc', 'AsyncByteStream::Write')),
    Ob('io/AsyncByteStream.cpp', 'AsyncByteStream', '_streamOpQueue', ADD, 'AsyncByteStream', '_condVar', only='AsyncByteStream::Write', at='some', note='small writes are left to the periodic wake-up'),
    Ob('io/AsyncByteStream.cpp', 'AsyncByteStream', '_syncDone', ('wr', ANY), 'AsyncByteStream', '_syncCondVar'),
    Ob('io/PacketBuffer.h', 'PacketBuffer', '_packetQueue', ADD, 'PacketBuffer', '_bufferEmpty'),
    Ob('io/PacketBuffer.h', 'PacketBuffer', '_eod', ('wr', TRUE), 'PacketBuffer', '_bufferEmpty'),
    Ob('io/PacketBuffer.h', 'PacketBuffer', '_packetQueue', DROP, 'PacketBuffer', '_bufferFull'),
    Ob('io/PacketBuffer.h', 'PacketBuffer', None, ('handle', BCR, 'Pop'), 'PacketBuffer', '_bufferFull'),
    Ob('io/SharedCircularBuffer.h', 'SharedCircularBuffer', '_eod', ('wr', TRUE), 'SharedCircularBuffer', '_bufferEmpty'),
    Ob('io/SharedCircularBuffer.h', 'SharedCircularBuffer', '_exception', SETV, 'SharedCircularBuffer', '_bufferEmpty'),
    Ob('io/SharedCircularBuffer.h', 'SharedCircularBuffer', '_buffer', {'Clear'}, 'SharedCircularBuffer', '_bufferFull'),
    Ob('io/SharedCircularBuffer.h', 'SharedCircularBuffer', None, ('handle', BCR, 'Pop'), 'SharedCircularBuffer', '_bufferFull'),
    Ob('io/SharedCircularBuffer.h', 'SharedCircularBuffer', None, ('handle', BCW, 'Push'), 'SharedCircularBuffer', '_bufferEmpty'),
    Ob('io/SharedCircularBuffer.h', 'SharedWriteSynchronizer', '_writeAllow', ('wr', TRUE), 'SharedWriteSynchronizer', '_writeCond'),
    Ob('io/PagedBuffer.cpp', 'PagedBuffer', '_activeWrite', ('wr', FALSE), 'PagedBuffer', '_writeCond'),
    Ob('io/PagedBuffer.cpp', 'PagedBuffer', '_pages', {'insert', 'push_back', 'emplace_back'}, 'PagedBuffer', '_dataPushed'),
    Ob('io/PagedBuffer.cpp', 'PagedBuffer', '_tailSize', ('wr', ANY), 'PagedBuffer', '_dataPushed'),
    Ob('io/PagedBuffer.cpp', 'PagedBuffer', '_currentOffset', ('wr', ANY), 'PagedBuffer', '_dataPushed', skip_fns=('PagedBuffer::Read', 'PagedBuffer::Pop'), note='these only move forward, which makes less data readable'),
    Ob('io/BithreadPipe.h', 'BithreadPipe', '_data', SETV, 'BithreadPipe', '_full', skip_fns=('BithreadPipe::Read',), at='both', note='reading makes the data smaller'),
    Ob('io/BithreadPipe.h', 'BithreadPipe', '_data', SETV | UNSET, 'BithreadPipe', '_empty', skip_fns=('BithreadPipe::Write',), skip_if=('truthy', True), note='the writer is woken when the data is taken'),
    Ob('io/SynchronizedPipe.h', 'SynchronizedPipe', '_pipe', SWAP, 'SynchronizedPipe', '_cv'),
    Ob('future.h', 'Detail::future_impl_base', '_result', SETV, 'Detail::future_impl_base', '_condition'),
    Ob('thread/Barrier.h', 'Barrier', '_releasing', ('wr', ANY), 'Barrier', '_cv'),
    Ob('thread/CancellationToken.cpp', 'CancellationToken::Impl', '_cancelDone', ('wr', TRUE), 'CancellationToken::Impl', '_cond'),
    Ob('diagnostics/AsyncProfiler.cpp', 'AsyncProfiler', '_sessions', ADD, 'AsyncProfiler', '_condition', skip_fns=('AsyncProfiler::ThreadFunc',), skip_if=('compare', False)),
    Ob('thread/posix/PosixThreadEngine.cpp', 'PosixThread', '_started', ('wr', TRUE), 'PosixThread', '_cv'),
] + [Ob('collection/Transactional%s.h' % k, 'Transactional%s::ImplData' % k, 'HasTransaction', ('wr', FALSE), 'Transactional%s::ImplData' % k, 'TransactionCompleted') for k in ('List', 'Set', 'Dictionary')]


def fld(p):
    while isinstance(p, tuple) and p and p[0] in ('deref', 'addr'):
        p = p[1]
    return p if isinstance(p, tuple) and len(p) > 3 and p[0] == 'fld' else None


def truth(v):
    """literal truth of a stored value: True / False / None"""
    if isinstance(v, tuple) and v:
        if v[0] == 'lit':
            return bool(v[1])
        if v[0] == 'null':
            return False
    return None


def matches(ob, n, in_root):
    k = ob.kinds
    if isinstance(k, tuple) and k[0] == 'handle':
        return n.op in ('call', 'enter') and n.cls == k[1] and n.base == k[2]
    if isinstance(k, tuple):
        if n.op != 'wr' and not (n.op == 'call' and n.base in ('operator=', 'store')):
            return False
        p, v = (n.p, n.v) if n.op == 'wr' else (n.obj, n.args[0] if n.args else None)
        q = fld(p)
        if not (q and q[3] == ob.cls and q[2] == ob.rfield):
            return False
        if n.raw.get('init'):
            return False
        if k[1] is None:
            return True
        t = truth(v)
        return t is None or t == k[1][1]
    if n.op not in ('call', 'join') or n.base not in k or n.raw.get('k') == 'ctor':
        return False
    for p in (n.obj,) + (tuple(n.args) if n.base == 'swap' else ()):
        q = fld(p)
        if q and q[3] == ob.cls and q[2] == ob.rfield:
            if n.base == 'operator=' and k is SETV and n.args and isnull(n.args[0]):
                return False
            return True
    return False


def may_fail(n):
    """user code, waits and explicit throws are taken to fail; allocation, logging and pointer checks are not"""
    if n.op == 'call':
        return bool(n.raw.get('virt') or n.fn is None or n.base in ('operator()', 'Wait', 'TimedWait', 'CheckedWriteAll'))
    return n.op != 'model'


def isnull(a):
    return isinstance(a, tuple) and a and (a[0] == 'null' or a == ('gvar', 'stingray::null'))


def run(ctx, P):
    snap = P.snap
    by = {}
    for ob in TABLE:
        ob.rfield = snap.field(ob.cls, ob.field) if ob.field else None
        ob.rcond = snap.field(ob.ccls, ob.cond)
        if ob.rcond is None or (ob.field and ob.rfield is None):
            ctx.broken('%s::%s or its condition variable vanished' % (short(ob.cls), ob.field))
        ob.seen = 0
        by.setdefault(ob.file, []).append(ob)
    nsites = set()
    for f, obs in sorted(by.items()):
        for r, g in entry_graphs(P, by_file(f)):
            if r.fk in ('ctor', 'dtor') and any(r.scls == o.cls for o in obs) and f != 'io/PagedBuffer.cpp':
                continue
            if r.o.get('cm'):
                continue
            act = {}
            for n in g.nodes:
                for ob in obs:
                    if short(r.sn) in ob.skip_fns or ob.only and short(r.sn) != ob.only:
                        continue
                    if matches(ob, n, r):
                        act.setdefault(n.i, []).append(ob)
            if not act:
                continue
            ctx.sample(r.where())
            ctx.count('entry_points')
            ctx.count('graph_nodes', len(g.nodes))
            for i, l in act.items():
                for ob in l:
                    ob.seen += 1
                    nsites.add((g.nodes[i].ctx.fn.id, g.nodes[i].raw.get('l'), ob.cond))
            bad = {}
            met = set()
            some = {}
            conds = {}
            for ob in obs:
                conds.setdefault((ob.ccls, ob.rcond), []).append(ob)
            probes = {}

            def discharge(n, conds):
                if n.op == 'call' and n.base in ('Broadcast', 'operator()'):
                    q, want = fld(n.obj), 'Broadcast' if n.base == 'Broadcast' else 'call'
                elif n.op == 'wr' and truth(n.v) is False and not n.raw.get('init'):
                    q, want = fld(n.p), 'false'
                else:
                    return None
                key = (q[3], q[2]) if q else None
                return key if key in conds and conds[key][0].by == want else None
            for n in g.nodes:
                if n.op in ('call', 'join', 'model') and n.dst is not None:
                    q = fld(n.obj)
                    if q:
                        probes[n.dst] = (q[3], q[2])

            def step(n, st):
                ls, pend, done = st
                ls2, lse = lock_transfer(n, ls)
                pr = prim(n)
                pend0, done0 = pend, done
                if pr and pr[0] == 'unlock' and dict(ls).get(pr[1], 0) == 1:
                    done = frozenset()
                elif discharge(n, conds):
                    key = discharge(n, conds)
                    if True:
                        for x in pend:
                            if x[0] == key:
                                met.add(x)
                        pend = frozenset(x for x in pend if x[0] != key)
                        done = done | {key}
                        pend0, done0 = pend, done      # failing to notify is not a matter of control flow
                elif n.op in ('call', 'enter') and n.base in ('Wait', 'TimedWait') and n.cls.endswith('ConditionVariable'):
                    for key, i, at in pend:
                        (some if at == 'some' else bad).setdefault((key, i, 'waits'), (n, st))
                    pend = frozenset()
                    done = frozenset()
                elif n.i in act:
                    for ob in act[n.i]:
                        key = (ob.ccls, ob.rcond)
                        if key not in done:
                            pend = pend | {(key, n.i, ob.at)}
                elif n.op in ('exit', 'ehexit') and n.ctx.parent is None:
                    for key, i, at in pend:
                        if at in ('both', 'some'):
                            (some if at == 'some' else bad).setdefault((key, i, 'returns' if n.op == 'exit' else 'leaves with an exception'), (n, st))
                if pend0 and not may_fail(n):
                    return (ls2, pend, done), None
                return (ls2, pend, done), (lse, pend0, done0)

            def branch(n, tv, st, key):
                ls, pend, done = st
                if not pend or n.op != 'br':
                    return st
                c = n.c
                pol = tv
                while isinstance(c, tuple) and c and c[0] == 'un' and c[1] == '!':
                    c, pol = c[2], not pol
                out = set()
                for x in pend:
                    drop = False
                    for ob in act[x[1]]:
                        if (ob.ccls, ob.rcond) != x[0] or not ob.skip_if:
                            continue
                        if ob.skip_if[0] == 'truthy':
                            f = snap.field(ob.cls, ob.skip_if[2]) if len(ob.skip_if) > 2 else ob.rfield
                            if c in probes and probes[c] == (ob.cls, f) or fld(c) and fld(c)[2:4] == (f, ob.cls):
                                drop = drop or pol == ob.skip_if[1]
                        elif ob.skip_if[0] == 'compare':
                            if isinstance(c, tuple) and c and c[0] == 'bin' and c[1] in ('==', '!='):
                                e = pol if c[1] == '==' else not pol
                                drop = drop or e == ob.skip_if[1]
                    if not drop:
                        out.add(x)
                return (ls, frozenset(out), done)
            ex = Explorer(g, step, branch=branch)
            ex.run((frozenset(), frozenset(), frozenset()))
            for (key, i, what), v in some.items():
                if (key, i, 'some') not in met:
                    bad[(key, i, what)] = v
            for (key, i, what), (n, st) in bad.items():
                m = g.nodes[i]
                ctx.report('the change at %s is not accompanied by %s %s::%s before the operation %s; entry point %s' % (
                    m.where(), {'Broadcast': 'a Broadcast of', 'call': 'a call of', 'false': 'clearing'}[conds[key][0].by], short(key[0]), key[1], what, r.where()), key=(key[0], key[1], m.ctx.fn.sn, r.sn, what))
    for ob in TABLE:
        if not ob.seen:
            ctx.broken('%s::%s: no change of the awaited state found' % (short(ob.cls), ob.field or ob.kinds[1]))
    ctx.count('obligations', len(TABLE))
    ctx.count('change_sites', len(nsites))
    ctx.need('change sites', len(nsites), 35)
