"""Operations are atomic: one critical section per guarded state and operation."""
from engine import *
from locks import *
from table import GUARDS
from guarded import guarded_sites, lock_paths, in_exempt
from comp import components, entry_graphs

S = 'stingray::'

RULE = ('for every entry point of a listed class, on every path: once the guarded state has been read or changed and its lock released, the same operation does not come back to it under a '
        'second acquisition (the decision and the act share one critical section); operations that release the lock on purpose are listed with a reason')
EXPLAIN = 'typestate of the guarding lock (untouched, in use, released after use) over the interprocedural flow graph of each entry point, per guarded object'
ASSUMES = ['a condition wait re-checks what it waited for (property P07), so it does not split a section']

# (operation, class of the state): (fields it comes back to, reason)
LOOP = 'worker loop: each round is a critical section of its own; see the emptiness rule'
WORKERS = 'each worker of the pool is an object with a lock of its own'
IOWIN = 'the lock is released while user code or a copy runs; active flags keep the window exclusive (P26)'
SPLIT = {
    ('AsyncByteStream::ThreadFunc', 'AsyncByteStream'): ('_buffers _lastStatsDump _stats _streamOpQueue _syncDone', LOOP),
    ('AsyncProfiler::ThreadFunc', 'AsyncProfiler'): ('_sessions', LOOP),
    ('ThreadPool::ThreadFunc', 'ThreadPool'): ('_task _workers', LOOP),
    ('ThreadPool::WorkerWrapper::ThreadFunc', 'ThreadPool::WorkerWrapper'): ('_completed _idle _task', LOOP),
    ('ThreadTaskExecutor::ThreadFunc', 'ThreadTaskExecutor'): ('_queue', LOOP),
    ('ThreadlessTaskExecutor::ExecuteTasks', 'ThreadlessTaskExecutor'): ('_queue _activeExecutor', LOOP),
    ('SynchronizedPipe::Write', 'SynchronizedPipe'): ('_pipe', IOWIN),
    ('Timer::ThreadFunc', 'Timer::CallbackQueue'): ('_container', LOOP),
    ('Timer::~Timer', 'Timer::CallbackQueue'): ('_container', LOOP),
    ('ThreadPool::CanQueue', 'ThreadPool::WorkerWrapper'): ('_task', WORKERS),
    ('ThreadPool::Queue', 'ThreadPool::WorkerWrapper'): ('_completed _idle _task', WORKERS),
    ('ThreadPool::TryQueue', 'ThreadPool::WorkerWrapper'): ('_completed _idle _task', WORKERS),
    ('ThreadPool::WaitQueue', 'ThreadPool::WorkerWrapper'): ('_completed _idle _task', WORKERS),
    ('ThreadPool::ThreadFunc', 'ThreadPool::WorkerWrapper'): ('_completed _idle _task', WORKERS),
    ('BufferedDataConsumer::Process', 'SharedCircularBuffer'): ('_activeWrites', IOWIN),
    ('BufferedDataSource::Read', 'SharedCircularBuffer'): ('_activeRead', IOWIN),
    ('DataBuffer::Process', 'SharedCircularBuffer'): ('_activeWrites', IOWIN),
    ('DataBuffer::Read', 'SharedCircularBuffer'): ('_activeRead', IOWIN),
    ('DataBuffer::Process', 'SharedWriteSynchronizer'): ('_writeAllow', IOWIN),
    ('PacketBuffer::Process', 'PacketBuffer'): ('_buffer _packetQueue _paddingSize', IOWIN),
    ('PacketBuffer::Read', 'PacketBuffer'): ('_packetQueue', IOWIN),
    ('PagedBuffer::Push', 'PagedBuffer'): ('_activeWrite _pages _tailSize', IOWIN),
    ('PagedBuffer::Read', 'PagedBuffer'): ('_activeRead _currentOffset', IOWIN),
    ('CancellationToken::Cancel', 'CancellationToken::Impl'): ('_cancelDone', 'the handler runs unlocked between recording the cancellation and its completion'),
    ('CancellationToken::Impl::Cancel', 'CancellationToken::Impl'): ('_cancelDone', 'the handler runs unlocked between recording the cancellation and its completion'),
    ('ExecutionDeferrer::Cancel', 'ExecutionDeferrer'): ('_cancellationActive', 'marks the cancellation as running, releases the connections, unmarks it'),
    ('ExecutionDeferrerWithTimer::Cancel', 'ExecutionDeferrer'): ('_cancellationActive', 'marks the cancellation as running, releases the connections, unmarks it'),
    ('PosixThreadEngine::GetThreadsStats', 'ThreadsRegistry'): ('_threadsMap', 'one lookup per thread of a snapshot that is not atomic anyway'),
    ('PosixThreadEngine::GetThreadsStats', 'ThreadDataStorage'): ('_childrenStats', 'one lookup per thread of a snapshot that is not atomic anyway'),
    ('AutoCheckpointProfiler::CheckpointProfilerHolder::~CheckpointProfilerHolder', 'CheckpointProfiler'): ('_checkpointTimes _elapsedTime', 'stop and report of a profiler that is going away'),
}

# containers whose ends are only touched after an emptiness check in the same critical section
ENDS = {(S + 'ThreadTaskExecutor', '_queue'), (S + 'ThreadlessTaskExecutor', '_queue'), (S + 'AsyncByteStream', '_streamOpQueue'), (S + 'PacketBuffer', '_packetQueue'),
        (S + 'AsyncProfiler', '_sessions'), (S + 'Timer::CallbackQueue', '_container')}
TAKE = {'front', 'pop_front', 'back', 'pop_back', 'begin', 'Top', 'Pop', 'top', 'pop'}
EMPTY = {'empty', 'IsEmpty'}


def short_root(r):
    return short(r.sn)


def run(ctx, P, infer=None):
    sites = 0
    nroots = 0
    for G0 in GUARDS:
        G = G0.resolve(P)
        for r, g, acc in guarded_sites(P, G, extra_roots=[f for f in P.fns.values() if in_files(f, G.files) and not any(x in f.id for x in G.skip_ids)]):
            if not acc:
                continue
            nroots += 1
            sites += len(acc)
            ctx.count('graph_nodes', len(g.nodes))
            ctx.sample(r.where())

            bad = {}

            def step(n, st):
                ls, ph = st
                ls2, lse = lock_transfer(n, ls)
                ph2 = ph
                p = prim(n)
                if p and p[0] == 'unlock':
                    k = dict(ls).get(p[1], 0)
                    if k == 1 and (p[1], 'used') in ph:
                        ph2 = (ph - {(p[1], 'used')}) | {(p[1], 'left')}
                elif n.i in acc:
                    h = held(ls)
                    for q in acc[n.i]:
                        for lp in lock_paths(q[1], G.cls, G.field_locks.get(q[2], G.locks)):
                            if lp in h:
                                if (lp, 'left') in ph:
                                    bad.setdefault((n.i, q[2], lp), st)
                                ph2 = ph2 | {(lp, 'used')}
                return (ls2, ph2), (lse, ph2 if not p else ph)
            ex = Explorer(g, step)
            ex.run((frozenset(), frozenset()))
            if not bad:
                continue
            if infer is not None:
                infer.setdefault((short_root(r), short(G.cls)), set()).update((g.nodes[i].where()[:70], f) for i, f, lp in bad)
                continue
            allowed = SPLIT.get((short_root(r), short(G.cls)))
            if allowed:
                ok = {P.snap.field(G.cls, f) for f in allowed[0].split()}
                bad = {k: v for k, v in bad.items() if k[1] not in ok}
                if not bad:
                    continue
            (ni, f, lp), st = sorted(bad.items(), key=lambda x: x[0][0])[0]
            n = g.nodes[ni]
            ctx.report('%s::%s is used again at %s after its lock %s was released in between: operation %s is not atomic' % (short(G.cls), f, n.where(), show(lp), r.where()),
                       key=(G.cls, f, r.sn))
    ends(ctx, P)
    ctx.count('operations', nroots)
    ctx.count('access_sites', sites)
    ctx.count('split_by_design', len(SPLIT))
    ctx.need('operations', nroots, 200)


def ends(ctx, P):
    """the ends of a shared queue are only touched after a check, under the same hold of the lock, that it is not empty"""
    names = {}
    for c, f in ENDS:
        x = P.snap.field(c, f)
        if x:
            names[(c, x)] = f
    total = 0
    for c in components():
        if not any(in_files_of(cl, c) for cl, _ in names):
            continue
        for r, g in entry_graphs(P, c):
            def cont(p):
                while isinstance(p, tuple) and p and p[0] in ('deref', 'addr'):
                    p = p[1]
                return p if isinstance(p, tuple) and len(p) > 3 and p[0] == 'fld' and (p[3], p[2]) in names else None
            pts = {}
            for n in g.nodes:
                if n.op in ('call', 'enter') and cont(n.obj) and n.base in TAKE and not (n.base == 'begin' and cont(n.obj)[3] == S + 'AsyncProfiler' and r.scls != S + 'AsyncProfiler'):
                    pts[n.i] = ('take', cont(n.obj))
                elif n.op in ('call', 'join') and n.base in EMPTY and n.dst is not None and cont(n.obj):
                    pts[n.i] = ('empty', cont(n.obj))
            if not any(k == 'take' for k, _ in pts.values()):
                continue
            if r.scls == S + 'Timer::CallbackQueue':     # seen through the timer, which checks
                continue
            total += sum(1 for k, _ in pts.values() if k == 'take')
            ctx.sample('queue ends in ' + r.where())
            bad = {}

            def step(n, st):
                ls, ne, pend = st
                ls2, lse = lock_transfer(n, ls)
                if prim(n) and prim(n)[0] == 'unlock' and dict(ls).get(prim(n)[1], 0) == 1:
                    ne, pend = frozenset(), frozenset()
                if n.i in pts:
                    k, p = pts[n.i]
                    if k == 'empty':
                        pend = frozenset(x for x in pend if x[1] != p) | {(n.dst, p)}
                    elif p not in ne:
                        bad.setdefault((n.i, p), st)
                    elif n.base in ('pop_front', 'pop_back', 'Pop', 'pop'):
                        ne = ne - {p}
                s2 = (ls2, ne, pend)
                return s2, (lse, ne, pend)

            def branch(n, tv, st, key):
                ls, ne, pend = st
                if key is None:
                    key = raw_key(n.c)
                if isinstance(key, tuple) and len(key) == 2:
                    k, pol = key
                    for d, p in pend:
                        if d == k:
                            val = (tv == pol)
                            ne = ne | {p} if not val else ne - {p}
                return ls, ne, pend
            ex = Explorer(g, step, branch=branch)
            ex.run((frozenset(), frozenset(), frozenset()))
            for (ni, p), st in bad.items():
                n = g.nodes[ni]
                ctx.report('%s of %s at %s without a check under the same hold of the lock that it is not empty; operation %s' % (n.base, show(p), n.where(), r.where()),
                           key=('ends', p[3], names[(p[3], p[2])], n.base, r.sn))
    ctx.count('queue_end_accesses', total)
    ctx.need('queue end accesses', total, 8)


def raw_key(c):
    pol = True
    while isinstance(c, tuple) and c and c[0] == 'un' and c[1] == '!':
        c, pol = c[2], not pol
    return (c, pol)


def in_files_of(cls, comp):
    return cls in comp.classes or any(x.startswith(cls + '::') for x in comp.classes)
