"""Exceptions thrown by user work stay at the boundary, reach their handler once, and the worker carries on."""
from engine import *
from locks import *
from comp import by_file, entry_graphs
from cond import *
from rules.p04 import origin

RULE = ('on every path, a std::exception leaving a listed piece of user work is caught before it leaves the boundary function, is passed exactly once to the listed receiver, is not rethrown, and (in loops) '
        'the next piece of work stays reachable; the receiver is not called when nothing was thrown')
EXPLAIN = 'exception-flow typestate (thrown / caught / reported) over the exceptional edges of the interprocedural flow graph of each worker, emitter and cleanup boundary'
ASSUMES = ['only exceptions derived from std::exception count', 'receivers (exception handlers) are user code and may do what they like']

S = 'stingray::'


class B(object):
    def __init__(self, file, fn, work, sink=None, loop=False, note=''):
        self.file, self.fn, self.work, self.sink, self.loop, self.note = file, fn, work, sink, loop, note


def functor(n):
    return n.op == 'call' and n.base == 'operator()' and n.raw.get('k') not in ('ctor', 'dtor')


def field_is(C, p, *names):
    q = fldq(origin(C, p))
    return q is not None and q[1] in names


def handler(C, n, P):
    """a call of the configured exception handler"""
    if not functor(n):
        return False
    o = origin(C, n.obj)
    q = fldq(o)
    if q is not None:
        return P.snap.field(q[0], '_exceptionHandler') == q[1] or P.snap.field(q[0], '_exFunc') == q[1]
    m = C.call_of(o) if isinstance(o, tuple) else None
    return m is not None and m.base == 'GetExceptionHandler'


def task(C, n, P):
    if not functor(n) or handler(C, n, P):
        return False
    q = fldq(origin(C, n.obj))
    return not (q and P.snap.field(q[0], '_completedHandler') == q[1])


def any_functor(C, n, P):
    return functor(n) and not handler(C, n, P) or n.op == 'call' and n.base in ('InvokeArgs', 'Invoke', 'Do', '_Do')


def named(*names):
    return lambda C, n, P: n.op == 'call' and n.base in names


def virt(*names):
    return lambda C, n, P: n.op == 'call' and n.base in names and n.raw.get('virt')


def sets_flag(name):
    def f(C, n, P):
        p, v = (n.p, n.v) if n.op == 'wr' else (n.obj, n.args[0] if n.args else None) if n.op == 'call' and n.base in ('operator=', 'store') else (None, None)
        q = fldq(p)
        return bool(q and P.snap.field(q[0], name) == q[1] and bare(v)[:2] == ('lit', True))
    return f


def populate(C, n, P):
    return n.op in ('call', 'enter') and n.base == 'SendCurrentStateImpl'


TABLE = [
    B('thread/ThreadTaskExecutor.cpp', 'ThreadTaskExecutor::ThreadFunc', task, handler, True),
    B('thread/ThreadlessTaskExecutor.cpp', 'ThreadlessTaskExecutor::ExecuteTasks', task, handler, True),
    B('thread/ThreadPool.cpp', 'ThreadPool::ThreadFunc', task, handler, True),
    B('thread/ThreadPool.cpp', 'ThreadPool::WorkerWrapper::ThreadFunc', task, handler, True),
    B('timer/Timer.cpp', 'Timer::ThreadFunc', task, handler, True),
    B('signal/signals.h', 'Detail::SignalImpl::InvokeAll', task, handler, True),
    B('signal/signals.h', 'Detail::SignalImpl::DoSendCurrentState', populate, handler),
    B('signal/signals.h', 'Detail::ExceptionHandlerWrapper::operator()', task, handler),
    B('log/Logger.cpp', 'LoggerImpl::Log', virt('Log'), None, True),
    B('io/AsyncByteStream.cpp', 'AsyncByteStream::ThreadFunc', virt('Write', 'Seek', 'Sync'), sets_flag('_wasException'), note='the writer learns of it from the flag'),
    B('io/IntermediateDataBuffer.h', 'IntermediateDataBuffer::ThreadFunc', named('Read'), named('SetException')),
    B('thread/posix/PosixThreadEngine.cpp', 'PosixThread::ThreadFunc', task),
    B('function/AsyncFunction.h', 'Detail::AsyncFunction::FuncWrapper::operator()', any_functor, named('set_exception')),
    B('FunctionToken.h', None, any_functor, None, note='clean-up functors of tokens'),
    B('ScopeExit.h', None, any_functor, None, note='scope-exit functors'),
    B('Holder.h', None, any_functor, None, note='clean-up functors of holders'),
]


def run(ctx, P):
    by = {}
    for b in TABLE:
        b.seen = 0
        by.setdefault(b.file, []).append(b)
    for f, bs in sorted(by.items()):
        for r, g in entry_graphs(P, by_file(f)):
            for b in bs:
                if b.fn is None:
                    if r.fk != 'dtor':
                        continue
                elif not any(short(c.fn.sn) == b.fn or c.fn.sn.endswith('::' + b.fn) for c in g.ctxs):
                    continue
                boundary(ctx, P, b, r, g)
    for b in TABLE:
        if not b.seen:
            ctx.broken('no user work found in %s %s' % (b.file, b.fn or 'destructors'))


def boundary(ctx, P, b, r, g):
    C = Conds(g)
    W = set(n.i for n in g.nodes if n.eh is not None and b.work(C, n, P))
    if not W:
        return
    b.seen += len(W)
    K = set(n.i for n in g.nodes if b.sink is not None and b.sink(C, n, P) and n.i not in W)
    ctx.count('boundaries')
    ctx.count('work_sites', len(W))
    ctx.count('graph_nodes', len(g.nodes))
    ctx.sample('%s: %d work sites' % (short(r.sn), len(W)))
    bad = {}
    std = ('std::exception', '...')

    # state: None | 'exc' thrown | 'now' about to be caught here | 'caught' | 'done'
    def transfer(n, st):
        k = st[0]
        if n.op == 'catch':
            if k == 'exc':
                t = next((t for t in n.raw.get('types', ()) if t in std), '...' if n.raw.get('all') else None)
                if t is not None:
                    return ('now', st[1], t), st
            return st, st
        if k == 'now' and n.op not in ('nop', 'enter_catch', 'inleh'):
            return None
        if n.op == 'enter_catch':
            if k == 'now':
                return (('caught', st[1]), st) if n.raw.get('t') == st[2] else None
            return (None if k == 'exc' else (st, st))
        if n.op == 'rethrow' and k in ('caught', 'done') or n.op == 'throw' and k == 'caught':
            bad.setdefault('rethrow', (n, 'is thrown on after it was caught'))
            return None
        if n.op == 'ehexit':
            if k == 'exc':
                bad.setdefault('escape', (g.nodes[st[1]], 'can leave %s' % short(r.sn)))
            return st, st
        if n.op == 'terminate' and k == 'exc':
            bad.setdefault('escape', (g.nodes[st[1]], 'ends the program'))
            return None
        if n.i in K:
            if k == 'caught':
                if n.op == 'call' and n.base in ('operator()', 'set_exception', 'SetException') and not any(exc_arg(C, a, g) for a in n.args):
                    bad.setdefault('other', (n, 'is not the one passed on'))
                return ('done', st[1]), ('done', st[1])
            if k == 'done':
                bad.setdefault('twice', (n, 'is reported twice'))
            elif k == 'idle':
                bad.setdefault('none', (n, 'is reported although none was thrown'))
            return st, ('other', -1)
        if n.i in W or n.op == 'exit':
            if k == 'caught' and b.sink is not None:
                bad.setdefault('lost', (g.nodes[st[1]], 'is caught but not reported'))
        if n.i in W:
            return ('idle', -1), ('exc', n.i)
        if n.op == 'exit':
            return st, st
        # while an exception is in flight only destructors run: what they throw is contained in them or ends the program
        return st, ([] if k == 'exc' else st if k == 'caught' else ('other', -1))
    E = Explorer(g, transfer)
    E.run(('idle', -1))
    if b.loop and not any(k.startswith(('escape', 'rethrow')) for k in bad):
        # from the point the exception was dealt with, another piece of work is reachable
        for w in W:
            starts = [k for k in E.seen if k[1][0] in ('caught', 'done') and k[1][1] == w]
            if starts and not reach(E, starts, W):
                bad.setdefault('stop', (g.nodes[w], 'stops the remaining work'))
    for k, (n, m) in sorted(bad.items()):
        ctx.report('%s: an exception from user work %s (%s)' % (short(r.sn), m, n.where()), (short(r.sn), k))


def exc_arg(C, a, g):
    """the argument is (made from) the caught exception"""
    names = catch_vars(g)
    seen = set()
    st = [a]
    while st:
        v = C.single(st.pop())
        if v in seen:
            continue
        seen.add(v)
        if isinstance(v, tuple) and v and v[0] == 'var':
            if (v[1], v[2]) in names:
                return True
        for m in C.makers(v) if isinstance(v, tuple) else ():
            st.extend(m.args)
            if m.op == 'call' and m.base in ('MakeExceptionPtr', 'current_exception'):
                st.extend(m.args)
                if m.base == 'current_exception':
                    return True
        for m in g.nodes:
            if m.op == 'call' and m.raw.get('k') == 'ctor' and m.obj == v:
                st.extend(m.args)
    return False


def catch_vars(g):
    return set((n.ctx.i, n.raw['v']) for n in g.nodes if n.op == 'enter_catch' and n.raw.get('v'))


def reach(E, starts, W):
    g = E.g
    seen = set(k[0] for k in starts)
    st = list(seen)
    while st:
        i = st.pop()
        for s in g.nodes[i].s:
            if s in W:
                return True
            if s not in seen:
                seen.add(s)
                st.append(s)
    return False
