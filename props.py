"""Statements, anchors, techniques and reasons of every property (source of properties.jsonl and MANIFEST.json)."""

PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, reason=None, state=None, observe=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    if reason:
        d['reason'] = reason
        NOT_APPLICABLE.append(d)
    else:
        d['technique'] = technique
        d['level_note'] = note
        PROPS.append(d)


K = 'stingraykit/'

prop('P01', 'Shared state of thread-safe components is only touched under its lock',
     'Two threads using the same thread-safe component (logger, profilers, executors, thread pool, timer queue, cancellation and life tokens, futures, token holders and pools, '
     'factory, object pool, barriers, asynchronous streams, buffers and pipes, signals, observable and transactional collections, observable values) never touch its mutable state at the same '
     'time: every operation reads and changes that state only while it holds the component\'s own lock, on every path including early returns, waits and exceptions.',
     ['schedules', 'inputs'], 'every public operation, every path through it, every interleaving of two threads',
     'the tests run a handful of schedules on mostly idle machines; a missing or shortened lock is invisible unless two threads collide in a window of nanoseconds',
     [K + 'thread/ThreadTaskExecutor.cpp', K + 'thread/ThreadPool.cpp', K + 'thread/CancellationToken.cpp', K + 'future.h', K + 'timer/Timer.cpp', K + 'log/Logger.cpp', K + 'Token.h',
      K + 'io/AsyncByteStream.cpp', K + 'io/PagedBuffer.cpp', K + 'io/SharedCircularBuffer.h', K + 'signal/signals.h', K + 'collection/ObservableListWrapper.h', K + 'collection/TransactionalSet.h'],
     [('scoped mutex locks', K + 'thread/GenericMutexLock.h'), ('signal lock shared with the collection state', K + 'signal/signals.h signal_locker')],
     technique='interprocedural must-lockset dataflow with access paths (Eraser-style lock discipline, decided on all paths)',
     note='Decides the lock discipline of the frozen state-to-lock table (82 fields of 42 classes) on every path of every entry point, including exceptional edges; does not decide that '
          'the guarded values themselves are right. Trusts the table (confirmed by reading) and that PosixMutex excludes.')

prop('P02', 'Operations of thread-safe components are atomic',
     'Every operation of a lock-protected component (logger registry, profilers, executors, pools, timer queue, tokens, futures, token holders, factory, buffers, pipes, signals, observable and '
     'transactional collections) decides and acts within one critical section: it never releases the lock between reading the state it bases its decision on and changing that state, unless the '
     'operation is designed to let user code run in between. The end of a shared queue is taken only after the queue was found non-empty under the same, uninterrupted hold of the lock.',
     ['schedules', 'histories'], 'every public operation, every path, every interleaving of other operations',
     'a check-then-act gap between two critical sections is correct in every single-threaded test and needs another thread inside a gap of a few instructions',
     [K + 'thread/ThreadTaskExecutor.cpp', K + 'thread/ThreadPool.cpp', K + 'timer/Timer.cpp', K + 'io/PacketBuffer.h', K + 'Token.h', K + 'collection/ObservableSetWrapper.h', K + 'collection/TransactionalList.h', K + 'future.h'],
     [('single critical section per operation', K + 'collection/ObservableSetWrapper.h'), ('emptiness check under the same lock', K + 'thread/ThreadTaskExecutor.cpp ThreadFunc')],
     technique='typestate of the guarding lock (in use / released after use) and emptiness facts over the interprocedural flow graph',
     note='Decides that no operation returns to guarded state after releasing the lock it used it under (27 operations that do so by design are listed with reasons), and the emptiness rule for six '
          'queues; does not decide what the operation computes.')

prop('P03', 'User code runs and is destroyed with no internal lock held',
     'Tasks, timer functions, slots, cancellation and exception handlers, consumers, sinks and streams are called with none of the library\'s internal mutexes held, so they may call back into the '
     'component or block on another thread without deadlock. The last reference to a task or token an executor, pool, timer or token holder owns (and thus the captures\' destructors) is likewise '
     'given up only after the component\'s mutex is released.',
     ['schedules', 'inputs'], 'every place where user code can run, every path to it',
     'the mutexes are recursive, so user code re-entering from the same thread works in tests; the deadlock needs a second thread and a lock-order inversion in user code',
     [K + 'thread/ThreadTaskExecutor.cpp', K + 'thread/ThreadlessTaskExecutor.cpp', K + 'thread/ThreadPool.cpp', K + 'timer/Timer.cpp', K + 'Token.h', K + 'signal/signals.h', K + 'thread/CancellationToken.cpp',
      K + 'log/Logger.cpp', K + 'io/PagedBuffer.cpp', K + 'io/SharedCircularBuffer.h'],
     [('MutexUnlock around user code', K + 'thread/ThreadTaskExecutor.cpp ThreadFunc'), ('swap out, then destroy', K + 'Token.h')],
     technique='must-empty lockset at user-code call sites plus ownership typestate of task and token carriers over the interprocedural flow graph',
     note='User code is what is reached through function objects, the listed interfaces and destructors of task and token carriers; 16 sites that run under a lock by design (collection notifications, '
          'current-state population, ...) are listed with reasons.')

prop('P04', 'A cancelled callback never starts and cancelling waits for a running one',
     'Once a token guarding a task, slot or timer callback has been released, the callback never starts again, and a release concurrent with a running callback returns only after the callback finished '
     '(unless it is released from inside the callback). This holds for every place that runs user callbacks, whichever executor, pool, timer or signal carries them.',
     ['schedules', 'histories'], 'every place that runs or hands over a callback, every path, every instant of cancellation',
     'the window between checking that a callback is alive and running it is a few instructions wide; a test releases tokens when nothing is in flight',
     [K + 'thread/TaskLifeToken.h', K + 'thread/TaskLifeToken.cpp', K + 'thread/ThreadTaskExecutor.cpp', K + 'thread/ThreadlessTaskExecutor.cpp', K + 'timer/Timer.cpp', K + 'signal/signals.h',
      K + 'function/AsyncFunction.h', K + 'function/CancellableFunction.h'],
     [('execution under the life token guard', K + 'thread/ThreadTaskExecutor.cpp ExecuteTask'), ('lock held while alive task runs', K + 'thread/TaskLifeToken.cpp TryStartExecution')],
     technique='typestate of the execution guard plus lock balance of the token implementation and provenance of testers over the interprocedural flow graph',
     note='Decides that each of the 71 execution sites runs under a checked guard built from the tester queued with that callback, and that the token implementation locks, unlocks and flips its state '
          'correctly; fairness of the underlying mutex is assumed.')

prop('P05', 'Exceptions of user code are contained and reported exactly once',
     'A std::exception thrown by a task, timer function, slot, populator, sink, stream or clean-up function never escapes the worker, emitter or destructor that runs it: it is passed exactly once to the '
     'component\'s exception handler, promise or error flag (or dropped where nobody could take it, as in destructors), and the remaining tasks, slots and sinks still run. Handlers are never called '
     'without an exception.',
     ['inputs', 'crash points'], 'every place where user code can throw, every path of the exception',
     'tests throw from one or two tasks; an exception from the last slot, a narrower catch or a rethrow on an unusual configuration ends a worker thread or the program',
     [K + 'thread/ThreadTaskExecutor.cpp', K + 'thread/ThreadlessTaskExecutor.cpp', K + 'thread/ThreadPool.cpp', K + 'timer/Timer.cpp', K + 'signal/signals.h', K + 'log/Logger.cpp',
      K + 'io/AsyncByteStream.cpp', K + 'io/IntermediateDataBuffer.h', K + 'function/AsyncFunction.h', K + 'FunctionToken.h', K + 'ScopeExit.h', K + 'Holder.h'],
     [('catch around user work', K + 'thread/ThreadTaskExecutor.cpp ExecuteTask'), ('per-slot containment', K + 'signal/signals.h InvokeAll')],
     technique='exception-flow typestate (thrown / caught / reported) over the exceptional edges of the interprocedural flow graph',
     note='Decides containment for 16 listed boundaries and their 117 work sites; exceptions not derived from std::exception are outside the property.')

prop('P06', 'Every state change somebody waits for wakes the waiters',
     'A thread blocked in an executor, pool, timer, future, barrier, pipe, packet, circular or paged buffer, asynchronous stream, cancellation token, profiler or open-transaction wait is woken by every '
     'operation that makes the thing it waits for come true (work queued, data written, space freed, result set, end of data, transaction closed). The wake-up is never skipped on any path, and never '
     'issued only before the lock protecting the change was taken, so no wait lasts longer than its reason.',
     ['schedules', 'histories'], 'every operation, every path, every interleaving with a thread that is about to wait',
     'a missing wake-up is hidden by later traffic, by polling timeouts and by waiters that happen not to be asleep yet; a test has to hit an idle waiter at the right instant',
     [K + 'thread/ThreadTaskExecutor.cpp', K + 'thread/ThreadPool.cpp', K + 'timer/Timer.cpp', K + 'future.h', K + 'io/BithreadPipe.h', K + 'io/PacketBuffer.h', K + 'io/SharedCircularBuffer.h',
      K + 'io/PagedBuffer.cpp', K + 'io/AsyncByteStream.cpp', K + 'thread/Barrier.h', K + 'collection/TransactionalList.h', K + 'diagnostics/AsyncProfiler.cpp'],
     [('broadcast in the critical section of the change', K + 'thread/ThreadTaskExecutor.cpp AddTask'), ('space released means writers woken', K + 'io/PacketBuffer.h Read')],
     technique='obligation typestate (state changed / broadcast owed) over the interprocedural flow graph of every entry point',
     note='Decides the pairing for a frozen table of 35 awaited fields and condition variables; which fields are awaited was read off the waiting code.')

prop('P07', 'Waiters wait under the right lock, re-check, and notice cancellation',
     'A thread only goes to sleep after finding, under the very lock the wait releases and no other lock, that what it needs is not there yet; when it wakes up it checks again before it acts or returns. '
     'A wait that was cancelled or timed out is noticed before the thread waits again, so cancelling a blocked operation ends it.',
     ['schedules', 'crash points'], 'every wait, every path to it and from it, spurious wake-ups and cancellation at any instant',
     'needs a spurious or stolen wake-up, or a cancellation that lands between the check and the wait',
     [K + 'thread/ThreadTaskExecutor.cpp', K + 'thread/ThreadPool.cpp', K + 'timer/Timer.cpp', K + 'future.h', K + 'io/BithreadPipe.h', K + 'io/PacketBuffer.h', K + 'io/SharedCircularBuffer.h',
      K + 'io/PagedBuffer.cpp', K + 'thread/Barrier.h', K + 'thread/CancellationToken.cpp', K + 'thread/posix/PosixConditionVariable.cpp'],
     [('wait loops', K + 'io/BithreadPipe.h Read'), ('cancellable wait', K + 'thread/posix/PosixConditionVariable.cpp Wait')],
     technique='lockset plus typestate (checked, waited, re-checked, outcome seen) over the interprocedural flow graph, branches tied to the awaited state by value dependence',
     note='Decides the waiting discipline at all 27 wait sites; the two token Sleep functions, which do not re-check, are known findings.')

prop('P14', 'Observable collections announce every change exactly once, as what it was',
     'A subscriber that replays the notifications of an observable list, set, dictionary, multi-collection or value always ends up with exactly its content: every change is announced exactly once, under '
     'the collection\'s lock and before the next change, with the right kind (added, updated, removed) and the right element, index or key; nothing that did not happen is announced. New subscribers are '
     'sent every element once, as added, and key, entry, key-set and cast views translate each kind of change faithfully.',
     ['histories', 'inputs'], 'every mutating operation, every path, every prior content, every kind of change seen by a view',
     'a test checks the operations it calls on the contents it chose; a no-op, a bulk removal or an update reported as an addition slips through until a subscriber\'s mirror diverges',
     [K + 'collection/ObservableListWrapper.h', K + 'collection/ObservableSetWrapper.h', K + 'collection/ObservableDictionaryWrapper.h', K + 'collection/MultiMapObservableDictionary.h',
      K + 'collection/SortedObservableMultiSet.h', K + 'ObservableValue.h', K + 'collection/ObservableDictionaryKeyValue.h', K + 'collection/ObservableSetEntry.h', K + 'collection/DictionaryKeysSet.h',
      K + 'collection/SetCaster.h', K + 'collection/ListCaster.h', K + 'collection/DictionaryCaster.h'],
     [('mutate, then announce', K + 'collection/ObservableDictionaryWrapper.h Set'), ('populators', K + 'collection/ObservableSetWrapper.h OnChangedPopulator')],
     technique='typestate (change pending / announced) with enumerator tracking and argument provenance over the interprocedural flow graph; views explored once per kind of change',
     note='Decides kind, element and count of notifications on all paths of the observable wrappers and views; relies on the wrapped containers reporting truthfully whether they changed.')

prop('P10', 'A promise delivers exactly one result to everyone holding its future',
     'The first value or exception given to a promise is the result: later values are refused with an exception, later exceptions are ignored, and a promise that goes away without a result leaves a broken-promise '
     'exception. Every future of it reports readiness, values and exceptions accordingly, waits exactly while there is no result, reports cancellation and timeout only when that ended the wait, and returns or '
     'rethrows what was stored. The future can be taken once; a future is used up by reading or sharing it, handles without a result refuse every operation, and an asynchronous call always fulfils its promise.',
     ['inputs', 'histories', 'schedules'], 'every state of the shared result, every operation, every outcome of a wait, every path',
     'tests set one value and read it; second results, reads racing with the store, exceptional reads and abandoned promises multiply into states no sample covers',
     [K + 'future.h', K + 'function/AsyncFunction.h'],
     [('shared result', K + 'future.h future_impl_base'), ('handles', K + 'future.h shared_future, future, promise'), ('asynchronous call', K + 'function/AsyncFunction.h FuncWrapper')],
     technique='finite-predicate abstract interpretation of every operation from every state of the shared result',
     note='Decides every operation of the instantiated futures and promises (value and void) from all states of result, handle and retrieval flag; the copies of the value type itself are opaque.')

prop('P13', 'Signals connect, populate, emit and disconnect faithfully',
     'Connecting reaches the signal exactly once if its connection policy admits that kind of connection and is refused with an exception otherwise; the slot is bound to the caller\'s executor when one is '
     'given and guarded by the life token of its connection. The current state is sent exactly when asked for, before and in the same critical section as the registration; an emission invokes every '
     'registered slot once with the emitter\'s arguments in order; dropping the connection unregisters the slot and then waits, unlocked, for a running invocation.',
     ['inputs', 'histories', 'schedules'], 'every policy value, overload, flag and number of slots; every path',
     'the connection paths are duplicated in signal and connector for two overloads each, and the interesting orderings (state sent versus slot registered) only matter to a concurrent emitter',
     [K + 'signal/signals.h', K + 'signal/signal_connector.h', K + 'signal/signal_policies.h'],
     [('policy check and token creation', K + 'signal/signal_connector.h connect'), ('populate, then register', K + 'signal/signals.h SignalImplBase::Connect'), ('copy, unlock, invoke', K + 'signal/signals.h InvokeAll')],
     technique='typestate with enumeration of policy values and flags plus argument provenance over the interprocedural flow graph',
     note='Decides all connect overloads per policy value, the connection step per flag value, emission, state sending and disconnection of the instantiated signals; exceptions and guards are P05 and P04.')

prop('P15', 'An enumeration of a generic collection is a snapshot nobody can change',
     'An enumerator or reversed view taken from a generic list, set, dictionary, multi-set, multi-dictionary or a transactional set or dictionary goes on to deliver exactly the content the collection had when it was taken, however the collection is '
     'changed, cleared, assigned to or destroyed meanwhile: while it is alive the collection changes only a copy of its own. Copies of a collection never share content they change, and positions are never '
     'used with another container than the one they point into.',
     ['histories', 'inputs'], 'every operation, every prior content, with and without an enumeration alive, every path',
     'a test holds an enumerator over one or two of the mutations; the copy-on-write step is separate in each operation and each branch, and a skipped one only shows when an enumeration happens to be alive',
     [K + 'collection/GenericList.h', K + 'collection/GenericSet.h', K + 'collection/GenericDictionary.h', K + 'collection/SortedMultiSet.h', K + 'collection/MultiMapDictionary.h', K + 'collection/TransactionalSet.h', K + 'collection/TransactionalDictionary.h'],
     [('copy on write', K + 'collection/GenericSet.h CopyOnWrite'), ('holder kept by enumerations', K + 'collection/GenericSet.h GetItemsHolder')],
     technique='finite-predicate abstract interpretation of every operation over an abstract model of containers, iterators and holders',
     note='Decides all operations of the five collections (ordered, flat and hashed-order variants that are instantiated) and of the transactional set and dictionary (items, added and removed elements) from every abstract content.')

prop('P21', 'Sets, dictionaries and multi-collections do exactly what their operations say',
     'Adding, setting, removing and clearing in the generic set and dictionary, the sorted multi-set and the multi-map dictionary change exactly the elements the operation names and nothing else, and the result says truthfully '
     'what happened (whether it was there, how many were removed). Lookups find an element, value or range exactly when it is there and deliver that element, copies have the content of the original, and no '
     'erased or past-the-end position is ever used.',
     ['inputs', 'histories'], 'every operation, key absent, present once or several times, other elements before or behind or none, every path',
     'the interesting cases (absent key with greater keys present, equal keys, the last element, a shared copy) multiply per operation; a test samples a few on one content',
     [K + 'collection/GenericSet.h', K + 'collection/GenericDictionary.h', K + 'collection/SortedMultiSet.h', K + 'collection/MultiMapDictionary.h'],
     [('search, then insert with hint', K + 'collection/GenericDictionary.h Add'), ('first matching value', K + 'collection/MultiMapDictionary.h RemoveFirst')],
     technique='finite-predicate abstract interpretation of every operation over an abstract model of ordered containers, judged against a specification per operation',
     note='Decides all operations of the four collections with respect to one tracked key and the groups of elements before and behind it; trusts the standard containers and the comparer.')

prop('P16', 'Transactions on collections are isolated, consistent and committed as a whole',
     'What a transaction on a set or dictionary shows is the committed content with its own changes applied, whatever sequence of additions, changes, removals, clearings and reversals led there; the collection itself stays untouched until the commit. '
     'A commit makes the collection equal to what the transaction showed, then announces exactly the difference, once, under the lock, and starts over without changes. '
     'Lookups, counts, enumerations and results in a transaction always answer for that combined content.',
     ['histories', 'inputs'], 'every operation from every consistent state of a key (unknown, added, present, removed, replaced), with and without other elements and enumerations, every path',
     'the bookkeeping (added, removed, replaced) has five states per key and the operations branch on them; a test samples a few transitions and never their combinations with live enumerations',
     [K + 'collection/TransactionalSet.h', K + 'collection/TransactionalDictionary.h'],
     [('bookkeeping of a changed entry', K + 'collection/TransactionalDictionary.h Set'), ('commit', K + 'collection/TransactionalSet.h Commit')],
     technique='finite-predicate abstract interpretation of every operation over an abstract model of the three containers (items, added, removed), judged against a specification per operation',
     note='Decides the transactional set and dictionary with respect to one tracked key and the groups of elements before and behind it.')

prop('P22', 'Lists edit exactly the position they are given and check every index',
     'Adding, setting, inserting and removing in a list or in a list transaction changes exactly the position and value it was given, an index outside the list is refused before anything is touched, and lookups answer for the current content. '
     'A list transaction leaves the committed items alone until its commit, which publishes its items, announces the difference from the old to the new content exactly once under the lock, and goes on from there; '
     'a difference it computed earlier is never used for other content.',
     ['inputs', 'histories'], 'every operation, every index, every prior state of the transaction and its caches, every path',
     'boundary indices, duplicates and caches that survive one particular edit multiply; a test samples a few edits of short lists',
     [K + 'collection/GenericList.h', K + 'collection/TransactionalList.h'],
     [('index checks', K + 'collection/GenericList.h Insert'), ('commit', K + 'collection/TransactionalList.h Commit'), ('difference', K + 'collection/TransactionalList.h MakeDiff')],
     technique='finite-predicate abstract interpretation of every operation with symbolic edit scripts and path facts about indices',
     note='Decides all operations of the generic list and of the transactional list and its transactions; the difference is decided for the first two positions of both contents (later positions run the same code).')

prop('P23', 'Enumerable pipelines deliver exactly the elements they promise, in order',
     'Filtering, transforming, casting, concatenating, skipping, taking, flattening, diffing, reversing and cloning enumerations deliver exactly the elements the operation promises, each once and in source order, end exactly when they should, and refuse to be read or moved past their end. '
     'Searching, counting, comparing and aggregating helpers and the enumeration loop visit exactly the elements needed and return the answer for the whole sequence. '
     'A lazily composed enumeration starts anew each time it is enumerated and keeps its source alive.',
     ['inputs'], 'every adapter, helper and factory, every source length and predicate answer, every sequence of calls on an enumerator',
     'empty sources, first and last elements, runs of rejected elements and empty inner sequences combine; a test samples a few short lists',
     [K + 'collection/EnumerableHelpers.h', K + 'collection/EnumerableWrapper.h', K + 'collection/FuncEnumerator.h', K + 'collection/ForEach.h', K + 'collection/DictionaryKeysSet.h',
      K + 'collection/EnumerableFromStlContainer.h'],
     [('adapters', K + 'collection/EnumerableHelpers.h FindNext'), ('filtering', K + 'collection/EnumerableWrapper.h FindNext'), ('loop', K + 'collection/ForEach.h')],
     technique='finite abstract interpretation of every enumerator against a specification automaton over symbolic elements',
     note='Elements are symbols; values computed by user functions are opaque. Indices and counters are decided for the first positions and by their step.')

prop('P11', 'Every owned object is destroyed exactly once, when its last owner goes',
     'Copying, moving, assigning, casting, swapping, resetting or destroying a shared, weak, intrusive, counted or unique pointer keeps exactly one count for every pointer that refers to an object, also when a pointer is assigned to itself, when the two refer to the same object, and when other threads own it too. '
     'The object is destroyed when its last strong owner goes, neither earlier nor twice nor never; a weak pointer gives an owner exactly while there is still one. '
     'Counts are only accessed atomically, and each atomic operation is one indivisible step that returns the specified value.',
     ['inputs', 'schedules'], 'every operation of every owning pointer, every sharing and aliasing of its operands, every number of other owners',
     'a count that is wrong by one in an unusual order of assignment, conversion or failure, or between two threads, shows only as a leak or as a use after free much later',
     [K + 'shared_ptr.h', K + 'self_counter.h', K + 'unique_ptr.h', K + 'ref_count.h', K + 'TypeErasure.h', K + 'thread/atomic/AtomicInt.h'],
     [('shared and weak pointers', K + 'shared_ptr.h SharedPtrImpl'), ('intrusive pointers', K + 'self_counter.h release_ref'), ('counts', K + 'ref_count.h basic_ref_count'), ('atomic integers', K + 'thread/atomic/AtomicInt.h BasicAtomicInt')],
     technique='finite abstract interpretation of every pointer operation over a ledger of references',
     note='The ledger covers one operation at a time; counts held by other owners are unknown but at least zero. Object and deleter code is opaque.')

prop('P17', 'A value held in place exists exactly when its holder says so',
     'Optionals, variants, anys and in-place vectors construct a value only where there is none and use and destroy it only while it exists, as the type it has; each value is destroyed exactly once. '
     'However an operation ends, also when copying or moving a value fails with any exception, the holder says truthfully what it holds and can be used and destroyed; assigning a holder to itself, or its own value to it, keeps the value. '
     'Copies, moves, exchanges and comparisons have the specified result for holders in any state.',
     ['inputs', 'histories', 'failures'], 'every operation, every state of the holders involved, every sharing of operands, a failure at every step',
     'a value destroyed twice, or a holder that claims a value which failed to be constructed, shows only when a copy fails at an unusual moment or an operand aliases the target',
     [K + 'optional.h', K + 'variant.h', K + 'any.h', K + 'any.cpp', K + 'collection/inplace_vector.h'],
     [('optional', K + 'optional.h optional::assign'), ('variant', K + 'variant.h variant::AssignVal'), ('any', K + 'any.cpp any::Copy'), ('in-place vector', K + 'collection/inplace_vector.h inplace_vector::Copy')],
     technique='finite abstract interpretation of every operation over what raw storage holds, with failures at every call',
     note='Values themselves are opaque: any copy or move of them may fail. One operation at a time; histories follow because every end is again one of the standings explored.')

prop('P12', 'Executors, pools and timers run what they accept exactly once, and in time',
     'Every task an executor, pool or timer accepts is queued once, with its execution tester, and run exactly once unless that tester refuses or the entry was removed; executors serve in order of arrival and end only when their queue is empty. '
     'A timer runs nothing before its moment; a periodic task is put back exactly once per run, for one period later, also when it failed, and a one-shot task never. '
     'Removing a timer task works whether it is waiting, running or being put back, takes out only that task, and releases its life token.',
     ['schedules', 'histories', 'failures'], 'every path of every worker loop and entry point, with other threads acting whenever the lock is not held',
     'a task lost or run twice needs a removal, a failure or a shutdown at one particular moment between two critical sections of the worker',
     [K + 'thread/ThreadTaskExecutor.cpp', K + 'thread/ThreadlessTaskExecutor.cpp', K + 'thread/ThreadPool.cpp', K + 'timer/Timer.cpp'],
     [('timer loop', K + 'timer/Timer.cpp Timer::ThreadFunc'), ('removal', K + 'timer/Timer.cpp Timer::CallbackQueue::Erase'), ('executor loop', K + 'thread/ThreadTaskExecutor.cpp ThreadTaskExecutor::ThreadFunc'),
      ('handing over', K + 'thread/ThreadPool.cpp ThreadPool::TryQueue')],
     technique='typestate of the item at the head of the queue and the item in hand over the interprocedural flow graph of every worker loop',
     note='Clock values are symbolic: only their order of computation and the additions made are followed. Tasks still queued in a pool that is being destroyed are outside.')

prop('P08', 'Work an object starts is over before anything that work uses is gone',
     'When an object ends, the threads, timers and subscriptions it started on itself are stopped and waited for before any part of the object they use is destroyed; none begins before the parts it uses exist, and no part is read before it is constructed. '
     'Stopping or replacing such work never waits under a lock that the work itself takes. '
     'Destroying a thread object always cancels, then joins its thread, uninterruptibly; creating one returns only when the thread runs.',
     ['schedules', 'histories'], 'every callback an object binds to itself and keeps going through a member, every constructor, every destructor path',
     'a callback that outlives a member corrupts memory only if it happens to run during the few instructions of a destructor',
     [K + 'timer/Timer.h', K + 'thread/ThreadTaskExecutor.h', K + 'thread/ThreadPool.h', K + 'io/AsyncByteStream.h', K + 'diagnostics/AsyncProfiler.h', K + 'thread/posix/PosixThreadEngine.cpp', K + 'collection/DictionaryCaster.h'],
     [('timer', K + 'timer/Timer.h Timer::_worker'), ('deferrer', K + 'timer/Timer.h ExecutionDeferrer::_doDeferConnection'), ('views', K + 'collection/ListCaster.h ObservableListCaster::_connection'), ('thread', K + 'thread/posix/PosixThreadEngine.cpp PosixThread::~PosixThread')],
     technique='value flow of bound callbacks into members, effect sets of the callbacks, compared with construction and destruction order; must-pass analysis of destructors',
     note='Callbacks bound to other objects or handed to the user are outside; so are members a user destroys by hand.')

prop('P20', 'Locks that are held together are always taken in the same order',
     'Whenever a thread takes one of the library\'s own locks while it holds another, every other place that takes these two together takes them in the same order, also across the operations and internal callbacks called in between. '
     'Hence no combination of calls on one object, or on objects that use each other, can leave threads waiting for each other\'s locks.',
     ['schedules'], 'every entry point, every lock certainly held there, every lock the operations called may take',
     'two threads must be stopped between two particular lock operations at the same time; a test that does not arrange it passes for ever',
     [K + 'thread/ThreadPool.cpp', K + 'io/PacketBuffer.h', K + 'io/AsyncByteStream.cpp', K + 'timer/Timer.cpp', K + 'collection/TransactionalList.h', K + 'io/SharedCircularBuffer.h'],
     [('pool before worker', K + 'thread/ThreadPool.cpp ThreadPool::TryQueue'), ('writer before buffer', K + 'io/PacketBuffer.h PacketBuffer::Process'), ('deferrer before timer', K + 'timer/Timer.cpp ExecutionDeferrer::DoDefer')],
     technique='must-hold lock sets over interprocedural flow graphs, transitive lock summaries, cycle search in the lock-order relation',
     note='Locks are told apart by class and member, not by object; user callbacks and virtual calls are outside (P03).')

prop('P25', 'Bytes on their way are neither lost, repeated, nor reordered',
     'Every source, consumer, stream, pipe and buffer hands on each byte once, in order and only within what is there: counts it returns and positions it keeps equal the bytes really moved, and what its partner did not take is kept and handed on next. '
     'The end of the data is announced only after the last byte was taken. '
     'Every operation of the ring buffers leads from any consistent state to the consistent state that holds exactly the specified bytes.',
     ['inputs', 'histories'], 'every transferring operation, every size, offset and prior state, every amount a partner takes or gives, cancellation between any two steps',
     'a byte is lost only when a partner takes part of what it is offered, a position is unaligned, a ring wraps exactly at its end or a cancellation arrives between two steps; tests move whole small blocks',
     [K + 'io/BufferedStream.h', K + 'io/BufferedDataSource.cpp', K + 'io/BufferedPipe.cpp', K + 'io/PipeDataSource.cpp', K + 'io/PagedBuffer.cpp', K + 'io/PacketBuffer.h', K + 'io/DataUtils.h', K + 'io/IDataSource.h', K + 'io/DataAligner.h',
      K + 'io/MemoryByteStream.h', K + 'io/ByteStreamWithOffsetAndSize.h', K + 'io/BithreadCircularBuffer.h', K + 'io/CircularBufferBase.h', K + 'io/ChunkedMemoryByteStream.h'],
     [('read-ahead', K + 'io/BufferedStream.h Read'), ('partial takes', K + 'io/PipeDataSource.cpp Read'), ('loops of transfers', K + 'io/IDataSource.h ConsumeAll'), ('ring buffer', K + 'io/BithreadCircularBuffer.h Push')],
     technique='abstract interpretation with linear forms over sizes and positions, and inductive loop summaries',
     note='Sizes and offsets are mathematical integers (no overflow). A partner takes at most what it was offered. Streams of chunks are explored for up to two chunks of any size, in any of them.')

prop('P26', 'A stream stands exactly where it was moved to',
     'Seeking from the beginning, the current position or the end leaves a stream exactly at the position asked for if that is in range, also when the stream reads ahead, shows only a part of another stream or consists of chunks; otherwise it is refused and the position stays. '
     'Telling gives the position and changes nothing, and a stream below is left where the position of the stream above says.',
     ['inputs', 'histories', 'failures'], 'every seek and tell, every offset, position, size and way to seek, every content of the read-ahead buffer, failures of the stream below',
     'positions at the very end, between chunks, at the edges of the read-ahead buffer and seeks that fail half-way need particular combinations of offset, size and state',
     [K + 'io/MemoryByteStream.h', K + 'io/ByteStreamWithOffset.h', K + 'io/ByteStreamWithOffsetAndSize.h', K + 'io/BufferedStream.h', K + 'io/ChunkedMemoryByteStream.h'],
     [('memory', K + 'io/MemoryByteStream.h Seek'), ('part of a stream', K + 'io/ByteStreamWithOffsetAndSize.h Seek'), ('read-ahead', K + 'io/BufferedStream.h Seek'), ('chunks', K + 'io/ChunkedMemoryByteStream.h Seek')],
     technique='abstract interpretation with linear forms over offsets, positions and sizes',
     note='Offsets and sizes are mathematical integers. Streams of chunks are explored for up to three chunks of any size, in any of them.')

prop('P24', 'Comparisons are consistent',
     'Comparisons of one kind of value agree with each other: equality holds for exactly those that are alike in everything that is compared, ordering is strict, total over what is compared and never places two alike values one before the other, and what one operator says follows from what the others say. '
     'Absent values are ordered one way and equal only to absent values.',
     ['inputs'], 'every comparison operator and comparer of the library, all pairs of values, whichever parts agree or differ, also when one or both are absent',
     'an ordering that ignores or misplaces one part shows only for pairs that agree in exactly the parts before it',
     [K + 'compare/comparers.h', K + 'compare/CollectionComparer.h', K + 'compare/MemberListComparer.h', K + 'Version.h', K + 'optional.h', K + 'variant.h', K + 'string/string_view.h', K + 'collection/ByteData.h', K + 'locale/LocaleString.cpp', K + 'time/Time.h'],
     [('comparers', K + 'compare/comparers.h CmpComparerBase::Compare'), ('collections', K + 'compare/CollectionComparer.h DoCompare'), ('absent values', K + 'optional.h Compare'), ('alternatives', K + 'variant.h operator<'), ('versions', K + 'Version.cpp operator<')],
     technique='abstract interpretation over the signs of the compared parts',
     note='Comparisons of the parts (built-in types and standard containers) are taken to be consistent. Comparisons whose loops do not walk their operands element by element are left undecided.')

prop('P27', 'An object reads back each part from the name it wrote it under',
     'An object that writes itself to a stream reads each of its parts back from the name it wrote it under, into the same part and as the same kind of value, for each alternative it may hold; everything written is read, nothing is read that was not written, and no part that belongs to the value is left out. '
     'What streams add themselves for pointers and alternatives has the same names on both sides.',
     ['inputs', 'histories'], 'every class of the library that writes itself to and reads itself from a stream, all values and alternatives it may hold',
     'a name or a part that differs between the two sides shows only for values in which that part differs from what a fresh object has, and only for the alternatives a test happens to use',
     [K + 'any.cpp', K + 'Rect.h', K + 'Size.h', K + 'NumericRange.h', K + 'time/Time.cpp', K + 'locale/LocaleString.cpp', K + 'collection/CollectionOpVariant.h', K + 'serialization/Serialization.h'],
     [('alternatives', K + 'any.cpp Serialize, Deserialize'), ('older form', K + 'time/Time.cpp TimeDuration::Deserialize'), ('plain members', K + 'Rect.h'), ('pointers and alternatives', K + 'serialization/Serialization.h serialize, deserialize')],
     technique='dataflow over the paths of writer and reader, matched name by name',
     note='That the text produced for a single built-in value reads back as that value is not decided here.')

# ---- properties this family of technique cannot decide here
prop('P40', 'Fixed-point, decimal, rational and big-number arithmetic is exact',
     'Arithmetic and comparison of decimals, fixed-point numbers, rationals and big numbers give the mathematically exact result whenever it is representable, and report or saturate otherwise as documented.',
     ['inputs'], 'all operand values', 'the operand space is astronomically larger than any table of examples',
     [K + 'Decimal.cpp', K + 'Rational.h', K + 'BigNum.cpp', K + 'fixed_point.h'], [('decimal arithmetic', K + 'Decimal.cpp'), ('big numbers', K + 'BigNum.cpp')],
     reason='quantifies over the values of operands: deciding it needs arithmetic reasoning (a solver or a proof assistant) over loops with carries; no finite abstraction of the source bounds it')
prop('P41', 'Serialised data reads back as the value that was written',
     'Every value written by the settings serialiser, by the data-buffer and bit-stream writers or as text (decimals, floats, identifiers, versions, locale strings) reads back equal to the original.',
     ['inputs'], 'all values and nestings', 'round trips are sampled on a few values; escaping, extreme numbers and odd nestings are not',
     [K + 'serialization/SettingsValue.h', K + 'serialization/FloatString.cpp', K + 'io/BitStream.h', K + 'string/ToString.h'], [('settings values', K + 'serialization/Serialization.cpp')],
     reason='equality of encode and decode is a statement about run-time character and bit sequences of unbounded length; which names and members are written and read is decided by P27')
prop('P42', 'Compression reproduces its input',
     'Decompressing what the arithmetic coder and its prediction model produced yields the original byte sequence for every input and every symbol distribution.',
     ['inputs'], 'all byte sequences', 'coder and decoder states must agree after every symbol of every sequence',
     [K + 'compression/ArithmeticCoder.h', K + 'compression/ArithmeticDecoder.h', K + 'compression/ppm/PpmModel.h'], [('range narrowing', K + 'compression/ArithmeticCoder.h')],
     reason='depends on numerically equal interval arithmetic in coder and decoder over unbounded histories; out of reach of dataflow abstractions')
prop('P43', 'Date, time and time-zone arithmetic follows the calendar',
     'Conversions between times, broken-down dates, time zones and their text forms agree with the proleptic Gregorian calendar for every representable instant, and recurring schedules fire at every instant they describe.',
     ['inputs'], 'all instants, zones and schedules', 'leap years, zone changes and extreme instants are sampled at a few points',
     [K + 'time/Time.cpp', K + 'time/TimeEngine.h', K + 'time/BrokenDownTime.cpp'], [('broken-down time', K + 'time/Time.cpp')],
     reason='a numeric property of run-time values (and of the C library\'s time functions); no static argument in reach bounds it')
prop('P44', 'Orders made from user-supplied or approximate comparisons are orders',
     'A comparer that applies user-supplied comparisons or compares approximately is a strict weak order or an equivalence over the values it is used with.',
     ['inputs'], 'all triples of values and all user-supplied comparisons', 'order laws quantify over triples of values',
     [K + 'compare/comparers.h', K + 'compare/IFuzzyEquatable.h'], [('user-supplied comparisons', K + 'compare/comparers.h')],
     reason='whether the result is an order depends on the comparison the user supplies and on the values it meets, neither of which is in the source; how the library combines comparisons is decided by P24')
prop('P45', 'Text conversion and formatting agree with Unicode and the format language',
     'Encoding conversion, transliteration, case mapping, splitting, trimming, regular-expression matching, multi-pattern search and format strings produce the documented result for every input text, and reject malformed text.',
     ['inputs'], 'all strings and formats', 'the space of strings is unbounded and the tests use ASCII samples',
     [K + 'locale/StringCodec.cpp', K + 'string/StringFormat.h', K + 'string/RegexUtils.cpp', K + 'string/AhoCorasick.h'], [('codec', K + 'locale/StringCodec.cpp'), ('regex', K + 'string/RegexUtils.cpp')],
     reason='functional correctness on unbounded character sequences; needs a specification of the text formats evaluated on values')
prop('P46', 'Range adaptors deliver exactly the elements their description promises',
     'Filtering, transforming, concatenating, zipping, reversing, slicing, splitting and casting ranges and enumerables deliver exactly the documented elements in the documented order, for forward and backward traversal alike.',
     ['inputs', 'histories'], 'all element sequences and traversal orders', 'mixed forward and backward traversal of nested adaptors is hardly sampled',
     [K + 'collection/Range.h', K + 'collection/RangeBase.h', K + 'collection/EnumerableHelpers.h'], [('range adaptors', K + 'collection/Range.h')],
     reason='an inductive property over sequences of unbounded length; the abstractions used here (finite predicates per object) cannot count positions in nested iterators')
prop('P47', 'Concurrent operations take effect in some order consistent with real time',
     'Every concurrent history of a buffer, pipe, executor queue or collection is equivalent to a sequential one in which each operation takes effect between its call and its return, and data leaves in the order it came.',
     ['schedules', 'histories'], 'all interleavings of all operations', 'interleavings cannot be enumerated by running them',
     [K + 'io/BithreadCircularBuffer.cpp', K + 'io/SharedCircularBuffer.h', K + 'thread/ThreadTaskExecutor.cpp'], [('single-producer ring', K + 'io/BithreadCircularBuffer.cpp')],
     reason='linearizability against a sequential specification needs exploration of interleavings with values (model checking); its static part - one critical section per operation - is claimed as P01 and P02')
prop('P48', 'Caches evict the entries their policy names and never exceed their size',
     'A cache never holds more than its limit, and the entries it drops are the ones its policy (oldest first, or the two-queue scheme) names, for every sequence of lookups and insertions.',
     ['histories', 'inputs'], 'all operation sequences', 'the order of eviction depends on the whole history',
     [K + 'collection/QueueCache.h', K + 'collection/TwoQueueCache.h'], [('two-queue policy', K + 'collection/TwoQueueCache.h')],
     reason='order and sum of sizes over unbounded histories are numeric loop invariants on container contents, beyond presence/absence abstractions')
prop('P49', 'Timers fire on time and periodically without drift',
     'A timer function runs no earlier than its deadline and within a bounded delay after it, periodic functions keep their period, and simultaneous deadlines fire in the order they were set.',
     ['schedules', 'inputs'], 'all deadlines, loads and clock behaviours', 'real-time behaviour under load cannot be sampled reliably',
     [K + 'timer/Timer.cpp'], [('deadline queue', K + 'timer/Timer.cpp')],
     reason='real-time accuracy is a quantity of the running system (clock, scheduler); the source only determines the structure of the waits, which P06 and P07 decide')
