"""Which state belongs to which lock.  Discovered by locked/unlocked statistics over the confirmed tree, every instance
confirmed by reading the code and frozen here; one reason per exception."""
from guarded import Guard

S = 'stingray::'
DESTR = 'the object is being destroyed, nobody else holds it'

GUARDS = [
    # logging, profiling, statistics
    Guard(S + '(anonymous namespace)::LoggerImpl', ['log/Logger.cpp'], ['_sinks'], ['_logMutex']),
    Guard(S + '(anonymous namespace)::NamedLoggerRegistry', ['log/Logger.cpp'], ['_objects', '_settings'], ['_mutex']),
    Guard(S + 'AsyncProfiler', ['diagnostics/AsyncProfiler.cpp', 'diagnostics/AsyncProfiler.h'], ['_sessions'], ['_mutex']),
    Guard(S + 'CheckpointProfiler', ['diagnostics/CheckpointProfiler.cpp', 'diagnostics/CheckpointProfiler.h'], ['_checkpointTimes', '_elapsedTime'], ['_mutex']),
    Guard(S + 'BandwidthReporter', ['BandwidthReporter.h'], ['_dataSinceLastReport', '_dataTotal', '_timeSinceLastReport'], ['_mutex']),

    # threads, tasks, cancellation
    Guard(S + 'CancellationToken::Impl', ['thread/CancellationToken.cpp', 'thread/CancellationToken.h'], ['_cancelHandler', '_cancelDone', '_cancelled'], ['_mutex'],
          exempt={'NotifyDestruction': (None, DESTR), 'IsCancelled': ({'_cancelled'}, 'single volatile flag polled without the lock by design')}),
    Guard(S + 'Detail::TaskLifeTokenImpl', ['thread/TaskLifeToken.cpp', 'thread/TaskLifeToken.h'], ['_alive'], ['_sync'],
          exempt={'NotifyDestruction': (None, DESTR)}),
    Guard(S + 'ThreadTaskExecutor', ['thread/ThreadTaskExecutor.cpp', 'thread/ThreadTaskExecutor.h'], ['_queue'], ['_syncRoot']),
    Guard(S + 'ThreadlessTaskExecutor', ['thread/ThreadlessTaskExecutor.cpp', 'thread/ThreadlessTaskExecutor.h'], ['_queue', '_activeExecutor'], ['_syncRoot']),
    Guard(S + 'ThreadPool', ['thread/ThreadPool.cpp', 'thread/ThreadPool.h'], ['_workers', '_worker', '_task'], ['_mutex']),
    Guard(S + 'ThreadPool::WorkerWrapper', ['thread/ThreadPool.cpp', 'thread/ThreadPool.h'], ['_task', '_idle', '_completed'], ['_mutex']),
    Guard(S + 'Timer::CallbackQueue', ['timer/Timer.cpp', 'timer/Timer.h'], ['_container'], ['_mutex']),
    Guard(S + 'ExecutionDeferrer', ['timer/Timer.cpp', 'timer/Timer.h'], ['_connection', '_doDeferConnection', '_cancellationActive'], ['_mutex'],
          field_locks={'_connection': ['_connectionMutex'], '_doDeferConnection': ['_doDeferConnectionMutex'], '_cancellationActive': ['_mutex']}),
    Guard(S + 'Detail::future_impl_base', ['future.h'], ['_result'], ['_mutex']),
    Guard(S + 'Barrier', ['thread/Barrier.h'], ['_currentCount', '_releasing'], ['_mutex']),
    Guard(S + 'FactoryContext', ['factory/Factory.cpp', 'factory/Factory.h'], ['_objectCreators', '_classNames'], ['_guard']),
    Guard(S + 'ObjectPool', ['ObjectPool.h'], ['_objects'], ['_mutex']),
    Guard(S + 'TokenHolder', ['Token.h'], ['_token'], ['_mutex']),
    Guard(S + 'TokenPool', ['Token.h'], ['_tokens'], ['_mutex']),

    Guard(S + 'TokenMap::BracketsOperatorProxy', ['Token.h'], ['_tokens'], ['_mutex']),
    Guard(S + 'TokenMap', ['Token.h'], ['_tokens'], ['_mutex'], raii=[S + 'TokenMap::BracketsOperatorProxy']),
    Guard(S + 'PosixThreadInfo', ['thread/posix/PosixThreadEngine.cpp'], ['_name'], ['_mutex']),
    Guard(S + 'ThreadDataStorage', ['thread/posix/PosixThreadEngine.cpp'], ['_childrenStats'], ['_mutex']),
    Guard(S + 'ThreadsRegistry', ['thread/posix/PosixThreadEngine.cpp'], ['_threadsMap'], ['self-sync']),
    Guard(S + 'SyncValue', ['thread/SyncValue.h'], ['_value'], ['_mutex'], raii=[S + 'SyncValue::Lock', S + 'SyncValue::ConstLock']),
    Guard(S + 'Detail::SignalImplBase', ['signal/signals.h', 'Token.h'], ['_handlers'], ['self-sync'], raii=[S + 'Detail::SignalImplBase::Connection'], skip_ids=['SignalImplBaseILb0E', '10Threadless']),

    # streams and pipes
    Guard(S + 'AsyncByteStream', ['io/AsyncByteStream.cpp', 'io/AsyncByteStream.h'],
          ['_bufferLowWater', '_bufferPreallocationSize', '_buffers', '_config', '_lastStatsDump', '_stats', '_streamOpQueue', '_syncDone', '_syncNext'], ['_streamOpQueueMutex']),
    Guard(S + 'BithreadPipe', ['io/BithreadPipe.cpp', 'io/BithreadPipe.h'], ['_data'], ['_guard']),
    Guard(S + 'SynchronizedPipe', ['io/SynchronizedPipe.cpp', 'io/SynchronizedPipe.h'], ['_pipe'], ['_guard']),
    Guard(S + 'PagedBuffer', ['io/PagedBuffer.cpp', 'io/PagedBuffer.h'], ['_activeRead', '_activeWrite', '_currentOffset', '_pages', '_startOffset', '_tailSize'], ['_mutex'],
          raii=[S + 'PagedBuffer::ReadLock', S + 'PagedBuffer::WriteGuard'], field_locks={'_activeWrite': ['_writeMutex']},
          exempt={'Push': ({'_tailSize'}, 'the write guard makes the pusher the only writer of the tail size; it only re-reads its own value')}),
    Guard(S + 'PacketBuffer', ['io/PacketBuffer.h'], ['_buffer', '_packetQueue', '_paddingSize', '_eod'], ['_bufferMutex'],
          handles=[S + 'BithreadCircularBuffer::Writer', S + 'BithreadCircularBuffer::Reader']),
    Guard(S + 'SharedCircularBuffer', ['io/SharedCircularBuffer.h', 'io/DataBuffer.h', 'io/BufferedDataConsumer.h', 'io/BufferedDataConsumer.cpp', 'io/BufferedDataSource.h', 'io/BufferedDataSource.cpp'],
          ['_buffer', '_eod', '_exception', '_activeRead', '_activeWrites'], ['_bufferMutex'],
          raii=[S + 'SharedCircularBuffer::' + x for x in ('BufferLock', 'BufferUnlock', 'ReadLock', 'WriteLock')],
          handles=[S + 'BithreadCircularBuffer::Writer', S + 'BithreadCircularBuffer::Reader']),
    Guard(S + 'SharedWriteSynchronizer', ['io/SharedCircularBuffer.h', 'io/DataBuffer.h', 'io/BufferedDataConsumer.h', 'io/BufferedDataConsumer.cpp'], ['_writeAllow'], ['_writeMutex'],
          raii=[S + 'SharedWriteSynchronizer::WriteGuard']),

    # observable and transactional collections
    Guard(S + 'ObservableListWrapper', ['collection/ObservableListWrapper.h'], ['_wrapped'], ['sync:_onChanged', '*_mutex'], exempt={'OnChangedPopulator': (None, 'runs under the lock of the signal (connect)')}),
    Guard(S + 'ObservableSetWrapper', ['collection/ObservableSetWrapper.h'], ['_wrapped'], ['sync:_onChanged', '*_mutex'], exempt={'OnChangedPopulator': (None, 'runs under the lock of the signal (connect)')}),
    Guard(S + 'ObservableDictionaryWrapper', ['collection/ObservableDictionaryWrapper.h'], ['_wrapped'], ['sync:_onChanged', '*_mutex'], exempt={'OnChangedPopulator': (None, 'runs under the lock of the signal (connect)')}),
    Guard(S + 'MultiMapObservableDictionary', ['collection/MultiMapObservableDictionary.h'], ['_wrapped'], ['sync:_onChanged', '*_mutex'], exempt={'OnChangedPopulator': (None, 'runs under the lock of the signal (connect)')}),
    Guard(S + 'SortedObservableMultiSet', ['collection/SortedObservableMultiSet.h'], ['_wrapped'], ['sync:_onChanged', '*_mutex'], exempt={'OnChangedPopulator': (None, 'runs under the lock of the signal (connect)')}),
    Guard(S + 'ObservableValue', ['ObservableValue.h'], ['_val'], ['sync:_onChanged', '*_mutex'],
          exempt={'OnChangedPopulator': (None, 'runs under the lock of the signal (connect)')}),
]
for C in ('List', 'Set', 'Dictionary'):
    GUARDS.append(Guard(S + 'Transactional%s::ImplData' % C, ['collection/Transactional%s.h' % C], ['Items', 'HasTransaction'] + ([] if C == 'List' else ['ItemsHolder']), ['*Guard', 'sync:OnChanged'], # the transaction is exclusive, so nobody else writes the items it reads
                        writes_only={S + 'Transactional%s::Transaction' % C: ('Items',)},
                        exempt={'OnChangedPopulator': (None, 'runs under the lock of the signal (connect)')}))
