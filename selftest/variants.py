"""Scratch variants: (name, properties, [(file, old, new)]) that break a property; (name, edits) that change nothing."""
BROKEN = [
    ('p01-exec-queue-unlocked', 'P01', [('thread/ThreadTaskExecutor.cpp', 'MutexLock l(_syncRoot);\n\t\t_queue.emplace_back(task, tester);', '_queue.emplace_back(task, tester);\n\t\tMutexLock l(_syncRoot);')]),
    ('p01-pagedbuffer-pop-before-relock', 'P01', [('io/PagedBuffer.cpp', '\t\t\tMutexUnlock ul(l);\n\n\t\t\tprocessed =', '\t\t\tMutexUnlock ul(l);\n\t\t\tif (_pages.empty())\n\t\t\t\treturn;\n\t\t\tprocessed =')]),
    ('p01-transaction-commit-unlocked', 'P01', [('collection/TransactionalSet.h', 'MutexLock l(*_impl->Guard);\n\t\t\t\t\tUtils::CopyOnWrite', 'Utils::CopyOnWrite')]),
    ('p01-scb-write-lock-order', 'P01', [('io/SharedCircularBuffer.h', 'BufferLock(SharedCircularBuffer& parent) : _parent(parent), _lock(parent._bufferMutex) { }', 'BufferLock(SharedCircularBuffer& parent) : _parent(parent), _lock(parent._eodMutex) { }'),
                                             ('io/SharedCircularBuffer.h', 'Mutex\t\t\t\t\t_bufferMutex;', 'Mutex\t\t\t\t\t_bufferMutex;\n\t\tMutex _eodMutex;')]),
    ('p01-signal-copy-outside', 'P01', [('signal/signals.h', 'typename base::LockType l(this->GetSync());\n\t\t\t\t\tthis->CopyHandlersToLocal(localCopy);\n\t\t\t\t}', 'typename base::LockType l(this->GetSync());\n\t\t\t\t}\n\t\t\t\tthis->CopyHandlersToLocal(localCopy);')]),
    ('p01-tokenmap', 'P01', [('Token.h', 'bool Empty() const\t\t\t\t\t\t\t{ MutexLock l(_mutex); return', 'bool Empty() const\t\t\t\t\t\t\t{ return')]),
    ('p03-exec-reset-dropped', 'P03', [('thread/ThreadTaskExecutor.cpp', 'top.reset(); // destroy', '// destroy')]),
    ('p03-exec-under-lock', 'P03', [('thread/ThreadTaskExecutor.cpp', 'MutexUnlock ul(l);\n', '\n')]),
    ('p03-pool-completed-under-lock', 'P03', [('thread/ThreadPool.cpp', 'MutexUnlock ul(l);\n\t\t\t\t\t\t_completedHandler();', '_completedHandler();')]),
    ('p03-timer-release-under-lock', 'P03', [('timer/Timer.cpp', 'queue->Erase(ci);\n\t\t}\n\t\tci->Release();', 'queue->Erase(ci);\n\t\tci->Release();\n\t\t}')]),
    ('p03-tokenpool-clear', 'P03', [('Token.h', 'Tokens tokens;\n\n\t\t\tMutexLock l(_mutex);\n\t\t\ttokens.swap(_tokens);', 'MutexLock l(_mutex);\n\t\t\t_tokens.clear();')]),
    ('p03-tokenholder-order', 'P03', [('Token.h', 'Token token(token_);\n\n\t\t\tMutexLock l(_mutex);', 'MutexLock l(_mutex);\n\n\t\t\tToken token(token_);')]),
    ('p03-tokenholder-assign', 'P03', [('Token.h', 'Token token(token_);\n\n\t\t\tMutexLock l(_mutex);\n\t\t\tstd::swap(token, _token);', 'MutexLock l(_mutex);\n\n\t\t\t_token = token_;')]),
    ('p03-signal-invoke-locked', 'P03', [('signal/signals.h', '\t\t\t\t\tthis->CopyHandlersToLocal(localCopy);\n\t\t\t\t}\n', '\t\t\t\t\tthis->CopyHandlersToLocal(localCopy);\n\t\t\t\t}\n\t\t\t\ttypename base::LockType l(this->GetSync());\n')]),
    ('p03-cancel-handler-locked', 'P03', [('thread/CancellationToken.cpp', 'cancelHandler->Cancel();', '{ MutexLock l2(_mutex); cancelHandler->Cancel(); }')]),
    ('p03-logger-sinks-locked', 'P03', [('log/Logger.cpp', '\t\t\t\t\t\tPutMessageToSinks(sinks, message);', '\t\t\t\t\t{ MutexLock l(_logMutex); PutMessageToSinks(sinks, message); }')]),
    ('p03-threadless-clear', 'P03', [('thread/ThreadlessTaskExecutor.cpp', '_queue.swap(queue);', '_queue.clear();')]),
    ('p02-exec-wait-split', 'P02', [('thread/ThreadTaskExecutor.cpp', 'optional<TaskPair> top = _queue.front();', '{ MutexUnlock ul2(l); }\n\t\t\t\toptional<TaskPair> top = _queue.front();')]),
    ('p02-set-add-split', 'P02', [('collection/ObservableSetWrapper.h', 'signal_locker l(_onChanged);\n\t\t\tif (!_wrapped.Add(value))\n\t\t\t\treturn false;\n', 'if (Contains(value))\n\t\t\t\treturn false;\n\t\t\tsignal_locker l(_onChanged);\n\t\t\t_wrapped.Add(value);\n')]),
    ('p02-threadless-clear-split', 'P02', [('thread/ThreadlessTaskExecutor.cpp', '_queue.swap(queue);', '{ MutexUnlock ul(l); }\n\t\t_queue.swap(queue);')]),
    ('p06-pool-task-no-bcast', 'P06', [('thread/ThreadPool.cpp', '_cond.Broadcast();', '', 'all')]),
    ('p06-future-no-bcast', 'P06', [('future.h', '_condition.Broadcast();', '', 'all')]),
    ('p06-pipe-no-bcast', 'P06', [('io/SynchronizedPipe.h', 'const ScopeExitInvoker sei1(Bind(&ConditionVariable::Broadcast, wrap_ref(_cv)));', '')]),
    ('p06-barrier', 'P06', [('thread/Barrier.h', '_cv.Broadcast();', '')]),
    ('p06-packet-eod', 'P06', [('io/PacketBuffer.h', '_eod = true;\n\t\t\t_bufferEmpty.Broadcast();', '_eod = true;')]),
    ('p07-pipe-if', 'P07', [('io/BithreadPipe.h', 'while (!_data)', 'if (!_data)'), ('io/BithreadPipe.h', 'Broadcasted:	continue;', 'Broadcasted:	break;')]),
    ('p07-future-unlocked-check', 'P07', [('thread/Barrier.h', 'while (', 'if (')]),
    ('p07-scb-ignore-result', 'P07', [('io/SharedCircularBuffer.h', 'if (result != ConditionWaitResult::Broadcasted)\n\t\t\t\t\t\treturn result;', '')]),
    ('p07-wait-other-mutex', 'P07', [('io/PacketBuffer.h', '_bufferEmpty.Wait(_bufferMutex, token)', '_bufferEmpty.Wait(_writeMutex, token)')]),
    ('p14-list-index', 'P14', [('collection/ObservableListWrapper.h', '_wrapped.GetCount() - 1, value', '_wrapped.GetCount(), value')]),
    ('p14-set-early', 'P14', [('collection/ObservableSetWrapper.h', 'if (!_wrapped.Add(value))\n\t\t\t\treturn false;\n\n\t\t\t_onChanged(CollectionOp::Added, value);\n\t\t\treturn true;', '_onChanged(CollectionOp::Added, value);\n\t\t\treturn _wrapped.Add(value);')]),
    ('p14-dict-late-update', 'P14', [('collection/ObservableDictionaryWrapper.h', 'const bool update = _wrapped.ContainsKey(key);\n\t\t\t_wrapped.Set(key, value);', '_wrapped.Set(key, value);\n\t\t\tconst bool update = _wrapped.ContainsKey(key);')]),
    ('p14-dict-clear', 'P14', [('collection/ObservableDictionaryWrapper.h', '_wrapped.Remove(pair.Key);\n\t\t\t\t_onChanged(CollectionOp::Removed, pair.Key, pair.Value);\n\t\t\t}\n\t\t}', '_onChanged(CollectionOp::Removed, pair.Key, pair.Value);\n\t\t\t}\n\t\t\t_wrapped.Clear();\n\t\t}')]),
    ('p14-list-remove-late-read', 'P14', [('collection/ObservableListWrapper.h', 'const ValueType value = _wrapped.Get(index);\n\t\t\t_wrapped.RemoveAt(index);', '_wrapped.RemoveAt(index);\n\t\t\tconst ValueType value = _wrapped.Get(index);')]),
    ('p14-keys-updated', 'P14', [('collection/DictionaryKeysSet.h', 'if (op != CollectionOp::Updated)\n', '')]),
    ('p14-kv-updated-null', 'P14', [('collection/ObservableDictionaryKeyValue.h', 'op == CollectionOp::Removed ? null : ValueType(value)', 'op != CollectionOp::Added ? null : ValueType(value)')]),
    ('p14-entry', 'P14', [('collection/ObservableSetEntry.h', '_onChanged(op == CollectionOp::Added);', '_onChanged(true);')]),
    ('p14-value-noeq', 'P14', [('ObservableValue.h', 'if (_equalsCmp(_val, val))\n\t\t\t\treturn;\n', '')]),
    ('p14-multi-removeall', 'P14', [('collection/SortedObservableMultiSet.h', '\t\t\t\t_wrapped.RemoveFirst(value);\n\t\t\t\t_onChanged(CollectionOp::Removed, value);', '\t\t\t\tif (_wrapped.RemoveFirst(value) && ret == 0)\n\t\t\t\t_onChanged(CollectionOp::Removed, value);')]),
    ('p14-dict-updated-always', 'P14', [('collection/ObservableDictionaryWrapper.h', 'update ? CollectionOp::Updated : CollectionOp::Added', 'CollectionOp::Updated')]),
    ('p04-exec-guard-late', 'P04', [('thread/ThreadTaskExecutor.cpp', '\t\t\tLocalExecutionGuard guard(task.second);\n\t\t\tif (!guard)\n\t\t\t\treturn;\n', '\t\t\t{\n\t\t\tLocalExecutionGuard guard(task.second);\n\t\t\tif (!guard)\n\t\t\t\treturn;\n\t\t\t}\n')]),
    ('p04-exec-null', 'P04', [('thread/ThreadlessTaskExecutor.cpp', 'LocalExecutionGuard guard(task.second);', 'LocalExecutionGuard guard(null);')]),
    ('p04-enqueue-null', 'P04', [('thread/ThreadTaskExecutor.cpp', '_queue.emplace_back(task, tester);', '_queue.emplace_back(task, null);')]),
    ('p04-timer-addtask', 'P04', [('timer/Timer.cpp', 'MakeCancellableFunction(task, tester)', 'task')]),
    ('p04-timer-noguard', 'P04', [('timer/Timer.cpp', '\t\t\tif (!guard)\n\t\t\t\treturn;\n', '')]),
    ('p04-kill-unlocked', 'P04', [('thread/TaskLifeToken.cpp', '\t\t\t_alive = false;', '\t\t\tl.~GenericMutexLock();\n\t\t\t_alive = false;\n\t\t\tnew (&l) MutexLock(_sync);')]),
    ('p04-start-check-unlocked', 'P04', [('thread/TaskLifeToken.cpp', '\t\t\t_sync.Lock();\n\n\t\t\tif (_alive)\n\t\t\t{', '\t\t\tif (_alive)\n\t\t\t{\n\t\t\t\t_sync.Lock();'), ('thread/TaskLifeToken.cpp', '\t\t\t_sync.Unlock();\n\t\t\treturn false;', '\t\t\treturn false;')]),
    ('p04-refuse-locked', 'P04', [('thread/TaskLifeToken.cpp', '\t\t\t_sync.Unlock();\n\t\t\treturn false;', '\t\t\treturn false;')]),
    ('p04-guard-noreset', 'P04', [('thread/TaskLifeToken.cpp', '\t\tif (!_allow)\n\t\t\t_impl.reset();\n', '')]),
    ('p04-reset-norelease', 'P04', [('thread/TaskLifeToken.cpp', '\t\tRelease();\n\t\treturn (*this = TaskLifeToken());', '\t\treturn (*this = TaskLifeToken());')]),
    ('p04-async-tester', 'P04', [('function/AsyncFunction.h', '_executor->AddTask(std::forward<BoundFunctor_>(func), _tester);', '_executor->AddTask(std::forward<BoundFunctor_>(func));')]),
    ('p04-signal-noguard', 'P04', [('signal/signals.h', 'LocalExecutionGuard guard(_tester);\n\t\t\t\t\tif (guard)\n', '')]),
    ('p05-exec-rethrow', 'P05', [('thread/ThreadTaskExecutor.cpp', '\t\tcatch (const std::exception& ex)\n\t\t{ _exceptionHandler(ex); }', '\t\tcatch (const std::exception& ex)\n\t\t{ _exceptionHandler(ex); if (!_profileTimeout) throw; }')]),
    ('p05-pool-narrow', 'P05', [('thread/ThreadPool.cpp', 'catch (const std::exception& ex)', 'catch (const std::runtime_error& ex)')]),
    ('p05-threadless-twice', 'P05', [('thread/ThreadlessTaskExecutor.cpp', '{ _exceptionHandler(ex); }', '{ _exceptionHandler(ex); if (!_queue.empty()) _exceptionHandler(ex); }')]),
    ('p05-timer-lost', 'P05', [('timer/Timer.cpp', '{ _exceptionHandler(ex); }', '{ if (_profileTimeout) _exceptionHandler(ex); }')]),
    ('p05-signal-stop', 'P05', [('signal/signals.h', '\t\t\t\tfor (typename base::LocalHandlersCopy::const_iterator it = localCopy.begin(); it != localCopy.end(); ++it)\n\t\t\t\t\tWRAP_EXCEPTION_HANDLING(this->GetExceptionHandler(), it->template Invoke<Signature, Ts...>(args...));',
                                 '\t\t\t\tWRAP_EXCEPTION_HANDLING(this->GetExceptionHandler(), for (typename base::LocalHandlersCopy::const_iterator it = localCopy.begin(); it != localCopy.end(); ++it) it->template Invoke<Signature, Ts...>(args...));')]),
    ('p05-logger-stop', 'P05', [('log/Logger.cpp', '\t\t\t\t\ttry\n\t\t\t\t\t{ sink->Log(message); }\n\t\t\t\t\tcatch (const std::exception&)\n\t\t\t\t\t{ }', '\t\t\t\t\tsink->Log(message);')]),
    ('p05-token-throws', 'P05', [('FunctionToken.h', 'STINGRAYKIT_TRY_NO_MESSAGE(FunctorInvoker::InvokeArgs(_cleanupFunc));', 'FunctorInvoker::InvokeArgs(_cleanupFunc);')]),
    ('p05-async-lost', 'P05', [('function/AsyncFunction.h', '{ _promise->set_exception(MakeExceptionPtr(ex)); }', '{ if (_promise.unique()) _promise->set_exception(MakeExceptionPtr(ex)); }')]),
    ('p05-wrapper-removed', 'P05', [('signal/signals.h', '\t\t\t\ttry\n\t\t\t\t{ _func(args...); }\n\t\t\t\tcatch (std::exception& ex)\n\t\t\t\t{ _exFunc(ex); }', '\t\t\t\t_func(args...);')]),
    ('p05-stream-flag', 'P05', [('io/AsyncByteStream.cpp', '\t\t\t_wasException = true;', '\t\t\tif (token)\n\t\t\t\t_wasException = true;')]),
    ('p05-worker-stop', 'P05', [('thread/ThreadTaskExecutor.cpp', '\t\tMutexLock l(_syncRoot);\n\n\t\twhile (token', '\t\ttry {\n\t\tMutexLock l(_syncRoot);\n\n\t\twhile (token'),
                                ('thread/ThreadTaskExecutor.cpp', 'keep lock order correct\n\t\t}\n\t}', 'keep lock order correct\n\t\t}\n\t\t} catch (const std::exception& ex) { _exceptionHandler(ex); }\n\t}'),
                                ('thread/ThreadTaskExecutor.cpp', '\t\t{ _exceptionHandler(ex); }\n\t}\n\n}', '\t\t{ throw; }\n\t}\n\n}')]),
    ('p13-policy', 'P13', [('signal/signal_connector.h', '|| _impl->GetConnectionPolicy() == ConnectionPolicy::AsyncOnly', '|| _impl->GetConnectionPolicy() == ConnectionPolicy::SyncOnly')]),
    ('p13-policy-any', 'P13', [('signal/signals.h', '_impl->GetConnectionPolicy() == ConnectionPolicy::Any || _impl->GetConnectionPolicy() == ConnectionPolicy::SyncOnly', '_impl->GetConnectionPolicy() != ConnectionPolicy::AsyncOnly || _impl->GetConnectionPolicy() != ConnectionPolicy::Any')]),
    ('p13-async-sync-token', 'P13', [('signal/signal_connector.h', '_impl->CreateAsyncToken()', '_impl->CreateSyncToken()')]),
    ('p13-sync-null-tester', 'P13', [('signal/signals.h', '_impl->Connect(function_storage(slot), tester, std::move(token), sendCurrentState)', '_impl->Connect(function_storage(slot), null, std::move(token), sendCurrentState)')]),
    ('p13-async-no-tester', 'P13', [('signal/signal_connector.h', 'MakeAsyncFunction(worker, slot, tester)', 'MakeAsyncFunction(worker, slot, null)')]),
    ('p13-flag', 'P13', [('signal/signal_connector.h', 'tester, std::move(token), sendCurrentState)', 'tester, std::move(token), true)')]),
    ('p13-populate-after', 'P13', [('signal/signals.h', '\t\t\t\tif (sendCurrentState)\n\t\t\t\t\tDoSendCurrentState(func);\n\n\t\t\t\treturn MakeToken<Connection>(ImplPtr(self_count_ptr_from_this(), static_cast_tag()), func, invokeTester, std::move(connectionToken));', '\t\t\t\tToken result = MakeToken<Connection>(ImplPtr(self_count_ptr_from_this(), static_cast_tag()), func, invokeTester, std::move(connectionToken));\n\t\t\t\tif (sendCurrentState)\n\t\t\t\t\tDoSendCurrentState(func);\n\t\t\t\treturn result;')]),
    ('p13-populate-gap', 'P13', [('signal/signals.h', '\t\t\t\tLockType l(DoGetSync());\n\t\t\t\tif (sendCurrentState)\n\t\t\t\t\tDoSendCurrentState(func);\n\n', '\t\t\t\tif (sendCurrentState)\n\t\t\t\t\tSendCurrentState(func);\n\n\t\t\t\tLockType l(DoGetSync());\n')]),
    ('p13-dtor-order', 'P13', [('signal/signals.h', '\t\t\t\t\t_impl->RemoveHandler(_handler);\n\t\t\t\t\t_token.Release();', '\t\t\t\t\t_token.Release();\n\t\t\t\t\t_impl->RemoveHandler(_handler);')]),
    ('p13-dtor-norelease', 'P13', [('signal/signals.h', '\t\t\t\t\t_impl->RemoveHandler(_handler);\n\t\t\t\t\t_token.Release();', '\t\t\t\t\t_impl->RemoveHandler(_handler);')]),
    ('p13-dummy', 'P13', [('signal/signals.h', 'return IsThreadsafe ? TaskLifeToken() : TaskLifeToken::CreateDummyTaskToken();', 'return TaskLifeToken::CreateDummyTaskToken();')]),
    ('p13-stop-on-exception', 'P13', [('signal/signals.h', '\t\t\t\t\tWRAP_EXCEPTION_HANDLING(this->GetExceptionHandler(), it->template Invoke<Signature, Ts...>(args...));', '\t\t\t\t\ttry { it->template Invoke<Signature, Ts...>(args...); } catch (const std::exception& ex) { this->GetExceptionHandler()(ex); break; }')]),
    ('p13-skip-first', 'P13', [('signal/signals.h', 'std::copy(_handlers.begin(), _handlers.end(), std::back_inserter(localCopy))', 'std::copy(_handlers.empty() ? _handlers.begin() : std::next(_handlers.begin()), _handlers.end(), std::back_inserter(localCopy))')]),
    ('p13-connector-noempty', 'P13', [('signal/signal_connector.h', '\t\t\tif (STINGRAYKIT_UNLIKELY(!_impl))\n\t\t\t\treturn Token();\n', '\t\t\tif (STINGRAYKIT_UNLIKELY(!_impl || !sendCurrentState))\n\t\t\t\treturn Token();\n')]),
    ('p10-setexc-overwrites', 'P10', [('future.h', 'if (is_ready())\n\t\t\t\t\treturn;\n', 'if (has_exception())\n\t\t\t\t\treturn;\n')]),
    ('p10-setval-only-value', 'P10', [('future.h', 'STINGRAYKIT_CHECK(!this->is_ready(), PromiseAlreadySatisfied());\n\t\t\t\tthis->_result = typename', 'STINGRAYKIT_CHECK(!this->has_value(), PromiseAlreadySatisfied());\n\t\t\t\tthis->_result = typename')]),
    ('p10-wait-exc-not-ready', 'P10', [('future.h', 'while (!_result.has_value() && !_result.has_exception())', 'while (!_result.has_value())')]),
    ('p10-wait-timeout-ready', 'P10', [('future.h', 'case ConditionWaitResult::TimedOut:\t\treturn future_status::timeout;', 'case ConditionWaitResult::TimedOut:\t\treturn future_status::cancelled;')]),
    ('p10-get-not-oneshot', 'P10', [('future.h', 'shared_ptr<ImplType> impl(_impl);\n\t\t\t_impl.reset();\n\t\t\treturn impl->get();', 'return _impl->get();')]),
    ('p10-share-keeps', 'P10', [('future.h', 'shared_ptr<ImplType> ptr(_impl);\n\t\t\t_impl.reset();', 'shared_ptr<ImplType> ptr(_impl);')]),
    ('p10-retrieved-flag', 'P10', [('future.h', '_futureRetrieved = true; return', 'return')]),
    ('p10-broken-promise', 'P10', [('future.h', '{ _futureImpl->set_exception(MakeExceptionPtr(BrokenPromise())); }', '{ if (_futureRetrieved) _futureImpl->set_exception(MakeExceptionPtr(BrokenPromise())); }')]),
    ('p10-swap-flag', 'P10', [('future.h', 'std::swap(_futureRetrieved, other._futureRetrieved);', '')]),
    ('p10-get-value-first', 'P10', [('future.h', 'if (_exception)\n\t\t\t\t\tRethrowException(_exception);\n\t\t\t\tSTINGRAYKIT_CHECK(_value, OperationCancelledException());\n\t\t\t\treturn *_value;', 'STINGRAYKIT_CHECK(_value, OperationCancelledException());\n\t\t\t\treturn *_value;')]),
    ('p10-valid-unchecked', 'P10', [('future.h', 'check_valid(); return _impl->has_value();', 'return _impl->has_value();')]),
    ('p10-wait-dummy', 'P10', [('future.h', 'switch (_condition.Wait(_mutex, token))', 'switch (_condition.Wait(_mutex, DummyCancellationToken()))')]),
    ('p10-has-exception', 'P10', [('future.h', 'bool has_exception() const\t\t\t\t\t{ MutexLock l(_mutex); return _result.has_exception(); }', 'bool has_exception() const\t\t\t\t\t{ MutexLock l(_mutex); return !_result.has_value(); }')]),
    ('p10-async-swallow', 'P10', [('function/AsyncFunction.h', '{ _promise->set_exception(MakeExceptionPtr(ex)); }', '{ if (dynamic_cast<const std::runtime_error*>(&ex)) _promise->set_exception(MakeExceptionPtr(ex)); }')]),
    ('p10-get-cancelled', 'P10', [('future.h', 'do_wait(DummyCancellationToken());', '_condition.Wait(_mutex, DummyCancellationToken());')]),
    ('p15-set-removewhere-nocow', 'P15', [('collection/GenericSet.h', '\t\t\tCopyOnWrite();\n\t\t\tsize_t ret = 0;', '\t\t\tsize_t ret = 0;')]),
    ('p15-set-remove-stale-iter', 'P15', [('collection/GenericSet.h', 'if (CopyOnWrite())\n\t\t\t\t_items->erase(value);\n\t\t\telse\n\t\t\t\t_items->erase(it);', 'CopyOnWrite();\n\t\t\t_items->erase(it);')]),
    ('p15-set-clear-keeps-holder', 'P15', [('collection/GenericSet.h', '_items = make_shared_ptr<SetType>();\n\t\t\t\t_itemsHolder.reset();', '_items = make_shared_ptr<SetType>();')]),
    ('p15-set-clear-inplace', 'P15', [('collection/GenericSet.h', 'if (_itemsHolder.expired())\n\t\t\t\t_items->clear();', 'if (_items->size() < 2 || _itemsHolder.expired())\n\t\t\t\t_items->clear();')]),
    ('p15-set-copy-shares', 'P15', [('collection/GenericSet.h', '\t\t\t_items = make_shared_ptr<SetType>(*items);', '\t\t\t_items = items->empty() ? items : make_shared_ptr<SetType>(*items);')]),
    ('p15-set-holder-not-kept', 'P15', [('collection/GenericSet.h', '_itemsHolder = (itemsHolder = make_shared_ptr<Holder>(_items));', 'itemsHolder = make_shared_ptr<Holder>(_items);')]),
    ('p15-set-copy-keeps-holder', 'P15', [('collection/GenericSet.h', '_items = make_shared_ptr<SetType>(*items);\n\t\t\t_itemsHolder.reset();', '_items = make_shared_ptr<SetType>(*items);')]),
    ('p15-set-enum-bare', 'P15', [('collection/GenericSet.h', 'EnumeratorFromStlContainer(*_items, GetItemsHolder())', 'EnumeratorFromStlContainer(*_items)')]),
    ('p15-set-renum-bare', 'P15', [('collection/GenericSet.h', '_holder->Items->rbegin(), _holder->Items->rend(), _holder)', '_holder->Items->rbegin(), _holder->Items->rend())')]),
    ('p15-dict-set-late-cow', 'P15', [('collection/GenericDictionary.h', '\t\t\tCopyOnWrite();\n\t\t\tconst auto it = _map->lower_bound(key);\n\t\t\tif', '\t\t\tconst auto it = _map->lower_bound(key);\n\t\t\tif (it == _map->end())\n\t\t\t\tCopyOnWrite();\n\t\t\tif')]),
    ('p15-dict-add-hint', 'P15', [('collection/GenericDictionary.h', 'if (CopyOnWrite())\n\t\t\t\t_map->emplace(key, value);\n\t\t\telse\n\t\t\t\t_map->emplace_hint(it, key, value);', 'CopyOnWrite();\n\t\t\t_map->emplace_hint(it, key, value);')]),
    ('p15-list-set-nocow', 'P15', [('collection/GenericList.h', '\t\t\tCopyOnWrite();\n\t\t\t(*_items)[index] = value;', '\t\t\t(*_items)[index] = value;')]),
    ('p15-list-removeall-late', 'P15', [('collection/GenericList.h', '\t\t\tCopyOnWrite();\n\t\t\tconst auto it = std::remove_if', '\t\t\tconst auto it = std::remove_if'), ('collection/GenericList.h', '\t\t\t_items->erase(it, _items->end());', '\t\t\tCopyOnWrite();\n\t\t\t_items->erase(it, _items->end());')]),
    ('p15-list-remove-iter', 'P15', [('collection/GenericList.h', '\t\t\tCopyOnWrite();\n\t\t\t_items->erase(std::next(_items->begin(), index));\n\t\t\treturn true;', '\t\t\tCopyOnWrite();\n\t\t\t_items->erase(it);\n\t\t\treturn true;')]),
    ('p15-mm-add', 'P15', [('collection/MultiMapDictionary.h', '\t\t\tCopyOnWrite();\n\t\t\t_map->emplace(key, value);', '\t\t\tif (_map->find(key) == _map->end())\n\t\t\t\tCopyOnWrite();\n\t\t\t_map->emplace(key, value);')]),
    ('p15-ms-removeall', 'P15', [('collection/SortedMultiSet.h', 'if (CopyOnWrite())\n\t\t\t\treturn _items->erase(value);\n\n\t\t\tsize_t ret', 'if (!_itemsHolder.expired() && _items->size() > 4)\n\t\t\t{\n\t\t\t\tCopyOnWrite();\n\t\t\t\treturn _items->erase(value);\n\t\t\t}\n\n\t\t\tsize_t ret')]),
    ('p15-cow-inverted-shared', 'P15', [('collection/MultiMapDictionary.h', 'if (_mapHolder.expired())\n\t\t\t\treturn false;\n\n\t\t\tCopyMap(_map);', 'if (_mapHolder.expired())\n\t\t\t\treturn false;\n\n\t\t\tif (_map->empty())\n\t\t\t\treturn true;\n\n\t\t\tCopyMap(_map);')]),
    ('p21-dict-add-overwrites', 'P21', [('collection/GenericDictionary.h', 'if (it != _map->end() && !typename MapType__::key_compare()(key, it->first))\n\t\t\t\treturn false;\n\n\t\t\tif (CopyOnWrite())', 'if (it != _map->end() && !typename MapType__::key_compare()(key, it->first))\n\t\t\t{\n\t\t\t\tif (CopyOnWrite())\n\t\t\t\t\t_map->find(key)->second = value;\n\t\t\t\telse\n\t\t\t\t\tit->second = value;\n\t\t\t\treturn false;\n\t\t\t}\n\n\t\t\tif (CopyOnWrite())')]),
    ('p21-dict-set-keeps', 'P21', [('collection/GenericDictionary.h', '\t\t\tif (it != _map->end() && !typename MapType__::key_compare()(key, it->first))\n\t\t\t\tit->second = value;\n\t\t\telse\n\t\t\t\t_map->emplace_hint', '\t\t\tif (it == _map->end() || typename MapType__::key_compare()(key, it->first))\n\t\t\t\t_map->emplace_hint')]),
    ('p21-dict-set-wrong-compare', 'P21', [('collection/GenericDictionary.h', '\t\t\tif (it != _map->end() && !typename MapType__::key_compare()(key, it->first))\n\t\t\t\tit->second = value;', '\t\t\tif (it != _map->end())\n\t\t\t\tit->second = value;')]),
    ('p21-set-add-cond', 'P21', [('collection/GenericSet.h', 'if (it != _items->end() && !typename SetType__::value_compare()(value, *it))', 'if (it != _items->end() && !typename SetType__::value_compare()(*it, value))')]),
    ('p21-set-remove-result', 'P21', [('collection/GenericSet.h', 'if (CopyOnWrite())\n\t\t\t\t_items->erase(value);\n\t\t\telse\n\t\t\t\t_items->erase(it);\n\n\t\t\treturn true;', 'if (CopyOnWrite())\n\t\t\t\treturn _items->erase(value) > 1;\n\t\t\t_items->erase(it);\n\n\t\t\treturn true;')]),
    ('p21-set-where-skip', 'P21', [('collection/GenericSet.h', 'it = _items->erase(it);\n\t\t\t\t\t++ret;\n\t\t\t\t}\n\t\t\t\telse\n\t\t\t\t\t++it;', 'it = _items->erase(it);\n\t\t\t\t\t++ret;\n\t\t\t\t}\n\t\t\t\tif (it != _items->end())\n\t\t\t\t\t++it;')]),
    ('p21-ms-removefirst-all', 'P21', [('collection/SortedMultiSet.h', '_items->erase(_items->lower_bound(value));', '_items->erase(value);')]),
    ('p21-ms-removeall-first', 'P21', [('collection/SortedMultiSet.h', '\t\t\tsize_t ret = 0;\n\t\t\tfor (auto it = range.first; it != range.second; )', '\t\t\tsize_t ret = 0;\n\t\t\tfor (auto it = range.first; it != _items->end(); )')]),
    ('p21-ms-find-upper', 'P21', [('collection/SortedMultiSet.h', 'const auto it = _items->lower_bound(value);\n\t\t\tif (it == _items->end() || CompareType_()(value, *it))\n\t\t\t\treturn MakeEmptyEnumerator();', 'const auto it = _items->upper_bound(value);\n\t\t\tif (it == _items->end() || CompareType_()(value, *it))\n\t\t\t\treturn MakeEmptyEnumerator();')]),
    ('p21-ms-reversefind-orig', 'P21', [('collection/SortedMultiSet.h', '\t\t\tconst auto it = cri(_items->upper_bound(value));\n\t\t\tif (it == _items->crend() || CompareType_()(*it, value))\n\t\t\t\treturn MakeEmptyEnumerator();\n\n\t\t\treturn EnumeratorFromStlIterators(it, _items->crend(), GetItemsHolder());\n', '\t\t\tconst auto it = _items->upper_bound(value);\n\t\t\tif (it == _items->end() || CompareType_()(*cri(it), value))\n\t\t\t\treturn MakeEmptyEnumerator();\n\n\t\t\treturn EnumeratorFromStlIterators(cri(it), _items->crend(), GetItemsHolder());\n')]),
    ('p21-mm-removefirst-offset', 'P21', [('collection/MultiMapDictionary.h', '_map->erase(std::next(_map->lower_bound(key), offset));', '_map->erase(_map->lower_bound(key));')]),
    ('p21-mm-removefirst-break', 'P21', [('collection/MultiMapDictionary.h', 'if (value && !ValueCompareType()(*value, it->second))\n\t\t\t\t\tcontinue;', 'if (value && !ValueCompareType()(*value, it->second))\n\t\t\t\t\tbreak;')]),
    ('p21-mm-tryget', 'P21', [('collection/MultiMapDictionary.h', 'outValue = it->second;\n\t\t\treturn true;', 'if (it->second == outValue)\n\t\t\t\treturn false;\n\t\t\toutValue = it->second;\n\t\t\treturn true;')]),
    ('p21-mm-getall-bound', 'P21', [('collection/MultiMapDictionary.h', 'values_iterator(range.second)', 'values_iterator(_map->end())')]),
    ('p21-mm-getfirst', 'P21', [('collection/MultiMapDictionary.h', 'STINGRAYKIT_CHECK(it != _map->end() && !KeyCompareType()(key, it->first), CreateKeyNotFoundException(key));', 'STINGRAYKIT_CHECK(it != _map->end(), CreateKeyNotFoundException(key));')]),
    ('p21-set-reversefind', 'P21', [('collection/GenericSet.h', 'typename SetType::const_reverse_iterator(++it)', 'typename SetType::const_reverse_iterator(it)')]),
    ('p21-dict-where-count', 'P21', [('collection/GenericDictionary.h', 'it = _map->erase(it);\n\t\t\t\t\t++ret;', 'it = _map->erase(it);\n\t\t\t\t\tif (it != _map->end())\n\t\t\t\t\t\t++ret;')]),
    ('p21-set-assign-merge', 'P21', [('collection/GenericSet.h', '{ CopyItems(other._items); return *this; }', '{\n\t\t\tif (_items->empty())\n\t\t\t\tCopyItems(other._items);\n\t\t\treturn *this;\n\t\t}')]),
    ('p16-set-add-removed', 'P16', [('collection/TransactionalSet.h', '_removed->erase(value);\n\t\t\t\t\treturn true;\n\t\t\t\t}\n\t\t\t\telse if (!_added->count(value) &&', '_added->insert(value);\n\t\t\t\t\treturn true;\n\t\t\t\t}\n\t\t\t\telse if (!_added->count(value) &&')]),
    ('p16-set-add-noitems', 'P16', [('collection/TransactionalSet.h', 'else if (!_added->count(value) && !_impl->Items->count(value))', 'else if (!_added->count(value))')]),
    ('p16-set-remove-noitems', 'P16', [('collection/TransactionalSet.h', 'else if (!_removed->count(value) && _impl->Items->count(value))', 'else if (!_removed->count(value))')]),
    ('p16-set-where-noremoved', 'P16', [('collection/TransactionalSet.h', 'if (_removed->count(value) || !pred(value))', 'if (!pred(value))')]),
    ('p16-set-clear-src', 'P16', [('collection/TransactionalSet.h', 'if (!CopyRemovedOnWrite(_impl->Items.get()))', 'if (!CopyRemovedOnWrite(null))')]),
    ('p16-set-clear-added', 'P16', [('collection/TransactionalSet.h', 'if (!CopyAddedOnWrite(null))\n\t\t\t\t\t_added->clear();\n\n\t\t\t\tif (!CopyRemovedOnWrite(_impl', 'if (!CopyAddedOnWrite(_added.get()))\n\t\t\t\t\t_added->clear();\n\n\t\t\t\tif (!CopyRemovedOnWrite(_impl')]),
    ('p16-set-commit-early', 'P16', [('collection/TransactionalSet.h', '\t\t\t\t\t_impl->OnChanged(diff);\n', ''), ('collection/TransactionalSet.h', 'Utils::CopyOnWrite(_impl->Items, _impl->ItemsHolder, _impl->Items.get());\n', 'Utils::CopyOnWrite(_impl->Items, _impl->ItemsHolder, _impl->Items.get());\n\t\t\t\t\t_impl->OnChanged(diff);\n')]),
    ('p16-set-commit-unlocked', 'P16', [('collection/TransactionalSet.h', '_impl->OnChanged(diff);\n\t\t\t\t}\n', '}\n\t\t\t\t_impl->OnChanged(diff);\n')]),
    ('p16-set-commit-norevert', 'P16', [('collection/TransactionalSet.h', '_impl->OnChanged(diff);\n\t\t\t\t}\n\n\t\t\t\tRevert();', '_impl->OnChanged(diff);\n\t\t\t\t}\n\n\t\t\t\tif (!_removed->empty())\n\t\t\t\t\tRevert();')]),
    ('p16-set-commit-addedonly', 'P16', [('collection/TransactionalSet.h', 'if (_added->empty() && _removed->empty())\n\t\t\t\t\treturn;', 'if (_added->empty())\n\t\t\t\t\treturn;')]),
    ('p16-set-revert', 'P16', [('collection/TransactionalSet.h', 'if (!CopyRemovedOnWrite(null))\n\t\t\t\t\t_removed->clear();', 'CopyRemovedOnWrite(null);')]),
    ('p16-set-direction', 'P16', [('collection/TransactionalSet.h', 'make_shared_ptr<SortedCollectionTransactionEnumerator<ReverseFindEnumerationDirection>>', 'make_shared_ptr<SortedCollectionTransactionEnumerator<ForwardFindEnumerationDirection>>')]),
    ('p16-set-diff-swap', 'P16', [('collection/TransactionalSet.h', 'SortedCollectionTransactionDiffEnumerator<ForwardEnumerationDirection>>(), GetAddedHolder(), GetRemovedHolder()', 'SortedCollectionTransactionDiffEnumerator<ForwardEnumerationDirection>>(), GetRemovedHolder(), GetAddedHolder()')]),
    ('p16-set-contains', 'P16', [('collection/TransactionalSet.h', '_added->count(value) || (_impl->Items->count(value) && !_removed->count(value))', '_added->count(value) || _impl->Items->count(value)')]),
    ('p16-set-isempty', 'P16', [('collection/TransactionalSet.h', 'return _added->empty() && _impl->Items->size() == _removed->size();', 'return _impl->Items->size() == _removed->size();')]),
    ('p16-set-dirty', 'P16', [('collection/TransactionalSet.h', 'return !_added->empty() || !_removed->empty();', 'return !_added->empty();')]),
    ('p16-dict-getcount', 'P16', [('collection/TransactionalDictionary.h', '_impl->Items->size() - _removed->size() + _added->size()', '_impl->Items->size() + _added->size()')]),
    ('p16-dict-add-equal', 'P16', [('collection/TransactionalDictionary.h', 'if (!_removed->count(key) || _added->count(key))\n\t\t\t\t\t\treturn false;\n\n\t\t\t\t\tif (ValueEqualsComparer()(value, itemsIt->second))\n\t\t\t\t\t{\n\t\t\t\t\t\tCopyRemovedOnWrite(_removed.get());\n\t\t\t\t\t\t_removed->erase(key);\n\t\t\t\t\t\treturn true;\n\t\t\t\t\t}', 'if (!_removed->count(key) || _added->count(key))\n\t\t\t\t\t\treturn false;')]),
    ('p16-dict-add-added', 'P16', [('collection/TransactionalDictionary.h', 'if (!_removed->count(key) || _added->count(key))', 'if (!_removed->count(key))')]),
    ('p16-dict-add-absent', 'P16', [('collection/TransactionalDictionary.h', 'else if (_added->count(key))\n\t\t\t\t\treturn false;\n\n\t\t\t\tCopyAdded', 'CopyAdded')]),
    ('p16-dict-set-equal', 'P16', [('collection/TransactionalDictionary.h', 'if (_removed->count(key))\n\t\t\t\t\t\t{\n\t\t\t\t\t\t\tCopyRemovedOnWrite(_removed.get());\n\t\t\t\t\t\t\t_removed->erase(key);\n\t\t\t\t\t\t}\n', '')]),
    ('p16-dict-set-equal2', 'P16', [('collection/TransactionalDictionary.h', 'if (_added->count(key))\n\t\t\t\t\t\t{\n\t\t\t\t\t\t\tCopyAddedOnWrite(_added.get());\n\t\t\t\t\t\t\t_added->erase(key);\n\t\t\t\t\t\t}\n', '')]),
    ('p16-dict-set-noremoved', 'P16', [('collection/TransactionalDictionary.h', 'if (!_removed->count(itemsIt->first))\n\t\t\t\t\t{\n\t\t\t\t\t\tCopyRemovedOnWrite(_removed.get());\n\t\t\t\t\t\t_removed->emplace(itemsIt->first, itemsIt->second);\n\t\t\t\t\t}', '')]),
    ('p16-dict-set-emplace', 'P16', [('collection/TransactionalDictionary.h', '(*_added)[key] = value;', '_added->emplace(key, value);')]),
    ('p16-dict-remove-both', 'P16', [('collection/TransactionalDictionary.h', '_removed->emplace(itemsIt->first, itemsIt->second);\n\t\t\t\t\treturn true;', '_removed->emplace(itemsIt->first, ValueType());\n\t\t\t\t\treturn true;')]),
    ('p16-dict-apply', 'P16', [('collection/TransactionalDictionary.h', 'case CollectionOp::Updated:\t\tSet(entry.Item.Key, entry.Item.Value); break;', 'case CollectionOp::Updated:\t\tAdd(entry.Item.Key, entry.Item.Value); break;')]),
    ('p16-dict-tryget', 'P16', [('collection/TransactionalDictionary.h', 'if (itemsIt != _impl->Items->end() && !_removed->count(key))\n\t\t\t\t{\n\t\t\t\t\toutValue', 'if (itemsIt != _impl->Items->end())\n\t\t\t\t{\n\t\t\t\t\toutValue')]),
    ('p16-dict-get-order', 'P16', [('collection/TransactionalDictionary.h', 'if (addedIt != _added->end())\n\t\t\t\t\treturn addedIt->second;\n\n\t\t\t\tconst auto itemsIt = _impl->Items->find(key);\n\t\t\t\tif (itemsIt != _impl->Items->end() && !_removed->count(key))\n\t\t\t\t\treturn itemsIt->second;', 'const auto itemsIt = _impl->Items->find(key);\n\t\t\t\tif (itemsIt != _impl->Items->end())\n\t\t\t\t\treturn itemsIt->second;\n\n\t\t\t\tif (addedIt != _added->end())\n\t\t\t\t\treturn addedIt->second;')]),
    ('p16-dict-commit-order', 'P16', [('collection/TransactionalDictionary.h', '\t\t\t\t\tfor (const MapValueType& pair : *_removed)\n\t\t\t\t\t\t_impl->Items->erase(pair.first);\n\t\t\t\t\tfor (const MapValueType& pair : *_added)\n\t\t\t\t\t\tSTINGRAYKIT_CHECK(_impl->Items->emplace(pair.first, pair.second).second, LogicException("Broken invariant: failed to add to items"));\n', '\t\t\t\t\tfor (const MapValueType& pair : *_added)\n\t\t\t\t\t\t(*_impl->Items)[pair.first] = pair.second;\n\t\t\t\t\tfor (const MapValueType& pair : *_removed)\n\t\t\t\t\t\t_impl->Items->erase(pair.first);\n')]),
    ('p15-trans-set-add-nocow', 'P15', [('collection/TransactionalSet.h', 'CopyRemovedOnWrite(_removed.get());\n\t\t\t\t\t_removed->erase(value);', '_removed->erase(value);')]),
    ('p15-trans-dict-set-wrongcow', 'P15', [('collection/TransactionalDictionary.h', 'CopyAddedOnWrite(_added.get());\n\t\t\t\t\t\t(*_added)[key] = value;', 'CopyRemovedOnWrite(_removed.get());\n\t\t\t\t\t\t(*_added)[key] = value;')]),
    ('p15-trans-dict-commit-nocow', 'P15', [('collection/TransactionalDictionary.h', 'Utils::CopyOnWrite(_impl->Items, _impl->ItemsHolder, _impl->Items.get());\n', '')]),
    ('p15-trans-cow-noreset', 'P15', [('collection/TransactionalSet.h', 'items = src ? make_shared_ptr<SetType>(*src) : make_shared_ptr<SetType>();\n\t\t\t\titemsHolder.reset();', 'items = src ? make_shared_ptr<SetType>(*src) : make_shared_ptr<SetType>();')]),
    ('p22-gl-insert-nocheck', 'P22', [('collection/GenericList.h', 'STINGRAYKIT_CHECK(index <= _items->size(), IndexOutOfRangeException(index, _items->size()));\n\t\t\tCopyOnWrite', 'CopyOnWrite')]),
    ('p22-gl-insert-strict', 'P22', [('collection/GenericList.h', 'STINGRAYKIT_CHECK(index <= _items->size()', 'STINGRAYKIT_CHECK(index < _items->size()')]),
    ('p22-gl-removeat-le', 'P22', [('collection/GenericList.h', 'void RemoveAt(size_t index) override\n\t\t{\n\t\t\tSTINGRAYKIT_CHECK(index < ', 'void RemoveAt(size_t index) override\n\t\t{\n\t\t\tSTINGRAYKIT_CHECK(index <= ')]),
    ('p22-gl-set-nocheck', 'P22', [('collection/GenericList.h', 'void Set(size_t index, const ValueType& value) override\n\t\t{\n\t\t\tSTINGRAYKIT_CHECK(index < _items->size(), IndexOutOfRangeException(index, _items->size()));\n', 'void Set(size_t index, const ValueType& value) override\n\t\t{\n')]),
    ('p22-gl-insert-pos', 'P22', [('collection/GenericList.h', '_items->insert(std::next(_items->begin(), index), value)', '_items->insert(_items->begin(), value)')]),
    ('p22-gl-insert-end', 'P22', [('collection/GenericList.h', '_items->insert(std::next(_items->begin(), index), value)', '_items->insert(_items->end(), value)')]),
    ('p22-gl-remove-begin', 'P22', [('collection/GenericList.h', 'CopyOnWrite();\n\t\t\t_items->erase(std::next(_items->begin(), index));\n\t\t\treturn true;', 'CopyOnWrite();\n\t\t\t_items->erase(_items->begin());\n\t\t\treturn true;')]),
    ('p22-gl-remove-noerase', 'P22', [('collection/GenericList.h', 'CopyOnWrite();\n\t\t\t_items->erase(std::next(_items->begin(), index));\n\t\t\treturn true;', 'CopyOnWrite();\n\t\t\treturn index < _items->size();')]),
    ('p22-gl-remove-false', 'P22', [('collection/GenericList.h', '_items->erase(std::next(_items->begin(), index));\n\t\t\treturn true;', '_items->erase(std::next(_items->begin(), index));\n\t\t\treturn false;')]),
    ('p22-gl-indexof-plus1', 'P22', [('collection/GenericList.h', 'make_optional_value(std::distance(_items->begin(), it))', 'make_optional_value(std::distance(_items->begin(), it) + 1)')]),
    ('p22-gl-indexof-inv', 'P22', [('collection/GenericList.h', 'return it == _items->end() ? null', 'return it != _items->end() ? null')]),
    ('p22-gl-tryget-gt', 'P22', [('collection/GenericList.h', 'if (index >= _items->size())\n\t\t\t\treturn false', 'if (index > _items->size())\n\t\t\t\treturn false')]),
    ('p22-gl-tryget-noassign', 'P22', [('collection/GenericList.h', 'value = (*_items)[index];\n\t\t\treturn true;', 'return true;')]),
    ('p22-gl-add-front', 'P22', [('collection/GenericList.h', '_items->push_back(value)', '_items->insert(_items->begin(), value)')]),
    ('p22-gl-contains-inv', 'P22', [('collection/GenericList.h', 'return std::find(_items->begin(), _items->end(), value) != _items->end()', 'return std::find(_items->begin(), _items->end(), value) == _items->end()')]),
    ('p22-gl-clear-nothing', 'P22', [('collection/GenericList.h', 'if (_itemsHolder.expired())\n\t\t\t\t_items->clear();\n\t\t\telse', 'if (!_itemsHolder.expired())')]),
    ('p22-gl-isempty', 'P22', [('collection/GenericList.h', '{ return _items->empty(); }', '{ return !_items->empty(); }')]),
    ('p22-gl-removeall-begin', 'P22', [('collection/GenericList.h', '_items->erase(it, _items->end());', '_items->erase(_items->begin(), it);')]),
    ('p22-gl-copy-empty', 'P22', [('collection/GenericList.h', '_items = make_shared_ptr<VectorType>(*items);', '_items = make_shared_ptr<VectorType>();')]),
    ('p22-gl-removeat-last', 'P22', [('collection/GenericList.h', 'CopyOnWrite();\n\t\t\t_items->erase(std::next(_items->begin(), index));\n\t\t}', 'CopyOnWrite();\n\t\t\t_items->pop_back();\n\t\t}')]),
    ('p22-tl-cow-nocache', 'P22', [('collection/TransactionalList.h', 'void CopyOnWrite()\n\t\t\t{\n\t\t\t\t_cachedDiff.reset();\n', 'void CopyOnWrite()\n\t\t\t{\n')]),
    ('p22-tl-clear-nocache', 'P22', [('collection/TransactionalList.h', 'void Clear() override\n\t\t\t{\n\t\t\t\t_cachedDiff.reset();\n', 'void Clear() override\n\t\t\t{\n')]),
    ('p22-tl-commit-publish-after', 'P22', [('collection/TransactionalList.h', '_impl->Items = _newItems;\n\t\t\t\t\t\t_impl->OnChanged(diff);', '_impl->OnChanged(diff);\n\t\t\t\t\t\t_impl->Items = _newItems;')]),
    ('p22-tl-commit-notify-unlocked', 'P22', [('collection/TransactionalList.h', '_impl->OnChanged(diff);\n\t\t\t\t\t}', '}\n\t\t\t\t\t_impl->OnChanged(diff);')]),
    ('p22-tl-commit-old', 'P22', [('collection/TransactionalList.h', '_oldItems = _newItems;\n', '')]),
    ('p22-tl-commit-noreset', 'P22', [('collection/TransactionalList.h', '_oldItems = _newItems;\n\t\t\t\t}\n\n\t\t\t\tResetWrite();', '_oldItems = _newItems;\n\t\t\t\t}')]),
    ('p22-tl-makediff-swapargs', 'P22', [('collection/TransactionalList.h', '_cachedDiff ? _cachedDiff : Utils::MakeDiff(_oldItems, _newItems)', '_cachedDiff ? _cachedDiff : Utils::MakeDiff(_newItems, _oldItems)')]),
    ('p22-tl-makediff-swapops', 'P22', [('collection/TransactionalList.h', 'diff->emplace_back(CollectionOp::Removed, PairType(index, (*oldItems)[index]));\n\t\t\t\t\t\tdiff->emplace_back(CollectionOp::Added, PairType(index, (*newItems)[index]));', 'diff->emplace_back(CollectionOp::Added, PairType(index, (*newItems)[index]));\n\t\t\t\t\t\tdiff->emplace_back(CollectionOp::Removed, PairType(index, (*oldItems)[index]));')]),
    ('p22-tl-makediff-noadd', 'P22', [('collection/TransactionalList.h', 'diff->emplace_back(CollectionOp::Removed, PairType(index, (*oldItems)[index]));\n\t\t\t\t\t\tdiff->emplace_back(CollectionOp::Added, PairType(index, (*newItems)[index]));', 'diff->emplace_back(CollectionOp::Removed, PairType(index, (*oldItems)[index]));')]),
    ('p22-tl-makediff-tailindex', 'P22', [('collection/TransactionalList.h', 'PairType(index - tailIndex++, (*oldItems)[index])', 'PairType(index, (*oldItems)[index])')]),
    ('p22-tl-makediff-value', 'P22', [('collection/TransactionalList.h', 'diff->emplace_back(CollectionOp::Removed, PairType(index, (*oldItems)[index]));\n\t\t\t\t\t\tdiff->emplace_back(CollectionOp::Added', 'diff->emplace_back(CollectionOp::Removed, PairType(index, (*newItems)[index]));\n\t\t\t\t\t\tdiff->emplace_back(CollectionOp::Added')]),
    ('p22-tl-makediff-and', 'P22', [('collection/TransactionalList.h', 'index < oldSize || index < newSize; ++index', 'index < oldSize && index < newSize; ++index')]),
    ('p22-tl-makediff-eq', 'P22', [('collection/TransactionalList.h', 'else if (!ValueEqualsComparer()(', 'else if (ValueEqualsComparer()(')]),
    ('p22-tl-apply-set', 'P22', [('collection/TransactionalList.h', 'Insert(entry.Item.Key, entry.Item.Value);', 'Set(entry.Item.Key, entry.Item.Value);')]),
    ('p22-tl-apply-updated', 'P22', [('collection/TransactionalList.h', 'Set(entry.Item.Key, entry.Item.Value);\n\t\t\t\t\tbreak', 'Insert(entry.Item.Key, entry.Item.Value);\n\t\t\t\t\tbreak')]),
    ('p22-tl-apply-removed', 'P22', [('collection/TransactionalList.h', 'RemoveAt(entry.Item.Key);\n\t\t\t\t\tbreak', 'Remove(entry.Item.Value);\n\t\t\t\t\tbreak')]),
    ('p22-tl-revert', 'P22', [('collection/TransactionalList.h', 'void Revert() override\n\t\t\t{ ResetWrite(); }', 'void Revert() override\n\t\t\t{ _cachedDiff.reset(); }')]),
    ('p22-tl-reset-new', 'P22', [('collection/TransactionalList.h', '_cachedDiff.reset();\n\t\t\t\t_newItems.reset();\n', '_cachedDiff.reset();\n')]),
    ('p22-tl-get-old', 'P22', [('collection/TransactionalList.h', 'const VectorType& items = _newItems ? *_newItems : *_oldItems;\n\n\t\t\t\tSTINGRAYKIT_CHECK(index < items.size(), IndexOutOfRangeException(index, items.size()));\n\t\t\t\treturn items[index];', 'const VectorType& items = *_oldItems;\n\n\t\t\t\tSTINGRAYKIT_CHECK(index < items.size(), IndexOutOfRangeException(index, items.size()));\n\t\t\t\treturn items[index];')]),
    ('p22-tl-set-checks-old', 'P22', [('collection/TransactionalList.h', 'const VectorType& items = _newItems ? *_newItems : *_oldItems;\n\t\t\t\tSTINGRAYKIT_CHECK(index < items.size(), IndexOutOfRangeException(index, items.size()));\n\n\t\t\t\tCopyOnWrite();\n\t\t\t\t(*_newItems)[index] = value;', 'const VectorType& items = *_oldItems;\n\t\t\t\tSTINGRAYKIT_CHECK(index < items.size(), IndexOutOfRangeException(index, items.size()));\n\n\t\t\t\tCopyOnWrite();\n\t\t\t\t(*_newItems)[index] = value;')]),
    ('p22-tl-count-old', 'P22', [('collection/TransactionalList.h', '{ return _newItems ? _newItems->size() : _oldItems->size(); }', '{ return _oldItems->size(); }')]),
    ('p22-tl-diff-stale', 'P22', [('collection/TransactionalList.h', '_cachedDiff ? _cachedDiff : Utils::MakeDiff(_oldItems, _newItems);\n\t\t\t\t\tif (!Enumerable::Any(diff))\n\t\t\t\t\t{\n\t\t\t\t\t\tResetWrite();', '_cachedDiff ? _cachedDiff : Utils::MakeDiff(_oldItems, _newItems);\n\t\t\t\t\tif (!Enumerable::Any(diff))\n\t\t\t\t\t{\n\t\t\t\t\t\t_cachedDiff.reset();')]),
    ('p22-tl-cow-empty', 'P22', [('collection/TransactionalList.h', 'if (!_newItems)\n\t\t\t\t\t_newItems = make_shared_ptr<VectorType>(*_oldItems);', 'if (!_newItems)\n\t\t\t\t\t_newItems = make_shared_ptr<VectorType>();')]),
    ('p22-tl-cow-old', 'P22', [('collection/TransactionalList.h', '_newItems = make_shared_ptr<VectorType>(*_newItems);', '_newItems = make_shared_ptr<VectorType>(*_oldItems);')]),
    ('p22-tl-pop-op', 'P22', [('collection/TransactionalList.h', 'return MakeDiffEntry(CollectionOp::Added, PairType(_index, *_current));', 'return MakeDiffEntry(CollectionOp::Updated, PairType(_index, *_current));')]),
    ('p22-tl-pop-index', 'P22', [('collection/TransactionalList.h', '++_current;\n\t\t\t\t++_index;', '++_current;')]),
    ('p22-tl-tryget', 'P22', [('collection/TransactionalList.h', 'if (index >= _impl->Items->size())', 'if (index > _impl->Items->size())')]),
    ('p22-tl-get-check', 'P22', [('collection/TransactionalList.h', 'STINGRAYKIT_CHECK(index < _impl->Items->size(), IndexOutOf', 'STINGRAYKIT_CHECK(index <= _impl->Items->size(), IndexOutOf')]),
    ('p15-tl-cow-holder', 'P15', [('collection/TransactionalList.h', 'else if (!_newItemsHolder.expired())', 'else if (_newItemsHolder.expired())')]),
    ('p15-tl-clear-holder', 'P15', [('collection/TransactionalList.h', 'if (_newItems && _newItemsHolder.expired())', 'if (_newItems)')]),
    ('p15-tl-commit-keep', 'P15', [('collection/TransactionalList.h', '_cachedDiff.reset();\n\t\t\t\t_newItems.reset();\n', '_cachedDiff.reset();\n')]),
    ('p16-excl-list-if', 'P16', [('collection/TransactionalList.h', 'while (_impl->HasTransaction)', 'if (_impl->HasTransaction)'), ('collection/TransactionalList.h', 'ConditionWaitResult::Broadcasted:\tcontinue;', 'ConditionWaitResult::Broadcasted:\tbreak;')]),
    ('p16-excl-list-mark-first', 'P16', [('collection/TransactionalList.h', 'while (_impl->HasTransaction)\n', 'const bool busy = _impl->HasTransaction;\n\t\t\t\t_impl->HasTransaction = true;\n\t\t\t\twhile (busy)\n')]),
    ('p16-excl-list-cancel-ignored', 'P16', [('collection/TransactionalList.h', 'ConditionWaitResult::TimedOut:\t\tSTINGRAYKIT_THROW(TimeoutException());\n\t\t\t\t\t}\n', 'ConditionWaitResult::TimedOut:\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tbreak;\n')]),
    ('p16-excl-list-nomark', 'P16', [('collection/TransactionalList.h', '_impl->HasTransaction = true;\n', '')]),
    ('p16-excl-list-noreset', 'P16', [('collection/TransactionalList.h', '_impl->HasTransaction = false;\n', '')]),
    ('p16-excl-set-if', 'P16', [('collection/TransactionalSet.h', 'while (_impl->HasTransaction)', 'if (_impl->HasTransaction)'), ('collection/TransactionalSet.h', 'ConditionWaitResult::Broadcasted:\tcontinue;', 'ConditionWaitResult::Broadcasted:\tbreak;')]),
    ('p16-excl-set-mark-first', 'P16', [('collection/TransactionalSet.h', 'while (_impl->HasTransaction)\n', 'const bool busy = _impl->HasTransaction;\n\t\t\t\t_impl->HasTransaction = true;\n\t\t\t\twhile (busy)\n')]),
    ('p16-excl-set-cancel-ignored', 'P16', [('collection/TransactionalSet.h', 'ConditionWaitResult::TimedOut:\t\tSTINGRAYKIT_THROW(TimeoutException());\n\t\t\t\t\t}\n', 'ConditionWaitResult::TimedOut:\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tbreak;\n')]),
    ('p16-excl-set-nomark', 'P16', [('collection/TransactionalSet.h', '_impl->HasTransaction = true;\n', '')]),
    ('p16-excl-set-noreset', 'P16', [('collection/TransactionalSet.h', '_impl->HasTransaction = false;\n', '')]),
    ('p16-excl-dict-if', 'P16', [('collection/TransactionalDictionary.h', 'while (_impl->HasTransaction)', 'if (_impl->HasTransaction)'), ('collection/TransactionalDictionary.h', 'ConditionWaitResult::Broadcasted:\tcontinue;', 'ConditionWaitResult::Broadcasted:\tbreak;')]),
    ('p16-excl-dict-mark-first', 'P16', [('collection/TransactionalDictionary.h', 'while (_impl->HasTransaction)\n', 'const bool busy = _impl->HasTransaction;\n\t\t\t\t_impl->HasTransaction = true;\n\t\t\t\twhile (busy)\n')]),
    ('p16-excl-dict-cancel-ignored', 'P16', [('collection/TransactionalDictionary.h', 'ConditionWaitResult::TimedOut:\t\tSTINGRAYKIT_THROW(TimeoutException());\n\t\t\t\t\t}\n', 'ConditionWaitResult::TimedOut:\t\tbreak;\n\t\t\t\t\t}\n\t\t\t\t\tbreak;\n')]),
    ('p16-excl-dict-nomark', 'P16', [('collection/TransactionalDictionary.h', '_impl->HasTransaction = true;\n', '')]),
    ('p16-excl-dict-noreset', 'P16', [('collection/TransactionalDictionary.h', '_impl->HasTransaction = false;\n', '')]),
    ('p16-merge-ctor-noskip', 'P16', [('collection/TransactionHelpers.h', 'UpdateEntryType();\n\t\t\tif (_entryType == EntryType::Removed)\n\t\t\t\tNext();', 'UpdateEntryType();')]),
    ('p16-merge-ctor-noupdate', 'P16', [('collection/TransactionHelpers.h', '{ UpdateEntryType(); }', '{ }')]),
    ('p16-merge-next-noskip', 'P16', [('collection/TransactionHelpers.h', '} while (_entryType == EntryType::Removed);', '} while (false);')]),
    ('p16-merge-removed-noitem', 'P16', [('collection/TransactionHelpers.h', 'case EntryType::Removed:\t\t++_itemsIt; ++_removedIt; break;', 'case EntryType::Removed:\t\t++_itemsIt; break;')]),
    ('p16-merge-added-both', 'P16', [('collection/TransactionHelpers.h', 'case EntryType::Added:\t\t++_addedIt; break;\n\t\t\t\tcase EntryType::Removed:\t\t++_itemsIt', 'case EntryType::Added:\t\t++_addedIt; ++_itemsIt; break;\n\t\t\t\tcase EntryType::Removed:\t\t++_itemsIt')]),
    ('p16-merge-end-noadded', 'P16', [('collection/TransactionHelpers.h', '_entryType = _addedIt != _direction.End(*_added) ? EntryType::Added : EntryType::None;', '_entryType = EntryType::None;')]),
    ('p16-merge-less-swapped', 'P16', [('collection/TransactionHelpers.h', 'LessComparer()(*_addedIt, *_itemsIt)', 'LessComparer()(*_itemsIt, *_addedIt)')]),
    ('p16-merge-added-end', 'P16', [('collection/TransactionHelpers.h', 'if (_addedIt != _direction.End(*_added) && LessComparer()(*_addedIt, *_itemsIt))', 'if (LessComparer()(*_addedIt, *_itemsIt))')]),
    ('p16-merge-removed-less', 'P16', [('collection/TransactionHelpers.h', 'if (LessComparer()(*_itemsIt, *_removedIt))', 'if (LessComparer()(*_removedIt, *_itemsIt))')]),
    ('p16-merge-wrong-end', 'P16', [('collection/TransactionHelpers.h', 'if (_removedIt != _direction.End(*_removed))\n\t\t\t{\n\t\t\t\tif (LessComparer()(*_itemsIt', 'if (_removedIt != _direction.End(*_added))\n\t\t\t{\n\t\t\t\tif (LessComparer()(*_itemsIt')]),
    ('p16-merge-get', 'P16', [('collection/TransactionHelpers.h', 'case EntryType::Added:\t\treturn _direction.ToItem(*_addedIt);', 'case EntryType::Added:\t\treturn _direction.ToItem(*_itemsIt);')]),
    ('p16-merge-valid', 'P16', [('collection/TransactionHelpers.h', '{ return _entryType == EntryType::Items || _entryType == EntryType::Added; }', '{ return _entryType == EntryType::Items; }')]),
    ('p16-merge-begin', 'P16', [('collection/TransactionHelpers.h', '_removedIt(_direction.Begin(*_removed))\n\t\t{\n', '_removedIt(_direction.End(*_removed))\n\t\t{\n')]),
    ('p16-diff-order', 'P16', [('collection/TransactionHelpers.h', 'LessComparer()(*_addedIt, *_removedIt) ? EntryType::Added : EntryType::Removed', 'LessComparer()(*_removedIt, *_addedIt) ? EntryType::Removed : EntryType::Added')]),
    ('p16-diff-op', 'P16', [('collection/TransactionHelpers.h', 'return MakeDiffEntry(CollectionOp::Removed, _direction.ToItem(*_removedIt));', 'return MakeDiffEntry(CollectionOp::Updated, _direction.ToItem(*_removedIt));')]),
    ('p16-diff-tail', 'P16', [('collection/TransactionHelpers.h', 'else if (_removedIt != _direction.End(*_removed))\n\t\t\t\t_entryType = EntryType::Removed;\n', '')]),
    ('p16-dir-find-upper', 'P16', [('collection/TransactionalSet.h', '{ return holder.Items->lower_bound(Value); }', '{ return holder.Items->upper_bound(Value); }')]),
    ('p16-dir-rfind', 'P16', [('collection/TransactionalDictionary.h', 'return IteratorType(++itemsIt);', 'return IteratorType(itemsIt);')]),
    ('p16-dir-rfind-less', 'P16', [('collection/TransactionalSet.h', 'ValueLessComparer()(Value, *itemsIt)', 'ValueLessComparer()(*itemsIt, Value)')]),
    ('p16-dir-rbegin', 'P16', [('collection/TransactionalSet.h', '{ return holder.Items->rend(); }', '{ return holder.Items->rbegin(); }')]),
    ('p16-dir-rless', 'P16', [('collection/TransactionalDictionary.h', 'KeyLessComparer()(rhs.first, lhs.first)', 'KeyLessComparer()(lhs.first, rhs.first)')]),
    ('p23-join-ctor', 'P23', [('collection/EnumerableHelpers.h', 'if (STINGRAYKIT_REQUIRE_NOT_NULL(first)->Valid())\n\t\t\t\t{', 'if (first)\n\t\t\t\t{')]),
    ('p23-join-next-early', 'P23', [('collection/EnumerableHelpers.h', '_first->Next();\n\t\t\t\tif (_first->Valid())\n\t\t\t\t\treturn;\n', '_first->Next();\n\t\t\t\tif (_first->Valid() || !_second)\n\t\t\t\t\treturn;\n\t\t\t\tif (!_second->Valid())\n\t\t\t\t\treturn;\n\t\t\t\t_second->Next();\n')]),
    ('p23-join-ctor-second-lost', 'P23', [('collection/EnumerableHelpers.h', '_second = STINGRAYKIT_REQUIRE_NOT_NULL(second);', 'STINGRAYKIT_REQUIRE_NOT_NULL(second);')]),
    ('p23-taker-le', 'P23', [('collection/EnumerableHelpers.h', 'return _src->Valid() && _index < _count;', 'return _src->Valid() && _index <= _count;')]),
    ('p23-taker-noinc', 'P23', [('collection/EnumerableHelpers.h', '_src->Next();\n\t\t\t\t\t++_index;', '_src->Next();\n\t\t\t\t\tif (_src->Valid() && _index)\n\t\t\t\t\t\t++_index;')]),
    ('p23-taker-get-unchecked', 'P23', [('collection/EnumerableHelpers.h', 'STINGRAYKIT_CHECK(Valid(), "Enumerator is not valid!");\n\t\t\t\t\treturn _src->Get();', 'return _src->Get();')]),
    ('p23-flatten-nonext', 'P23', [('collection/EnumerableHelpers.h', '_current.reset();\n\t\t\t\t\t_src->Next();\n\t\t\t\t\tFindNext();', '_current.reset();\n\t\t\t\t\tFindNext();\n\t\t\t\t\tif (_current)\n\t\t\t\t\t\treturn;')]),
    ('p23-flatten-noskip', 'P23', [('collection/EnumerableHelpers.h', 'if (_current->Valid())\n\t\t\t\t\t\t\tbreak;\n\n\t\t\t\t\t\t_current.reset();\n\t\t\t\t\t\t_src->Next();', 'break;')]),
    ('p23-oftype-next', 'P23', [('collection/EnumerableHelpers.h', '_srcEnumerator->Next();\n\t\t\t\t\tFindNext();\n', '_srcEnumerator->Next();\n\t\t\t\t\tif (_srcEnumerator->Valid())\n\t\t\t\t\t\t_dst = DynamicCast<typename Storage::ValueType>(Storage::Wrap(_srcEnumerator->Get()));\n')]),
    ('p23-caster-cache', 'P23', [('collection/EnumerableHelpers.h', '_srcEnumerator->Next();\n\t\t\t\t\t_cache.reset();', '_srcEnumerator->Next();')]),
    ('p23-caster-cache-order', 'P23', [('collection/EnumerableHelpers.h', '_srcEnumerator->Next();\n\t\t\t\t\t_cache.reset();', 'if (_srcEnumerator->Valid())\n\t\t\t\t\t\t_cache.reset();\n\t\t\t\t\t_srcEnumerator->Next();\n\t\t\t\t\tif (_srcEnumerator->Valid())\n\t\t\t\t\t\tDoCast();\n\t\t\t\t\t_srcEnumerator->Next();')]),
    ('p23-wrap-negated', 'P23', [('collection/EnumerableWrapper.h', 'if (FunctorInvoker::InvokeArgs(_filter, cache))', 'if (!FunctorInvoker::InvokeArgs(_filter, cache))')]),
    ('p23-wrap-noreset', 'P23', [('collection/EnumerableWrapper.h', '_cache.reset();\n\t\t\t\t_srcEnumerator->Next();\n\n\t\t\t\tFindNext();', '_srcEnumerator->Next();\n\n\t\t\t\tFindNext();')]),
    ('p23-wrap-onestep', 'P23', [('collection/EnumerableWrapper.h', 'while (!_cache && _srcEnumerator->Valid())', 'if (!_cache && _srcEnumerator->Valid())')]),
    ('p23-wrap-nonext', 'P23', [('collection/EnumerableWrapper.h', '_cache.reset();\n\t\t\t\t_srcEnumerator->Next();\n', '_cache.reset();\n')]),
    ('p23-wrap-enumerable-lost-filter', 'P23', [('collection/EnumerableWrapper.h', 'return WrapEnumerator(_srcEnumerable->GetEnumerator(), _caster, _filter);', 'return WrapEnumerator(_srcEnumerable->GetEnumerator(), _caster);')]),
    ('p23-diff-sign', 'P23', [('collection/EnumerableHelpers.h', 'if (result < 0)\n\t\t\t\t\t\t\t\t\t_entryType = EntryType::Removed;\n\t\t\t\t\t\t\t\telse if (result > 0)\n\t\t\t\t\t\t\t\t\t_entryType = EntryType::Added;', 'if (result > 0)\n\t\t\t\t\t\t\t\t\t_entryType = EntryType::Removed;\n\t\t\t\t\t\t\t\telse if (result < 0)\n\t\t\t\t\t\t\t\t\t_entryType = EntryType::Added;')]),
    ('p23-diff-equal-one', 'P23', [('collection/EnumerableHelpers.h', '_src->Next();\n\t\t\t\t\t\t\t\t\t_dst->Next();\n\t\t\t\t\t\t\t\t\tcontinue;', '_src->Next();\n\t\t\t\t\t\t\t\t\tif (_src->Valid())\n\t\t\t\t\t\t\t\t\t\t_dst->Next();\n\t\t\t\t\t\t\t\t\tcontinue;')]),
    ('p23-diff-equal-stop', 'P23', [('collection/EnumerableHelpers.h', '_dst->Next();\n\t\t\t\t\t\t\t\t\tcontinue;', '_dst->Next();\n\t\t\t\t\t\t\t\t\tbreak;')]),
    ('p23-diff-tail', 'P23', [('collection/EnumerableHelpers.h', 'else if (_dst->Valid())\n\t\t\t\t\t\t\t_entryType = EntryType::Added;\n\t\t\t\t\t\telse\n\t\t\t\t\t\t\tbreak;', 'else\n\t\t\t\t\t\t\tbreak;')]),
    ('p23-diff-next-swapped', 'P23', [('collection/EnumerableHelpers.h', 'case EntryType::Added:\t\t_dst->Next(); break;\n\t\t\t\t\tcase EntryType::Removed:\t_src->Next(); break;', 'case EntryType::Added:\t\t_dst->Next(); break;\n\t\t\t\t\tcase EntryType::Removed:\tif (_dst->Valid()) _src->Next(); break;')]),
    ('p23-seqeq-or', 'P23', [('collection/EnumerableHelpers.h', 'return !first->Valid() && !second->Valid();', 'return !first->Valid() || !second->Valid();')]),
    ('p23-seqeq-second', 'P23', [('collection/EnumerableHelpers.h', 'return !first->Valid() && !second->Valid();', 'return !second->Valid();')]),
    ('p23-seqeq-loop', 'P23', [('collection/EnumerableHelpers.h', 'for (; first->Valid() && second->Valid(); first->Next(), second->Next())', 'for (; first->Valid() && second->Valid(); second->Next(), first->Valid() && second->Valid() ? first->Next() : void())')]),
    ('p23-concat-order', 'P23', [('collection/EnumerableHelpers.h', '{ return JoinEnumerators(_first->GetEnumerator(), _second->GetEnumerator()); }', '{ return JoinEnumerators(_second->GetEnumerator(), _first->GetEnumerator()); }')]),
    ('p23-joiner-order', 'P23', [('collection/EnumerableHelpers.h', '_result = JoinEnumerables(_result, enumerable);', '_result = JoinEnumerables(enumerable, _result);')]),
    ('p23-joiner-lost', 'P23', [('collection/EnumerableHelpers.h', '_result = JoinEnumerators(_result, enumerator);', '_result = enumerator;')]),
    ('p23-concat-factory', 'P23', [('collection/EnumerableHelpers.h', '{ return make_shared_ptr<Detail::JoiningEnumerable<typename EnumerableT::ItemType>>(first, second); }', '{ return make_shared_ptr<Detail::JoiningEnumerable<typename EnumerableT::ItemType>>(second, first); }')]),
    ('p23-skip-le', 'P23', [('collection/EnumerableHelpers.h', 'index < count && src->Valid(); ++index', 'index <= count && src->Valid(); ++index')]),
    ('p23-skip-eager', 'P23', [('collection/EnumerableHelpers.h', '{ return MakeSimpleEnumerable(Bind(&Detail::SkipEnumerator<typename SrcEnumerable::ItemType>, Bind(&SrcEnumerable::GetEnumerator, STINGRAYKIT_REQUIRE_NOT_NULL(enumerable)), count)); }', '{ return MakeSimpleEnumerable(Bind(&Detail::SkipEnumerator<typename SrcEnumerable::ItemType>, enumerable->GetEnumerator(), count)); }')]),
    ('p23-flatten-eager', 'P23', [('collection/EnumerableHelpers.h', 'Bind(&SrcEnumerable::GetEnumerator, STINGRAYKIT_REQUIRE_NOT_NULL(enumerableOfEnumerables))', 'enumerableOfEnumerables->GetEnumerator()')]),
    ('p23-count-break', 'P23', [('collection/EnumerableHelpers.h', 'if (FunctorInvoker::InvokeArgs(predicate, enumerator.Get()))\n\t\t\t\t\t++result;\n\t\t\treturn result;', 'if (!FunctorInvoker::InvokeArgs(predicate, enumerator.Get()))\n\t\t\t\t\tbreak;\n\t\t\t\telse\n\t\t\t\t\t++result;\n\t\t\treturn result;')]),
    ('p23-indexof-skip', 'P23', [('collection/EnumerableHelpers.h', 'return result;\n\t\t\t\t++result;\n\t\t\t}\n\t\t\treturn null;', 'return result + 1;\n\t\t\t\t++result;\n\t\t\t}\n\t\t\treturn null;')]),
    ('p23-indexof-one-based', 'P23', [('collection/EnumerableHelpers.h', 'size_t result = 0;\n\t\t\tfor (; enumerator.Valid(); enumerator.Next())\n\t\t\t{', 'size_t result = 1;\n\t\t\tfor (; enumerator.Valid(); enumerator.Next())\n\t\t\t{')]),
    ('p23-elementat-off', 'P23', [('collection/EnumerableHelpers.h', 'for (; enumerator.Valid(); enumerator.Next(), ++current)\n\t\t\t\tif (index == current)\n\t\t\t\t\treturn enumerator.Get();\n\t\t\treturn defaultValue;', 'for (; enumerator.Valid(); enumerator.Next(), ++current)\n\t\t\t\tif (index == current + 1)\n\t\t\t\t\treturn enumerator.Get();\n\t\t\treturn defaultValue;')]),
    ('p23-last-stops', 'P23', [('collection/EnumerableHelpers.h', 'if (FunctorInvoker::InvokeArgs(predicate, value))\n\t\t\t\t\tresult = value;\n\t\t\t}\n\t\t\tif (result)\n\t\t\t\treturn *result;\n\t\t\treturn null;', 'if (!FunctorInvoker::InvokeArgs(predicate, value))\n\t\t\t\t\tbreak;\n\t\t\t\tresult = value;\n\t\t\t}\n\t\t\tif (result)\n\t\t\t\treturn *result;\n\t\t\treturn null;')]),
    ('p23-last-first', 'P23', [('collection/EnumerableHelpers.h', 'if (FunctorInvoker::InvokeArgs(predicate, value))\n\t\t\t\t\tresult = value;\n\t\t\t}\n\t\t\treturn result ? *result : defaultValue;', 'if (!result && FunctorInvoker::InvokeArgs(predicate, value))\n\t\t\t\t\tresult = value;\n\t\t\t}\n\t\t\treturn result ? *result : defaultValue;')]),
    ('p23-aggregate-order', 'P23', [('collection/EnumerableHelpers.h', 'result = FunctorInvoker::InvokeArgs(aggregateFunc, *result, enumerator.Get());', 'result = FunctorInvoker::InvokeArgs(aggregateFunc, enumerator.Get(), *result);')]),
    ('p23-aggregate-first-dropped', 'P23', [('collection/EnumerableHelpers.h', 'ResultType result = initialValue;\n\t\t\tfor (; enumerator.Valid(); enumerator.Next())', 'ResultType result = initialValue;\n\t\t\tif (enumerator.Valid())\n\t\t\t\tenumerator.Next();\n\t\t\tfor (; enumerator.Valid(); enumerator.Next())')]),
    ('p23-single-end', 'P23', [('collection/EnumerableHelpers.h', 'enumerator.Next();\n\t\t\tSTINGRAYKIT_CHECK(!enumerator.Valid(), InvalidOperationException());', 'enumerator.Next();')]),
    ('p23-all-any', 'P23', [('collection/EnumerableHelpers.h', 'if (!FunctorInvoker::InvokeArgs(predicate, enumerator.Get()))\n\t\t\t\t\treturn false;\n\t\t\treturn true;', 'if (FunctorInvoker::InvokeArgs(predicate, enumerator.Get()))\n\t\t\t\t\treturn true;\n\t\t\treturn false;')]),
    ('p23-all-empty', 'P23', [('collection/EnumerableHelpers.h', 'bool, All, MK_PARAM(const PredicateFunc& predicate), MK_PARAM(predicate),\n\t\t{', 'bool, All, MK_PARAM(const PredicateFunc& predicate), MK_PARAM(predicate),\n\t\t{\n\t\t\tif (!enumerator.Valid())\n\t\t\t\treturn false;')]),
    ('p23-first-default-any', 'P23', [('collection/EnumerableHelpers.h', 'if (FunctorInvoker::InvokeArgs(predicate, result))\n\t\t\t\t\treturn result;\n\t\t\t}\n\t\t\treturn defaultValue;', 'if (FunctorInvoker::InvokeArgs(predicate, result))\n\t\t\t\t\treturn result;\n\t\t\t\telse\n\t\t\t\t\treturn defaultValue;\n\t\t\t}\n\t\t\treturn defaultValue;')]),
    ('p23-reverse-not', 'P23', [('collection/EnumerableHelpers.h', 'return EnumerableFromStlIterators(result->rbegin(), result->rend(), result);', 'return EnumerableFromStlIterators(result->begin(), result->end(), result);')]),
    ('p23-reverse-life', 'P23', [('collection/EnumerableHelpers.h', 'return EnumeratorFromStlIterators(result->rbegin(), result->rend(), result);', 'return EnumeratorFromStlIterators(result->rbegin(), result->rend());')]),
    ('p23-clone-life', 'P23', [('collection/EnumerableHelpers.h', 'return EnumerableFromStlContainer(*result, result);', 'return EnumerableFromStlContainer(*result);')]),
    ('p23-where-noncast', 'P23', [('collection/EnumerableHelpers.h', 'return WrapEnumerator(enumerator, &stingray::implicit_cast<ItemType>, predicate);', 'return WrapEnumerator(enumerator, &stingray::implicit_cast<ItemType>);')]),
    ('p23-defaultifempty', 'P23', [('collection/EnumerableHelpers.h', '{ return Any(src) ? src : MakeOneItemEnumerator(defaultValue); }', '{ return Any(src) ? MakeOneItemEnumerator(defaultValue) : src; }')]),
    ('p23-oneitem-stays', 'P23', [('collection/EnumerableHelpers.h', 'STINGRAYKIT_CHECK(_valid, "Enumerator is not valid!");\n\t\t\t\t_valid = false;', 'STINGRAYKIT_CHECK(_valid, "Enumerator is not valid!");')]),
    ('p23-oneitem-get', 'P23', [('collection/EnumerableHelpers.h', 'STINGRAYKIT_CHECK(_valid, "Enumerator is not valid!");\n\t\t\t\treturn _value;', 'return _value;')]),
    ('p23-func-index', 'P23', [('collection/FuncEnumerator.h', 'virtual T Get() const\t\t{ return _get(_index); }', 'virtual T Get() const\t\t{ return _get(_index + 1); }')]),
    ('p23-func-next', 'P23', [('collection/FuncEnumerator.h', 'if (!_valid(_index))\n\t\t\t\treturn;\n\t\t\t++_index;', '++_index;\n\t\t\tif (_valid(_index))\n\t\t\t\treturn;\n\t\t\t++_index;')]),
    ('p23-foreach-where', 'P23', [('collection/ForEach.h', '__dummy_bool__ && ((__dummy_bool__ = false) == false) && ::stingray::Detail::ForEachItemFilter(true, ##__VA_ARGS__) && (__broken__ = true)', '__dummy_bool__ && ((__dummy_bool__ = false) == false) && ::stingray::Detail::ForEachItemFilter(true) && (__broken__ = true)')]),
    ('p23-foreach-findnext', 'P23', [('collection/ForEach.h', 'if (_dst)\n\t\t\t\t\t\tbreak;', 'break;')]),
    ('p23-foreach-next', 'P23', [('collection/ForEach.h', '_srcEnumerator->Next();\n\t\t\t\tFindNext();\n', '_srcEnumerator->Next();\n\t\t\t\t_srcEnumerator->Valid();\n')]),
    ('p23-join-next-drop', 'P23', [('collection/EnumerableHelpers.h', '_first.swap(_second);\n\t\t\t\t_second.reset();', '_first.swap(_second);\n\t\t\t\t_second.reset();\n\t\t\t\tif (_first && _first->Valid())\n\t\t\t\t\t_first->Next();')]),
    ('p23-flatten-if2', 'P23', [('collection/EnumerableHelpers.h', 'while (_src->Valid())\n\t\t\t\t\t{\n\t\t\t\t\t\t_current = ToEnumerator(_src->Get());\n\t\t\t\t\t\tif (_current->Valid())\n\t\t\t\t\t\t\tbreak;\n', 'if (_src->Valid())\n\t\t\t\t\t{\n\t\t\t\t\t\t_current = ToEnumerator(_src->Get());\n\t\t\t\t\t\tif (_current->Valid())\n\t\t\t\t\t\t\treturn;\n')]),
    ('p23-taker-next-unchecked', 'P23', [('collection/EnumerableHelpers.h', 'STINGRAYKIT_CHECK(Valid(), "Enumerator is not valid!");\n\t\t\t\t\t_src->Next();\n\t\t\t\t\t++_index;', 'STINGRAYKIT_CHECK(_src->Valid(), "Enumerator is not valid!");\n\t\t\t\t\t_src->Next();\n\t\t\t\t\t++_index;')]),
    ('p11-weak-release-leak', 'P11', [('shared_ptr.h', '\t\t\t\t\tSTINGRAYKIT_ANNOTATE_RELEASE(&_value.Get()->_weakReferences);\n\n\t\t\t\t\t_value.Free();', '\t\t\t\t\tSTINGRAYKIT_ANNOTATE_RELEASE(&_value.Get()->_weakReferences);\n')]),
    ('p11-dispose-order', 'P11', [('shared_ptr.h', '\t\t\t\t_value.Call<DisposeConcept>();\n\t\t\t\tReleaseWeakReference();', '\t\t\t\tReleaseWeakReference();\n\t\t\t\t_value.Call<DisposeConcept>();')]),
    ('p11-dispose-no-weak', 'P11', [('shared_ptr.h', '\t\t\t\t_value.Call<DisposeConcept>();\n\t\t\t\tReleaseWeakReference();', '\t\t\t\t_value.Call<DisposeConcept>();')]),
    ('p11-tryadd-stale', 'P11', [('shared_ptr.h', '\t\t\t\t\tif (newc == c)\n\t\t\t\t\t\treturn newc;\n\t\t\t\t\tc = newc;', '\t\t\t\t\tif (newc)\n\t\t\t\t\t\treturn newc;\n\t\t\t\t\tc = newc;')]),
    ('p11-tryadd-inc', 'P11', [('shared_ptr.h', '\t\t\t\tu32 c = AtomicU32::Load(_value.Get()->_strongReferences);\n\t\t\t\twhile (c != 0)\n\t\t\t\t{\n\t\t\t\t\tu32 newc = AtomicU32::CompareAndExchange(_value.Get()->_strongReferences, c, c + 1);\n\t\t\t\t\tif (newc == c)\n\t\t\t\t\t\treturn newc;\n\t\t\t\t\tc = newc;\n\t\t\t\t}\n\t\t\t\treturn 0;', '\t\t\t\tif (AtomicU32::Load(_value.Get()->_strongReferences) == 0)\n\t\t\t\t\treturn 0;\n\t\t\t\treturn AtomicU32::Inc(_value.Get()->_strongReferences);')]),
    ('p11-alias-move-keeps-raw', 'P11', [('shared_ptr.h', '\t\tshared_ptr(shared_ptr<U>&& other, T* ptr)\n\t\t\t: _rawPtr(ptr), _impl(std::move(other._impl))\n\t\t{ other._rawPtr = null; }', '\t\tshared_ptr(shared_ptr<U>&& other, T* ptr)\n\t\t\t: _rawPtr(ptr), _impl(std::move(other._impl))\n\t\t{ }')]),
    ('p11-alias-copy-guarded', 'P11', [('shared_ptr.h', '\t\tshared_ptr(const shared_ptr<U>& other, T* ptr)\n\t\t\t: _rawPtr(ptr), _impl(other._impl)\n\t\t{ LogAddRef(_impl.AddStrongReference()); }', '\t\tshared_ptr(const shared_ptr<U>& other, T* ptr)\n\t\t\t: _rawPtr(ptr), _impl(other._impl)\n\t\t{\n\t\t\tif (_rawPtr)\n\t\t\t\tLogAddRef(_impl.AddStrongReference());\n\t\t}')]),
    ('p11-dtor-guarded', 'P11', [('shared_ptr.h', '\t\t~shared_ptr()\n\t\t{ LogReleaseRef(_impl.ReleaseStrongReference()); }', '\t\t~shared_ptr()\n\t\t{\n\t\t\tif (_rawPtr)\n\t\t\t\tLogReleaseRef(_impl.ReleaseStrongReference());\n\t\t}')]),
    ('p11-unique-release-first', 'P11', [('shared_ptr.h', '\t\t\t_impl.Allocate<Detail::DefaultSharedPtrData<T>>(_rawPtr);\n\t\t\tother.release();\n', '\t\t\tother.release();\n\t\t\t_impl.Allocate<Detail::DefaultSharedPtrData<T>>(_rawPtr);\n')]),
    ('p11-ctor-no-delete', 'P11', [('shared_ptr.h', '\t\t\tcatch (...)\n\t\t\t{\n\t\t\t\tCheckedDelete(_rawPtr);\n\t\t\t\tthrow;\n\t\t\t}', '\t\t\tcatch (...)\n\t\t\t{ throw; }')]),
    ('p11-riu-weak-leak', 'P11', [('shared_ptr.h', '\t\t\t\tSTINGRAYKIT_ANNOTATE_RELEASE(&_value.Get()->_strongReferences);\n\t\t\t\tDispose();\n\t\t\t\treturn true;', '\t\t\t\tSTINGRAYKIT_ANNOTATE_RELEASE(&_value.Get()->_strongReferences);\n\t\t\t\t_value.Call<DisposeConcept>();\n\t\t\t\treturn true;')]),
    ('p11-riu-load', 'P11', [('shared_ptr.h', '\t\t\t\tu32 c = AtomicU32::CompareAndExchange(_value.Get()->_strongReferences, 1, 0);\n\t\t\t\tif (c != 1)\n\t\t\t\t\treturn false;\n', '\t\t\t\tif (AtomicU32::Load(_value.Get()->_strongReferences) != 1)\n\t\t\t\t\treturn false;\n\t\t\t\tAtomicU32::Dec(_value.Get()->_strongReferences);\n')]),
    ('p11-riu-keeps-impl', 'P11', [('shared_ptr.h', '\t\t\t_rawPtr = null;\n\t\t\t_impl = Detail::SharedPtrImpl();\n\t\t\treturn true;', '\t\t\t_rawPtr = null;\n\t\t\treturn true;')]),
    ('p11-lock-weak', 'P11', [('shared_ptr.h', '\t\t\tconst u32 sc = _impl.TryAddStrongReference();\n\t\t\tif (sc == 0)\n\t\t\t\treturn shared_ptr<T>();\n', '\t\t\tif (_impl.GetStrongReferences() == 0)\n\t\t\t\treturn shared_ptr<T>();\n\t\t\tconst u32 sc = _impl.AddStrongReference();\n')]),
    ('p11-weak-assign-inplace', 'P11', [('shared_ptr.h', '\t\ttypename EnableIf<IsConvertible<U*, T*>::Value, weak_ptr&>::ValueT operator = (const weak_ptr<U>& other)\n\t\t{\n\t\t\tweak_ptr tmp(other);\n\t\t\tswap(tmp);\n\t\t\treturn *this;', '\t\ttypename EnableIf<IsConvertible<U*, T*>::Value, weak_ptr&>::ValueT operator = (const weak_ptr<U>& other)\n\t\t{\n\t\t\t_rawPtr = other._rawPtr;\n\t\t\t_impl = other._impl;\n\t\t\t_impl.AddWeakReference();\n\t\t\treturn *this;')]),
    ('p11-shared-assign-release-first', 'P11', [('shared_ptr.h', '\t\t\tshared_ptr tmp(other);\n\t\t\tswap(tmp);\n\n\t\t\t// Uncomment', '\t\t\tLogReleaseRef(_impl.ReleaseStrongReference());\n\t\t\t_rawPtr = other._rawPtr;\n\t\t\t_impl = other._impl;\n\t\t\tLogAddRef(_impl.AddStrongReference());\n\n\t\t\t// Uncomment')]),
    ('p11-swap-raw-only', 'P11', [('shared_ptr.h', '\t\tvoid swap(weak_ptr<T>& other)\n\t\t{\n\t\t\tstd::swap(_rawPtr, other._rawPtr);\n\t\t\tstd::swap(_impl, other._impl);', '\t\tvoid swap(weak_ptr<T>& other)\n\t\t{\n\t\t\tstd::swap(_impl, other._impl);')]),
    ('p11-log-skips-count', 'P11', [('shared_ptr.h', '\t\tshared_ptr(const shared_ptr<U>& other, typename EnableIf<IsConvertible<U*, T*>::Value, Dummy>::ValueT* = 0)\n\t\t\t: _rawPtr(other._rawPtr), _impl(other._impl)\n\t\t{ LogAddRef(_impl.AddStrongReference()); }', '\t\tshared_ptr(const shared_ptr<U>& other, typename EnableIf<IsConvertible<U*, T*>::Value, Dummy>::ValueT* = 0)\n\t\t\t: _rawPtr(other._rawPtr), _impl(other._impl)\n\t\t{ LogAddRef(_impl.GetStrongReferences() + 1); }')]),
    ('p11-data-counts-zero', 'P11', [('shared_ptr.h', '_weakReferences(1)', '_weakReferences(0)')]),
    ('p11-self-copy-noadd', 'P11', [('self_counter.h', '\t\tself_count_ptr(const self_count_ptr<U>& other, static_cast_tag)\n\t\t\t: _rawPtr(static_cast<T*>(other._rawPtr))\n\t\t{\n\t\t\tif (_rawPtr)\n\t\t\t\t_rawPtr->add_ref();\n\t\t}', '\t\tself_count_ptr(const self_count_ptr<U>& other, static_cast_tag)\n\t\t\t: _rawPtr(static_cast<T*>(other._rawPtr))\n\t\t{ }')]),
    ('p11-self-move-keeps', 'P11', [('self_counter.h', '\t\tself_count_ptr(self_count_ptr<U>&& other, static_cast_tag)\n\t\t\t: _rawPtr(static_cast<T*>(other._rawPtr))\n\t\t{ other._rawPtr = 0; }', '\t\tself_count_ptr(self_count_ptr<U>&& other, static_cast_tag)\n\t\t\t: _rawPtr(static_cast<T*>(other._rawPtr))\n\t\t{ }')]),
    ('p11-self-fromthis-noadd', 'P11', [('self_counter.h', '\t\tself_count_ptr<const T> self_count_ptr_from_this() const\n\t\t{\n\t\t\tadd_ref();\n\t\t\treturn', '\t\tself_count_ptr<const T> self_count_ptr_from_this() const\n\t\t{\n\t\t\treturn')]),
    ('p11-self-release-twice-read', 'P11', [('self_counter.h', '\t\t\tconst s32 count = AtomicS32::Dec(_value);\n\t\t\tif (count == 0)', '\t\t\tAtomicS32::Dec(_value);\n\t\t\tconst s32 count = AtomicS32::Load(_value);\n\t\t\tif (count == 0)')]),
    ('p11-self-release-plain', 'P11', [('self_counter.h', '\t\t\tconst s32 count = AtomicS32::Dec(_value);\n\t\t\tif (count == 0)', '\t\t\tconst s32 count = --_value;\n\t\t\tif (count == 0)')]),
    ('p11-self-usecount-plain', 'P11', [('self_counter.h', '{ return AtomicS32::Load(_value); }', '{ return _value; }')]),
    ('p11-self-assign', 'P11', [('self_counter.h', '\t\tself_count_ptr<T>& operator = (const self_count_ptr<T>& other)\n\t\t{\n\t\t\tself_count_ptr<T> tmp(other);\n\t\t\tswap(tmp);\n\t\t\treturn *this;', '\t\tself_count_ptr<T>& operator = (const self_count_ptr<T>& other)\n\t\t{\n\t\t\tif (_rawPtr)\n\t\t\t\t_rawPtr->release_ref();\n\t\t\t_rawPtr = other._rawPtr;\n\t\t\tif (_rawPtr)\n\t\t\t\t_rawPtr->add_ref();\n\t\t\treturn *this;')]),
    ('p11-ref-copy-noadd', 'P11', [('ref_count.h', '{ if (_value) add_ref_self(); }', '{ if (_value) add_ref(); }')]),
    ('p11-ref-riu', 'P11', [('ref_count.h', 'AtomicU32::CompareAndExchange(_value->Value, 1, 0) == 1', 'AtomicU32::Load(_value->Value) == 1 && AtomicU32::Dec(_value->Value) == 0')]),
    ('p11-ref-release-le1', 'P11', [('ref_count.h', '\t\t\tif (result == 0)\n\t\t\t{\n\t\t\t\tSTINGRAYKIT_ANNOTATE_HAPPENS_AFTER(_value);', '\t\t\tif (result <= 1)\n\t\t\t{\n\t\t\t\tSTINGRAYKIT_ANNOTATE_HAPPENS_AFTER(_value);')]),
    ('p11-unique-reset-leak', 'P11', [('unique_ptr.h', '\t\tvoid reset(T* ptr = 0)\n\t\t{\n\t\t\tCheckedDelete(_rawPtr);\n\t\t\t_rawPtr = ptr;\n\t\t}', '\t\tvoid reset(T* ptr = 0)\n\t\t{\n\t\t\tif (ptr)\n\t\t\t\tCheckedDelete(_rawPtr);\n\t\t\t_rawPtr = ptr;\n\t\t}')]),
    ('p11-unique-assign-get', 'P11', [('unique_ptr.h', '\t\ttypename EnableIf<IsConvertible<U*, T*>::Value, unique_ptr&>::ValueT operator = (unique_ptr<U>&& other)\n\t\t{\n\t\t\treset(other.release());', '\t\ttypename EnableIf<IsConvertible<U*, T*>::Value, unique_ptr&>::ValueT operator = (unique_ptr<U>&& other)\n\t\t{\n\t\t\treset(other.get());')]),
    ('p11-unique-array-plain-delete', 'P11', [('unique_ptr.h', '\t\t~unique_ptr()\n\t\t{ CheckedArrayDelete(_rawPtr); }', '\t\t~unique_ptr()\n\t\t{ CheckedDelete(_rawPtr); }')]),
    ('p11-atomic-sub', 'P11', [('thread/atomic/AtomicInt.h', 'return __sync_sub_and_fetch(&atomic, val);', 'return __sync_fetch_and_sub(&atomic, val);', 'all')]),
    ('p11-atomic-cas-swapped', 'P11', [('thread/atomic/AtomicInt.h', '{ return __sync_val_compare_and_swap(&atomic, oldVal, newVal); }', '{ return __sync_val_compare_and_swap(&atomic, newVal, oldVal); }')]),
    ('p11-atomic-store-once', 'P11', [('thread/atomic/AtomicInt.h', '\t\t\t\twhile ((oldval1 = __sync_val_compare_and_swap(&atomic, oldval1, val)) != oldval2)\n\t\t\t\t\toldval2 = oldval1;', '\t\t\t\toldval1 = __sync_val_compare_and_swap(&atomic, oldval1, val);\n\t\t\t\toldval2 = __sync_val_compare_and_swap(&atomic, oldval1, val);')]),
    ('p11-atomic-cas-bool', 'P11', [('thread/atomic/AtomicInt.h', '{ return __sync_val_compare_and_swap(&atomic, oldVal, newVal); }', '{ return __sync_bool_compare_and_swap(&atomic, oldVal, newVal) ? oldVal : atomic; }')]),
    ('p11-data-dispose-twice', 'P11', [('shared_ptr.h', '\t\t\tvoid Dispose()\n\t\t\t{ CheckedDelete(_ptr); }', '\t\t\t~DefaultSharedPtrData()\n\t\t\t{ CheckedDelete(_ptr); }\n\n\t\t\tvoid Dispose()\n\t\t\t{ }')]),
    ('p17-opt-assign-flag-first', 'P17', [('optional.h', '\t\t\t\t_value.Ctor(std::forward<U>(value));\n\t\t\t\t_initialized = true;\n\t\t\t}\n\t\t}', '\t\t\t\t_initialized = true;\n\t\t\t\t_value.Ctor(std::forward<U>(value));\n\t\t\t}\n\t\t}')]),
    ('p17-opt-emplace-no-reset', 'P17', [('optional.h', '\t\t{\n\t\t\treset();\n\t\t\t_value.Ctor(std::forward<Us>(args)...);', '\t\t{\n\t\t\t_value.Ctor(std::forward<Us>(args)...);')]),
    ('p17-opt-emplace-flag-first', 'P17', [('optional.h', '\t\t\treset();\n\t\t\t_value.Ctor(std::forward<Us>(args)...);\n\t\t\t_initialized = true;', '\t\t\treset();\n\t\t\t_initialized = true;\n\t\t\t_value.Ctor(std::forward<Us>(args)...);')]),
    ('p17-opt-reset-keeps-flag', 'P17', [('optional.h', '\t\t\t\t_initialized = false;\n\t\t\t\t_value.Dtor();', '\t\t\t\t_value.Dtor();')]),
    ('p17-opt-reset-no-dtor', 'P17', [('optional.h', '\t\t\t\t_initialized = false;\n\t\t\t\t_value.Dtor();', '\t\t\t\t_initialized = false;')]),
    ('p17-opt-swap-no-reset', 'P17', [('optional.h', '\t\t\t\t\tother.assign(std::move(*this).get());\n\t\t\t\t\treset();', '\t\t\t\t\tother.assign(std::move(*this).get());')]),
    ('p17-opt-swap-wrong-reset', 'P17', [('optional.h', '\t\t\t\tassign(std::move(other).get());\n\t\t\t\tother.reset();', '\t\t\t\tassign(std::move(other).get());\n\t\t\t\treset();')]),
    ('p17-opt-getptr-unchecked', 'P17', [('optional.h', 'ConstPtrParamType get_ptr() const\t\t\t\t{ CheckInitialized(); return &_value.Ref(); }', 'ConstPtrParamType get_ptr() const\t\t\t\t{ return &_value.Ref(); }')]),
    ('p17-opt-eq-both', 'P17', [('optional.h', '\t{ return lhs.is_initialized() ? rhs.is_initialized() && lhs.get() == rhs.get() : !rhs.is_initialized(); }', '\t{ return lhs.is_initialized() && rhs.is_initialized() && lhs.get() == rhs.get(); }')]),
    ('p17-opt-lt-empty', 'P17', [('optional.h', '\t{ return rhs.is_initialized() && (!lhs.is_initialized() || (lhs.get() < rhs.get())); }', '\t{ return lhs.is_initialized() && rhs.is_initialized() && lhs.get() < rhs.get(); }')]),
    ('p17-opt-lt-value', 'P17', [('optional.h', '\t{ return !lhs.is_initialized() || lhs.get() < rhs; }', '\t{ return lhs.is_initialized() && lhs.get() < rhs; }')]),
    ('p17-var-assign-type-first', 'P17', [('variant.h', '\t\t\t\tthis->_storage.template Ctor<typename Decay<T>::ValueT>(std::forward<T>(val));\n\t\t\t\tthis->_type = IndexOfTypeListItem<TypeList, typename Decay<T>::ValueT>::Value;\n\t\t\t}\n\t\t\tcatch (...)\n\t\t\t{ AssignDefault(); throw; }', '\t\t\t\tthis->_storage.template Ctor<typename Decay<T>::ValueT>(std::forward<T>(val));\n\t\t\t\tthis->_type = IndexOfTypeListItem<TypeList, typename Decay<T>::ValueT>::Value;\n\t\t\t}\n\t\t\tcatch (...)\n\t\t\t{ throw; }')]),
    ('p17-var-emplace-std-only', 'P17', [('variant.h', '\t\t\t\tthis->_storage.template Ctor<T>(std::forward<Us>(args)...);\n\t\t\t\tthis->_type = IndexOfTypeListItem<TypeList, T>::Value;\n\t\t\t}\n\t\t\tcatch (...)', '\t\t\t\tthis->_storage.template Ctor<T>(std::forward<Us>(args)...);\n\t\t\t\tthis->_type = IndexOfTypeListItem<TypeList, T>::Value;\n\t\t\t}\n\t\t\tcatch (const std::exception& ex)')]),
    ('p17-var-default-no-type', 'P17', [('variant.h', '\t\t\tthis->_storage.template Ctor<EmptyType>();\n\t\t\tthis->_type = IndexOfTypeListItem<TypeList, EmptyType>::Value;', '\t\t\tthis->_storage.template Ctor<EmptyType>();')]),
    ('p17-var-emplace-no-destruct', 'P17', [('variant.h', '\t\tvoid emplace(Us&&... args)\n\t\t{\n\t\t\tbase::Destruct();\n\t\t\tSTINGRAYKIT_ASSURE_NOTHROW(', '\t\tvoid emplace(Us&&... args)\n\t\t{\n\t\t\tSTINGRAYKIT_ASSURE_NOTHROW(')]),
    ('p17-var-assign-order', 'P17', [('variant.h', '\t\t\ttypename Decay<T>::ValueT tmp(std::forward<T>(val));\n\t\t\tbase::Destruct();\n\t\t\tAssignVal(std::move(tmp));\n\t\t}\n\n\t\tvariant& operator = (const variant& other)\n\t\t{\n\t\t\tassign(other);\n\t\t\treturn *this;\n\t\t}\n\n\t\tvariant& operator = (variant&& other)\n\t\t{\n\t\t\tassign(std::move(other));\n\t\t\treturn *this;\n\t\t}\n\n\t\ttemplate < typename T >\n\t\ttypename EnableIf<TypeListContains<TypeList, typename Decay<T>::ValueT>::Value, variant&>::ValueT operator = (T&& val)\n\t\t{\n\t\t\tassign(std::forward<T>(val));\n\t\t\treturn *this;\n\t\t}\n\n\t\tbool empty() const { return false; }', '\t\t\tbase::Destruct();\n\t\t\tAssignVal(std::forward<T>(val));\n\t\t}\n\n\t\tvariant& operator = (const variant& other)\n\t\t{\n\t\t\tassign(other);\n\t\t\treturn *this;\n\t\t}\n\n\t\tvariant& operator = (variant&& other)\n\t\t{\n\t\t\tassign(std::move(other));\n\t\t\treturn *this;\n\t\t}\n\n\t\ttemplate < typename T >\n\t\ttypename EnableIf<TypeListContains<TypeList, typename Decay<T>::ValueT>::Value, variant&>::ValueT operator = (T&& val)\n\t\t{\n\t\t\tassign(std::forward<T>(val));\n\t\t\treturn *this;\n\t\t}\n\n\t\tbool empty() const { return false; }')]),
    ('p17-var-never-nothrow', 'P17', [('variant.h', '\t\t\tSTINGRAYKIT_ASSURE_NOTHROW("Copy-ctor of never-empty variant item threw an exception: ", this->_storage.template Ctor<typename Decay<T>::ValueT>(std::forward<T>(val)));', '\t\t\tthis->_storage.template Ctor<typename Decay<T>::ValueT>(std::forward<T>(val));')]),
    ('p17-var-which-le', 'P17', [('variant.h', '\t\t\t\tif (var.which() == Index)', '\t\t\t\tif (var.which() <= Index + 1)')]),
    ('p17-any-copy-type-first', 'P17', [('any.cpp', '\tvoid any::Copy(const any& other)\n\t{\n\t\tSTINGRAYKIT_ASSERT(_type == Type::Empty);\n', '\tvoid any::Copy(const any& other)\n\t{\n\t\tSTINGRAYKIT_ASSERT(_type == Type::Empty);\n\n\t\t_type = other._type;\n'), ('any.h', '\t\t\tany tmp(other);\n\t\t\tDestroy();\n\t\t\tMove(std::move(tmp));\n\t\t\treturn *this;', '\t\t\tif (this == &other)\n\t\t\t\treturn *this;\n\n\t\t\tDestroy();\n\t\t\tCopy(other);\n\t\t\treturn *this;')]),
    ('p17-any-copy-shares-object', 'P17', [('any.cpp', '\t\t\t_data.Object = other._data.Object->Clone();', '\t\t\t_data.Object = other._data.Object;')]),
    ('p17-any-move-no-swap', 'P17', [('any.cpp', '\t\tstd::swap(_type, other._type);', '\t\t_type = other._type;')]),
    ('p17-any-destroy-serializable', 'P17', [('any.cpp', '\t\tcase Type::String:\n\t\t\t_data.String.Dtor();\n\t\t\tbreak;\n\t\tcase Type::Object:\n\t\tcase Type::SerializableObject:\n\t\t\tdelete _data.Object;\n\t\t\tbreak;\n\t\tdefault:\n\t\t\tbreak;\n\t\t}\n\n\t\t_type = Type::Empty;', '\t\tcase Type::String:\n\t\t\t_data.String.Dtor();\n\t\t\tbreak;\n\t\tcase Type::SerializableObject:\n\t\t\tdelete _data.Object;\n\t\t\tbreak;\n\t\tdefault:\n\t\t\tbreak;\n\t\t}\n\n\t\t_type = Type::Empty;')]),
    ('p17-any-destroy-no-empty', 'P17', [('any.cpp', '\t\t\tdelete _data.Object;\n\t\t\tbreak;\n\t\tdefault:\n\t\t\tbreak;\n\t\t}\n\n\t\t_type = Type::Empty;', '\t\t\tdelete _data.Object;\n\t\t\tbreak;\n\t\tdefault:\n\t\t\t_type = Type::Empty;\n\t\t\tbreak;\n\t\t}')]),
    ('p17-any-string-move-bits', 'P17', [('any.cpp', '\t\t\t_data.String.Ctor(std::move(other._data.String.Ref()));\n\t\t\tother._data.String.Dtor();\n\t\t\tbreak;', '\t\t\t_data = other._data;\n\t\t\tbreak;')]),
    ('p17-any-destroy-before-copy', 'P17', [('any.h', '\t\t\tany tmp(std::forward<T>(val));\n\t\t\tDestroy();\n\t\t\tMove(std::move(tmp));', '\t\t\tDestroy();\n\t\t\tInit<T>(std::forward<T>(val));')]),
    ('p17-any-deser-type-early', 'P17', [('any.cpp', '\t\tcase Type::String:\n\t\t\t{\n\t\t\t\tstd::string s;\n\t\t\t\tar.Deserialize("val", s);\n\t\t\t\tInit(s);\n\t\t\t}\n\t\t\tbreak;', '\t\tcase Type::String:\n\t\t\t{\n\t\t\t\tstd::string s;\n\t\t\t\t_type = type;\n\t\t\t\tar.Deserialize("val", s);\n\t\t\t\t_data.String.Ctor(s);\n\t\t\t}\n\t\t\tbreak;')]),
    ('p17-ipv-copy-count-late', 'P17', [('collection/inplace_vector.h', '\t\t\t\twhile (_staticStorageSize < other._staticStorageSize)\n\t\t\t\t{\n\t\t\t\t\t_staticStorage[_staticStorageSize].Ctor(other._staticStorage[_staticStorageSize].Ref());\n\t\t\t\t\t++_staticStorageSize;\n\t\t\t\t}\n', '\t\t\t\tfor (size_t index = 0; index < other._staticStorageSize; ++index)\n\t\t\t\t\t_staticStorage[index].Ctor(other._staticStorage[index].Ref());\n\t\t\t\t_staticStorageSize = other._staticStorageSize;\n')]),
    ('p17-ipv-copy-count-first', 'P17', [('collection/inplace_vector.h', '\t\t\t\t\t_staticStorage[_staticStorageSize].Ctor(other._staticStorage[_staticStorageSize].Ref());\n\t\t\t\t\t++_staticStorageSize;\n\t\t\t\t}\n', '\t\t\t\t\t++_staticStorageSize;\n\t\t\t\t\t_staticStorage[_staticStorageSize - 1].Ctor(other._staticStorage[_staticStorageSize - 1].Ref());\n\t\t\t\t}\n')]),
    ('p17-ipv-push-count-first', 'P17', [('collection/inplace_vector.h', '\t\t\t\t_staticStorage[_staticStorageSize].Ctor(value);\n\t\t\t\t++_staticStorageSize;', '\t\t\t\t++_staticStorageSize;\n\t\t\t\t_staticStorage[_staticStorageSize - 1].Ctor(value);')]),
    ('p17-ipv-move-no-dtor', 'P17', [('collection/inplace_vector.h', '\t\t\t\tother.Dtor();\n\n\t\t\t\t_dynamic', '\t\t\t\tother._staticStorageSize = 0;\n\n\t\t\t\t_dynamic')]),
    ('p17-ipv-dtor-off-by-one', 'P17', [('collection/inplace_vector.h', '\t\t\tfor (size_t index = 0; index < _staticStorageSize; ++index)\n\t\t\t\t_staticStorage[index].Dtor();', '\t\t\tfor (size_t index = 1; index < _staticStorageSize; ++index)\n\t\t\t\t_staticStorage[index].Dtor();')]),
    ('p17-ipv-clear-keeps-dynamic', 'P17', [('collection/inplace_vector.h', '\t\t\t_dynamicStorage.clear();\n\t\t\tDtor();', '\t\t\tDtor();')]),
    ('p17-ipv-emplace-bound', 'P17', [('collection/inplace_vector.h', '\t\t\tif (_staticStorageSize < InplaceCapacity)\n\t\t\t{\n\t\t\t\t_staticStorage[_staticStorageSize].Ctor(std::forward<Us>(args)...);', '\t\t\tif (_staticStorageSize <= InplaceCapacity)\n\t\t\t{\n\t\t\t\t_staticStorage[_staticStorageSize].Ctor(std::forward<Us>(args)...);')]),
    ('p17-ipv-copy-no-catch', 'P17', [('collection/inplace_vector.h', '\t\t\t\t_dynamicStorage = other._dynamicStorage;\n\t\t\t}\n\t\t\tcatch (...)\n\t\t\t{\n\t\t\t\tDtor();\n\t\t\t\tthrow;\n\t\t\t}', '\t\t\t\t_dynamicStorage = other._dynamicStorage;\n\t\t\t}\n\t\t\tcatch (...)\n\t\t\t{ throw; }')]),
    ('p17-ipv-at', 'P17', [('collection/inplace_vector.h', '\t\t\treturn index < _staticStorageSize ? _staticStorage[index].Ref() : _dynamicStorage[index - _staticStorageSize];\n\t\t}\n\n\t\treference operator', '\t\t\treturn index < InplaceCapacity ? _staticStorage[index + 1].Ref() : _dynamicStorage[index - _staticStorageSize];\n\t\t}\n\n\t\treference operator')]),
    ('p12-timer-drain-undue', 'P12', [('timer/Timer.cpp', '\t\t\tif (top->GetTimeToTrigger() > currentTime)\n\t\t\t\tbreak;\n\n', '')]),
    ('p12-timer-pop-other', 'P12', [('timer/Timer.cpp', '\t\t\t\t_queue->Pop();\n\n\t\t\t\tMutexUnlock ul(l);\n\n\t\t\t\tconst optional', '\t\t\t\tMutexUnlock ul(l);\n\n\t\t\t\t_queue->Pop();\n\n\t\t\t\tconst optional')]),
    ('p12-timer-rearm-only-success', 'P12', [('timer/Timer.cpp', '\t\t\telse\n\t\t\t\tci->GetTask()();\n\t\t}\n\t\tcatch (const std::exception& ex)', '\t\t\telse\n\t\t\t\tci->GetTask()();\n\n\t\t\tif (ci->IsPeriodic())\n\t\t\t{\n\t\t\t\tci->Restart(_monotonic.Elapsed());\n\t\t\t\t_queue->Push(ci);\n\t\t\t}\n\t\t}\n\t\tcatch (const std::exception& ex)'), ('timer/Timer.cpp', '\t\t\t\tif (monotonic)\n\t\t\t\t{\n\t\t\t\t\ttop->Restart(*monotonic);\n\t\t\t\t\t_queue->Push(top);\n\t\t\t\t}\n\n', '')]),
    ('p12-timer-no-restart', 'P12', [('timer/Timer.cpp', '\t\t\t\t\ttop->Restart(*monotonic);\n', '')]),
    ('p12-timer-restart-now', 'P12', [('timer/Timer.cpp', '_timeToTrigger = currentTime + *STINGRAYKIT_REQUIRE_INITIALIZED(_period); }', '_timeToTrigger = currentTime; }')]),
    ('p12-timer-push-erased', 'P12', [('timer/Timer.cpp', '\t\tif (!ci->IsErased())\n\t\t\tci->Set', '\t\t\tci->Set')]),
    ('p12-timer-erase-no-mark', 'P12', [('timer/Timer.cpp', '\t\tci->SetErased();\n\n', '')]),
    ('p12-timer-erase-first', 'P12', [('timer/Timer.cpp', '_container.erase(*ci->GetIterator());', '_container.erase(_container.begin());')]),
    ('p12-timer-erase-mark-late', 'P12', [('timer/Timer.cpp', '\t\tci->SetErased();\n\n\t\tif (!ci->GetIterator())\n\t\t\treturn;\n', '\t\tif (!ci->GetIterator())\n\t\t\treturn;\n\n\t\tci->SetErased();\n')]),
    ('p12-timer-pop-keeps-position', 'P12', [('timer/Timer.cpp', '\t\t_container.erase(_container.begin());\n\t\tci->SetIterator(null);\n', '\t\t_container.erase(_container.begin());\n')]),
    ('p12-timer-erase-keeps-position', 'P12', [('timer/Timer.cpp', '\t\t_container.erase(*ci->GetIterator());\n\t\tci->SetIterator(null);\n', '\t\t_container.erase(*ci->GetIterator());\n')]),
    ('p12-timer-push-no-position', 'P12', [('timer/Timer.cpp', 'ci->SetIterator(iterator(_container.emplace(ci->GetTimeToTrigger(), ci)));', '_container.emplace(ci->GetTimeToTrigger(), ci);')]),
    ('p12-timer-remove-no-release', 'P12', [('timer/Timer.cpp', '\t\t\tqueue->Erase(ci);\n\t\t}\n\t\tci->Release();', '\t\t\tqueue->Erase(ci);\n\t\t}')]),
    ('p12-timer-timeout-periodic', 'P12', [('timer/Timer.cpp', '_monotonic.Elapsed() + timeout, null, TaskLifeToken());', '_monotonic.Elapsed() + timeout, timeout, TaskLifeToken());')]),
    ('p12-timer-interval-swapped', 'P12', [('timer/Timer.cpp', '_monotonic.Elapsed() + timeout, interval, TaskLifeToken());', '_monotonic.Elapsed() + interval, timeout, TaskLifeToken());')]),
    ('p12-timer-dummy-life', 'P12', [('timer/Timer.cpp', '_monotonic.Elapsed() + timeout, null, TaskLifeToken());', '_monotonic.Elapsed() + timeout, null, TaskLifeToken::CreateDummyTaskToken());')]),
    ('p12-timer-add-no-tester', 'P12', [('timer/Timer.cpp', 'MakeCancellableFunction(task, tester)', 'MakeCancellableFunction(task, FutureExecutionTester(null))')]),
    ('p12-timer-no-drain', 'P12', [('timer/Timer.cpp', '\t\twhile (!_queue->IsEmpty())\n\t\t{\n\t\t\tCallbackInfoPtr top = _queue->Top();\n\n\t\t\tif', '\t\tfor (bool once = true; once && !_queue->IsEmpty(); once = false)\n\t\t{\n\t\t\tCallbackInfoPtr top = _queue->Top();\n\n\t\t\tif')]),
    ('p12-timer-rearm-oneshot', 'P12', [('timer/Timer.cpp', '\t\t\t\tif (monotonic)\n\t\t\t\t{\n\t\t\t\t\ttop->Restart(*monotonic);\n\t\t\t\t\t_queue->Push(top);\n\t\t\t\t}\n', '\t\t\t\tif (monotonic)\n\t\t\t\t\ttop->Restart(*monotonic);\n\t\t\t\t_queue->Push(top);\n')]),
    ('p12-timer-early-wake-run', 'P12', [('timer/Timer.cpp', 'if (top->GetTimeToTrigger() <= _monotonic.Elapsed())', 'if (top->GetTimeToTrigger() <= _monotonic.Elapsed() || top->IsPeriodic())')]),
    ('p12-deferrer-cancel-one', 'P12', [('timer/Timer.cpp', '\t\t{\n\t\t\tMutexLock l(_connectionMutex);\n\t\t\t_connection.Reset();\n\t\t}\n', '')]),
    ('p12-exec-push-front', 'P12', [('thread/ThreadTaskExecutor.cpp', '_queue.emplace_back(task, tester);', '_queue.emplace_front(task, tester);')]),
    ('p12-exec-not-drained', 'P12', [('thread/ThreadTaskExecutor.cpp', 'while (token || !_queue.empty())', 'while (token)')]),
    ('p12-exec-looks-back', 'P12', [('thread/ThreadTaskExecutor.cpp', 'optional<TaskPair> top = _queue.front();', 'optional<TaskPair> top = _queue.back();')]),
    ('p12-exec-run-twice', 'P12', [('thread/ThreadTaskExecutor.cpp', '\t\t\t\ttask.first();\n\t\t\t}\n\t\t\telse\n\t\t\t\ttask.first();', '\t\t\t\ttask.first();\n\t\t\t}\n\n\t\t\ttask.first();')]),
    ('p12-exec-drop-overflow', 'P12', [('thread/ThreadTaskExecutor.cpp', '\t\t_queue.emplace_back(task, tester);\n\t\t_condVar.Broadcast();\n', '\t\tif (_queue.size() <= TaskCountLimit * 64)\n\t\t\t_queue.emplace_back(task, tester);\n\t\t_condVar.Broadcast();\n')]),
    ('p12-exec-no-tester', 'P12', [('thread/ThreadTaskExecutor.cpp', '_queue.emplace_back(task, tester);', '_queue.emplace_back(task, FutureExecutionTester(null));')]),
    ('p12-exec-skip-on-cancel', 'P12', [('thread/ThreadTaskExecutor.cpp', '\t\t\tExecuteTask(*top);\n\t\t\ttop.reset();', '\t\t\tif (token)\n\t\t\t\tExecuteTask(*top);\n\t\t\ttop.reset();')]),
    ('p12-threadless-unlock-between', 'P12', [('thread/ThreadlessTaskExecutor.cpp', '\t\t\t_queue.pop_front();\n\n\t\t\tMutexUnlock ul(l);\n', '\n\t\t\tMutexUnlock ul(l);\n\n\t\t\t{\n\t\t\t\tMutexLock l2(_syncRoot);\n\t\t\t\t_queue.pop_front();\n\t\t\t}\n')]),
    ('p12-pool-yes-nobody', 'P12', [('thread/ThreadPool.cpp', '\t\t\telse if ((*it)->TryAddTask(task))\n\t\t\t\treturn true;', '\t\t\telse if ((*it)->CanAddTask())\n\t\t\t{\n\t\t\t\t(*it)->TryAddTask(task);\n\t\t\t\treturn true;\n\t\t\t}\n\t\t\telse if ((*it)->IsIdle())\n\t\t\t\treturn true;')]),
    ('p12-pool-overwrite', 'P12', [('thread/ThreadPool.cpp', '\t\t\tif (_task)\n\t\t\t\treturn false;\n\n\t\t\t_task = task;', '\t\t\t_task = task;')]),
    ('p12-pool-main-overwrite', 'P12', [('thread/ThreadPool.cpp', '\t\tif (!_task)\n\t\t{\n\t\t\tif (!_worker)', '\t\tif (!_task || _workers.size() + 1 >= _maxThreads)\n\t\t{\n\t\t\tif (!_worker)')]),
    ('p12-pool-worker-not-reset', 'P12', [('thread/ThreadPool.cpp', '\t\t\t\t_task.reset();\n\n\t\t\t\tMutexUnlock ul(l);\n\t\t\t\ttask.reset(); // destroy object with unlocked mutex to keep lock order correct\n\t\t\t}\n\t\t}\n\n\t\tvoid', '\t\t\t\tif (_completed)\n\t\t\t\t\t_task.reset();\n\n\t\t\t\tMutexUnlock ul(l);\n\t\t\t\ttask.reset(); // destroy object with unlocked mutex to keep lock order correct\n\t\t\t}\n\t\t}\n\n\t\tvoid')]),
    ('p12-pool-skip-when-cancelled', 'P12', [('thread/ThreadPool.cpp', '\t\t\t\toptional<Task> task = _task;\n\t\t\t\t{\n\t\t\t\t\tMutexUnlock ul(l);\n\t\t\t\t\tExecuteTask(token, *task);\n\t\t\t\t}\n\n\t\t\t\t_task', '\t\t\t\toptional<Task> task = _task;\n\t\t\t\tif (!_idle)\n\t\t\t\t{\n\t\t\t\t\tMutexUnlock ul(l);\n\t\t\t\t\tExecuteTask(token, *task);\n\t\t\t\t}\n\n\t\t\t\t_task')]),
    ('p08-executor-worker-early', 'P08', [('thread/ThreadTaskExecutor.h', '\t\tConditionVariable\t\t_condVar;\n\n\t\tThread\t\t\t\t\t_worker;\n', ''), ('thread/ThreadTaskExecutor.h', '\t\tMutex\t\t\t\t\t_syncRoot;\n\t\tQueueType', '\t\tMutex\t\t\t\t\t_syncRoot;\n\t\tConditionVariable\t\t_condVar;\n\t\tThread\t\t\t\t\t_worker;\n\t\tQueueType')]),
    ('p08-pool-worker-early', 'P08', [('thread/ThreadPool.h', '\t\tunique_ptr<Thread>\t\t_worker;\n', ''), ('thread/ThreadPool.h', '\t\tMutex\t\t\t\t\t_mutex;\n\t\toptional<Task>\t\t\t_task;\n', '\t\tMutex\t\t\t\t\t_mutex;\n\t\tunique_ptr<Thread>\t\t_worker;\n\t\toptional<Task>\t\t\t_task;\n')]),
    ('p08-wrapper-worker-early', 'P08', [('thread/ThreadPool.cpp', '\t\tbool\t\t\t\t\t_idle;\n\t\tConditionVariable\t\t_cond;\n\n\t\tThread\t\t\t\t\t_worker;\n', '\t\tbool\t\t\t\t\t_idle;\n\t\tThread\t\t\t\t\t_worker;\n\n\t\tConditionVariable\t\t_cond;\n')]),
    ('p08-deferrer-order', 'P08', [('timer/Timer.h', '\t\tMutex\t\t\t_connectionMutex;\n\t\tToken\t\t\t_connection;\n\n\t\tMutex \t\t\t_doDeferConnectionMutex;\n\t\tToken\t\t\t_doDeferConnection;\n', '\t\tMutex \t\t\t_doDeferConnectionMutex;\n\t\tToken\t\t\t_doDeferConnection;\n\n\t\tMutex\t\t\t_connectionMutex;\n\t\tToken\t\t\t_connection;\n')]),
    ('p08-deferrer-one-lock', 'P08', [('timer/Timer.cpp', '\t\tMutexLock l(_connectionMutex);\n\t\tif (interval)', '\t\tMutexLock l(_doDeferConnectionMutex);\n\t\tif (interval)')]),
    ('p08-view-connection-early', 'P08', [('collection/ListCaster.h', '\t\tsignal<OnChangedSignature, ExternalMutexPointer>\t_onChanged;\n\t\tconst Token\t\t\t\t\t\t\t\t\t\t\t_connection;\n\n\tpublic:\n\t\tObservableListCaster', '\t\tconst Token\t\t\t\t\t\t\t\t\t\t\t_connection;\n\t\tsignal<OnChangedSignature, ExternalMutexPointer>\t_onChanged;\n\n\tpublic:\n\t\tObservableListCaster')]),
    ('p08-view-token-order', 'P08', [('collection/ObservableSetEntry.h', '\t\tSetTypePtr\t\t\t\t\t\t\t\t\t\t\t_set;\n\t\tT\t\t\t\t\t\t\t\t\t\t\t\t\t_key;\n\n\t\tsignal<OnChangedSignature, ExternalMutexPointer>\t_onChanged;\n\t\tToken\t\t\t\t\t\t\t\t\t\t\t\t_connection;\n', '\t\tSetTypePtr\t\t\t\t\t\t\t\t\t\t\t_set;\n\t\tToken\t\t\t\t\t\t\t\t\t\t\t\t_connection;\n\t\tT\t\t\t\t\t\t\t\t\t\t\t\t\t_key;\n\n\t\tsignal<OnChangedSignature, ExternalMutexPointer>\t_onChanged;\n')]),
    ('p08-view-mutex-late', 'P08', [('collection/ObservableListWrapper.h', '\t\tshared_ptr<const Mutex>\t\t\t\t\t\t\t\t\t_mutex;\n\t\tsignal<OnChangedSignature, ExternalMutexPointer>\t\t_onChanged;\n', '\t\tsignal<OnChangedSignature, ExternalMutexPointer>\t\t_onChanged;\n\t\tshared_ptr<const Mutex>\t\t\t\t\t\t\t\t\t_mutex;\n')]),
    ('p08-profiler-thread-early', 'P08', [('diagnostics/AsyncProfiler.h', '\t\tSessions\t\t\t_sessions;\n\t\tIThreadPtr\t\t\t_thread;\n', '\t\tIThreadPtr\t\t\t_thread;\n\t\tSessions\t\t\t_sessions;\n')]),
    ('p08-buffer-worker-early', 'P08', [('io/IntermediateDataBuffer.h', '\t\tIDataBufferPtr\t\t\t_buffer;\n\n\t\tThreadPtr\t\t\t\t_worker;\n', '\t\tThreadPtr\t\t\t\t_worker;\n\t\tIDataBufferPtr\t\t\t_buffer;\n\n')]),
    ('p08-reporter-timer-early', 'P08', [('BandwidthReporter.h', '\t\tMutex\t\t\t\t\t_mutex;\n\t\tu64\t\t\t\t\t\t_dataTotal;\n\t\tu64\t\t\t\t\t\t_dataSinceLastReport;\n\t\tElapsedTime\t\t\t\t_timeSinceLastReport;\n\n\t\tTimer\t\t\t\t\t_timer;\n\t\tToken\t\t\t\t\t_connection;\n', '\t\tTimer\t\t\t\t\t_timer;\n\t\tToken\t\t\t\t\t_connection;\n\n\t\tMutex\t\t\t\t\t_mutex;\n\t\tu64\t\t\t\t\t\t_dataTotal;\n\t\tu64\t\t\t\t\t\t_dataSinceLastReport;\n\t\tElapsedTime\t\t\t\t_timeSinceLastReport;\n')]),
    ('p08-thread-join-if-running', 'P08', [('thread/posix/PosixThreadEngine.cpp', '\t\t\tint result = pthread_join(_data->GetPthreadId(), NULL);\n\t\t\tif (result)', '\t\t\tint result = _exited ? 0 : pthread_join(_data->GetPthreadId(), NULL);\n\t\t\tif (result)')]),
    ('p08-thread-cancel-late', 'P08', [('thread/posix/PosixThreadEngine.cpp', '\t\t\t_token.Cancel();\n\t\t\t_lifeToken.Release();\n\n\t\t\tbool prev', '\t\t\t_lifeToken.Release();\n\n\t\t\tbool prev'), ('thread/posix/PosixThreadEngine.cpp', '\t\t\t\tSTINGRAYKIT_FATAL("pthread_join failed: " + SystemException::GetErrorMessage(result));\n', '\t\t\t\tSTINGRAYKIT_FATAL("pthread_join failed: " + SystemException::GetErrorMessage(result));\n\t\t\t_token.Cancel();\n')]),
    ('p08-thread-release-late', 'P08', [('thread/posix/PosixThreadEngine.cpp', '\t\t\t_token.Cancel();\n\t\t\t_lifeToken.Release();\n', '\t\t\t_token.Cancel();\n'), ('thread/posix/PosixThreadEngine.cpp', '\t\t\tif (!_exited)\n\t\t\t\tPTELogger', '\t\t\t_lifeToken.Release();\n\t\t\tif (!_exited)\n\t\t\t\tPTELogger')]),
    ('p08-thread-interruptible-join', 'P08', [('thread/posix/PosixThreadEngine.cpp', '\t\t\tbool prev = PosixThreadEngine::EnableInterruptionPoints(false);\n\t\t\tScopeExitInvoker sei', '\t\t\tbool prev = PosixThreadEngine::EnableInterruptionPoints(true);\n\t\t\tScopeExitInvoker sei')]),
    ('p08-thread-no-start-wait', 'P08', [('thread/posix/PosixThreadEngine.cpp', '\t\t\t{\n\t\t\t\tGenericMutexLock<PosixMutex> l(_mutex);\n\t\t\t\twhile (!_started)\n\t\t\t\t\t_cv.Wait(_mutex, DummyCancellationToken());\n\t\t\t}\n\n\t\t\tif', '\t\t\tif')]),
    ('p20-packet-clear-order', 'P20', [('io/PacketBuffer.h', '\t\t\tMutexLock l(_bufferMutex);\n\t\t\twhile (true)\n\t\t\t{\n\t\t\t\tBithreadCircularBuffer::Reader r = _buffer.Read();\n\t\t\t\tif (r.size() == 0)', '\t\t\tMutexLock l(_bufferMutex);\n\t\t\tMutexLock wl(_writeMutex);\n\t\t\twhile (true)\n\t\t\t{\n\t\t\t\tBithreadCircularBuffer::Reader r = _buffer.Read();\n\t\t\t\tif (r.size() == 0)')]),
    ('p20-worker-calls-pool-locked', 'P20', [('thread/ThreadPool.cpp', '\t\t\t\t\t\tMutexUnlock ul(l);\n\t\t\t\t\t\t_completedHandler();', '\t\t\t\t\t\t_completedHandler();')]),
    ('p20-timer-queue-holds-deferrer', 'P20', [('timer/Timer.cpp', '\t\t{\n\t\t\tMutexLock l(_doDeferConnectionMutex);\n\t\t\t_doDeferConnection.Reset();\n\t\t}\n\t\t{\n\t\t\tMutexLock l(_connectionMutex);\n\t\t\t_connection.Reset();\n\t\t}\n', '\t\tMutexLock cl(_connectionMutex);\n\t\t_connection.Reset();\n\t\tMutexLock dl(_doDeferConnectionMutex);\n\t\t_doDeferConnection.Reset();\n'), ('timer/Timer.cpp', '\t\tMutexLock l(_doDeferConnectionMutex);\n\t\t_doDeferConnection = _timer', '\t\tMutexLock l(_doDeferConnectionMutex);\n\t\tMutexLock cl(_connectionMutex);\n\t\t_doDeferConnection = _timer')]),
    ('p20-packet-read-order-helper', 'P20', [('io/PacketBuffer.h', '\t\t\tr.Pop(p.Size);\n\t\t\t_packetQueue.pop_front();\n\t\t\t_bufferFull.Broadcast();\n\t\t}\n', '\t\t\tr.Pop(p.Size);\n\t\t\t_packetQueue.pop_front();\n\t\t\tWakeWriters();\n\t\t}\n\n\tprivate:\n\t\tvoid WakeWriters()\n\t\t{\n\t\t\tMutexLock l(_writeMutex);\n\t\t\t_bufferFull.Broadcast();\n\t\t}\n')]),
    ('p25-source-pop-all', 'P25', [('io/BufferedDataSource.cpp', '\t\tif (processedSize == 0)\n\t\t\treturn;\n\n', '\t\tif (processedSize == 0)\n\t\t\treturn;\n\n\t\tif (processedSize < _outputPacketSize)\n\t\t\tprocessedSize = packetizedSize;\n\n')]),
    ('p25-consumer-min-free', 'P25', [('io/BufferedDataConsumer.cpp', 'std::min(data.size(), packetizedSize)', 'std::min(data.size(), bl.GetFreeSize())')]),
    ('p25-packet-padding-lost', 'P25', [('io/PacketBuffer.h', '\t\t\tif (padding_size)\n\t\t\t{\n\t\t\t\t_paddingSize = padding_size;\n\t\t\t\tw.Push(padding_size);\n\t\t\t\tw = _buffer.Write();\n\t\t\t}\n', '\t\t\tif (padding_size)\n\t\t\t{\n\t\t\t\t_paddingSize = padding_size;\n\t\t\t\tw.Push(padding_size - 1);\n\t\t\t\tw = _buffer.Write();\n\t\t\t}\n')]),
    ('p25-array-source-repeat', 'P25', [('io/ByteArrayDataSource.h', '_processed += consumer.Process(ConstByteData(_data, _processed), token);', '{\n\t\t\t\tconst size_t processed = consumer.Process(ConstByteData(_data, _processed), token);\n\t\t\t\tif (processed == _data.size() - _processed)\n\t\t\t\t\t_processed += processed;\n\t\t\t}')]),
    ('p25-pipe-offset-kept', 'P25', [('io/BufferedPipe.cpp', '\t\t\t_bufferOffset = 0;\n\t\t\t_bufferSize = size;\n', '\t\t\t_bufferOffset -= _bufferSize;\n\t\t\t_bufferSize = size - _bufferOffset;\n\t\t\t_bufferOffset = size > data.size() ? 0 : _bufferOffset + (size > 1);\n')]),
    ('p25-pipe-source-keeps-nothing', 'P25', [('io/PipeDataSource.cpp', '_bufferOffset += consumer.Process(ConstByteData(_buffer, _bufferOffset, _bufferSize - _bufferOffset), token);', 'consumer.Process(ConstByteData(_buffer, _bufferOffset, _bufferSize - _bufferOffset), token);\n\t\t\t_bufferOffset = _bufferSize;')]),
    ('p25-stream-short-read', 'P25', [('io/BufferedStream.h', '!_bufferSize || _inBufferOffset >= _bufferSize', '!_bufferSize || _inBufferOffset == _bufferSize')]),
    ('p25-stream-write-no-seek', 'P25', [('io/BufferedStream.h', 'SeekStream(Tell() + total);', 'SeekStream(Tell() + data.size());')]),
    ('p25-memory-read-past', 'P25', [('io/MemoryByteStream.h', '\t\t\t_offset += count;\n\t\t\treturn count;\n\t\t}\n\n\t\tvirtual u64 Write', '\t\t\t_offset += data.size();\n\t\t\treturn count;\n\t\t}\n\n\t\tvirtual u64 Write')]),
    ('p25-limit-ignores-position', 'P25', [('io/ByteStreamWithOffsetAndSize.h', 's64 remaining = _endOffset - _offset - _position;\n\t\t\tSTINGRAYKIT_CHECK(remaining >= 0, IndexOutOfRangeException(remaining, 0, 0));\n\t\t\t_stream->Seek(_offset + _position);\n\t\t\tu64 readed', 's64 remaining = _endOffset - _offset;\n\t\t\tSTINGRAYKIT_CHECK(remaining >= 0, IndexOutOfRangeException(remaining, 0, 0));\n\t\t\t_stream->Seek(_offset + _position);\n\t\t\tu64 readed')]),
    ('p25-taker-counts-offered', 'P25', [('io/DataUtils.h', '_leftToTake -= processed;', '_leftToTake -= size;')]),
    ('p25-skipper-all', 'P25', [('io/DataUtils.h', 'return skipped + ConsumeAll(_consumer, ConstByteData(data, skipped), token);', 'return skipped + _consumer.Process(ConstByteData(data), token);')]),
    ('p25-consume-all-repeats', 'P25', [('io/IDataSource.h', '\t\twhile (token && offset < data.size())\n\t\t\toffset += consumer.Process(ConstByteData(data, offset), token);\n', '\t\twhile (token && offset < data.size())\n\t\t{\n\t\t\tconst size_t processed = consumer.Process(ConstByteData(data, offset), token);\n\t\t\toffset += processed ? processed : 1;\n\t\t}\n')]),
    ('p25-aligner-remainder', 'P25', [('io/DataAligner.h', '_buffer.append(ConstByteData(data, processed, remainder));', '_buffer.append(ConstByteData(data, AlignDown(data.size(), _alignment)));')]),
    ('p25-page-loop-tail', 'P25', [('io/PagedBuffer.cpp', '\t\t\t_tailSize = newTailSize;\n\t\t\toffset += toWrite;\n', '\t\t\t_tailSize = newTailSize;\n\t\t\toffset = toWrite > _pageSize ? 0 : offset;\n')]),
    ('p25-page-read-token', 'P25', [('io/PagedBuffer.cpp', '\t\t\tprocessed = page->Read(offset, consumer, token);\n', '\t\t\tprocessed = page->Read(offset, consumer, token);\n\t\t\tSTINGRAYKIT_CHECK_CANCELLATION(token);\n')]),
    ('p25-ring-contiguous-on-zero', 'P25', [('io/BithreadCircularBuffer.cpp', 'return _dataIsContiguous ? (_writeOffset - _readOffset) : (GetStorageSize() - _readOffset + _writeOffset); }\n\n\n\t\tsize_t GetFree', 'return _writeOffset > _readOffset ? (_writeOffset - _readOffset) : (GetStorageSize() - _readOffset + _writeOffset); }\n\n\n\t\tsize_t GetFree')]),
    ('p25-ring-wrap-forgotten', 'P25', [('io/BithreadCircularBuffer.cpp', '\t\t\t\t_readOffset = 0;\n\t\t\t\t_dataIsContiguous = !_dataIsContiguous;', '\t\t\t\t_readOffset = 0;\n\t\t\t\t_dataIsContiguous = _writeOffset >= _readOffset && _dataIsContiguous;')]),
    ('p25-circular-clear-flag', 'P25', [('io/CircularBufferBase.h', '\t\t\t\t_writeOffset = _readOffset + _lockedDataSize - GetStorageSize();\n\t\t\t\t_dataIsContiguous = false;', '\t\t\t\t_writeOffset = _readOffset + _lockedDataSize - GetStorageSize();\n\t\t\t\t_dataIsContiguous = true;')]),
    ('p25-circular-release-tail', 'P25', [('io/CircularBufferBase.h', 'if (_dataIsContiguous || size <= tailSize)', 'if (_dataIsContiguous || size < tailSize + _writeOffset)')]),
    ('p25-circular-push-tail', 'P25', [('io/CircularBufferBase.h', 'DoPush(ConstByteData(dataToPush, tailCapacity, dataToPush.size() - tailCapacity));', 'DoPush(ConstByteData(dataToPush, 0, dataToPush.size() - tailCapacity));')]),
    ('p25-circular-crop-front', 'P25', [('io/CircularBufferBase.h', 'ReleaseData(resultSize - totalCapacity);', 'ReleaseData(data.size() - totalCapacity);')]),
    ('p26-memory-end-beyond', 'P26', [('io/MemoryByteStream.h', 'if (new_ofs > (int)_data.size())', 'if (mode != SeekMode::End && new_ofs > (int)_data.size())')]),
    ('p26-memory-current-minus', 'P26', [('io/MemoryByteStream.h', 'if (new_ofs < 0)', 'if (offset < 0 && mode == SeekMode::Begin)')]),
    ('p26-offset-end-keeps-own-offset', 'P26', [('io/ByteStreamWithOffset.h', 'newPosition = size + offset;', 'newPosition = size + _offset + offset;')]),
    ('p26-offset-position-first', 'P26', [('io/ByteStreamWithOffset.h', '\t\t\t_stream->Seek(newPosition);\n\t\t\t_position = newPosition - _offset;', '\t\t\t_position = newPosition - _offset;\n\t\t\t_stream->Seek(newPosition);')]),
    ('p26-limit-current-from-below', 'P26', [('io/ByteStreamWithOffsetAndSize.h', 'newPosition = _position + _offset + offset;', 'newPosition = (s64)_stream->Tell() + offset;')]),
    ('p26-limit-last-refused', 'P26', [('io/ByteStreamWithOffsetAndSize.h', 'newPosition >= _offset && newPosition <= _endOffset', 'newPosition >= _offset && newPosition < _endOffset')]),
    ('p26-buffered-edge-in-buffer', 'P26', [('io/BufferedStream.h', 'offset - _bufferOffset < static_cast<u64>(_bufferSize)', 'offset - _bufferOffset <= static_cast<u64>(_bufferSize) + _alignment'), ('io/BufferedStream.h', '_inBufferOffset = static_cast<size_t>(offset - _bufferOffset);', '_inBufferOffset = std::min<size_t>(offset - _bufferOffset, _bufferSize);')]),
    ('p26-buffered-end-no-reseek', 'P26', [('io/BufferedStream.h', '\t\t\t\t_stream->Seek(offset, mode);\n\t\t\t\toffset = _stream->Tell();\n\t\t\t\tif (SeekInBuffer(static_cast<u64>(offset)))\n\t\t\t\t\t_stream->Seek(_bufferOffset);\n\t\t\t\telse\n\t\t\t\t\tSeekStream(static_cast<u64>(offset));', '\t\t\t\t_stream->Seek(offset, mode);\n\t\t\t\toffset = _stream->Tell();\n\t\t\t\tif (!SeekInBuffer(static_cast<u64>(offset)))\n\t\t\t\t{\n\t\t\t\t\t_bufferOffset = AlignDown<u64>(offset, _alignment);\n\t\t\t\t\t_inBufferOffset = static_cast<size_t>(offset - _bufferOffset);\n\t\t\t\t\t_bufferSize = 0;\n\t\t\t\t}')]),
    ('p26-chunk-end-of-last', 'P26', [('io/ChunkedMemoryByteStream.h', 'offset_ >= chunk->size()', 'offset_ > chunk->size()'), ('io/ChunkedMemoryByteStream.h', '\t\t\tret += _chunkOffset;\n', '\t\t\tret += _chunk == _container->end() ? 0 : _chunkOffset % _chunk->size();\n')]),
    ('p26-chunk-total', 'P26', [('io/ChunkedMemoryByteStream.h', '(u64)offset <= _totalSize', '(u64)offset < _totalSize + _container->size()')]),
    ('p26-chunk-current', 'P26', [('io/ChunkedMemoryByteStream.h', 'offset += static_cast<s64>(Tell());', 'offset += static_cast<s64>(_chunkOffset);')]),
    ('p25-chunk-read-no-advance', 'P25', [('io/ChunkedMemoryByteStream.h', 'if (_chunkOffset + curcount == _chunk->size())', 'if (_chunkOffset + curcount == _chunk->size() && passed + curcount < data.size())'), ('io/ChunkedMemoryByteStream.h', '\t\t\tNormalizePosition();\n\t\t\tSTINGRAYKIT_CHECK(_chunk != _container->end(), LogicException("reading from end of chunks"));\n', '\t\t\tSTINGRAYKIT_CHECK(_chunk != _container->end(), LogicException("reading from end of chunks"));\n\t\t\tif (_chunkOffset == _chunk->size())\n\t\t\t{\n\t\t\t\t++_chunk;\n\t\t\t\t_chunkOffset = 1;\n\t\t\t}\n')]),
    ('p25-chunk-append-all', 'P25', [('io/ChunkedMemoryByteStream.h', '_container->push_back(ChunkType(data.data() + passed, curcount));', '_container->push_back(ChunkType(data.data(), curcount));')]),
    ('p25-chunk-total-stale', 'P25', [('io/ChunkedMemoryByteStream.h', '\t\t\t\t\t_totalSize = TotalSize();\n', '\t\t\t\t\t_totalSize += data.size();\n')]),
    ('p24-version-no-build', 'P24', [('Version.cpp', '&Version::_minor, &Version::_build)', '&Version::_minor)')]),
    ('p24-version-or', 'P24', [('Version.cpp', '{ return CompareMembersLess(&Version::_major, &Version::_minor, &Version::_build)(*this, other); }', '{ return _major < other._major || (_major == other._major && _minor < other._minor) || (_minor == other._minor && _build < other._build); }')]),
    ('p24-unequal-and', 'P24', [('toolkit.h', '{ return (other < *this) || (*this < other); }', '{ return (other < *this) && (*this < other); }')]),
    ('p24-at-most', 'P24', [('toolkit.h', 'ConstexprInlineDecl bool operator <= (const ClassName& other) const { return Compare(other) <= 0; }', 'ConstexprInlineDecl bool operator <= (const ClassName& other) const { return Compare(other) < 0; }')]),
    ('p24-less-null', 'P24', [('compare/comparers.h', 'bool>::ValueT Compare(const Lhs& lhs, const Rhs& rhs) const\n\t\t\t{ return lhs && rhs ? Compare(*lhs, *rhs) : !lhs && rhs; }', 'bool>::ValueT Compare(const Lhs& lhs, const Rhs& rhs) const\n\t\t\t{ return lhs && rhs ? Compare(*lhs, *rhs) : !lhs; }')]),
    ('p24-equals-null', 'P24', [('compare/comparers.h', ': !lhs && !rhs; }', ': !lhs == !rhs || !rhs; }')]),
    ('p24-cmp-null-sign', 'P24', [('compare/comparers.h', 'lhs ? 1 : rhs ? -1 : 0', 'lhs ? -1 : rhs ? -1 : 0')]),
    ('p24-to-less', 'P24', [('compare/comparers.h', '{ return _comparer(lhs, rhs) < 0; }', '{ return _comparer(lhs, rhs) <= 0; }')]),
    ('p24-less-to-equals', 'P24', [('compare/comparers.h', '{ return !_lessComparer(lhs, rhs) && !_lessComparer(rhs, lhs); }', '{ return !_lessComparer(lhs, rhs) || !_lessComparer(rhs, lhs); }')]),
    ('p24-key-and', 'P24', [('log/LoggerStream.cpp', '\t\t\tif (Line != other.Line)\n\t\t\t\treturn Line < other.Line;\n\t\t\treturn strcmp(Filename, other.Filename) < 0;', '\t\t\treturn Line < other.Line || strcmp(Filename, other.Filename) < 0;')]),
    ('p24-optional-null', 'P24', [('optional.h', '{ return is_initialized() ? comparers::Cmp()(get(), other) : -1; }', '{ return is_initialized() ? comparers::Cmp()(get(), other) : 1; }')]),
    ('p24-optional-both-empty', 'P24', [('optional.h', 'Compare(other.get()) : Compare(null); }', 'Compare(other.get()) : 1; }')]),
    ('p24-locale-size-shortcut', 'P24', [('locale/LocaleString.cpp', '\t\treturn Compare(other) == 0;', '\t\treturn Text.size() == other.Text.size() && Compare(other) == 0;')]),
    ('p24-locale-encoding-only', 'P24', [('locale/LocaleString.cpp', '\t\t\treturn Text == other.Text;', '\t\t\treturn Text.size() == other.Text.size();')]),
    ('p24-collection-longer', 'P24', [('compare/CollectionComparer.h', 'return rhs ? -1 : 0;', 'return 0;')]),
    ('p24-collection-shorter', 'P24', [('compare/CollectionComparer.h', 'return 1;\n\n\t\t\t\tconst int', 'return 0;\n\n\t\t\t\tconst int')]),
    ('p24-members-positive', 'P24', [('compare/MemberListComparer.h', 'if (result != 0)\n\t\t\t\t\treturn result;', 'if (result > 0)\n\t\t\t\t\treturn result;')]),
    ('p24-bytes-prefix', 'P24', [('collection/ByteData.h', '\t\tbool operator == (const BasicByteData& other) const\n\t\t{ return size() == other.size() && std::equal', '\t\tbool operator == (const BasicByteData& other) const\n\t\t{ return size() <= other.size() && std::equal')]),
    ('p24-progress', 'P24', [('ProgressValue.h', 'return Current == other.Current && Total == other.Total;', 'return Current == other.Current || Total == other.Total;')]),
    ('p24-view-short', 'P24', [('string/string_view.h', 'return result == 0 ? size() - v.size() : result;', 'return result;')]),
    ('p24-variant-which', 'P24', [('variant.h', '\t\t\tif (this->which() != other.which())\n\t\t\t\treturn this->which() < other.which();', '\t\t\tif (this->which() > other.which())\n\t\t\t\treturn true;\n\t\t\tif (this->which() < other.which())\n\t\t\t\treturn true;')]),
    ('p24-rect-parts', 'P24', [('Rect.h', '&BasicRect::X1, &BasicRect::Y1, &BasicRect::X2, &BasicRect::Y2)', '&BasicRect::X1, &BasicRect::Y1, &BasicRect::X2, &BasicRect::X2)')]),
    ('p27-rect-swapped', 'P27', [('Rect.h', 'ar.Deserialize("x2", X2);', 'ar.Deserialize("x2", Y2);'), ('Rect.h', 'ar.Deserialize("y2", Y2);', 'ar.Deserialize("y2", X2);')]),
    ('p27-rect-name', 'P27', [('Rect.h', 'ar.Deserialize("y1", Y1);', 'ar.Deserialize("y2", Y1);'), ('Rect.h', 'ar.Deserialize("y2", Y2);', 'ar.Deserialize("y1", Y2);')]),
    ('p27-scale-default', 'P27', [('Size.h', 'ar.Deserialize("hs", HeightScale);', 'ar.Deserialize("vs", HeightScale, 1);')]),
    ('p27-locale-no-encoding', 'P27', [('locale/LocaleString.cpp', '\t\tar.Serialize("encoding", TextEncoding);\n', ''), ('locale/LocaleString.cpp', '\t\tar.Deserialize("encoding", TextEncoding);\n', '')]),
    ('p27-locale-encoding-unused', 'P27', [('locale/LocaleString.cpp', '\t\tar.Deserialize("encoding", TextEncoding);\n', '\t\tEncoding encoding;\n\t\tar.Deserialize("encoding", encoding);\n')]),
    ('p27-any-ulong', 'P27', [('any.cpp', '\t\tDESERIALIZE(ULong);', '\t\tcase Type::ULong: ar.Deserialize("val", _data.UInt); break;')]),
    ('p27-any-type-not-set', 'P27', [('any.cpp', '\t\tdefault:\n\t\t\tSTINGRAYKIT_THROW(StringBuilder() % "Unknown type: " % _type);\n\t\t}\n\n\t\t_type = type;', '\t\tdefault:\n\t\t\tSTINGRAYKIT_THROW(StringBuilder() % "Unknown type: " % _type);\n\t\t}')]),
    ('p27-any-short', 'P27', [('any.cpp', '\t\tSERIALIZE(Short);', '\t\tcase Type::Short: ar.Serialize("val", _data.Char); return;')]),
    ('p27-any-not-read', 'P27', [('any.cpp', '\t\tDESERIALIZE(Float);', '\t\tcase Type::Float: break;')]),
    ('p27-duration-fallback', 'P27', [('time/Time.cpp', '\t\tif (microseconds)\n', '\t\tif (!microseconds)\n')]),
    ('p27-duration-scaled', 'P27', [('time/Time.cpp', '_microseconds = *microseconds;', '_microseconds = *microseconds * 1000;')]),
    ('p27-duration-narrow', 'P27', [('time/Time.cpp', 'ar.Serialize("us", _microseconds);', 'ar.Serialize("us", (int)_microseconds);')]),
    ('p27-duration-ms', 'P27', [('time/Time.cpp', 'ar.Serialize("us", _microseconds);', 'ar.Serialize("ms", _microseconds / 1000);')]),
    ('p27-zone-name', 'P27', [('time/Time.cpp', 'ar.Serialize("offset", _minutesFromUtc);', 'ar.Serialize("minutes", _minutesFromUtc);')]),
    ('p27-zone-hours', 'P27', [('time/Time.cpp', 'ar.Serialize("offset", _minutesFromUtc);', 'ar.Serialize("offset", (s16)(_minutesFromUtc / 60));')]),
    ('p27-modified-swapped', 'P27', [('collection/CollectionOpVariant.h', 'ar.Serialize("oldValue", OldValue).Serialize("newValue", NewValue);', 'ar.Serialize("oldValue", NewValue).Serialize("newValue", OldValue);')]),
    ('p27-pk', 'P27', [('serialization/Serialization.h', 'if (_collection && Get(".pk"))\n\t\t\t{\n\t\t\t\tint pk;\n\t\t\t\tDeserialize(".pk", pk);', 'if (_collection && Get(".key"))\n\t\t\t{\n\t\t\t\tint pk;\n\t\t\t\tDeserialize(".key", pk);')]),
    ('p27-index', 'P27', [('serialization/Serialization.h', 'Serialize("index", v.which());', 'Serialize("type", v.which());')]),
    ('p27-alternative', 'P27', [('serialization/Serialization.h', '_oos->Deserialize("obj", val);', '_oos->Deserialize("val", val);')]),
]
SAME = [
    ('life-guard-nested', [('thread/ThreadTaskExecutor.cpp', '\t\t\tif (!guard)\n\t\t\t\treturn;\n\n\t\t\tif (_profileTimeout)', '\t\t\tconst bool allowed = static_cast<bool>(guard);\n\t\t\tif (!allowed)\n\t\t\t\treturn;\n\n\t\t\tif (_profileTimeout)')]),
    ('life-start-inverted', [('thread/TaskLifeToken.cpp', '\t\t\tif (_alive)\n\t\t\t{\n\t\t\t\t_threadId = ThreadEngine::GetCurrentThreadId();\n\t\t\t\treturn true;\n\t\t\t}\n\n\t\t\t_sync.Unlock();\n\t\t\treturn false;', '\t\t\tif (!_alive)\n\t\t\t{\n\t\t\t\t_sync.Unlock();\n\t\t\t\treturn false;\n\t\t\t}\n\n\t\t\t_threadId = ThreadEngine::GetCurrentThreadId();\n\t\t\treturn true;')]),
    ('life-guard-ctor', [('thread/TaskLifeToken.cpp', '\t\tif (!_impl)\n\t\t\treturn;\n\t\t_allow = _impl->TryStartExecution();\n\t\tif (!_allow)\n\t\t\t_impl.reset();', '\t\tif (_impl && !_impl->TryStartExecution())\n\t\t{\n\t\t\t_allow = false;\n\t\t\t_impl.reset();\n\t\t}')]),
    ('life-timer-tester-local', [('timer/Timer.cpp', 'LocalExecutionGuard guard(ci->GetExecutionTester());\n\t\t\tif (!guard)\n\t\t\t\treturn;\n', 'const FutureExecutionTester tester(ci->GetExecutionTester());\n\t\t\tLocalExecutionGuard guard(tester);\n\t\t\tif (!guard)\n\t\t\t\treturn;\n\n\t\t\tconst TaskType& task(ci->GetTask());\n'), ('timer/Timer.cpp', 'ci->GetTask()();', 'task();', 'all')]),
    ('life-signal-early', [('signal/signals.h', '\t\t\t\t\tif (guard)\n\t\t\t\t\t\t_functionStorage.ToFunction<Signature_>()(args...);', '\t\t\t\t\tif (!guard)\n\t\t\t\t\t\treturn;\n\n\t\t\t\t\tconst function<Signature_> func(_functionStorage.ToFunction<Signature_>());\n\t\t\t\t\tfunc(args...);')]),
    ('exec-helper', [('thread/ThreadTaskExecutor.cpp', '_queue.emplace_back(task, tester);\n\t\t_condVar.Broadcast();', 'DoEnqueue(task, tester);'),
                     ('thread/ThreadTaskExecutor.cpp', '\tvoid ThreadTaskExecutor::DefaultExceptionHandler', '\tvoid ThreadTaskExecutor::DoEnqueue(const TaskType& task, const FutureExecutionTester& tester)\n\t{\n\t\t_queue.emplace_back(task, tester);\n\t\t_condVar.Broadcast();\n\t}\n\n\tvoid ThreadTaskExecutor::DefaultExceptionHandler'),
                     ('thread/ThreadTaskExecutor.h', '\tprivate:\n\t\tstd::string ', '\tpublic:\n\t\tvoid DoEnqueue(const TaskType& task, const FutureExecutionTester& tester);\n\tprivate:\n\t\tstd::string ')]),
    ('exec-rename-field', [('thread/ThreadTaskExecutor.h', '_queue;', '_pendingTasks;'), ('thread/ThreadTaskExecutor.cpp', '_queue.', '_pendingTasks.', 'all')]),
    ('pagedbuffer-raw-lock-scope', [('io/PagedBuffer.cpp', 'MutexLock l(_mutex);\n\t\treturn _pageSize * _pages.size() - _startOffset - _tailSize;', 'u64 size = 0;\n\t\t{\n\t\t\tMutexLock l(_mutex);\n\t\t\tsize = _pageSize * _pages.size();\n\t\t\tsize -= _startOffset + _tailSize;\n\t\t}\n\t\treturn size;')]),
    ('obs-dict-set-ifelse', [('collection/ObservableDictionaryWrapper.h', 'const bool update = _wrapped.ContainsKey(key);\n\t\t\t_wrapped.Set(key, value);\n\t\t\t_onChanged(update ? CollectionOp::Updated : CollectionOp::Added, key, value);',
                              'CollectionOp op(CollectionOp::Added);\n\t\t\tif (_wrapped.ContainsKey(key))\n\t\t\t\top = CollectionOp::Updated;\n\t\t\t_wrapped.Set(key, value);\n\t\t\t_onChanged(op, key, value);')]),
    ('obs-list-helper', [('collection/ObservableListWrapper.h', '\t\t\tconst ValueType value = _wrapped.Get(index);\n\t\t\t_wrapped.RemoveAt(index);\n\t\t\t_onChanged(CollectionOp::Removed, index, value);\n\t\t}', '\t\t\tDoRemoveAt(index);\n\t\t}'),
                         ('collection/ObservableListWrapper.h', '\tprivate:\n\t\tvoid OnChangedPopulator', '\tprivate:\n\t\tvoid DoRemoveAt(size_t index)\n\t\t{\n\t\t\tconst ValueType value = _wrapped.Get(index);\n\t\t\t_wrapped.RemoveAt(index);\n\t\t\t_onChanged(CollectionOp::Removed, index, value);\n\t\t}\n\n\t\tvoid OnChangedPopulator')]),
    ('obs-list-add-index-before', [('collection/ObservableListWrapper.h', '_wrapped.Add(value);\n\t\t\t_onChanged(CollectionOp::Added, _wrapped.GetCount() - 1, value);', 'const size_t index = _wrapped.GetCount();\n\t\t\t_wrapped.Add(value);\n\t\t\t_onChanged(CollectionOp::Added, index, value);')]),
    ('obs-set-nested', [('collection/ObservableSetWrapper.h', 'if (!_wrapped.Add(value))\n\t\t\t\treturn false;\n\n\t\t\t_onChanged(CollectionOp::Added, value);\n\t\t\treturn true;', 'const bool added = _wrapped.Add(value);\n\t\t\tif (added)\n\t\t\t\t_onChanged(CollectionOp::Added, value);\n\t\t\treturn added;')]),
    ('obs-keys-or', [('collection/DictionaryKeysSet.h', 'if (op != CollectionOp::Updated)\n', 'if (op == CollectionOp::Added || op == CollectionOp::Removed)\n')]),
    ('obs-list-clear-loop', [('collection/ObservableListWrapper.h', 'while (!_wrapped.IsEmpty())\n\t\t\t\tRemoveAt(0);', 'for (size_t left = _wrapped.GetCount(); left > 0; --left)\n\t\t\t\tRemoveAt(0);')]),
    ('obs-kv-if', [('collection/ObservableDictionaryKeyValue.h', 'if (_comparer(_key, key))\n\t\t\t\t_onChanged(op == CollectionOp::Removed ? null : ValueType(value));', 'if (!_comparer(_key, key))\n\t\t\t\treturn;\n\n\t\t\tif (op == CollectionOp::Removed)\n\t\t\t\t_onChanged(null);\n\t\t\telse\n\t\t\t\t_onChanged(value);')]),
    ('exc-exec-helper', [('thread/ThreadTaskExecutor.cpp', '\t\t{ _exceptionHandler(ex); }', '\t\t{ ReportException(ex); }'), ('thread/ThreadTaskExecutor.cpp', '\tvoid ThreadTaskExecutor::ExecuteTask(', '\tvoid ThreadTaskExecutor::ReportException(const std::exception& ex) const\n\t{ _exceptionHandler(ex); }\n\n\n\tvoid ThreadTaskExecutor::ExecuteTask('),
                         ('thread/ThreadTaskExecutor.h', '\t\tvoid ExecuteTask(', '\t\tvoid ReportException(const std::exception& ex) const;\n\t\tvoid ExecuteTask(')]),
    ('exc-pool-inner', [('thread/ThreadPool.cpp', '\t\t\t\telse\n\t\t\t\t\ttask(token);\n\t\t\t}\n\t\t\tcatch (const std::exception& ex)\n\t\t\t{ _exceptionHandler(ex); }', '\t\t\t\telse\n\t\t\t\t{\n\t\t\t\t\ttask(token);\n\t\t\t\t}\n\t\t\t}\n\t\t\tcatch (const std::exception& error)\n\t\t\t{\n\t\t\t\tconst std::exception& ref = error;\n\t\t\t\t_exceptionHandler(ref);\n\t\t\t}')]),
    ('exc-async-split', [('function/AsyncFunction.h', '{ _promise->set_exception(MakeExceptionPtr(ex)); }', '{\n\t\t\t\t\t\tconst ExceptionPtr ptr = MakeExceptionPtr(ex);\n\t\t\t\t\t\t_promise->set_exception(ptr);\n\t\t\t\t\t}')]),
    ('exc-signal-range', [('signal/signals.h', '\t\t\t\tfor (typename base::LocalHandlersCopy::const_iterator it = localCopy.begin(); it != localCopy.end(); ++it)\n\t\t\t\t\tWRAP_EXCEPTION_HANDLING(this->GetExceptionHandler(), it->template Invoke<Signature, Ts...>(args...));',
                           '\t\t\t\tfor (const auto& handler : localCopy)\n\t\t\t\t{\n\t\t\t\t\ttry\n\t\t\t\t\t{ handler.template Invoke<Signature, Ts...>(args...); }\n\t\t\t\t\tcatch (const std::exception& e)\n\t\t\t\t\t{ this->GetExceptionHandler()(e); }\n\t\t\t\t}')]),
    ('exc-logger-index', [('log/Logger.cpp', '\t\t\t\tfor (const ILoggerSinkPtr& sink : sinks)\n\t\t\t\t{\n\t\t\t\t\ttry\n\t\t\t\t\t{ sink->Log(message); }\n\t\t\t\t\tcatch (const std::exception&)\n\t\t\t\t\t{ }', '\t\t\t\tfor (auto it = sinks.begin(); it != sinks.end(); ++it)\n\t\t\t\t{\n\t\t\t\t\tconst ILoggerSinkPtr& sink = *it;\n\t\t\t\t\ttry\n\t\t\t\t\t{ sink->Log(message); }\n\t\t\t\t\tcatch (const std::exception&)\n\t\t\t\t\t{ continue; }')]),
    ('sig-policy-switch', [('signal/signal_connector.h', 'STINGRAYKIT_CHECK(_impl->GetConnectionPolicy() == ConnectionPolicy::Any || _impl->GetConnectionPolicy() == ConnectionPolicy::AsyncOnly, "async-connect to sync-only signal");', 'const ConnectionPolicy policy = _impl->GetConnectionPolicy();\n\t\t\tSTINGRAYKIT_CHECK(policy != ConnectionPolicy::SyncOnly, "async-connect to sync-only signal");')]),
    ('sig-connect-helper', [('signal/signals.h', '\t\t\tTaskLifeToken token(_impl->CreateSyncToken());\n\t\t\tconst FutureExecutionTester tester(token.GetExecutionTester());\n\n\t\t\treturn _impl->Connect(function_storage(slot), tester, std::move(token), sendCurrentState);\n\t\t}', '\t\t\treturn DoConnect(_impl->CreateSyncToken(), slot, sendCurrentState);\n\t\t}\n\n\t\tToken DoConnect(TaskLifeToken&& token, const function<Signature>& slot, bool sendCurrentState) const\n\t\t{\n\t\t\tconst FutureExecutionTester tester(token.GetExecutionTester());\n\t\t\tconst function_storage storage(slot);\n\t\t\treturn _impl->Connect(storage, tester, std::move(token), sendCurrentState);\n\t\t}')]),
    ('sig-copy-loop', [('signal/signals.h', '{ std::copy(_handlers.begin(), _handlers.end(), std::back_inserter(localCopy)); }', '{\n\t\t\t\tfor (const auto& handler : _handlers)\n\t\t\t\t\tlocalCopy.push_back(handler);\n\t\t\t}')]),
    ('sig-connect-var', [('signal/signals.h', '\t\t\t\tif (sendCurrentState)\n\t\t\t\t\tDoSendCurrentState(func);\n\n\t\t\t\treturn MakeToken<Connection>(ImplPtr(self_count_ptr_from_this(), static_cast_tag()), func, invokeTester, std::move(connectionToken));', '\t\t\t\tconst ImplPtr self(self_count_ptr_from_this(), static_cast_tag());\n\t\t\t\tif (sendCurrentState)\n\t\t\t\t\tself->DoSendCurrentState(func);\n\n\t\t\t\tToken connection = MakeToken<Connection>(self, func, invokeTester, std::move(connectionToken));\n\t\t\t\treturn connection;')]),
    ('sig-connector-nested', [('signal/signal_connector.h', '\t\t\tif (STINGRAYKIT_LIKELY(_impl.is_initialized()))\n\t\t\t\t_impl->SendCurrentState(function_storage(slot));', '\t\t\tif (!_impl)\n\t\t\t\treturn;\n\t\t\tconst function_storage storage(slot);\n\t\t\t_impl->SendCurrentState(storage);')]),
    ('sig-emit-early', [('signal/signals.h', '\t\t\tif (_impl)\n\t\t\t\t_impl->InvokeAll(args...);', '\t\t\tif (!_impl)\n\t\t\t\treturn;\n\t\t\tconst ImplPtr impl = _impl;\n\t\t\timpl->InvokeAll(args...);')]),
    ('fut-wait-for', [('future.h', '\t\t\t\twhile (!_result.has_value() && !_result.has_exception())\n\t\t\t\t\tswitch (_condition.Wait(_mutex, token))\n\t\t\t\t\t{\n\t\t\t\t\tcase ConditionWaitResult::Broadcasted:\tcontinue;\n\t\t\t\t\tcase ConditionWaitResult::Cancelled:\treturn future_status::cancelled;\n\t\t\t\t\tcase ConditionWaitResult::TimedOut:\t\treturn future_status::timeout;\n\t\t\t\t\t}\n\n\t\t\t\treturn future_status::ready;\n', '\t\t\t\tfor (;;)\n\t\t\t\t{\n\t\t\t\t\tif (_result.has_value() || _result.has_exception())\n\t\t\t\t\t\treturn future_status::ready;\n\n\t\t\t\t\tconst ConditionWaitResult res = _condition.Wait(_mutex, token);\n\t\t\t\t\tif (res == ConditionWaitResult::Cancelled)\n\t\t\t\t\t\treturn future_status::cancelled;\n\t\t\t\t\tif (res == ConditionWaitResult::TimedOut)\n\t\t\t\t\t\treturn future_status::timeout;\n\t\t\t\t}\n')]),
    ('fut-wait-result-var', [('future.h', '\t\t\t\twhile (!_result.has_value() && !_result.has_exception())\n\t\t\t\t\tswitch (_condition.Wait(_mutex, token))\n\t\t\t\t\t{\n\t\t\t\t\tcase ConditionWaitResult::Broadcasted:\tcontinue;\n\t\t\t\t\tcase ConditionWaitResult::Cancelled:\treturn future_status::cancelled;\n\t\t\t\t\tcase ConditionWaitResult::TimedOut:\t\treturn future_status::timeout;\n\t\t\t\t\t}\n\n\t\t\t\treturn future_status::ready;\n', '\t\t\t\tfuture_status ret(future_status::ready);\n\t\t\t\twhile (!has_result() && ret == future_status::ready)\n\t\t\t\t{\n\t\t\t\t\tconst ConditionWaitResult res = _condition.Wait(_mutex, token);\n\t\t\t\t\tif (res == ConditionWaitResult::Cancelled)\n\t\t\t\t\t\tret = future_status::cancelled;\n\t\t\t\t\telse if (res == ConditionWaitResult::TimedOut)\n\t\t\t\t\t\tret = future_status::timeout;\n\t\t\t\t}\n\n\t\t\t\treturn ret;\n'), ('future.h', '\t\tprotected:\n\t\t\tvoid notify_ready()', '\t\tprotected:\n\t\t\tbool has_result() const\n\t\t\t{ return _result.has_value() || _result.has_exception(); }\n\n\t\t\tvoid notify_ready()')]),
    ('fut-setexc-nested', [('future.h', 'if (is_ready())\n\t\t\t\t\treturn;\n\n\t\t\t\t_result = ResultType(ex);\n\t\t\t\tnotify_ready();', 'if (!is_ready())\n\t\t\t\t{\n\t\t\t\t\tconst ResultType result(ex);\n\t\t\t\t\t_result = result;\n\t\t\t\t\tnotify_ready();\n\t\t\t\t}')]),
    ('fut-get-swap', [('future.h', 'shared_ptr<ImplType> impl(_impl);\n\t\t\t_impl.reset();\n\t\t\treturn impl->get();', 'shared_ptr<ImplType> impl;\n\t\t\timpl.swap(_impl);\n\t\t\treturn impl->get();')]),
    ('fut-get-future', [('future.h', '{ STINGRAYKIT_CHECK(!_futureRetrieved, FutureAlreadyRetrieved()); _futureRetrieved = true; return future<ResultType>(_futureImpl); }', '{\n\t\t\tif (_futureRetrieved)\n\t\t\t\tSTINGRAYKIT_THROW(FutureAlreadyRetrieved());\n\n\t\t\tconst future<ResultType> result(_futureImpl);\n\t\t\t_futureRetrieved = true;\n\t\t\treturn result;\n\t\t}', 'all')]),
    ('fut-broken-var', [('future.h', '{ _futureImpl->set_exception(MakeExceptionPtr(BrokenPromise())); }', '{\n\t\t\tconst BrokenPromise broken;\n\t\t\tconst ExceptionPtr ex(MakeExceptionPtr(broken));\n\t\t\t_futureImpl->set_exception(ex);\n\t\t}', 'all')]),
    ('fut-async-var', [('function/AsyncFunction.h', '{ _promise->set_value(FunctorInvoker::InvokeArgs(_func)); }', '{\n\t\t\t\t\t\tRetType_ result(FunctorInvoker::InvokeArgs(_func));\n\t\t\t\t\t\tpromise<RetType_>& p = *_promise;\n\t\t\t\t\t\tp.set_value(result);\n\t\t\t\t\t}')]),
    ('fut-async-future-first', [('function/AsyncFunction.h', '_executor->AddTask(FuncWrapper<RetType_, BoundFunctor_>(std::forward<BoundFunctor_>(func), promise), _tester);\n\t\t\t\treturn promise->get_future();', 'const FuncWrapper<RetType_, BoundFunctor_> task(std::forward<BoundFunctor_>(func), promise);\n\t\t\t\tconst future<RetType_> result(promise->get_future());\n\t\t\t\t_executor->AddTask(task, _tester);\n\t\t\t\treturn result;')]),
    ('fut-handle-helper', [('future.h', 'ResultType get() const\t\t\t{ check_valid(); return _impl->get(); }', 'ResultType get() const\t\t\t{ return checked_impl().get(); }'), ('future.h', '\tprivate:\n\t\tshared_future(const ImplPtr& impl) : _impl(impl) {}', '\tprivate:\n\t\tDetail::future_impl<ResultType>& checked_impl() const\n\t\t{\n\t\t\tcheck_valid();\n\t\t\treturn *_impl;\n\t\t}\n\n\t\tshared_future(const ImplPtr& impl) : _impl(impl) {}')]),
    ('set-remove-count', [('collection/GenericSet.h', 'const auto it = _items->find(value);\n\t\t\tif (it == _items->end())\n\t\t\t\treturn false;\n\n\t\t\tif (CopyOnWrite())\n\t\t\t\t_items->erase(value);\n\t\t\telse\n\t\t\t\t_items->erase(it);\n\n\t\t\treturn true;', 'if (_items->count(value) == 0)\n\t\t\t\treturn false;\n\n\t\t\tCopyOnWrite();\n\t\t\t_items->erase(value);\n\t\t\treturn true;')]),
    ('set-remove-erase-result', [('collection/GenericSet.h', 'if (CopyOnWrite())\n\t\t\t\t_items->erase(value);\n\t\t\telse\n\t\t\t\t_items->erase(it);\n\n\t\t\treturn true;', 'CopyOnWrite();\n\t\t\treturn _items->erase(value) > 0;')]),
    ('set-where-continue', [('collection/GenericSet.h', 'if (pred(*it))\n\t\t\t\t{\n\t\t\t\t\tit = _items->erase(it);\n\t\t\t\t\t++ret;\n\t\t\t\t}\n\t\t\t\telse\n\t\t\t\t\t++it;', 'if (!pred(*it))\n\t\t\t\t{\n\t\t\t\t\t++it;\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\t_items->erase(it++);\n\t\t\t\tret += 1;')]),
    ('set-holder-if', [('collection/GenericSet.h', 'HolderPtr itemsHolder = _itemsHolder.lock();\n\n\t\t\tif (!itemsHolder)\n\t\t\t\t_itemsHolder = (itemsHolder = make_shared_ptr<Holder>(_items));\n\n\t\t\treturn itemsHolder;', 'if (const HolderPtr alive = _itemsHolder.lock())\n\t\t\t\treturn alive;\n\n\t\t\tconst HolderPtr created = make_shared_ptr<Holder>(_items);\n\t\t\t_itemsHolder = created;\n\t\t\treturn created;')]),
    ('set-clear-turned', [('collection/GenericSet.h', 'if (_itemsHolder.expired())\n\t\t\t\t_items->clear();\n\t\t\telse\n\t\t\t{\n\t\t\t\t_items = make_shared_ptr<SetType>();\n\t\t\t\t_itemsHolder.reset();\n\t\t\t}', 'if (!_itemsHolder.expired())\n\t\t\t{\n\t\t\t\t_itemsHolder.reset();\n\t\t\t\tconst SetTypePtr fresh = make_shared_ptr<SetType>();\n\t\t\t\t_items = fresh;\n\t\t\t\treturn;\n\t\t\t}\n\t\t\t_items->clear();')]),
    ('dict-tryget-early', [('collection/GenericDictionary.h', 'if (it != _map->end())\n\t\t\t{\n\t\t\t\toutValue = it->second;\n\t\t\t\treturn true;\n\t\t\t}\n\t\t\telse\n\t\t\t\treturn false;', 'const bool found = it != _map->end();\n\t\t\tif (found)\n\t\t\t\toutValue = (*it).second;\n\t\t\treturn found;')]),
    ('dict-set-insert', [('collection/GenericDictionary.h', '\t\t\tif (it != _map->end() && !typename MapType__::key_compare()(key, it->first))\n\t\t\t\tit->second = value;\n\t\t\telse\n\t\t\t\t_map->emplace_hint(it, key, value);', '\t\t\tconst bool absent = it == _map->end() || typename MapType__::key_compare()(key, it->first);\n\t\t\tif (absent)\n\t\t\t{\n\t\t\t\t_map->emplace(key, value);\n\t\t\t\treturn;\n\t\t\t}\n\t\t\tit->second = value;')]),
    ('dict-add-helper', [('collection/GenericDictionary.h', '\t\tvoid CopyMap(const MapTypePtr& map)', '\t\tbool HasKey(const KeyType& key) const\n\t\t{ return _map->count(key) != 0; }\n\n\t\tvoid CopyMap(const MapTypePtr& map)'), ('collection/GenericDictionary.h', '{ return _map->find(key) != _map->end(); }', '{ return HasKey(key); }')]),
    ('ms-removefirst-cow-first', [('collection/SortedMultiSet.h', 'if (CopyOnWrite())\n\t\t\t\t_items->erase(_items->lower_bound(value));\n\t\t\telse\n\t\t\t\t_items->erase(it);', 'CopyOnWrite();\n\t\t\t_items->erase(_items->find(value) == _items->end() ? _items->end() : _items->lower_bound(value));')]),
    ('ms-removeall-while', [('collection/SortedMultiSet.h', 'size_t ret = 0;\n\t\t\tfor (auto it = range.first; it != range.second; )\n\t\t\t{\n\t\t\t\tit = _items->erase(it);\n\t\t\t\t++ret;\n\t\t\t}\n\n\t\t\treturn ret;', 'size_t removed = 0;\n\t\t\tauto it = range.first;\n\t\t\twhile (it != range.second)\n\t\t\t{\n\t\t\t\t_items->erase(it++);\n\t\t\t\tremoved++;\n\t\t\t}\n\n\t\t\treturn removed;')]),
    ('ms-removeall-range', [('collection/SortedMultiSet.h', 'if (CopyOnWrite())\n\t\t\t\treturn _items->erase(value);\n\n\t\t\tsize_t ret = 0;\n\t\t\tfor (auto it = range.first; it != range.second; )\n\t\t\t{\n\t\t\t\tit = _items->erase(it);\n\t\t\t\t++ret;\n\t\t\t}\n\n\t\t\treturn ret;', 'const size_t ret = std::distance(range.first, range.second);\n\t\t\tif (CopyOnWrite())\n\t\t\t\t_items->erase(value);\n\t\t\telse\n\t\t\t\t_items->erase(range.first, range.second);\n\t\t\treturn ret;')]),
    ('mm-add-insert', [('collection/MultiMapDictionary.h', '_map->emplace(key, value);', '_map->insert(typename MapType::value_type(key, value));')]),
    ('list-removeall-swap', [('collection/GenericList.h', 'CopyOnWrite();\n\t\t\tconst auto it = std::remove_if(_items->begin(), _items->end(), pred);', 'CopyOnWrite();\n\t\t\tVectorType& items = *_items;\n\t\t\tconst auto it = std::remove_if(items.begin(), items.end(), pred);')]),
    ('set-size-before-after', [('collection/GenericSet.h', '\t\t\tsize_t ret = 0;\n\t\t\tfor (auto it = _items->begin(); it != _items->end(); )\n\t\t\t{\n\t\t\t\tif (pred(*it))\n\t\t\t\t{\n\t\t\t\t\tit = _items->erase(it);\n\t\t\t\t\t++ret;\n\t\t\t\t}\n\t\t\t\telse\n\t\t\t\t\t++it;\n\t\t\t}\n\t\t\treturn ret;', '\t\t\tconst size_t before = _items->size();\n\t\t\tfor (auto it = _items->begin(); it != _items->end(); )\n\t\t\t{\n\t\t\t\tif (pred(*it))\n\t\t\t\t\tit = _items->erase(it);\n\t\t\t\telse\n\t\t\t\t\t++it;\n\t\t\t}\n\t\t\treturn before - _items->size();')]),
    ('set-add-size', [('collection/GenericSet.h', '\t\t\tCopyOnWrite();\n\t\t\treturn _items->insert(value).second;', '\t\t\tCopyOnWrite();\n\t\t\tconst size_t before = _items->size();\n\t\t\t_items->insert(value);\n\t\t\treturn _items->size() != before;')]),
    ('trans-set-add-swapped', [('collection/TransactionalSet.h', '\t\t\t\tif (_removed->count(value))\n\t\t\t\t{\n\t\t\t\t\tCopyRemovedOnWrite(_removed.get());\n\t\t\t\t\t_removed->erase(value);\n\t\t\t\t\treturn true;\n\t\t\t\t}\n\t\t\t\telse if (!_added->count(value) && !_impl->Items->count(value))\n\t\t\t\t{\n\t\t\t\t\tCopyAddedOnWrite(_added.get());\n\t\t\t\t\t_added->insert(value);\n\t\t\t\t\treturn true;\n\t\t\t\t}\n\n\t\t\t\treturn false;\n', '\t\t\t\tconst bool known = _impl->Items->count(value) != 0;\n\t\t\t\tif (!known)\n\t\t\t\t{\n\t\t\t\t\tif (_added->count(value))\n\t\t\t\t\t\treturn false;\n\t\t\t\t\tCopyAddedOnWrite(_added.get());\n\t\t\t\t\treturn _added->insert(value).second;\n\t\t\t\t}\n\n\t\t\t\tif (!_removed->count(value))\n\t\t\t\t\treturn false;\n\n\t\t\t\tCopyRemovedOnWrite(_removed.get());\n\t\t\t\t_removed->erase(value);\n\t\t\t\treturn true;\n')]),
    ('trans-dict-set-find', [('collection/TransactionalDictionary.h', 'if (!_removed->count(itemsIt->first))', 'if (_removed->find(key) == _removed->end())'), ('collection/TransactionalDictionary.h', '\t\t\t\tconst auto addedIt = _added->find(key);\n\t\t\t\tif (addedIt != _added->end())\n\t\t\t\t{\n\t\t\t\t\tif (!ValueEqualsComparer()(value, addedIt->second))\n\t\t\t\t\t{\n\t\t\t\t\t\tCopyAddedOnWrite(_added.get());\n\t\t\t\t\t\t(*_added)[key] = value;\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\telse\n\t\t\t\t{\n\t\t\t\t\tCopyAddedOnWrite(_added.get());\n\t\t\t\t\t_added->emplace(key, value);\n\t\t\t\t}\n', '\t\t\t\tCopyAddedOnWrite(_added.get());\n\t\t\t\t(*_added)[key] = value;\n')]),
    ('trans-dict-commit-helper', [('collection/TransactionalDictionary.h', '\t\t\t\t\tfor (const MapValueType& pair : *_removed)\n\t\t\t\t\t\t_impl->Items->erase(pair.first);\n', '\t\t\t\t\tEraseRemoved();\n'), ('collection/TransactionalDictionary.h', '\t\tprivate:\n\t\t\tHolderPtr GetAddedHolder() const\n', '\t\tprivate:\n\t\t\tvoid EraseRemoved()\n\t\t\t{\n\t\t\t\tfor (auto it = _removed->begin(); it != _removed->end(); ++it)\n\t\t\t\t\t_impl->Items->erase(it->first);\n\t\t\t}\n\n\t\t\tHolderPtr GetAddedHolder() const\n')]),
    ('trans-set-commit-isdirty', [('collection/TransactionalSet.h', 'if (_added->empty() && _removed->empty())\n\t\t\t\t\treturn;\n\n\t\t\t\tconst DiffTypePtr diff = Diff();', 'if (!IsDirty())\n\t\t\t\t\treturn;\n\n\t\t\t\tDiffTypePtr diff = Diff();')]),
    ('trans-set-where-while', [('collection/TransactionalSet.h', '\t\t\t\tfor (const ValueType& value : *_impl->Items)\n\t\t\t\t{\n\t\t\t\t\tif (_removed->count(value) || !pred(value))\n\t\t\t\t\t\tcontinue;\n\n\t\t\t\t\t_removed->insert(value);\n\t\t\t\t\t++ret;\n\t\t\t\t}\n', '\t\t\t\tfor (auto it = _impl->Items->begin(); it != _impl->Items->end(); ++it)\n\t\t\t\t{\n\t\t\t\t\tif (!_removed->count(*it) && pred(*it))\n\t\t\t\t\t{\n\t\t\t\t\t\t_removed->insert(*it);\n\t\t\t\t\t\tret += 1;\n\t\t\t\t\t}\n\t\t\t\t}\n')]),
    ('trans-dict-isdirty', [('collection/TransactionalDictionary.h', 'return !_added->empty() || !_removed->empty();', 'return !(_added->empty() && _removed->empty());')]),
    ('trans-dict-containskey', [('collection/TransactionalDictionary.h', 'return _added->count(key) || (_impl->Items->count(key) && !_removed->count(key));', 'if (_added->count(key))\n\t\t\t\t\treturn true;\n\t\t\t\tif (_removed->count(key))\n\t\t\t\t\treturn false;\n\t\t\t\treturn _impl->Items->count(key) > 0;')]),
    ('list-removeat-plus', [('collection/GenericList.h', '_items->erase(std::next(_items->begin(), index));', '_items->erase(_items->begin() + index);', 'all')]),
    ('list-add-insert-end', [('collection/GenericList.h', '_items->push_back(value)', '_items->insert(_items->end(), value)')]),
    ('list-isempty-size', [('collection/GenericList.h', '{ return _items->empty(); }', '{ return _items->size() == 0; }'), ('collection/TransactionalList.h', 'return _impl->Items->empty();', 'return _impl->Items->size() == 0;'), ('collection/TransactionalList.h', '_newItems ? _newItems->empty() : _oldItems->empty()', '(_newItems ? _newItems->size() : _oldItems->size()) == 0')]),
    ('list-indexof-loop', [('collection/GenericList.h', 'const auto it = std::find(_items->begin(), _items->end(), value);\n\t\t\treturn it == _items->end() ? null : make_optional_value(std::distance(_items->begin(), it));', 'for (size_t i = 0; i < _items->size(); ++i)\n\t\t\t\tif ((*_items)[i] == value)\n\t\t\t\t\treturn i;\n\t\t\treturn null;')]),
    ('list-contains-indexof', [('collection/GenericList.h', 'return std::find(_items->begin(), _items->end(), value) != _items->end();', 'return IndexOf(value).is_initialized();')]),
    ('list-get-tryget', [('collection/GenericList.h', 'STINGRAYKIT_CHECK(index < _items->size(), IndexOutOfRangeException(index, _items->size()));\n\t\t\treturn (*_items)[index];', 'if (index >= _items->size())\n\t\t\t\tSTINGRAYKIT_THROW(IndexOutOfRangeException(index, _items->size()));\n\t\t\treturn _items->at(index);')]),
    ('list-remove-removeat', [('collection/GenericList.h', 'const size_t index = std::distance(_items->begin(), it);\n\n\t\t\tCopyOnWrite();\n\t\t\t_items->erase(std::next(_items->begin(), index));\n\t\t\treturn true;', 'RemoveAt(std::distance(_items->begin(), it));\n\t\t\treturn true;')]),
    ('list-clear-swap', [('collection/GenericList.h', '_items->clear();', 'VectorType().swap(*_items);')]),
    ('list-check-helper', [('collection/GenericList.h', 'private:\n\t\tvoid CopyItems', 'private:\n\t\tvoid CheckIndex(size_t index, size_t limit) const\n\t\t{\n\t\t\tif (index >= limit)\n\t\t\t\tSTINGRAYKIT_THROW(IndexOutOfRangeException(index, _items->size()));\n\t\t}\n\n\t\tvoid CopyItems'), ('collection/GenericList.h', 'STINGRAYKIT_CHECK(index < _items->size(), IndexOutOfRangeException(index, _items->size()));', 'CheckIndex(index, _items->size());', 'all'), ('collection/GenericList.h', 'STINGRAYKIT_CHECK(index <= _items->size(), IndexOutOfRangeException(index, _items->size()));', 'CheckIndex(index, _items->size() + 1);')]),
    ('tlist-items-helper', [('collection/TransactionalList.h', 'const VectorType& items = _newItems ? *_newItems : *_oldItems;', 'const VectorType& items = CurrentItems();', 'all'), ('collection/TransactionalList.h', '\t\tprivate:\n\t\t\tHolderPtr GetItemsHolder() const\n', '\t\tprivate:\n\t\t\tconst VectorType& CurrentItems() const\n\t\t\t{\n\t\t\t\tif (_newItems)\n\t\t\t\t\treturn *_newItems;\n\t\t\t\treturn *_oldItems;\n\t\t\t}\n\n\t\t\tHolderPtr GetItemsHolder() const\n')]),
    ('tlist-commit-helper', [('collection/TransactionalList.h', 'const DiffTypePtr diff = _cachedDiff ? _cachedDiff : Utils::MakeDiff(_oldItems, _newItems);', 'const DiffTypePtr diff = Diff();')]),
    ('tlist-commit-early', [('collection/TransactionalList.h', 'if (_newItems)\n\t\t\t\t{\n\t\t\t\t\tconst DiffTypePtr diff', 'if (!_newItems)\n\t\t\t\t{\n\t\t\t\t\tResetWrite();\n\t\t\t\t\treturn;\n\t\t\t\t}\n\n\t\t\t\t{\n\t\t\t\t\tconst DiffTypePtr diff')]),
    ('tlist-makediff-split', [('collection/TransactionalList.h', 'for (size_t index = 0, tailIndex = 0; index < oldSize || index < newSize; ++index)\n\t\t\t\t{\n\t\t\t\t\tif (index >= newSize)\n\t\t\t\t\t\tdiff->emplace_back(CollectionOp::Removed, PairType(index - tailIndex++, (*oldItems)[index]));\n\t\t\t\t\telse if (index >= oldSize)\n\t\t\t\t\t\tdiff->emplace_back(CollectionOp::Added, PairType(index, (*newItems)[index]));\n\t\t\t\t\telse if (!', 'const size_t common = std::min(oldSize, newSize);\n\t\t\t\tfor (size_t index = common; index < oldSize; ++index)\n\t\t\t\t\tdiff->emplace_back(CollectionOp::Removed, PairType(common, (*oldItems)[index]));\n\t\t\t\tfor (size_t index = common; index < newSize; ++index)\n\t\t\t\t\tdiff->emplace_back(CollectionOp::Added, PairType(index, (*newItems)[index]));\n\t\t\t\tfor (size_t index = 0; index < common; ++index)\n\t\t\t\t{\n\t\t\t\t\tif (!')]),
    ('tlist-apply-if', [('collection/TransactionalList.h', 'switch (entry.Op)\n\t\t\t\t{\n\t\t\t\tcase CollectionOp::Added:\n\t\t\t\t\tInsert(entry.Item.Key, entry.Item.Value);\n\t\t\t\t\tbreak;\n\t\t\t\tcase CollectionOp::Updated:\n\t\t\t\t\tSet(entry.Item.Key, entry.Item.Value);\n\t\t\t\t\tbreak;\n\t\t\t\tcase CollectionOp::Removed:\n\t\t\t\t\tRemoveAt(entry.Item.Key);\n\t\t\t\t\tbreak;\n\t\t\t\t}', 'const size_t index = entry.Item.Key;\n\t\t\t\tif (entry.Op == CollectionOp::Removed)\n\t\t\t\t\tRemoveAt(index);\n\t\t\t\telse if (entry.Op == CollectionOp::Updated)\n\t\t\t\t\tSet(index, entry.Item.Value);\n\t\t\t\telse\n\t\t\t\t\tInsert(index, entry.Item.Value);')]),
    ('tlist-reset-order', [('collection/TransactionalList.h', '_cachedDiff.reset();\n\t\t\t\t_newItems.reset();\n\t\t\t\t_newItemsHolder.reset();', '_newItemsHolder.reset();\n\t\t\t\t_newItems.reset();\n\t\t\t\t_cachedDiff.reset();')]),
    ('tlist-diff-if', [('collection/TransactionalList.h', 'return _newItems ? _cachedDiff = Utils::MakeDiff(_oldItems, _newItems) : MakeEmptyEnumerable();', 'if (!_newItems)\n\t\t\t\t\treturn MakeEmptyEnumerable();\n\n\t\t\t\t_cachedDiff = Utils::MakeDiff(_oldItems, _newItems);\n\t\t\t\treturn _cachedDiff;')]),
    ('excl-list-forever', [('collection/TransactionalList.h', 'while (_impl->HasTransaction)\n\t\t\t\t{\n', 'while (true)\n\t\t\t\t{\n\t\t\t\t\tif (!_impl->HasTransaction)\n\t\t\t\t\t\tbreak;\n\n')]),
    ('excl-list-ifs', [('collection/TransactionalList.h', 'switch (_impl->TransactionCompleted.Wait(*_impl->Guard, token))\n\t\t\t\t\t{\n\t\t\t\t\tcase ConditionWaitResult::Broadcasted:\tcontinue;\n\t\t\t\t\tcase ConditionWaitResult::Cancelled:\tSTINGRAYKIT_THROW(OperationCancelledException());\n\t\t\t\t\tcase ConditionWaitResult::TimedOut:\t\tSTINGRAYKIT_THROW(TimeoutException());\n\t\t\t\t\t}', 'const ConditionWaitResult result = _impl->TransactionCompleted.Wait(*_impl->Guard, token);\n\t\t\t\t\tSTINGRAYKIT_CHECK(result != ConditionWaitResult::Cancelled, OperationCancelledException());\n\t\t\t\t\tSTINGRAYKIT_CHECK(result != ConditionWaitResult::TimedOut, TimeoutException());')]),
    ('excl-list-dtor', [('collection/TransactionalList.h', '_impl->HasTransaction = false;\n\t\t\t\tSTINGRAYKIT_TRY_NO_MESSAGE(_impl->TransactionCompleted.Broadcast());', 'STINGRAYKIT_TRY_NO_MESSAGE(_impl->TransactionCompleted.Broadcast());\n\t\t\t\t_impl->HasTransaction = false;')]),
    ('excl-set-forever', [('collection/TransactionalSet.h', 'while (_impl->HasTransaction)\n\t\t\t\t{\n', 'while (true)\n\t\t\t\t{\n\t\t\t\t\tif (!_impl->HasTransaction)\n\t\t\t\t\t\tbreak;\n\n')]),
    ('excl-set-ifs', [('collection/TransactionalSet.h', 'switch (_impl->TransactionCompleted.Wait(*_impl->Guard, token))\n\t\t\t\t\t{\n\t\t\t\t\tcase ConditionWaitResult::Broadcasted:\tcontinue;\n\t\t\t\t\tcase ConditionWaitResult::Cancelled:\tSTINGRAYKIT_THROW(OperationCancelledException());\n\t\t\t\t\tcase ConditionWaitResult::TimedOut:\t\tSTINGRAYKIT_THROW(TimeoutException());\n\t\t\t\t\t}', 'const ConditionWaitResult result = _impl->TransactionCompleted.Wait(*_impl->Guard, token);\n\t\t\t\t\tSTINGRAYKIT_CHECK(result != ConditionWaitResult::Cancelled, OperationCancelledException());\n\t\t\t\t\tSTINGRAYKIT_CHECK(result != ConditionWaitResult::TimedOut, TimeoutException());')]),
    ('excl-set-dtor', [('collection/TransactionalSet.h', '_impl->HasTransaction = false;\n\t\t\t\tSTINGRAYKIT_TRY_NO_MESSAGE(_impl->TransactionCompleted.Broadcast());', 'STINGRAYKIT_TRY_NO_MESSAGE(_impl->TransactionCompleted.Broadcast());\n\t\t\t\t_impl->HasTransaction = false;')]),
    ('excl-dict-forever', [('collection/TransactionalDictionary.h', 'while (_impl->HasTransaction)\n\t\t\t\t{\n', 'while (true)\n\t\t\t\t{\n\t\t\t\t\tif (!_impl->HasTransaction)\n\t\t\t\t\t\tbreak;\n\n')]),
    ('excl-dict-ifs', [('collection/TransactionalDictionary.h', 'switch (_impl->TransactionCompleted.Wait(*_impl->Guard, token))\n\t\t\t\t\t{\n\t\t\t\t\tcase ConditionWaitResult::Broadcasted:\tcontinue;\n\t\t\t\t\tcase ConditionWaitResult::Cancelled:\tSTINGRAYKIT_THROW(OperationCancelledException());\n\t\t\t\t\tcase ConditionWaitResult::TimedOut:\t\tSTINGRAYKIT_THROW(TimeoutException());\n\t\t\t\t\t}', 'const ConditionWaitResult result = _impl->TransactionCompleted.Wait(*_impl->Guard, token);\n\t\t\t\t\tSTINGRAYKIT_CHECK(result != ConditionWaitResult::Cancelled, OperationCancelledException());\n\t\t\t\t\tSTINGRAYKIT_CHECK(result != ConditionWaitResult::TimedOut, TimeoutException());')]),
    ('excl-dict-dtor', [('collection/TransactionalDictionary.h', '_impl->HasTransaction = false;\n\t\t\t\tSTINGRAYKIT_TRY_NO_MESSAGE(_impl->TransactionCompleted.Broadcast());', 'STINGRAYKIT_TRY_NO_MESSAGE(_impl->TransactionCompleted.Broadcast());\n\t\t\t\t_impl->HasTransaction = false;')]),
    ('merge-get-ifs', [('collection/TransactionHelpers.h', 'switch (_entryType)\n\t\t\t{\n\t\t\tcase EntryType::Items:\t\treturn _direction.ToItem(*_itemsIt);\n\t\t\tcase EntryType::Added:\t\treturn _direction.ToItem(*_addedIt);\n\t\t\tdefault:\n\t\t\t\tbreak;\n\t\t\t}\n', 'if (_entryType == EntryType::Items)\n\t\t\t\treturn _direction.ToItem(*_itemsIt);\n\t\t\tif (_entryType == EntryType::Added)\n\t\t\t\treturn _direction.ToItem(*_addedIt);\n')]),
    ('merge-next-while', [('collection/TransactionHelpers.h', 'do {\n\t\t\t\tswitch (_entryType)', 'while (true)\n\t\t\t{\n\t\t\t\tswitch (_entryType)'), ('collection/TransactionHelpers.h', 'UpdateEntryType();\n\t\t\t} while (_entryType == EntryType::Removed);', 'UpdateEntryType();\n\t\t\t\tif (_entryType != EntryType::Removed)\n\t\t\t\t\treturn;\n\t\t\t}')]),
    ('merge-update-order', [('collection/TransactionHelpers.h', 'if (_itemsIt == _direction.End(*_items))\n\t\t\t{\n\t\t\t\t_entryType = _addedIt != _direction.End(*_added) ? EntryType::Added : EntryType::None;\n\t\t\t\treturn;\n\t\t\t}\n\n\t\t\tif (_addedIt != _direction.End(*_added) && LessComparer()(*_addedIt, *_itemsIt))', 'const bool itemsEnded = _itemsIt == _direction.End(*_items);\n\t\t\tconst bool hasAdded = _addedIt != _direction.End(*_added);\n\t\t\tif (itemsEnded && !hasAdded)\n\t\t\t{\n\t\t\t\t_entryType = EntryType::None;\n\t\t\t\treturn;\n\t\t\t}\n\n\t\t\tif (itemsEnded || (hasAdded && LessComparer()(*_addedIt, *_itemsIt)))')]),
    ('merge-removed-order', [('collection/TransactionHelpers.h', '++_itemsIt; ++_removedIt; break;', '_removedIt++; _itemsIt++; break;')]),
    ('merge-diff-update', [('collection/TransactionHelpers.h', 'if (_addedIt != _direction.End(*_added))\n\t\t\t{\n\t\t\t\tif (_removedIt != _direction.End(*_removed))\n\t\t\t\t\t_entryType = LessComparer()(*_addedIt, *_removedIt) ? EntryType::Added : EntryType::Removed;\n\t\t\t\telse\n\t\t\t\t\t_entryType = EntryType::Added;\n\t\t\t}\n\t\t\telse if (_removedIt != _direction.End(*_removed))\n\t\t\t\t_entryType = EntryType::Removed;\n\t\t\telse\n\t\t\t\t_entryType = EntryType::None;', 'const bool a = _addedIt != _direction.End(*_added);\n\t\t\tconst bool r = _removedIt != _direction.End(*_removed);\n\t\t\tif (!a && !r)\n\t\t\t\t_entryType = EntryType::None;\n\t\t\telse if (!r || (a && LessComparer()(*_addedIt, *_removedIt)))\n\t\t\t\t_entryType = EntryType::Added;\n\t\t\telse\n\t\t\t\t_entryType = EntryType::Removed;')]),
    ('merge-rfind-upper', [('collection/TransactionalSet.h', 'auto itemsIt = holder.Items->lower_bound(Value);\n\n\t\t\t\tif (itemsIt == holder.Items->end() || ValueLessComparer()(Value, *itemsIt))\n\t\t\t\t\treturn IteratorType(itemsIt);\n\n\t\t\t\treturn IteratorType(++itemsIt);', 'return IteratorType(holder.Items->upper_bound(Value));'), ('collection/TransactionalDictionary.h', 'if (itemsIt == holder.Items->end() || KeyLessComparer()(Key, itemsIt->first))\n\t\t\t\t\treturn IteratorType(itemsIt);\n\n\t\t\t\treturn IteratorType(++itemsIt);', 'if (itemsIt != holder.Items->end() && !KeyLessComparer()(Key, itemsIt->first))\n\t\t\t\t\t++itemsIt;\n\n\t\t\t\treturn IteratorType(itemsIt);')]),
    ('p23-join-next-move', [('collection/EnumerableHelpers.h', '_first.swap(_second);\n\t\t\t\t_second.reset();', '_first = _second;\n\t\t\t\t_second.reset();')]),
    ('p23-join-ctor-else', [('collection/EnumerableHelpers.h', 'if (STINGRAYKIT_REQUIRE_NOT_NULL(first)->Valid())\n\t\t\t\t{\n\t\t\t\t\t_first = first;\n\t\t\t\t\t_second = STINGRAYKIT_REQUIRE_NOT_NULL(second);\n\t\t\t\t}\n\t\t\t\telse\n\t\t\t\t\t_first = STINGRAYKIT_REQUIRE_NOT_NULL(second);', 'STINGRAYKIT_REQUIRE_NOT_NULL(first);\n\t\t\t\tSTINGRAYKIT_REQUIRE_NOT_NULL(second);\n\t\t\t\tconst bool startWithFirst = first->Valid();\n\t\t\t\t_first = startWithFirst ? first : second;\n\t\t\t\tif (startWithFirst)\n\t\t\t\t\t_second = second;')]),
    ('p23-taker-countdown', [('collection/EnumerableHelpers.h', 'return _src->Valid() && _index < _count;', 'return _index < _count && _src->Valid();')]),
    ('p23-taker-ne', [('collection/EnumerableHelpers.h', 'return _src->Valid() && _index < _count;', 'return _src->Valid() && _index != _count;')]),
    ('p23-taker-order', [('collection/EnumerableHelpers.h', '_src->Next();\n\t\t\t\t\t++_index;', '++_index;\n\t\t\t\t\t_src->Next();')]),
    ('p23-flatten-for', [('collection/EnumerableHelpers.h', 'while (_src->Valid())\n\t\t\t\t\t{\n\t\t\t\t\t\t_current = ToEnumerator(_src->Get());\n\t\t\t\t\t\tif (_current->Valid())\n\t\t\t\t\t\t\tbreak;\n\n\t\t\t\t\t\t_current.reset();\n\t\t\t\t\t\t_src->Next();\n\t\t\t\t\t}', 'for (; _src->Valid(); _src->Next())\n\t\t\t\t\t{\n\t\t\t\t\t\tconst DstEnumeratorPtr candidate = ToEnumerator(_src->Get());\n\t\t\t\t\t\tif (!candidate->Valid())\n\t\t\t\t\t\t\tcontinue;\n\t\t\t\t\t\t_current = candidate;\n\t\t\t\t\t\treturn;\n\t\t\t\t\t}')]),
    ('p23-flatten-next-inverted', [('collection/EnumerableHelpers.h', '_current->Next();\n\t\t\t\t\tif (_current->Valid())\n\t\t\t\t\t\treturn;\n\n\t\t\t\t\t_current.reset();\n\t\t\t\t\t_src->Next();\n\t\t\t\t\tFindNext();', '_current->Next();\n\t\t\t\t\tif (!_current->Valid())\n\t\t\t\t\t{\n\t\t\t\t\t\t_src->Next();\n\t\t\t\t\t\t_current.reset();\n\t\t\t\t\t\tFindNext();\n\t\t\t\t\t}')]),
    ('p23-oftype-while', [('collection/EnumerableHelpers.h', 'for (; _srcEnumerator->Valid(); _srcEnumerator->Next())\n\t\t\t\t\t{\n\t\t\t\t\t\t_dst = DynamicCast<typename Storage::ValueType>(Storage::Wrap(_srcEnumerator->Get()));\n\t\t\t\t\t\tif (_dst)\n\t\t\t\t\t\t\tbreak;\n\t\t\t\t\t}', 'while (_srcEnumerator->Valid())\n\t\t\t\t\t{\n\t\t\t\t\t\t_dst = DynamicCast<typename Storage::ValueType>(Storage::Wrap(_srcEnumerator->Get()));\n\t\t\t\t\t\tif (_dst)\n\t\t\t\t\t\t\treturn;\n\t\t\t\t\t\t_srcEnumerator->Next();\n\t\t\t\t\t}')]),
    ('p23-caster-reset-first', [('collection/EnumerableHelpers.h', '_srcEnumerator->Next();\n\t\t\t\t\t_cache.reset();', '_cache.reset();\n\t\t\t\t\t_srcEnumerator->Next();')]),
    ('p23-caster-nocache', [('collection/EnumerableHelpers.h', 'if (!_cache)\n\t\t\t\t\t\t_cache = implicit_cast', '_cache = implicit_cast')]),
    ('p23-wrap-for', [('collection/EnumerableWrapper.h', 'while (!_cache && _srcEnumerator->Valid())\n\t\t\t\t{\n\t\t\t\t\tconst SrcType cache = _srcEnumerator->Get();\n\t\t\t\t\tif (FunctorInvoker::InvokeArgs(_filter, cache))\n\t\t\t\t\t\t_cache.emplace(cache);\n\t\t\t\t\telse\n\t\t\t\t\t\t_srcEnumerator->Next();\n\t\t\t\t}', 'for (; _srcEnumerator->Valid(); _srcEnumerator->Next())\n\t\t\t\t{\n\t\t\t\t\t_cache.emplace(_srcEnumerator->Get());\n\t\t\t\t\tif (FunctorInvoker::InvokeArgs(_filter, *_cache))\n\t\t\t\t\t\treturn;\n\t\t\t\t\t_cache.reset();\n\t\t\t\t}')]),
    ('p23-wrap-helper', [('collection/EnumerableWrapper.h', 'STINGRAYKIT_CHECK(_cache, "Enumerator is not valid!");\n\n\t\t\t\t_cache.reset();\n\t\t\t\t_srcEnumerator->Next();\n\n\t\t\t\tFindNext();\n\t\t\t}\n\n\t\tprivate:', 'STINGRAYKIT_CHECK(Valid(), "Enumerator is not valid!");\n\t\t\t\tAdvance();\n\t\t\t\tFindNext();\n\t\t\t}\n\n\t\tprivate:\n\t\t\tvoid Advance()\n\t\t\t{\n\t\t\t\t_srcEnumerator->Next();\n\t\t\t\t_cache.reset();\n\t\t\t}\n')]),
    ('p23-diff-switch', [('collection/EnumerableHelpers.h', 'if (result < 0)\n\t\t\t\t\t\t\t\t\t_entryType = EntryType::Removed;\n\t\t\t\t\t\t\t\telse if (result > 0)\n\t\t\t\t\t\t\t\t\t_entryType = EntryType::Added;\n\t\t\t\t\t\t\t\telse\n\t\t\t\t\t\t\t\t{\n\t\t\t\t\t\t\t\t\t_src->Next();\n\t\t\t\t\t\t\t\t\t_dst->Next();\n\t\t\t\t\t\t\t\t\tcontinue;\n\t\t\t\t\t\t\t\t}', 'if (result == 0)\n\t\t\t\t\t\t\t\t{\n\t\t\t\t\t\t\t\t\t_dst->Next();\n\t\t\t\t\t\t\t\t\t_src->Next();\n\t\t\t\t\t\t\t\t\tcontinue;\n\t\t\t\t\t\t\t\t}\n\n\t\t\t\t\t\t\t\t_entryType = result < 0 ? EntryType::Removed : EntryType::Added;')]),
    ('p23-diff-flat', [('collection/EnumerableHelpers.h', 'if (_src->Valid())\n\t\t\t\t\t\t{\n\t\t\t\t\t\t\tif (_dst->Valid())\n\t\t\t\t\t\t\t{', 'const bool hasSrc = _src->Valid();\n\t\t\t\t\t\tif (hasSrc)\n\t\t\t\t\t\t{\n\t\t\t\t\t\t\tconst bool hasDst = _dst->Valid();\n\t\t\t\t\t\t\tif (hasDst)\n\t\t\t\t\t\t\t{')]),
    ('p23-seqeq-while', [('collection/EnumerableHelpers.h', 'for (; first->Valid() && second->Valid(); first->Next(), second->Next())\n\t\t\t\tif (!FunctorInvoker::InvokeArgs(equalPredicate, first->Get(), second->Get()))\n\t\t\t\t\treturn false;\n\t\t\treturn !first->Valid() && !second->Valid();', 'while (first->Valid())\n\t\t\t{\n\t\t\t\tif (!second->Valid() || !FunctorInvoker::InvokeArgs(equalPredicate, first->Get(), second->Get()))\n\t\t\t\t\treturn false;\n\t\t\t\tsecond->Next();\n\t\t\t\tfirst->Next();\n\t\t\t}\n\t\t\treturn !second->Valid();')]),
    ('p23-skip-while', [('collection/EnumerableHelpers.h', 'for (size_t index = 0; index < count && src->Valid(); ++index)\n\t\t\t\t\tsrc->Next();', 'while (count > 0 && src->Valid())\n\t\t\t\t{\n\t\t\t\t\tsrc->Next();\n\t\t\t\t\t--count;\n\t\t\t\t}')]),
    ('p23-count-while', [('collection/EnumerableHelpers.h', 'size_t result = 0;\n\t\t\tfor (; enumerator.Valid(); enumerator.Next())\n\t\t\t\t++result;\n\t\t\treturn result;', 'size_t result = 0;\n\t\t\twhile (enumerator.Valid())\n\t\t\t{\n\t\t\t\tenumerator.Next();\n\t\t\t\t++result;\n\t\t\t}\n\t\t\treturn result;')]),
    ('p23-first-for', [('collection/EnumerableHelpers.h', 'while (enumerator.Valid() && !FunctorInvoker::InvokeArgs(predicate, enumerator.Get()))\n\t\t\t\tenumerator.Next();\n\t\t\tSTINGRAYKIT_CHECK(enumerator.Valid(), InvalidOperationException());\n\t\t\treturn enumerator.Get();', 'for (; enumerator.Valid(); enumerator.Next())\n\t\t\t\tif (FunctorInvoker::InvokeArgs(predicate, enumerator.Get()))\n\t\t\t\t\treturn enumerator.Get();\n\t\t\tSTINGRAYKIT_THROW(InvalidOperationException());')]),
    ('p23-single-early', [('collection/EnumerableHelpers.h', 'STINGRAYKIT_CHECK(enumerator.Valid(), InvalidOperationException());\n\t\t\tconst ItemType result = enumerator.Get();\n\t\t\tenumerator.Next();\n\t\t\tSTINGRAYKIT_CHECK(!enumerator.Valid(), InvalidOperationException());\n\t\t\treturn result;', 'if (!enumerator.Valid())\n\t\t\t\tSTINGRAYKIT_THROW(InvalidOperationException());\n\t\t\tconst ItemType result = enumerator.Get();\n\t\t\tenumerator.Next();\n\t\t\tif (enumerator.Valid())\n\t\t\t\tSTINGRAYKIT_THROW(InvalidOperationException());\n\t\t\treturn result;')]),
    ('p23-any-not-all', [('collection/EnumerableHelpers.h', 'for (; enumerator.Valid(); enumerator.Next())\n\t\t\t\tif (!FunctorInvoker::InvokeArgs(predicate, enumerator.Get()))\n\t\t\t\t\treturn false;\n\t\t\treturn true;', 'bool result = true;\n\t\t\tfor (; result && enumerator.Valid(); enumerator.Next())\n\t\t\t\tresult = FunctorInvoker::InvokeArgs(predicate, enumerator.Get());\n\t\t\treturn result;')]),
    ('p23-clone-local', [('collection/EnumerableHelpers.h', 'const shared_ptr<std::vector<ItemType>> result = make_shared_ptr<std::vector<ItemType>>();\n\t\t\tfor (; enumerator.Valid(); enumerator.Next())\n\t\t\t\tresult->push_back(enumerator.Get());', 'const shared_ptr<std::vector<ItemType>> result = make_shared_ptr<std::vector<ItemType>>();\n\t\t\twhile (enumerator.Valid())\n\t\t\t{\n\t\t\t\tresult->push_back(enumerator.Get());\n\t\t\t\tenumerator.Next();\n\t\t\t}')]),
    ('p23-defaultifempty-if', [('collection/EnumerableHelpers.h', '{ return Any(src) ? src : MakeOneItemEnumerator(defaultValue); }', '{\n\t\t\tif (Any(src))\n\t\t\t\treturn src;\n\t\t\treturn MakeOneItemEnumerator(defaultValue);\n\t\t}')]),
    ('p23-func-if', [('collection/FuncEnumerator.h', 'if (!_valid(_index))\n\t\t\t\treturn;\n\t\t\t++_index;', 'if (Valid())\n\t\t\t\t++_index;')]),
    ('p23-joiner-ternary', [('collection/EnumerableHelpers.h', 'if (_result)\n\t\t\t\t_result = JoinEnumerators(_result, enumerator);\n\t\t\telse\n\t\t\t\t_result = STINGRAYKIT_REQUIRE_NOT_NULL(enumerator);', '_result = _result ? JoinEnumerators(_result, enumerator) : STINGRAYKIT_REQUIRE_NOT_NULL(enumerator);')]),
    ('p23-joining-locals', [('collection/EnumerableHelpers.h', '{ return JoinEnumerators(_first->GetEnumerator(), _second->GetEnumerator()); }', '{\n\t\t\t\tconst shared_ptr<IEnumerator<EnumeratedT>> second = _second->GetEnumerator();\n\t\t\t\tconst shared_ptr<IEnumerator<EnumeratedT>> first = _first->GetEnumerator();\n\t\t\t\treturn make_shared_ptr<JoiningEnumerator<EnumeratedT>>(first, second);\n\t\t\t}')]),
    ('p23-last-default-if', [('collection/EnumerableHelpers.h', 'result = enumerator.Get();\n\t\t\treturn result ? *result : defaultValue;', 'result = enumerator.Get();\n\t\t\tif (!result)\n\t\t\t\treturn defaultValue;\n\t\t\treturn *result;')]),
    ('p23-elementat-le', [('collection/EnumerableHelpers.h', 'if (index == current)\n\t\t\t\t\treturn enumerator.Get();\n\t\t\treturn null;', 'if (index <= current)\n\t\t\t\t\treturn enumerator.Get();\n\t\t\treturn null;')]),
    ('p23-join-next-noswap', [('collection/EnumerableHelpers.h', '_first.swap(_second);\n\t\t\t\t_second.reset();', '_first = _second;')]),
    ('p11-assign-inline-swap', [('shared_ptr.h', '\t\t\tshared_ptr tmp(other);\n\t\t\tswap(tmp);\n\n\t\t\t// Uncomment', '\t\t\tshared_ptr(other).swap(*this);\n\n\t\t\t// Uncomment')]),
    ('p11-tryadd-for', [('shared_ptr.h', '\t\t\t\tu32 c = AtomicU32::Load(_value.Get()->_strongReferences);\n\t\t\t\twhile (c != 0)\n\t\t\t\t{\n\t\t\t\t\tu32 newc = AtomicU32::CompareAndExchange(_value.Get()->_strongReferences, c, c + 1);\n\t\t\t\t\tif (newc == c)\n\t\t\t\t\t\treturn newc;\n\t\t\t\t\tc = newc;\n\t\t\t\t}\n\t\t\t\treturn 0;', '\t\t\t\tfor (u32 expected = AtomicU32::Load(_value.Get()->_strongReferences); expected; )\n\t\t\t\t{\n\t\t\t\t\tconst u32 seen = AtomicU32::CompareAndExchange(_value.Get()->_strongReferences, expected, expected + 1);\n\t\t\t\t\tif (seen == expected)\n\t\t\t\t\t\treturn seen;\n\t\t\t\t\texpected = seen;\n\t\t\t\t}\n\t\t\t\treturn 0;')]),
    ('p11-swap-manual', [('self_counter.h', '\t\tvoid swap(self_count_ptr<T>& other)\t\t\t\t\t\t\t{ std::swap(_rawPtr, other._rawPtr); }', '\t\tvoid swap(self_count_ptr<T>& other)\n\t\t{\n\t\t\tT* const tmp = _rawPtr;\n\t\t\t_rawPtr = other._rawPtr;\n\t\t\tother._rawPtr = tmp;\n\t\t}')]),
    ('p11-release-guard', [('shared_ptr.h', '\t\t\t\tif (!_value.Get())\n\t\t\t\t\treturn;\n\n\t\t\t\tu32 result = AtomicU32::Dec(_value.Get()->_weakReferences);\n\t\t\t\tif (result == 0)', '\t\t\t\tISharedPtrData* const data = _value.Get();\n\t\t\t\tif (!data)\n\t\t\t\t\treturn;\n\n\t\t\t\tconst u32 result = AtomicU32::Dec(data->_weakReferences);\n\t\t\t\tif (!result)')]),
    ('p11-self-assign-check', [('self_counter.h', '\t\tself_count_ptr<T>& operator = (const self_count_ptr<T>& other)\n\t\t{\n\t\t\tself_count_ptr<T> tmp(other);\n\t\t\tswap(tmp);\n\t\t\treturn *this;', '\t\tself_count_ptr<T>& operator = (const self_count_ptr<T>& other)\n\t\t{\n\t\t\tif (this == &other)\n\t\t\t\treturn *this;\n\t\t\tif (other._rawPtr)\n\t\t\t\tother._rawPtr->add_ref();\n\t\t\tT* const old = _rawPtr;\n\t\t\t_rawPtr = other._rawPtr;\n\t\t\tif (old)\n\t\t\t\told->release_ref();\n\t\t\treturn *this;')]),
    ('p11-unique-reset-order', [('unique_ptr.h', '\t\tvoid reset(T* ptr = 0)\n\t\t{\n\t\t\tCheckedDelete(_rawPtr);\n\t\t\t_rawPtr = ptr;\n\t\t}', '\t\tvoid reset(T* ptr = 0)\n\t\t{\n\t\t\tT* const old = _rawPtr;\n\t\t\t_rawPtr = ptr;\n\t\t\tCheckedDelete(old);\n\t\t}')]),
    ('p11-unique-move-init', [('unique_ptr.h', '\t\tunique_ptr(unique_ptr&& other) : _rawPtr(other.release())\n\t\t{ }\n', '\t\tunique_ptr(unique_ptr&& other) : _rawPtr(other._rawPtr)\n\t\t{ other._rawPtr = NULL; }\n')]),
    ('p11-ref-riu-expr', [('ref_count.h', '{ assert(_value); return AtomicU32::CompareAndExchange(_value->Value, 1, 0) == 1; }', '\n\t\t{\n\t\t\tassert(_value);\n\t\t\tconst u32 was = AtomicU32::CompareAndExchange(_value->Value, 1, 0);\n\t\t\treturn was == 1;\n\t\t}')]),
    ('p11-ref-assign-addfirst', [('ref_count.h', '\t\t\tbasic_ref_count tmp(other);\n\t\t\tswap(tmp);\n\t\t\treturn *this;', '\t\t\tbasic_ref_count(other).swap(*this);\n\t\t\treturn *this;')]),
    ('p11-lock-if', [('shared_ptr.h', '\t\t\tconst u32 sc = _impl.TryAddStrongReference();\n\t\t\tif (sc == 0)\n\t\t\t\treturn shared_ptr<T>();\n\n\t\t\tif (_rawPtr)\n\t\t\t\tDetail::SharedPtrRefCounter<T>::LogAddRef(sc, _rawPtr, this);\n\n\t\t\treturn shared_ptr<T>(_rawPtr, _impl, Dummy());', '\t\t\tif (const u32 sc = _impl.TryAddStrongReference())\n\t\t\t{\n\t\t\t\tif (_rawPtr)\n\t\t\t\t\tDetail::SharedPtrRefCounter<T>::LogAddRef(sc, _rawPtr, this);\n\n\t\t\t\treturn shared_ptr<T>(_rawPtr, _impl, Dummy());\n\t\t\t}\n\t\t\treturn null;')]),
    ('p11-dispose-helper', [('shared_ptr.h', '\t\t\tvoid Dispose()\n\t\t\t{\n\t\t\t\t_value.Call<DisposeConcept>();\n\t\t\t\tReleaseWeakReference();\n\t\t\t}', '\t\t\tvoid Dispose()\n\t\t\t{\n\t\t\t\tDisposeObject();\n\t\t\t\tReleaseWeakReference();\n\t\t\t}\n\n\t\t\tvoid DisposeObject()\n\t\t\t{ _value.Call<DisposeConcept>(); }')]),
    ('p11-riu-single-exit', [('shared_ptr.h', '\t\t\tif (!_impl.ReleaseStrongIfUnique())\n\t\t\t\treturn false;\n\n\t\t\tLogReleaseRef(0);\n\t\t\t_rawPtr = null;\n\t\t\t_impl = Detail::SharedPtrImpl();\n\t\t\treturn true;', '\t\t\tconst bool released = _impl.ReleaseStrongIfUnique();\n\t\t\tif (released)\n\t\t\t{\n\t\t\t\tLogReleaseRef(0);\n\t\t\t\t_impl = Detail::SharedPtrImpl();\n\t\t\t\t_rawPtr = null;\n\t\t\t}\n\t\t\treturn released;')]),
    ('p11-atomic-store-loop', [('thread/atomic/AtomicInt.h', '\t\t\t\tIntType oldval1 = 0, oldval2 = 0;\n\t\t\t\twhile ((oldval1 = __sync_val_compare_and_swap(&atomic, oldval1, val)) != oldval2)\n\t\t\t\t\toldval2 = oldval1;', '\t\t\t\tIntType expected = 0;\n\t\t\t\tfor (;;)\n\t\t\t\t{\n\t\t\t\t\tconst IntType seen = __sync_val_compare_and_swap(&atomic, expected, val);\n\t\t\t\t\tif (seen == expected)\n\t\t\t\t\t\tbreak;\n\t\t\t\t\texpected = seen;\n\t\t\t\t}')]),
    ('p11-atomic-inc-add', [('thread/atomic/AtomicInt.h', 'static inline IntType Inc(Type& atomic, MemoryOrderImpl::Enum order)              { return __sync_add_and_fetch(&atomic, 1); }', 'static inline IntType Inc(Type& atomic, MemoryOrderImpl::Enum order)              { return __sync_fetch_and_add(&atomic, 1) + 1; }')]),
    ('p11-ctor-uniq', [('shared_ptr.h', '\t\t\tif (!_rawPtr)\n\t\t\t\treturn;\n\n\t\t\t_impl.Allocate<Detail::DefaultSharedPtrData<T>>(_rawPtr);\n\t\t\tother.release();\n\n\t\t\tLogAddRef(1);', '\t\t\tif (_rawPtr)\n\t\t\t{\n\t\t\t\t_impl.Allocate<Detail::DefaultSharedPtrData<T>>(_rawPtr);\n\t\t\t\tother.release();\n\n\t\t\t\tLogAddRef(1);\n\t\t\t}')]),
    ('p17-opt-assign-guard', [('optional.h', '\t\t\tif (_initialized)\n\t\t\t\t_value.Ref() = std::forward<U>(value);\n\t\t\telse\n\t\t\t{\n\t\t\t\t_value.Ctor(std::forward<U>(value));\n\t\t\t\t_initialized = true;\n\t\t\t}', '\t\t\tif (!is_initialized())\n\t\t\t{\n\t\t\t\t_value.Ctor(std::forward<U>(value));\n\t\t\t\t_initialized = true;\n\t\t\t\treturn;\n\t\t\t}\n\t\t\tParamType current(_value.Ref());\n\t\t\tcurrent = std::forward<U>(value);')]),
    ('p17-opt-swap-temp', [('optional.h', '\t\t\t\t\tother.assign(std::move(*this).get());\n\t\t\t\t\treset();', '\t\t\t\t\tT tmp(std::move(*this).get());\n\t\t\t\t\treset();\n\t\t\t\t\tother.assign(std::move(tmp));')]),
    ('p17-opt-reset-order', [('optional.h', '\t\t\t\t_initialized = false;\n\t\t\t\t_value.Dtor();', '\t\t\t\t_value.Dtor();\n\t\t\t\t_initialized = false;')]),
    ('p17-opt-lt-form', [('optional.h', '\t{ return rhs.is_initialized() && (!lhs.is_initialized() || (lhs.get() < rhs.get())); }', '\t{\n\t\tif (!rhs.is_initialized())\n\t\t\treturn false;\n\t\tif (!lhs.is_initialized())\n\t\t\treturn true;\n\t\treturn lhs.get() < rhs.get();\n\t}')]),
    ('p17-var-ctor-then-type', [('variant.h', '\t\t\ttry\n\t\t\t{\n\t\t\t\tthis->_storage.template Ctor<typename Decay<T>::ValueT>(std::forward<T>(val));\n\t\t\t\tthis->_type = IndexOfTypeListItem<TypeList, typename Decay<T>::ValueT>::Value;\n\t\t\t}\n\t\t\tcatch (...)\n\t\t\t{ AssignDefault(); throw; }', '\t\t\ttry\n\t\t\t{ this->_storage.template Ctor<typename Decay<T>::ValueT>(std::forward<T>(val)); }\n\t\t\tcatch (...)\n\t\t\t{\n\t\t\t\tAssignDefault();\n\t\t\t\tthrow;\n\t\t\t}\n\t\t\tconst size_t type = IndexOfTypeListItem<TypeList, typename Decay<T>::ValueT>::Value;\n\t\t\tthis->_type = type;')]),
    ('p17-var-destruct-helper', [('variant.h', '\t\t\t\t_target.AssignVal(std::move(val));\n\t\t\t}\n\t\t};\n\n\t\tvoid Assign(MyType&& other)\n\t\t{ other.ApplyVisitor(MoveCtorVisitor(*this)); }\n\t};\n\n\n\ttemplate < typename TypeList >', '\t\t\t\tT& source(val);\n\t\t\t\t_target.AssignVal(std::move(source));\n\t\t\t}\n\t\t};\n\n\t\tvoid Assign(MyType&& other)\n\t\t{\n\t\t\tMoveCtorVisitor visitor(*this);\n\t\t\tother.ApplyVisitor(visitor);\n\t\t}\n\t};\n\n\n\ttemplate < typename TypeList >')]),
    ('p17-any-guarded-assign', [('any.h', '\t\t\tany tmp(other);\n\t\t\tDestroy();\n\t\t\tMove(std::move(tmp));', '\t\t\tif (this != &other)\n\t\t\t{\n\t\t\t\tany tmp(other);\n\t\t\t\tDestroy();\n\t\t\t\tMove(std::move(tmp));\n\t\t\t}')]),
    ('p17-any-destroy-if', [('any.cpp', '\t\tswitch (_type)\n\t\t{\n\t\tcase Type::String:\n\t\t\t_data.String.Dtor();\n\t\t\tbreak;\n\t\tcase Type::Object:\n\t\tcase Type::SerializableObject:\n\t\t\tdelete _data.Object;\n\t\t\tbreak;\n\t\tdefault:\n\t\t\tbreak;\n\t\t}\n\n\t\t_type = Type::Empty;', '\t\tconst Type type = _type;\n\t\t_type = Type::Empty;\n\n\t\tif (type == Type::String)\n\t\t\t_data.String.Dtor();\n\t\telse if (type == Type::Object || type == Type::SerializableObject)\n\t\t\tdelete _data.Object;')]),
    ('p17-any-move-type', [('any.cpp', '\t\tstd::swap(_type, other._type);', '\t\t_type = other._type;\n\t\tother._type = Type::Empty;')]),
    ('p17-ipv-copy-for', [('collection/inplace_vector.h', '\t\t\t\twhile (_staticStorageSize < other._staticStorageSize)\n\t\t\t\t{\n\t\t\t\t\t_staticStorage[_staticStorageSize].Ctor(other._staticStorage[_staticStorageSize].Ref());\n\t\t\t\t\t++_staticStorageSize;\n\t\t\t\t}\n', '\t\t\t\tfor (; _staticStorageSize != other._staticStorageSize; ++_staticStorageSize)\n\t\t\t\t{\n\t\t\t\t\tconst StorageFor<value_type>& source = other._staticStorage[_staticStorageSize];\n\t\t\t\t\t_staticStorage[_staticStorageSize].Ctor(source.Ref());\n\t\t\t\t}\n')]),
    ('p17-ipv-dtor-back', [('collection/inplace_vector.h', '\t\t\tfor (size_t index = 0; index < _staticStorageSize; ++index)\n\t\t\t\t_staticStorage[index].Dtor();\n\t\t\t_staticStorageSize = 0;', '\t\t\twhile (_staticStorageSize > 0)\n\t\t\t{\n\t\t\t\t--_staticStorageSize;\n\t\t\t\t_staticStorage[_staticStorageSize].Dtor();\n\t\t\t}')]),
    ('p17-ipv-push-early', [('collection/inplace_vector.h', '\t\t\tif (_staticStorageSize < InplaceCapacity)\n\t\t\t{\n\t\t\t\t_staticStorage[_staticStorageSize].Ctor(value);\n\t\t\t\t++_staticStorageSize;\n\t\t\t}\n\t\t\telse\n\t\t\t\t_dynamicStorage.push_back(value);', '\t\t\tif (_staticStorageSize >= InplaceCapacity)\n\t\t\t{\n\t\t\t\t_dynamicStorage.push_back(value);\n\t\t\t\treturn;\n\t\t\t}\n\t\t\t_staticStorage[_staticStorageSize].Ctor(value);\n\t\t\t_staticStorageSize++;')]),
    ('p12-same-due-local', [('timer/Timer.cpp', '\t\t\tif (top->GetTimeToTrigger() <= _monotonic.Elapsed())\n\t\t\t{', '\t\t\tconst bool due = !(top->GetTimeToTrigger() > _monotonic.Elapsed());\n\t\t\tif (due)\n\t\t\t{')]),
    ('p12-same-due-diff', [('timer/Timer.cpp', '\t\t\tif (top->GetTimeToTrigger() > currentTime)\n\t\t\t\tbreak;', '\t\t\tif (top->GetTimeToTrigger() - currentTime > TimeDuration())\n\t\t\t\tbreak;')]),
    ('p12-same-periodic-if', [('timer/Timer.cpp', '\t\t\t\tconst optional<TimeDuration> monotonic = top->IsPeriodic() ? make_optional_value(_monotonic.Elapsed()) : null;\n', '\t\t\t\toptional<TimeDuration> monotonic;\n\t\t\t\tif (top->IsPeriodic())\n\t\t\t\t\tmonotonic = _monotonic.Elapsed();\n')]),
    ('p12-same-helper', [('timer/Timer.cpp', '\t\t\t\tif (monotonic)\n\t\t\t\t{\n\t\t\t\t\ttop->Restart(*monotonic);\n\t\t\t\t\t_queue->Push(top);\n\t\t\t\t}\n', '\t\t\t\tif (monotonic)\n\t\t\t\t\tRearm(top, *monotonic);\n'), ('timer/Timer.cpp', '\tvoid Timer::ExecuteTask(', '\tvoid Timer::Rearm(const CallbackInfoPtr& ci, TimeDuration now)\n\t{\n\t\tci->Restart(now);\n\t\t_queue->Push(ci);\n\t}\n\n\n\tvoid Timer::ExecuteTask('), ('timer/Timer.h', '\t\tvoid ExecuteTask(const CallbackInfoPtr& ci) const;', '\t\tvoid ExecuteTask(const CallbackInfoPtr& ci) const;\n\t\tvoid Rearm(const CallbackInfoPtr& ci, TimeDuration now);')]),
    ('p12-same-erase-local', [('timer/Timer.cpp', '\t\tci->SetErased();\n\n\t\tif (!ci->GetIterator())\n\t\t\treturn;\n\n\t\t_container.erase(*ci->GetIterator());\n\t\tci->SetIterator(null);', '\t\tif (ci->GetIterator())\n\t\t{\n\t\t\tconst optional<iterator> it = ci->GetIterator();\n\t\t\tci->SetIterator(null);\n\t\t\t_container.erase(*it);\n\t\t}\n\t\tci->SetErased();')]),
    ('p12-same-push-early', [('timer/Timer.cpp', '\t\tif (!ci->IsErased())\n\t\t\tci->SetIterator(iterator(_container.emplace(ci->GetTimeToTrigger(), ci)));', '\t\tif (ci->IsErased())\n\t\t\treturn;\n\n\t\tconst iterator it = _container.emplace(ci->GetTimeToTrigger(), ci);\n\t\tci->SetIterator(it);')]),
    ('p12-same-pop-local', [('timer/Timer.cpp', '\t\tconst CallbackInfoPtr ci = _container.begin()->second;\n\n\t\t_container.erase(_container.begin());\n\t\tci->SetIterator(null);\n\n\t\treturn ci;', '\t\tconst auto first = _container.begin();\n\t\tCallbackInfoPtr ci = first->second;\n\t\tci->SetIterator(null);\n\t\t_container.erase(first);\n\t\treturn ci;')]),
    ('p12-same-timeout-local', [('timer/Timer.cpp', '\t\tconst CallbackInfoPtr ci = make_shared_ptr<CallbackInfo>(task, _monotonic.Elapsed() + timeout, null, TaskLifeToken());\n\t\tconst Token token = MakeFunctionToken(Bind(&Timer::RemoveTask, _queue, ci));\n\n\t\t{\n\t\t\tMutexLock l(_queue->Sync());\n\t\t\t_queue->Push(ci);\n\t\t\t_cond.Broadcast();\n\t\t}\n\n\t\treturn token;', '\t\tconst TimeDuration when = timeout + _monotonic.Elapsed();\n\t\tconst CallbackInfoPtr ci = make_shared_ptr<CallbackInfo>(task, when, null, TaskLifeToken());\n\n\t\t{\n\t\t\tMutexLock l(_queue->Sync());\n\t\t\t_queue->Push(ci);\n\t\t\t_cond.Broadcast();\n\t\t}\n\n\t\treturn MakeFunctionToken(Bind(&Timer::RemoveTask, _queue, ci));')]),
    ('p12-same-exec-for', [('thread/ThreadTaskExecutor.cpp', '\t\twhile (token || !_queue.empty())\n\t\t{\n\t\t\tif (_queue.empty())\n\t\t\t{\n\t\t\t\t_condVar.Wait(_syncRoot, token);\n\t\t\t\tcontinue;\n\t\t\t}\n', '\t\tfor (;;)\n\t\t{\n\t\t\tif (_queue.empty())\n\t\t\t{\n\t\t\t\tif (!token)\n\t\t\t\t\tbreak;\n\t\t\t\t_condVar.Wait(_syncRoot, token);\n\t\t\t\tcontinue;\n\t\t\t}\n')]),
    ('p12-same-exec-helper', [('thread/ThreadTaskExecutor.cpp', '\t\t\toptional<TaskPair> top = _queue.front();\n\t\t\t_queue.pop_front();\n\n\t\t\tMutexUnlock', '\t\t\toptional<TaskPair> top = TakeFirst();\n\n\t\t\tMutexUnlock'), ('thread/ThreadTaskExecutor.cpp', '\tvoid ThreadTaskExecutor::ExecuteTask(', '\tThreadTaskExecutor::TaskPair ThreadTaskExecutor::TakeFirst()\n\t{\n\t\tconst TaskPair first = _queue.front();\n\t\t_queue.pop_front();\n\t\treturn first;\n\t}\n\n\n\tvoid ThreadTaskExecutor::ExecuteTask('), ('thread/ThreadTaskExecutor.h', '\t\tvoid ExecuteTask(const TaskPair& task) const;', '\t\tvoid ExecuteTask(const TaskPair& task) const;\n\t\tTaskPair TakeFirst();')]),
    ('p12-same-exec-size', [('thread/ThreadTaskExecutor.cpp', 'while (token || !_queue.empty())', 'while (token || _queue.size() > 0)')]),
    ('p12-same-exec-guard', [('thread/ThreadTaskExecutor.cpp', '\t\t\tLocalExecutionGuard guard(task.second);\n\t\t\tif (!guard)\n\t\t\t\treturn;\n\n\t\t\tif (_profileTimeout)', '\t\t\tLocalExecutionGuard guard(task.second);\n\t\t\tconst bool allowed = !!guard;\n\t\t\tif (!allowed)\n\t\t\t\treturn;\n\n\t\t\tif (_profileTimeout)')]),
    ('p12-same-pool-move', [('thread/ThreadPool.cpp', '\t\t\t\toptional<Task> task = _task;\n\t\t\t\t{\n\t\t\t\t\tMutexUnlock ul(l);\n\t\t\t\t\tExecuteTask(token, *task);\n\t\t\t\t}\n\n\t\t\t\t_task.reset();\n\n\t\t\t\tMutexUnlock ul(l);\n\t\t\t\ttask.reset(); // destroy object with unlocked mutex to keep lock order correct\n\t\t\t}\n\t\t}\n\n\t\tvoid', '\t\t\t\tconst Task current = *_task;\n\t\t\t\t{\n\t\t\t\t\tMutexUnlock ul(l);\n\t\t\t\t\tExecuteTask(token, current);\n\t\t\t\t}\n\n\t\t\t\t_task = null;\n\t\t\t}\n\t\t}\n\n\t\tvoid')]),
    ('p12-same-pool-tryqueue', [('thread/ThreadPool.cpp', '\t\tfor (Workers::iterator it = _workers.begin(); it != _workers.end(); ++it)\n\t\t{\n\t\t\tif (!*it)\n\t\t\t{', '\t\tfor (Workers::iterator it = _workers.begin(); it != _workers.end(); ++it)\n\t\t{\n\t\t\tconst bool vacant = !*it;\n\t\t\tif (vacant)\n\t\t\t{')]),
    ('p08-executor-reset-dtor', [('io/AsyncByteStream.cpp', '\t\t_thread.reset();\n\t\ts_logger', '\t\t{\n\t\t\tconst ThreadPtr none;\n\t\t\t_thread = none;\n\t\t}\n\t\ts_logger')]),
    ('p08-members-reordered', [('thread/ThreadTaskExecutor.h', '\t\tMutex\t\t\t\t\t_syncRoot;\n\t\tQueueType\t\t\t\t_queue;\n\t\tConditionVariable\t\t_condVar;\n', '\t\tConditionVariable\t\t_condVar;\n\t\tQueueType\t\t\t\t_queue;\n\t\tMutex\t\t\t\t\t_syncRoot;\n'), ('timer/Timer.h', '\t\tMutex\t\t\t_connectionMutex;\n\t\tToken\t\t\t_connection;\n\n\t\tMutex \t\t\t_doDef', '\t\tToken\t\t\t_connection;\n\t\tMutex\t\t\t_connectionMutex;\n\n\t\tMutex \t\t\t_doDef')]),
    ('p08-reporter-token-early', [('BandwidthReporter.h', '\t\tElapsedTime\t\t\t\t_timeSinceLastReport;\n\n\t\tTimer\t\t\t\t\t_timer;\n\t\tToken\t\t\t\t\t_connection;\n', '\t\tToken\t\t\t\t\t_connection;\n\t\tElapsedTime\t\t\t\t_timeSinceLastReport;\n\n\t\tTimer\t\t\t\t\t_timer;\n')]),
    ('p08-thread-join-helper', [('thread/posix/PosixThreadEngine.cpp', '\t\t\tint result = pthread_join(_data->GetPthreadId(), NULL);\n\t\t\tif (result)\n\t\t\t\tSTINGRAYKIT_FATAL("pthread_join failed: " + SystemException::GetErrorMessage(result));\n\n\t\t\tif (!_exited)', '\t\t\tJoin();\n\n\t\t\tif (!_exited)'), ('thread/posix/PosixThreadEngine.cpp', '\t\tvoid RequestThreadBacktrace() const\n', '\t\tvoid Join() const\n\t\t{\n\t\t\tconst int result = pthread_join(_data->GetPthreadId(), NULL);\n\t\t\tif (result == 0)\n\t\t\t\treturn;\n\t\t\tSTINGRAYKIT_FATAL("pthread_join failed: " + SystemException::GetErrorMessage(result));\n\t\t}\n\n\t\tvoid RequestThreadBacktrace() const\n')]),
    ('p08-pool-worker-local', [('thread/ThreadPool.cpp', '\t\t\t\t_worker = make_unique_ptr<Thread>(_name + "_0", Bind(&ThreadPool::ThreadFunc, this, _1));\n', '\t\t\t{\n\t\t\t\tauto worker = make_unique_ptr<Thread>(_name + "_0", Bind(&ThreadPool::ThreadFunc, this, _1));\n\t\t\t\t_worker = std::move(worker);\n\t\t\t}\n')]),
    ('p08-thread-start-helper', [('thread/posix/PosixThreadEngine.cpp', '\t\t\t{\n\t\t\t\tGenericMutexLock<PosixMutex> l(_mutex);\n\t\t\t\twhile (!_started)\n\t\t\t\t\t_cv.Wait(_mutex, DummyCancellationToken());\n\t\t\t}\n\n\t\t\tif', '\t\t\tWaitStarted();\n\n\t\t\tif'), ('thread/posix/PosixThreadEngine.cpp', '\t\tvoid RequestThreadBacktrace() const\n', '\t\tvoid WaitStarted()\n\t\t{\n\t\t\tGenericMutexLock<PosixMutex> l(_mutex);\n\t\t\tfor (; !_started; )\n\t\t\t\t_cv.Wait(_mutex, DummyCancellationToken());\n\t\t}\n\n\t\tvoid RequestThreadBacktrace() const\n')]),
    ('p20-packet-clear-nested', [('io/PacketBuffer.h', '\t\t\tMutexLock l(_bufferMutex);\n\t\t\twhile (true)\n\t\t\t{\n\t\t\t\tBithreadCircularBuffer::Reader r = _buffer.Read();\n\t\t\t\tif (r.size() == 0)', '\t\t\tMutexLock wl(_writeMutex);\n\t\t\tMutexLock l(_bufferMutex);\n\t\t\twhile (true)\n\t\t\t{\n\t\t\t\tBithreadCircularBuffer::Reader r = _buffer.Read();\n\t\t\t\tif (r.size() == 0)')]),
    ('p20-wrapper-unlock-split', [('thread/ThreadPool.cpp', '\t\t\t\t\t\tMutexUnlock ul(l);\n\t\t\t\t\t\t_completedHandler();', '\t\t\t\t\t\tMutexUnlock ul(l);\n\t\t\t\t\t\tconst CompletedHandler& handler = _completedHandler;\n\t\t\t\t\t\thandler();')]),
    ('p25-source-early-return', [('io/BufferedDataSource.cpp', '\t\tif (processedSize == 0)\n\t\t\treturn;\n\n\t\tif (processedSize % _outputPacketSize != 0)', '\t\tif (!processedSize)\n\t\t\treturn;\n\n\t\tconst size_t rest = processedSize % _outputPacketSize;\n\t\tif (rest)')]),
    ('p25-consumer-ternary', [('io/BufferedDataConsumer.cpp', 'size_t writeSize = std::min(data.size(), packetizedSize);', 'const size_t available = data.size();\n\t\tsize_t writeSize = available;\n\t\tif (packetizedSize < writeSize)\n\t\t\twriteSize = packetizedSize;')]),
    ('p25-packet-helper-var', [('io/PacketBuffer.h', '\t\t\tsize_t padding_size = (w.size() < data.size() && w.IsBufferEnd()) ? w.size() : 0;\n\t\t\tif (_buffer.GetFreeSize() < padding_size + data.size())', '\t\t\tsize_t padding_size = 0;\n\t\t\tif (w.size() < data.size() && w.IsBufferEnd())\n\t\t\t\tpadding_size = w.size();\n\t\t\tconst size_t required = padding_size + data.size();\n\t\t\tif (required > _buffer.GetFreeSize())')]),
    ('p25-pipe-read-loop', [('io/BufferedPipe.cpp', '\t\tconst size_t size = std::min(_bufferSize - _bufferOffset, data.size());\n\t\tstd::copy(_buffer.data() + _bufferOffset, _buffer.data() + _bufferOffset + size, data.data());', '\t\tconst size_t available = _bufferSize - _bufferOffset;\n\t\tconst size_t size = available < data.size() ? available : data.size();\n\t\tconst u8* const from = _buffer.data() + _bufferOffset;\n\t\tstd::copy(from, from + size, data.data());')]),
    ('p25-stream-while', [('io/BufferedStream.h', '\t\t\tfor (size_t toCopy = 0; total < dstSize && token; _inBufferOffset += toCopy, dst += toCopy, total += toCopy)\n\t\t\t{', '\t\t\twhile (total < dstSize && token)\n\t\t\t{'), ('io/BufferedStream.h', '\t\t\t\ttoCopy = std::min(dstSize - total, _bufferSize - _inBufferOffset);\n\t\t\t\t::memcpy(dst, _buffer.data() + _inBufferOffset, toCopy);', '\t\t\t\tconst size_t toCopy = std::min(dstSize - total, _bufferSize - _inBufferOffset);\n\t\t\t\t::memcpy(dst, _buffer.data() + _inBufferOffset, toCopy);\n\t\t\t\t_inBufferOffset += toCopy;\n\t\t\t\tdst += toCopy;\n\t\t\t\ttotal += toCopy;')]),
    ('p25-consume-all-for', [('io/IDataSource.h', '\t\tsize_t offset = 0;\n\t\twhile (token && offset < data.size())\n\t\t\toffset += consumer.Process(ConstByteData(data, offset), token);\n\n\t\treturn offset;', '\t\tconst size_t size = data.size();\n\t\tsize_t offset = 0;\n\t\tfor (; token && offset < size; )\n\t\t{\n\t\t\tconst ConstByteData rest(data, offset);\n\t\t\tconst size_t processed = consumer.Process(rest, token);\n\t\t\toffset += processed;\n\t\t}\n\n\t\treturn offset;')]),
    ('p25-ring-advance-helper', [('io/BithreadCircularBuffer.cpp', '\t\t\t_writeOffset += pushSize;\n\n\t\t\tif (_writeOffset == GetStorageSize())\n\t\t\t{\n\t\t\t\t_writeOffset = 0;\n\t\t\t\t_dataIsContiguous = !_dataIsContiguous;\n\t\t\t}\n', '\t\t\tAdvance(_writeOffset, pushSize);\n'), ('io/BithreadCircularBuffer.cpp', '\t\t\t_readOffset += popSize;\n\n\t\t\tif (_readOffset == GetStorageSize())\n\t\t\t{\n\t\t\t\t_readOffset = 0;\n\t\t\t\t_dataIsContiguous = !_dataIsContiguous;\n\t\t\t}\n', '\t\t\tAdvance(_readOffset, popSize);\n'), ('io/BithreadCircularBuffer.cpp', '\t\t\t_dataIsContiguous = true;\n\t\t}\n\t};\n', '\t\t\t_dataIsContiguous = true;\n\t\t}\n\n\tprivate:\n\t\tvoid Advance(size_t& offset, size_t count)\n\t\t{\n\t\t\toffset += count;\n\t\t\tif (offset != GetStorageSize())\n\t\t\t\treturn;\n\n\t\t\toffset = 0;\n\t\t\t_dataIsContiguous = !_dataIsContiguous;\n\t\t}\n\t};\n')]),
    ('p25-circular-size-if', [('io/CircularBufferBase.h', '\t\t{ return _dataIsContiguous ? (_writeOffset - _readOffset) : (GetStorageSize() - _readOffset + _writeOffset); }', '\t\t{\n\t\t\tif (_dataIsContiguous)\n\t\t\t\treturn _writeOffset - _readOffset;\n\n\t\t\tconst size_t tail = GetStorageSize() - _readOffset;\n\t\t\treturn tail + _writeOffset;\n\t\t}')]),
    ('p25-aligner-local', [('io/DataAligner.h', '\t\t\tconst size_t offset = std::min(_alignment - _buffer.size(), data.size());\n', '\t\t\tconst size_t missing = _alignment - _buffer.size();\n\t\t\tconst size_t offset = missing < data.size() ? missing : data.size();\n')]),
    ('p25-page-loop-rest', [('io/PagedBuffer.cpp', '\t\t\twhile (offset < data.size())\n\t\t\t{', '\t\t\tfor (; offset != data.size(); )\n\t\t\t{')]),
    ('p25-taker-early', [('io/DataUtils.h', '\t\t\tconst size_t processed = _consumer.Process(ConstByteData(data, 0, size), token);\n\t\t\t_leftToTake -= processed;\n\n\t\t\treturn processed;', '\t\t\tconst u64 before = _leftToTake;\n\t\t\tconst size_t processed = _consumer.Process(ConstByteData(data, 0, size), token);\n\t\t\t_leftToTake = before - processed;\n\t\t\treturn (size_t)(before - _leftToTake);')]),
    ('p25-limit-helper', [('io/ByteStreamWithOffsetAndSize.h', '\t\t\ts64 remaining = _endOffset - _offset - _position;\n\t\t\tSTINGRAYKIT_CHECK(remaining >= 0, IndexOutOfRangeException(remaining, 0, 0));\n\t\t\t_stream->Seek(_offset + _position);\n\t\t\tu64 readed', '\t\t\tconst s64 absolute = _offset + _position;\n\t\t\ts64 remaining = _endOffset - absolute;\n\t\t\tSTINGRAYKIT_CHECK(remaining >= 0, IndexOutOfRangeException(remaining, 0, 0));\n\t\t\t_stream->Seek(absolute);\n\t\t\tu64 readed')]),
    ('p25-readall-flag', [('io/IInputByteStream.h', '\t\tsize_t total = 0;\n\t\toptional<size_t> readed;\n\t\twhile (token && (total < data.size()) && (!readed || *readed != 0))\n\t\t{\n\t\t\treaded = (size_t)stream.Read(ByteData(data, total), token);\n\t\t\ttotal += *readed;\n\t\t}\n', '\t\tsize_t total = 0;\n\t\twhile (token && (total < data.size()))\n\t\t{\n\t\t\tconst size_t readed = (size_t)stream.Read(ByteData(data, total), token);\n\t\t\tif (readed == 0)\n\t\t\t\tbreak;\n\t\t\ttotal += readed;\n\t\t}\n')]),
    ('p26-memory-if', [('io/MemoryByteStream.h', '\t\t\tswitch (mode)\n\t\t\t{\n\t\t\tcase SeekMode::Begin:\tnew_ofs = offset; break;\n\t\t\tcase SeekMode::Current:\tnew_ofs += offset; break;\n\t\t\tcase SeekMode::End:\t\tnew_ofs = _data.size() + offset; break;\n\t\t\t}\n', '\t\t\tif (mode == SeekMode::Begin)\n\t\t\t\tnew_ofs = offset;\n\t\t\telse if (mode == SeekMode::End)\n\t\t\t\tnew_ofs = offset + _data.size();\n\t\t\telse\n\t\t\t\tnew_ofs = offset + _offset;\n')]),
    ('p26-offset-local', [('io/ByteStreamWithOffset.h', '\t\t\t_stream->Seek(newPosition);\n\t\t\t_position = newPosition - _offset;', '\t\t\tconst s64 position = newPosition - _offset;\n\t\t\t_stream->Seek(position + _offset);\n\t\t\t_position = position;')]),
    ('p26-limit-helper', [('io/ByteStreamWithOffsetAndSize.h', '\t\t\tSTINGRAYKIT_CHECK(newPosition >= _offset && newPosition <= _endOffset, IndexOutOfRangeException(newPosition, _offset, _endOffset + 1));\n\t\t\t_stream->Seek(newPosition);\n\t\t\t_position = newPosition - _offset;\n\t\t}\n', '\t\t\tMoveTo(newPosition);\n\t\t}\n\n\tprivate:\n\t\tvoid MoveTo(s64 newPosition)\n\t\t{\n\t\t\tSTINGRAYKIT_CHECK(newPosition >= _offset, IndexOutOfRangeException(newPosition, _offset, _endOffset + 1));\n\t\t\tSTINGRAYKIT_CHECK(newPosition <= _endOffset, IndexOutOfRangeException(newPosition, _offset, _endOffset + 1));\n\t\t\t_stream->Seek(newPosition);\n\t\t\t_position = newPosition - _offset;\n\t\t}\n\n\tpublic:\n')]),
    ('p26-buffered-order', [('io/BufferedStream.h', '\t\t\tif (_bufferOffset <= offset && offset - _bufferOffset < static_cast<u64>(_bufferSize))\n\t\t\t{\n\t\t\t\t_inBufferOffset = static_cast<size_t>(offset - _bufferOffset);\n\t\t\t\treturn true;\n\t\t\t}\n\t\t\treturn false;', '\t\t\tif (offset < _bufferOffset || offset >= _bufferOffset + _bufferSize)\n\t\t\t\treturn false;\n\n\t\t\t_inBufferOffset = static_cast<size_t>(offset - _bufferOffset);\n\t\t\treturn true;')]),
    ('p26-buffered-end-stream', [('io/BufferedStream.h', '\t\t\t\tif (SeekInBuffer(static_cast<u64>(offset)))\n\t\t\t\t\t_stream->Seek(_bufferOffset);\n\t\t\t\telse\n\t\t\t\t\tSeekStream(static_cast<u64>(offset));\n', '\t\t\t\tif (!SeekInBuffer(static_cast<u64>(offset)))\n\t\t\t\t\tSeekStream(static_cast<u64>(offset));\n')]),
    ('p26-chunk-while', [('io/ChunkedMemoryByteStream.h', '\t\t\ttypename ContainerType::iterator chunk;\n\t\t\tfor (chunk = _container->begin(); chunk != _container->end() && offset_ >= chunk->size(); ++chunk)\n\t\t\t\toffset_ -= chunk->size();\n', '\t\t\ttypename ContainerType::iterator chunk = _container->begin();\n\t\t\twhile (chunk != _container->end() && chunk->size() <= offset_)\n\t\t\t{\n\t\t\t\toffset_ -= chunk->size();\n\t\t\t\tchunk++;\n\t\t\t}\n')]),
    ('p26-chunk-tell-start', [('io/ChunkedMemoryByteStream.h', '\t\t\tsize_t ret = 0;\n\t\t\tfor (typename ContainerType::const_iterator chunk = _container->begin(); chunk != _chunk; ++chunk)\n\t\t\t\tret += chunk->size();\n\t\t\tret += _chunkOffset;\n\t\t\treturn ret;', '\t\t\tsize_t ret = _chunkOffset;\n\t\t\tfor (typename ContainerType::const_iterator chunk = _container->begin(); chunk != _chunk; ++chunk)\n\t\t\t\tret += chunk->size();\n\t\t\treturn ret;')]),
    ('p25-chunk-write-rest', [('io/ChunkedMemoryByteStream.h', '\t\t\tfor (size_t curcount = 0; passed < data.size(); passed += curcount)\n\t\t\t{\n\t\t\t\tNormalizePosition();\n', '\t\t\tfor (size_t curcount = 0; passed != data.size(); passed += curcount)\n\t\t\t{\n\t\t\t\tif (_chunk != _container->end())\n\t\t\t\t\tNormalizePosition();\n')]),
    ('p24-version-ifs', [('Version.cpp', '{ return CompareMembersLess(&Version::_major, &Version::_minor, &Version::_build)(*this, other); }', '{\n\t\tif (_major != other._major)\n\t\t\treturn _major < other._major;\n\t\tif (other._minor != _minor)\n\t\t\treturn other._minor > _minor;\n\t\treturn _build < other._build;\n\t}')]),
    ('p24-version-expression', [('Version.cpp', '{ return CompareMembersLess(&Version::_major, &Version::_minor, &Version::_build)(*this, other); }', '{ return _major < other._major || (_major == other._major && (_minor < other._minor || (_minor == other._minor && _build < other._build))); }')]),
    ('p24-version-cmp', [('Version.cpp', '{ return CompareMembersLess(&Version::_major, &Version::_minor, &Version::_build)(*this, other); }', '{\n\t\tconst int result = CompareMembersCmp(&Version::_major, &Version::_minor, &Version::_build)(*this, other);\n\t\treturn result < 0;\n\t}')]),
    ('p24-key-less', [('log/LoggerStream.cpp', '\t\t\tif (Line != other.Line)\n\t\t\t\treturn Line < other.Line;\n\t\t\treturn strcmp(Filename, other.Filename) < 0;', '\t\t\treturn Line < other.Line || (Line == other.Line && strcmp(Filename, other.Filename) < 0);')]),
    ('p24-cmp-null-ifs', [('compare/comparers.h', '{ return lhs && rhs ? Compare(*lhs, *rhs) : lhs ? 1 : rhs ? -1 : 0; }', '{\n\t\t\t\tif (!lhs || !rhs)\n\t\t\t\t\treturn (lhs ? 1 : 0) - (rhs ? 1 : 0);\n\t\t\t\treturn Compare(*lhs, *rhs);\n\t\t\t}')]),
    ('p24-less-null-first', [('compare/comparers.h', '{ return lhs && rhs ? Compare(*lhs, *rhs) : !lhs && rhs; }', '{\n\t\t\t\tif (!rhs)\n\t\t\t\t\treturn false;\n\t\t\t\treturn !lhs || Compare(*lhs, *rhs);\n\t\t\t}')]),
    ('p24-optional-ifs', [('optional.h', '{ return other.is_initialized() ? Compare(other.get()) : Compare(null); }', '{\n\t\t\tif (!other.is_initialized())\n\t\t\t\treturn is_initialized() ? 1 : 0;\n\t\t\treturn Compare(*other);\n\t\t}')]),
    ('p24-locale-order', [('locale/LocaleString.cpp', '\t\treturn Compare(other) == 0;', '\t\tif (Compare(other))\n\t\t\treturn false;\n\t\treturn true;')]),
    ('p24-collection-while', [('compare/CollectionComparer.h', '\t\t\tfor (; lhs; ++lhs, ++rhs)\n\t\t\t{\n\t\t\t\tif (!rhs)\n\t\t\t\t\treturn 1;\n', '\t\t\twhile (lhs)\n\t\t\t{\n\t\t\t\tif (!rhs)\n\t\t\t\t\treturn 1;\n'), ('compare/CollectionComparer.h', '\t\t\t\t\treturn itemResult;\n', '\t\t\t\t\treturn itemResult;\n\n\t\t\t\t++lhs;\n\t\t\t\t++rhs;\n')]),
    ('p24-bytes-swapped', [('collection/ByteData.h', '\t\tbool operator == (const BasicByteData& other) const\n\t\t{ return size() == other.size() && std::equal(data(), data() + size(), other.data()); }', '\t\tbool operator == (const BasicByteData& other) const\n\t\t{ return other.size() == size() && (data() == other.data() || std::equal(other.data(), other.data() + other.size(), data())); }')]),
    ('p24-progress-not', [('ProgressValue.h', 'return Current == other.Current && Total == other.Total;', 'return !(Current != other.Current || other.Total != Total);')]),
    ('p24-view-ifs', [('string/string_view.h', 'return result == 0 ? size() - v.size() : result;', 'if (result)\n\t\t\t\treturn result;\n\t\t\treturn size() < v.size() ? -1 : size() > v.size() ? 1 : 0;')]),
    ('p24-view-eq', [('string/string_view.h', 'const\t{ return compare(rhs) == 0; }', 'const\t{ return !compare(rhs); }')]),
    ('p24-rect-tie', [('Rect.h', '{ return CompareMembersLess(&BasicRect::X1, &BasicRect::Y1, &BasicRect::X2, &BasicRect::Y2)(*this, other); }', '{\n\t\t\tif (X1 != other.X1)\n\t\t\t\treturn X1 < other.X1;\n\t\t\treturn CompareMembersLess(&BasicRect::Y1, &BasicRect::X2, &BasicRect::Y2)(*this, other);\n\t\t}')]),
    ('p24-macro-not', [('toolkit.h', '{ return (other < *this) || (*this < other); }', '{ return !(!(other < *this) && !(*this < other)); }')]),
    ('p27-rect-order', [('Rect.h', '\t\t\tar.Deserialize("x1", X1);\n\t\t\tar.Deserialize("y1", Y1);\n', '\t\t\tar.Deserialize("y1", Y1);\n\t\t\tar.Deserialize("x1", X1);\n')]),
    ('p27-size-locals', [('Size.h', '\t\t\tar.Deserialize("w", Width);\n\t\t\tar.Deserialize("h", Height);\n', '\t\t\tint width = 0;\n\t\t\tint height = 0;\n\t\t\tar.Deserialize("w", width);\n\t\t\tar.Deserialize("h", height);\n\t\t\tWidth = width;\n\t\t\tHeight = height;\n')]),
    ('p27-size-whole', [('Size.h', '\t\t\tar.Deserialize("w", Width);\n\t\t\tar.Deserialize("h", Height);\n', '\t\t\tSize size;\n\t\t\tar.Deserialize("w", size.Width);\n\t\t\tar.Deserialize("h", size.Height);\n\t\t\t*this = size;\n')]),
    ('p27-size-ctor', [('Size.h', '\t\t\tar.Deserialize("w", Width);\n\t\t\tar.Deserialize("h", Height);\n', '\t\t\tint width, height;\n\t\t\tar.Deserialize("w", width);\n\t\t\tar.Deserialize("h", height);\n\t\t\t*this = Size(width, height);\n')]),
    ('p27-locale-chain', [('locale/LocaleString.cpp', '\t\tar.Serialize("encoding", TextEncoding);\n\t\tar.Serialize("text", Text);', '\t\tar.Serialize("encoding", TextEncoding)\n\t\t\t.Serialize("text", Text);')]),
    ('p27-locale-swap', [('locale/LocaleString.cpp', '\t\tar.Deserialize("text", Text);\n', '\t\tstd::string text;\n\t\tar.Deserialize("text", text);\n\t\tText.swap(text);\n')]),
    ('p27-locale-move', [('locale/LocaleString.cpp', '\t\tar.Deserialize("text", Text);\n', '\t\tstd::string text;\n\t\tar.Deserialize("text", text);\n\t\tText = std::move(text);\n')]),
    ('p27-duration-local', [('time/Time.cpp', '{ ar.Serialize("us", _microseconds); }', '{\n\t\tconst s64 us = GetMicroseconds();\n\t\tar.Serialize("us", us);\n\t}')]),
    ('p27-duration-else', [('time/Time.cpp', '\t\tif (microseconds)\n\t\t{\n\t\t\t_microseconds = *microseconds;\n\t\t\treturn;\n\t\t}\n', '\t\tif (microseconds.is_initialized())\n\t\t{\n\t\t\t_microseconds = microseconds.get();\n\t\t\treturn;\n\t\t}\n')]),
    ('p27-any-empty-early', [('any.cpp', '\t\tar.Deserialize("type", type);\n', '\t\tar.Deserialize("type", type);\n\n\t\tif (type == Type::Empty)\n\t\t\treturn;\n')]),
    ('p27-any-init-bool', [('any.cpp', '\t\tDESERIALIZE(Bool);', '\t\tcase Type::Bool: { bool value = false; ar.Deserialize("val", value); _data.Bool = value; } break;')]),
    ('p27-any-write-empty', [('any.cpp', '\t\tcase Type::Empty:\treturn;\n\t\tSERIALIZE(Bool);', '\t\tSERIALIZE(Bool);'), ('any.cpp', '\t\tar.Serialize("type", _type);\n\n', '\t\tar.Serialize("type", _type);\n\n\t\tif (_type == Type::Empty)\n\t\t\treturn;\n\n')]),
    ('p27-modified-two', [('collection/CollectionOpVariant.h', '{ ar.Serialize("oldValue", OldValue).Serialize("newValue", NewValue); }', '{\n\t\t\t\tar.Serialize("newValue", NewValue);\n\t\t\t\tar.Serialize("oldValue", OldValue);\n\t\t\t}')]),
    ('p27-locale-free-helper', [('locale/LocaleString.cpp', '\tvoid LocaleString::Serialize(ObjectOStream& ar) const\n\t{\n\t\tar.Serialize("encoding", TextEncoding);\n\t\tar.Serialize("text", Text);', '\tnamespace\n\t{\n\t\tvoid WriteParts(ObjectOStream& ar, const Encoding& encoding, const std::string& text)\n\t\t{\n\t\t\tar.Serialize("encoding", encoding);\n\t\t\tar.Serialize("text", text);\n\t\t}\n\t}\n\n\n\tvoid LocaleString::Serialize(ObjectOStream& ar) const\n\t{\n\t\tWriteParts(ar, TextEncoding, Text);')]),
    ('p27-zone-names', [('time/Time.cpp', '\t{ ar.Serialize("offset", _minutesFromUtc); }', '\t{\n\t\tstatic const char* Offset = "offset";\n\t\tar.Serialize(Offset, _minutesFromUtc);\n\t}')]),
    ('p27-any-switch-split', [('any.cpp', '\t\tDESERIALIZE(Bool);\n\t\tDESERIALIZE(Char);', '\t\tDESERIALIZE(Char);\n\t\tDESERIALIZE(Bool);'), ('any.cpp', '\t\t_type = type;\n', '\t\tstd::swap(_type, type);\n')]),
    ('p27-size-lvalue-ref', [('Size.h', '\t\t\tar.Deserialize("w", Width);\n', '\t\t\tint& width = Width;\n\t\t\tar.Deserialize("w", width);\n')]),
]
