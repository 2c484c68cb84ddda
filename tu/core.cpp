#include <stingraykit/future.h>
#include <stingraykit/signal/signals.h>
#include <stingraykit/signal/SignalToFuture.h>
#include <stingraykit/signal/ValueFromSignalObtainer.h>
#include <stingraykit/shared_ptr.h>
#include <stingraykit/unique_ptr.h>
#include <stingraykit/ObservableValue.h>
#include <stingraykit/ObjectPool.h>
#include <stingraykit/ObjectToken.h>
#include <stingraykit/MultiToken.h>
#include <stingraykit/FunctionToken.h>
#include <stingraykit/ScopeExit.h>
#include <stingraykit/Finalizer.h>
#include <stingraykit/Holder.h>
#include <stingraykit/Token.h>
#include <stingraykit/Singleton.h>
#include <stingraykit/SafeSingleton.h>
#include <stingraykit/PhoenixSingleton.h>
#include <stingraykit/BandwidthReporter.h>
#include <stingraykit/AggregateProgressReporter.h>
#include <stingraykit/function/AsyncFunction.h>
#include <stingraykit/function/CancellableFunction.h>
#include <stingraykit/thread/Barrier.h>
#include <stingraykit/thread/SyncValue.h>
#include <stingraykit/thread/GenericSemaphoreLock.h>
#include <stingraykit/thread/BasicConditionVariable.h>
#include <stingraykit/thread/CancellationRegistrator.h>
#include <stingraykit/thread/DisableInterruptionPoints.h>
#include <stingraykit/thread/call_once.h>
#include <stingraykit/thread/atomic.h>
#include <stingraykit/timer/Timer.h>

#include <string>

namespace stingray
{
	using VS = std::string;

	template class future<VS>;
	template class promise<VS>;
	template class shared_future<VS>;
	template class shared_future<void>;
	template class future<void>;
	template class promise<void>;
	template class shared_ptr<VS>;
	template class weak_ptr<VS>;
	template class ObservableValue<VS>;
	template void ObjectPool::AddObject<VS>(const shared_ptr<VS>&);
	template class SyncValue<VS>;
	template class TokenMap<int>;
	template class ThreadlessTokenMap<int>;

	struct SgxSingleton : public Singleton<SgxSingleton> { };
	struct SgxPhoenix : public PhoenixSingleton<SgxPhoenix> { };
	struct SgxSafe { };
	template class Singleton<SgxSingleton>;
	template class PhoenixSingleton<SgxPhoenix>;
	template class SafeSingleton<SgxSafe>;
	template class VectorFromSignalCollector<VS>;
	template class ValuesFromSignalCollector<std::vector<VS>>;
	template class ValueFromSignalObtainer<VS>;
	template class SignalToFutureWrapper<VS>;
	template class GenericSemaphoreLock<Semaphore>;


	struct SgxCounted : public self_counter<SgxCounted> { virtual ~SgxCounted() { } };
	template class self_count_ptr<SgxCounted>;

	struct SgxBase { virtual ~SgxBase() { } };
	struct SgxDerived : public SgxBase { };

	void sgx_use_shared(shared_ptr<SgxBase>& a, shared_ptr<SgxDerived>& b, weak_ptr<SgxBase>& w)
	{
		a = b;
		a = std::move(b);
		a.reset();
		a.reset(new SgxDerived());
		shared_ptr<SgxBase> c(b), d(std::move(b)), e(new SgxDerived()), f(make_shared_ptr<SgxDerived>());
		w = a;
		weak_ptr<SgxBase> x(a), y(x);
		shared_ptr<SgxBase> z(w.lock());
		shared_ptr<SgxDerived> q(dynamic_caster(a));
		c.swap(d);
	}

	void sgx_make_void();
	void sgx_use_signal(signal<void (const VS&), signal_policies::threading::Multithreaded>& s, const function<void (const VS&)>& f, const function<void (const function<void (const VS&)>&)>& f2, const ITaskExecutorPtr& ex)
	{
		Token t = s.connect(f);
		Token t2 = s.connect(ex, f);
		s("x");
		s.SendCurrentState(f);
		signal_connector<void (const VS&)> c(s.connector());
		Token t3 = c.connect(f);
		Token t5 = c.connect(ex, f);
		c.SendCurrentState(f);
		signal<void (const VS&), signal_policies::threading::Multithreaded, signal_policies::exception_handling::Null, signal_policies::populators::Null, signal_policies::connection_policy_control::Null, signal_policies::creation::Lazy> lazy;
		Token t6 = lazy.connect(f);
		Token t7 = lazy.connect(ex, f);
		Token t8 = lazy.connector().connect(f);
		lazy("x");
		signal_locker l(s);
		signal<void (const VS&)> a, b(null, null, ConnectionPolicy::SyncOnly);
		a("x");
		a.invoker()("x");
		const shared_ptr<Mutex> mutex(make_shared_ptr<Mutex>());
		signal<void (const VS&), signal_policies::threading::ExternalMutexPointer> em(signal_policies::threading::ExternalMutexPointer(mutex), f2);
		em("x");
		Token t4 = em.connect(f);
		em.SendCurrentState(f);
		signal_locker l2(em);
		signal<void ()> dm;
		dm();
		signal<void (), signal_policies::threading::Threadless> tl;
		tl();
		Token t9 = tl.connect(function<void ()>(&sgx_make_void));
	}

	int sgx_async(int x);
	void sgx_make_void();
	void sgx_use_functions(const ITaskExecutorPtr& ex, const FutureExecutionTester& t)
	{
		function<void ()> f(&sgx_make_void);
		function<void ()> g(MakeCancellableFunction(f, t));
		function<future<int> (int)> h(MakeAsyncFunction(ex, function<int (int)>(&sgx_async)));
		function<void ()> k(MakeAsyncFunction(ex, f));
		g(); h(1); k();
	}
	void sgx_use_scope(const function<void ()>& f)
	{
		ScopeExitInvoker e(f);
		Token t(MakeFunctionToken(f));
	}
}
