// Instantiates the enumerator adapters and the operations on enumerables.
#include <stingraykit/collection/DictionaryKeysSet.h>
#include <stingraykit/collection/EnumerableBuilder.h>
#include <stingraykit/collection/EnumerableHelpers.h>
#include <stingraykit/collection/ForEach.h>
#include <stingraykit/collection/FuncEnumerator.h>
#include <stingraykit/collection/KeyValueEnumerableHelpers.h>
#include <stingraykit/collection/StlEnumeratorAdapter.h>
#include <stingraykit/compare/comparers.h>

#include <string>

namespace stingray
{
	using VS = std::string;

	struct SgxBase { virtual ~SgxBase() { } };
	struct SgxDerived : public SgxBase { };
	using SgxBasePtr = shared_ptr<SgxBase>;
	using SgxDerivedPtr = shared_ptr<SgxDerived>;

	struct SgxCmp : public comparers::CmpComparerBase<SgxCmp>
	{
		template < typename T >
		int DoCompare(const T& l, const T& r) const
		{ return l < r ? -1 : r < l ? 1 : 0; }
	};

	using SgxPred = function<bool (const VS&)>;
	using SgxEn = IEnumerator<VS>;
	using SgxEnb = IEnumerable<VS>;
	using SgxEnPtr = shared_ptr<SgxEn>;
	using SgxEnbPtr = shared_ptr<SgxEnb>;

	template struct Detail::EmptyEnumerator<VS>;
	template struct Detail::OneItemEnumerator<VS>;
	template class Detail::JoiningEnumerator<VS>;
	template class EnumeratorJoiner<VS>;
	template class Detail::JoiningEnumerable<VS>;
	template class EnumerableJoiner<VS>;
	template class Enumerable::Detail::EnumeratorCaster<SgxDerivedPtr, shared_ptr<IEnumerator<SgxBasePtr>>>;
	template class Enumerable::Detail::EnumeratorOfType<SgxDerivedPtr, shared_ptr<IEnumerator<SgxBasePtr>>>;
	template class Enumerable::Detail::EnumeratorTransformer<VS, function<size_t (const VS&)>>;
	template class Enumerable::Detail::EnumerableTransformer<VS, function<size_t (const VS&)>>;
	template class Enumerable::Detail::EnumeratorTaker<VS>;
	template class Enumerable::Detail::EnumeratorFlattener<SgxEnbPtr>;
	template class Enumerable::Detail::EnumeratorDiff<VS, comparers::Cmp>;
	template class Detail::EnumeratorWrapper<VS, function<size_t (const VS&)>, SgxPred>;
	template class Detail::EnumerableWrapper<VS, function<size_t (const VS&)>, SgxPred>;
	template class Detail::ForEachEnumeratorCaster<SgxDerivedPtr, shared_ptr<IEnumerator<SgxBasePtr>>>;
	template class FuncEnumerator<VS>;
	template class IteratorsRangeEnumerator<std::vector<VS>::const_iterator>;
	template class Detail::StlIteratorsEnumerable<std::vector<VS>::const_iterator>;
	template class Detail::EnumerableToRange<SgxEnb>;
	template class EnumerableBuilder<VS>;
	template class TransactionalDictionaryKeysSet<int, VS, comparers::Equals>;
	template class ObservableDictionaryKeysSet<int, VS>;

	void sgx_for_each(const SgxEnPtr& e, const function<void (const VS&)>& act)
	{
		FOR_EACH(VS v IN e)
			act(v);
	}

	void sgx_for_each_enumerable(const SgxEnbPtr& e, const function<void (const VS&)>& act)
	{
		FOR_EACH(VS v IN e)
			act(v);
	}

	void sgx_for_each_continue(const SgxEnPtr& e, const function<void (const VS&)>& act)
	{
		FOR_EACH(VS v IN e)
		{
			act(v);
			continue;
		}
	}

	void sgx_for_each_where(const SgxEnPtr& e, const function<void (const VS&)>& act, const SgxPred& p)
	{
		FOR_EACH(VS v IN e WHERE p(v))
			act(v);
	}

	void sgx_for_each_break(const SgxEnPtr& e, const function<void (const VS&)>& act, const SgxPred& p)
	{
		FOR_EACH(VS v IN e)
		{
			if (p(v))
				break;
			act(v);
		}
	}

	void sgx_use_enumerables(const SgxEnPtr& e, const SgxEnbPtr& b, const SgxPred& p, const VS& v, const function<VS (const VS&, const VS&)>& f, const function<size_t (size_t, const VS&)>& f2,
			const function<void (const VS&)>& act, const function<size_t (const VS&)>& tr, const function<bool (const VS&, const VS&)>& eq, const shared_ptr<IEnumerator<SgxBasePtr>>& eb,
			const shared_ptr<IEnumerable<SgxBasePtr>>& bb, const shared_ptr<IEnumerable<SgxEnbPtr>>& nested, const shared_ptr<IEnumerator<SgxEnbPtr>>& nestedE)
	{
		using namespace Enumerable;
		(void)Aggregate(b, f); (void)Aggregate(b, size_t(0), f2);
		(void)All(b, p); (void)Any(b); (void)Any(b, p);
		(void)Concat(b, b); (void)Concat(e, e);
		(void)Contains(b, p); (void)Contains(b, v);
		(void)Count(b); (void)Count(b, p);
		ForEach(b, act);
		(void)IndexOf(b, p); (void)IndexOf(b, v);
		(void)ElementAt(b, 1); (void)ElementAtOrDefault(b, 1); (void)ElementAtOrDefault(b, 1, v);
		(void)DefaultIfEmpty(b); (void)DefaultIfEmpty(b, v); (void)DefaultIfEmpty(e); (void)DefaultIfEmpty(e, v);
		(void)First(b); (void)First(b, p); (void)FirstOrDefault(b); (void)FirstOrDefault(b, v); (void)FirstOrDefault(b, p); (void)FirstOrDefault(b, p, v);
		(void)Last(b); (void)Last(b, p); (void)LastOrDefault(b); (void)LastOrDefault(b, v); (void)LastOrDefault(b, p); (void)LastOrDefault(b, p, v);
		(void)Cast<SgxDerivedPtr>(eb); (void)Cast<SgxDerivedPtr>(bb);
		(void)OfType<SgxDerivedPtr>(eb); (void)OfType<SgxDerivedPtr>(bb);
		(void)Clone(b); (void)Reverse(b); (void)Reverse(e); (void)Single(b);
		(void)Transform(b, tr); (void)Transform(e, tr);
		(void)Where(b, p); (void)Where(e, p);
		(void)Skip(b, 1); (void)Skip(e, 1); (void)Take(b, 1); (void)Take(e, 1);
		(void)Flatten(nested); (void)Flatten(nestedE);
		(void)Diff(b, b, comparers::Cmp()); (void)Diff(e, e, comparers::Cmp());
		(void)SequenceEqual(e, e, eq); (void)SequenceEqual(e, e); (void)SequenceEqual(b, b, eq); (void)SequenceEqual(b, e);
	}
}
