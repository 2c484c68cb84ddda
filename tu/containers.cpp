#include <stingraykit/collection/IntrusiveList.h>
#include <stingraykit/collection/QueueCache.h>
#include <stingraykit/collection/RefCountingMap.h>
#include <stingraykit/collection/RefCountingSet.h>
#include <stingraykit/collection/RefCountingValue.h>
#include <stingraykit/collection/TwoQueueCache.h>
#include <stingraykit/collection/array.h>
#include <stingraykit/collection/bimap.h>
#include <stingraykit/collection/inplace_vector.h>
#include <stingraykit/collection/ByteData.h>
#include <stingraykit/function/function.h>
#include <stingraykit/any.h>
#include <stingraykit/lazy.h>
#include <stingraykit/optional.h>
#include <stingraykit/variant.h>

#include <string>

namespace stingray
{
	using VS = std::string;
	template class QueueCache<int, VS, QueueEvictionPolicy::Fifo>;
	template class QueueCache<int, VS, QueueEvictionPolicy::Lru>;
	template class TwoQueueCache<int, VS>;
	template class RefCountingMap<int, VS>;
	template class RefCountingSet<int>;
	template class RefCountingValue<VS>;
	template class inplace_vector<VS, 4>;
	template class array<VS, 4>;
	template class optional<VS>;
	template class optional<int>;
	template class variant<TypeList<EmptyType, int, VS>>;
	template class variant<TypeList<int, VS>>;
	template class BasicByteArray<u8>;
	template class BasicByteData<u8>;
	template class BasicByteData<const u8>;

	struct SgxListElem : public IntrusiveListNode<SgxListElem> { };
	template class IntrusiveList<SgxListElem>;
	template class IntrusiveListNode<SgxListElem>;

	void sgx_use_optional(optional<VS>& a, optional<VS>& b, VS s, any& x, any& y, const std::vector<int>& big)
	{
		a = b;
		a = std::move(b);
		a = s;
		a = std::move(s);
		a = null;
		a.emplace("x");
		a.assign(s);
		a.swap(b);
		optional<VS> c(a), d(std::move(a));
		x = y;
		x = std::move(y);
		any z1(1), z2(VS("a")), z3(big), z4(1.0), z5(x), z6(std::move(y));
	}

	void sgx_use_variant(variant<TypeList<EmptyType, int, VS>>& a, variant<TypeList<EmptyType, int, VS>>& b, VS s)
	{
		a = b;
		a = std::move(b);
		a = s;
		a = 1;
		variant<TypeList<EmptyType, int, VS>> c(a), d(std::move(b));
		a.assign(b);
		(void)a.get<VS>();
		(void)a.get_ptr<int>();
		(void)a.contains<int>();
	}

	void sgx_use_inplace(inplace_vector<VS, 4>& a, inplace_vector<VS, 4>& b, VS s)
	{
		a = b;
		a.push_back(s);
		a.push_back(std::move(s));
		a.emplace_back("x");
		inplace_vector<VS, 4> c(a);
	}

	int sgx_make_int() { return 1; }
}
