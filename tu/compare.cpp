// instantiates comparisons and comparers
#include <stingraykit/collection/BytesOwner.h>
#include <stingraykit/collection/KeyValuePair.h>
#include <stingraykit/compare/CollectionComparer.h>
#include <stingraykit/compare/MemberListComparer.h>
#include <stingraykit/compare/comparers.h>
#include <stingraykit/optional.h>
#include <stingraykit/Rect.h>
#include <stingraykit/variant.h>

#include <string>
#include <vector>

namespace stingray
{
	template struct BasicPosition<int>;
	template struct BasicRect<int>;
	template struct KeyValuePair<int, std::string>;

	namespace
	{
		struct Parts
		{
			int					First;
			std::string			Second;
			optional<int>		Third;
		};

		using Ptr = shared_ptr<std::string>;
		using Opt = optional<std::string>;
		using Many = std::vector<int>;
		using Var = variant<TypeList<int, std::string>>;
		using Values = comparers::Cmp;

		template < typename T, typename Comparer >
		int Ask(const T& l, const T& r, const Comparer& c)
		{ return c(l, r) ? 1 : 0; }
	}

	int InstantiateComparers(const Ptr& pl, const Ptr& pr, const std::string& sl, const std::string& sr, const Opt& ol, const Opt& orr, const Many& ml, const Many& mr, const Parts& xl, const Parts& xr, const Var& vl, const Var& vr, const ConstBytesOwner& bl, const ConstBytesOwner& br)
	{
		int n = 0;
		n += Ask(sl, sr, comparers::Cmp()) + Ask(sl, sr, comparers::Less()) + Ask(sl, sr, comparers::Equals()) + Ask(sl, sr, comparers::Greater());
		n += Ask(pl, pr, comparers::Cmp()) + Ask(pl, pr, comparers::Less()) + Ask(pl, pr, comparers::Equals()) + Ask(pl, pr, comparers::Greater());
		n += Ask(sl, sr, comparers::CmpToLess<Values>()) + Ask(sl, sr, comparers::CmpToGreater<Values>()) + Ask(sl, sr, comparers::CmpToEquals<Values>());
		n += Ask(sl, sr, comparers::LessToEquals<comparers::Less>()) + Ask(sl, sr, comparers::LessToCmp<comparers::Less>());
		n += Ask(pl, pr, OwnerCmp()) + Ask(pl, pr, PointerCmp());
		n += ol.Compare(orr) + ol.Compare(sr) + Ask(ol, orr, OptionalCmp<comparers::Cmp>());
		n += Ask(ml, mr, CollectionCmp());
		n += CompareMembersCmp(&Parts::First, &Parts::Second, &Parts::Third)(xl, xr);
		n += CompareMembersLess(&Parts::First, CustomMemberComparer(&Parts::Second, comparers::Cmp()))(xl, xr);
		n += CompareMembersEquals(&Parts::First)(xl, xr) + CompareMembersGreater(&Parts::First)(xl, xr);
		n += (ol == orr) + (ol != orr) + (ol < orr) + (ol > orr) + (ol <= orr) + (ol >= orr);
		n += (vl == vr) + (vl < vr) + (bl == br) + (bl < br);
		return n;
	}
}
