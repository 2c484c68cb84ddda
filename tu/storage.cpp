// Witnesses: the classes that keep a value in raw storage, for values whose copies and moves may fail.
#include <stingraykit/any.h>
#include <stingraykit/optional.h>
#include <stingraykit/variant.h>
#include <stingraykit/collection/inplace_vector.h>

namespace stingray
{
	struct SgxOther;

	struct SgxVal
	{
		int _i;
		SgxVal(int i = 0);
		SgxVal(const SgxVal& other);
		SgxVal(SgxVal&& other);
		~SgxVal();
		SgxVal& operator = (const SgxVal& other);
		SgxVal& operator = (SgxVal&& other);
		bool operator == (const SgxVal& other) const;
		bool operator < (const SgxVal& other) const;
		bool operator == (const SgxOther& other) const;
		int Compare(const SgxVal& other) const;
	};

	struct SgxOther
	{
		SgxOther(const SgxVal& v);
		SgxOther(SgxVal&& v);
		SgxOther(const SgxOther& v);
		SgxOther(SgxOther&& v);
		~SgxOther();
		SgxOther& operator = (const SgxVal& v);
		SgxOther& operator = (SgxVal&& v);
		SgxOther& operator = (const SgxOther& v);
		SgxOther& operator = (SgxOther&& v);
		bool operator == (const SgxOther& other) const;
		bool operator < (const SgxOther& other) const;
	};

	template class optional<SgxVal>;
	template class variant<TypeList<SgxVal, SgxOther>>;
	template class variant<TypeList<EmptyType, SgxVal, SgxOther>>;
	template class inplace_vector<SgxVal, 2>;

	int sgx_optional(const optional<SgxVal>& o, optional<SgxVal>&& m, const SgxVal& v, SgxVal&& x, optional<SgxVal>& t)
	{
		optional<SgxVal> a(v), b(std::move(x)), c(InPlace, 1);
		optional<SgxOther> d(o), e(std::move(m)), f(v);
		d = o;
		d = std::move(m);
		d.assign(o);
		d.assign(std::move(m));
		d = v;
		a = v;
		a = std::move(x);
		a = null;
		a = o;
		a = std::move(m);
		a.assign(v);
		a.assign(std::move(x));
		a.assign(o);
		a.assign(std::move(m));
		a.emplace(1);
		a.emplace(v);
		t = a.get_value_or(v);
		t = optional<SgxVal>(a).get_value_or(v);
		return (a == b) + (a == null) + (a < b) + (a == v) + (a < v) + (v < a) + (a != b) + (a > b) + (a <= b) + (a >= b) + (a != null) + (null == a) + (null < a) + (a < null) + (a >= null) + (null <= a)
				+ (v == a) + (a != v) + (a >= v) + (a <= v) + (a > v) + (v >= a) + (v <= a) + (v > a) + a.Compare(null) + a.Compare(b) + a.Compare(v) + (a == d);
	}

	template < typename V >
	int sgx_variant(const V& o, V&& m, const SgxVal& v, SgxVal&& x, const SgxOther& w, V& t)
	{
		V a(v), b(std::move(x)), c(w);
		a = v;
		a = std::move(x);
		a = w;
		a.assign(v);
		a.assign(std::move(x));
		a.assign(w);
		a.template emplace<SgxVal>(1);
		a.template emplace<SgxOther>(w);
		t = a;
		return (a == b) + (a < b) + a.template contains<SgxVal>() + !a.template get_ptr<SgxVal>() + a.template get<SgxVal>()._i + o.template get<SgxVal>()._i + !o.template get_ptr<SgxOther>();
	}

	int sgx_variants(const variant<TypeList<SgxVal, SgxOther>>& o, variant<TypeList<SgxVal, SgxOther>>&& m, variant<TypeList<SgxVal, SgxOther>>& t,
			const variant<TypeList<EmptyType, SgxVal, SgxOther>>& oe, variant<TypeList<EmptyType, SgxVal, SgxOther>>&& me, variant<TypeList<EmptyType, SgxVal, SgxOther>>& te,
			const SgxVal& v, SgxVal&& x, const SgxOther& w)
	{ return sgx_variant(o, std::move(m), v, std::move(x), w, t) + sgx_variant(oe, std::move(me), v, std::move(x), w, te); }

	size_t sgx_inplace(inplace_vector<SgxVal, 2>& a, const SgxVal& v, SgxVal&& x, const std::vector<SgxVal>& f)
	{
		a.emplace_back(1);
		a.assign(f.begin(), f.end());
		return a.size();
	}

	bool sgx_any(any& a, const SgxVal& v, SgxVal&& x, const std::string& s, std::string&& y, const any& c)
	{
		any p(v), q(std::move(x)), r(s), t(std::move(y)), u(1);
		a = v;
		a = std::move(x);
		a = s;
		a = std::move(y);
		a = 1;
		return any_cast<SgxVal>(&a) && any_cast<std::string>(&c) && any_cast<int>(&c) && any_cast<SgxVal>(a)._i && any_cast<std::string>(c).size();
	}
}
