// Witnesses: every operation of the pointers that own objects, for one class of objects and one derived from it.
#include <stingraykit/shared_ptr.h>
#include <stingraykit/self_counter.h>
#include <stingraykit/unique_ptr.h>
#include <stingraykit/ref_count.h>

namespace stingray
{
	struct SgxObj { virtual ~SgxObj() { } int _data; };
	struct SgxObj2 : public SgxObj { };
	struct SgxDel { void operator () (SgxObj* p) const { delete p; } };
	struct SgxSelf : public self_counter<SgxSelf> { };
	struct SgxSelf2 : public SgxSelf { };
	struct SgxTag { int _x; };

	template struct BasicAtomicInt<u32>;
	template struct BasicAtomicInt<s32>;
	template struct BasicAtomicInt<u64>;
	template class shared_ptr<SgxObj>;
	template class weak_ptr<SgxObj>;
	template class unique_ptr<SgxObj>;
	template class unique_ptr<SgxObj[]>;
	template class self_count_ptr<SgxSelf>;
	template class self_counter<SgxSelf>;

	size_t sgx_shared(const shared_ptr<SgxObj2>& d, SgxObj* raw, SgxObj2* raw2)
	{
		shared_ptr<SgxObj> a(d), b{shared_ptr<SgxObj2>(d)}, c(d, raw), e(shared_ptr<SgxObj2>(d), raw), f(raw, SgxDel()), g{unique_ptr<SgxObj2>(raw2)}, h{unique_ptr<SgxObj>(raw)};
		a = d;
		a = shared_ptr<SgxObj2>(d);
		a = unique_ptr<SgxObj2>(raw2);
		weak_ptr<SgxObj> w(d), v{weak_ptr<SgxObj2>(d)}, x(a);
		const weak_ptr<SgxObj2> y(d);
		weak_ptr<SgxObj> z(y);
		w = d;
		w = y;
		w = weak_ptr<SgxObj2>(d);
		w = a;
		shared_ptr<SgxObj> m = make_shared_ptr<SgxObj>();
		const shared_ptr<SgxObj2> n = DynamicCast<shared_ptr<SgxObj2>>(m);
		swap(a, b);
		swap(w, v);
		return a.owner_before(d) + a.owner_before(w) + w.owner_before(d) + w.owner_before(y) + (a == d) + (a == null) + (a != d) + (a != null) + (n == null) + (null == a);
	}

	size_t sgx_count(const SgxTag& tag)
	{
		basic_ref_count<SgxTag> a(tag), b(a), c(null);
		ref_count p, q(p);
		p = q;
		c = a;
		c.swap(b);
		return c.get() + c.add_ref() + c.release() + c.release_if_unique() + c.IsNull();
	}

	size_t sgx_self(const self_count_ptr<SgxSelf2>& d)
	{
		self_count_ptr<SgxSelf> a(d), b(self_count_ptr<SgxSelf2>{d});
		self_count_ptr<SgxSelf2> c(a, static_cast_tag()), e(self_count_ptr<SgxSelf>(a), static_cast_tag());
		a = d;
		a = self_count_ptr<SgxSelf2>(d);
		self_count_ptr<SgxSelf> m = make_self_count_ptr<SgxSelf>();
		return a.owner_before(c) + (a == c) + (a == null) + (a != c);
	}

	size_t sgx_unique(SgxObj2* raw)
	{
		unique_ptr<SgxObj2> d(raw);
		unique_ptr<SgxObj> a(std::move(d));
		a = unique_ptr<SgxObj2>(raw);
		unique_ptr<SgxObj> m = make_unique_ptr<SgxObj>();
		unique_ptr<SgxObj[]> n = make_unique_ptr<SgxObj[]>(3);
		return (a == d) + (a == null) + (a != d) + n.is_initialized();
	}
}
