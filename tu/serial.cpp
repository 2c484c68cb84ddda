// instantiates what writes itself to and reads itself from a stream
#include <stingraykit/collection/CollectionOpVariant.h>
#include <stingraykit/collection/KeyValuePair.h>
#include <stingraykit/NumericRange.h>
#include <stingraykit/Rect.h>
#include <stingraykit/Size.h>
#include <stingraykit/serialization/Serialization.h>
#include <stingraykit/string/TranslatedString.h>
#include <stingraykit/time/Time.h>
#include <stingraykit/variant.h>

#include <string>
#include <vector>
#include <map>

namespace stingray
{
	template void Size::Serialize(ObjectOStream&) const;
	template void Size::Deserialize(ObjectIStream&);
	template void SizeScale::Serialize(ObjectOStream&) const;
	template void SizeScale::Deserialize(ObjectIStream&);
	template void BasicPosition<int>::Serialize(ObjectOStream&) const;
	template void BasicPosition<int>::Deserialize(ObjectIStream&);
	template void BasicRect<int>::Serialize(ObjectOStream&) const;
	template void BasicRect<int>::Deserialize(ObjectIStream&);
	template void NumericRange<SimpleNumericRange<int>, int>::Serialize(ObjectOStream&) const;
	template void NumericRange<SimpleNumericRange<int>, int>::Deserialize(ObjectIStream&);
	template void CollectionOpVariant<int>::Serialize(ObjectOStream&) const;
	template void CollectionOpVariant<int>::Deserialize(ObjectIStream&);

	void InstantiateSerialization(ObjectOStream& o, ObjectIStream& i, optional<int>& oi, variant<TypeList<int, std::string>>& v, std::vector<int>& vi, std::map<std::string, int>& m, u64& u, bool& b, double& d)
	{
		o.Serialize(oi); i.Deserialize(oi);
		o.Serialize("x", oi); i.Deserialize("x", oi);
		o.Serialize("x", v); i.Deserialize("x", v);
		o.Serialize("x", vi); i.Deserialize("x", vi);
		o.Serialize("x", u); i.Deserialize("x", u);
		o.Serialize("x", b); i.Deserialize("x", b);
		o.Serialize("x", d); i.Deserialize("x", d);
	}
}
