// Instantiates every member of the header-only collections so that the extractor sees resolved bodies.
#include <stingraykit/collection/ArrayList.h>
#include <stingraykit/collection/ArrayObservableList.h>
#include <stingraykit/collection/FlatMapDictionary.h>
#include <stingraykit/collection/FlatMapObservableDictionary.h>
#include <stingraykit/collection/FlatSortedObservableSet.h>
#include <stingraykit/collection/FlatSortedSet.h>
#include <stingraykit/collection/MapDictionary.h>
#include <stingraykit/collection/MapObservableDictionary.h>
#include <stingraykit/collection/MultiMapDictionary.h>
#include <stingraykit/collection/MultiMapObservableDictionary.h>
#include <stingraykit/collection/OrderedDictionary.h>
#include <stingraykit/collection/OrderedObservableDictionary.h>
#include <stingraykit/collection/OrderedObservableSet.h>
#include <stingraykit/collection/OrderedSet.h>
#include <stingraykit/collection/SortedMultiSet.h>
#include <stingraykit/collection/SortedObservableMultiSet.h>
#include <stingraykit/collection/SortedObservableSet.h>
#include <stingraykit/collection/SortedSet.h>

#include <string>

namespace stingray
{
	using VS = std::string;

	template class GenericList<std::vector<VS>>;
	template class ObservableListWrapper<ArrayList<VS>>;
	template class GenericSet<std::set<VS, comparers::Less>>;
	template class ObservableSetWrapper<SortedSet<VS>>;
	template class GenericDictionary<std::map<int, VS, comparers::Less>>;
	template class ObservableDictionaryWrapper<MapDictionary<int, VS>>;
	template class MultiMapDictionary<int, VS>;
	template class MultiMapObservableDictionary<int, VS>;
	template class SortedMultiSet<VS>;
	template class SortedObservableMultiSet<VS>;
	template class ordered_map<int, VS, comparers::Less>;
	template class ordered_set<VS, comparers::Less>;
	template class GenericDictionary<ordered_map<int, VS, comparers::Less>>;
	template class GenericSet<ordered_set<VS, comparers::Less>>;
	template class GenericDictionary<flat_map<int, VS, comparers::Less>>;
	template class GenericSet<flat_set<VS, comparers::Less>>;
	template class flat_map<int, VS, comparers::Less>;
	template class flat_set<VS, comparers::Less>;
}
