// instantiates the views over observable and transactional collections
#include <stingraykit/collection/DictionaryCaster.h>
#include <stingraykit/collection/DictionaryKeysSet.h>
#include <stingraykit/collection/ListCaster.h>
#include <stingraykit/collection/ObservableDictionaryKeyValue.h>
#include <stingraykit/collection/ObservableSetEntry.h>
#include <stingraykit/collection/SetCaster.h>
#include <stingraykit/collection/TransactionalDictionaryKeyValue.h>
#include <stingraykit/collection/IObservableList.h>
#include <stingraykit/collection/ITransactionalList.h>
#include <stingraykit/collection/ITransactionalSet.h>
#include <stingraykit/collection/ITransactionalDictionary.h>


#include <string>

namespace stingray
{
	using VS = std::string;

	template class ObservableListCaster<VS, int>;
	template class TransactionalListCaster<VS, int>;
	template class ObservableSetCaster<VS, int>;
	template class TransactionalSetCaster<VS, int>;
	template class ObservableDictionaryCaster<int, VS, int>;
	template class TransactionalDictionaryCaster<int, VS, int>;
	template class ObservableDictionaryKeysSet<int, VS>;
	template class TransactionalDictionaryKeysSet<int, VS, comparers::Equals>;
	template class ReadonlyObservableDictionaryKeyValue<int, VS, comparers::Equals>;
	template class ReadonlyTransactionalDictionaryKeyValue<int, VS, comparers::Equals>;
	template class ReadonlyObservableSetEntry<VS, comparers::Equals>;
	template class ObservableSetEntry<VS, comparers::Equals>;
}
