#include <stingraykit/collection/TransactionalDictionary.h>
#include <stingraykit/collection/TransactionalDictionaryKeyValue.h>
#include <stingraykit/collection/TransactionalList.h>
#include <stingraykit/collection/TransactionalSet.h>
#include <stingraykit/collection/TransactionHelpers.h>

#include <string>

namespace stingray
{
	using VS = std::string;
	template class TransactionalList<VS, comparers::Equals>;
	template class TransactionalSet<VS>;
	template class TransactionalDictionary<int, VS>;
}
