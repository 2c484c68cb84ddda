#include <stingraykit/BandwidthReporter.h>
#include <stingraykit/io/AsyncByteStream.h>
#include <stingraykit/io/BitStream.h>
#include <stingraykit/io/BithreadCircularBuffer.h>
#include <stingraykit/io/BithreadPipe.h>
#include <stingraykit/io/BufferedDataConsumer.h>
#include <stingraykit/io/BufferedDataMediator.h>
#include <stingraykit/io/BufferedDataSource.h>
#include <stingraykit/io/BufferedPipe.h>
#include <stingraykit/io/BufferedStream.h>
#include <stingraykit/io/ByteArrayDataSource.h>
#include <stingraykit/io/ByteStreamDataSource.h>
#include <stingraykit/io/ByteStreamWithOffset.h>
#include <stingraykit/io/ByteStreamWithOffsetAndSize.h>
#include <stingraykit/io/ChunkedMemoryByteStream.h>
#include <stingraykit/io/CircularBufferBase.h>
#include <stingraykit/io/DataAligner.h>
#include <stingraykit/io/DataBuffer.h>
#include <stingraykit/io/DataPacketer.h>
#include <stingraykit/io/DataSourceReader.h>
#include <stingraykit/io/DataUtils.h>
#include <stingraykit/io/IntermediateDataBuffer.h>
#include <stingraykit/io/MemoryByteStream.h>
#include <stingraykit/io/MemoryCircularBuffer.h>
#include <stingraykit/io/PacketBuffer.h>
#include <stingraykit/io/PagedBuffer.h>
#include <stingraykit/io/PipeDataSource.h>
#include <stingraykit/io/PipeReader.h>
#include <stingraykit/io/SharedCircularBuffer.h>
#include <stingraykit/io/SynchronizedPipe.h>

#include <string>

namespace stingray
{
	struct SgxMeta { int x; };
	template class PacketBuffer<SgxMeta>;
	template class BasicBitStream<ByteData, true>;
	template class BasicBitStream<ByteData, false>;
}

namespace stingray
{
	template class CircularBufferBase<false>;
	template class CircularBufferBase<true>;
	template class MemoryCircularBuffer<false>;
	template class MemoryCircularBuffer<true>;
	template class ChunkedMemoryByteStream<ByteArray>;
	template class MemoryByteStream<ByteArray>;
	template size_t ReadAll<IByteStream&>(IByteStream&, ByteData, const ICancellationToken&);
	template size_t WriteAll<IByteStream&>(IByteStream&, ConstByteData, const ICancellationToken&);
}
