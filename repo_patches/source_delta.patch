From 3dba718e01740245af750c61e60527531cf5bc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 01/20] fix: ThreadPool: destroy finished tasks with unlocked
 mutex

---
 stingraykit/thread/ThreadPool.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/stingraykit/thread/ThreadPool.cpp b/stingraykit/thread/ThreadPool.cpp
index 91ab8df..cae763e 100644
--- a/stingraykit/thread/ThreadPool.cpp
+++ b/stingraykit/thread/ThreadPool.cpp
@@ -101,14 +101,16 @@ namespace stingray
 					continue;
 				}
 
+				optional<Task> task = _task;
 				{
-					const Task task = *_task;
-
 					MutexUnlock ul(l);
-					ExecuteTask(token, task);
+					ExecuteTask(token, *task);
 				}
 
 				_task.reset();
+
+				MutexUnlock ul(l);
+				task.reset(); // destroy object with unlocked mutex to keep lock order correct
 			}
 		}
 
@@ -257,14 +259,16 @@ namespace stingray
 				continue;
 			}
 
+			optional<Task> task = _task;
 			{
-				const Task task = *_task;
-
 				MutexUnlock ul(l);
-				ExecuteTask(token, task);
+				ExecuteTask(token, *task);
 			}
 
 			_task.reset();
+
+			MutexUnlock ul(l);
+			task.reset(); // destroy object with unlocked mutex to keep lock order correct
 		}
 	}
 
-- 
2.43.0


From f257611f0ebd223a77bc64ea8cd0599cf1fdaa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 02/20] fix: ThreadlessTaskExecutor: destroy cleared tasks with
 unlocked mutex

---
 stingraykit/thread/ThreadlessTaskExecutor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stingraykit/thread/ThreadlessTaskExecutor.cpp b/stingraykit/thread/ThreadlessTaskExecutor.cpp
index 6424be4..cbe2a67 100644
--- a/stingraykit/thread/ThreadlessTaskExecutor.cpp
+++ b/stingraykit/thread/ThreadlessTaskExecutor.cpp
@@ -65,12 +65,14 @@ namespace stingray
 
 	void ThreadlessTaskExecutor::ClearTasks()
 	{
+		QueueType queue; // destroy objects with unlocked mutex to keep lock order correct
+
 		MutexLock l(_syncRoot);
 
 		if (!_queue.empty())
 			s_logger.Warning() << "[" << _name << "] Clear " << _queue.size() << " tasks";
 
-		_queue.clear();
+		_queue.swap(queue);
 	}
 
 
-- 
2.43.0


From 0c6b08062df73710c453a2f38ea0e33221a138e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 03/20] fix: PagedBuffer::Seek: wake up the reader when data
 becomes readable again

---
 stingraykit/io/PagedBuffer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stingraykit/io/PagedBuffer.cpp b/stingraykit/io/PagedBuffer.cpp
index 7fb1a68..6b0ed4d 100644
--- a/stingraykit/io/PagedBuffer.cpp
+++ b/stingraykit/io/PagedBuffer.cpp
@@ -239,6 +239,7 @@ namespace stingray
 		Log(LogLevel::Debug) << "Seek: offset: " << offset << ", start offset: " << _startOffset << " --> current offset: " << newCurrentOffset;
 
 		_currentOffset = newCurrentOffset;
+		_dataPushed.Broadcast();
 	}
 
 
-- 
2.43.0


From e503bc42b8ea6c15c7f152d27ff4491aa89010f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 04/20] fix: PacketBuffer::Read: wake up writers when padding
 is released

---
 stingraykit/io/PacketBuffer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stingraykit/io/PacketBuffer.h b/stingraykit/io/PacketBuffer.h
index f91f97c..de2969e 100644
--- a/stingraykit/io/PacketBuffer.h
+++ b/stingraykit/io/PacketBuffer.h
@@ -146,6 +146,7 @@ namespace stingray
 			{
 				r.Pop(_paddingSize);
 				_paddingSize = 0;
+				_bufferFull.Broadcast();
 				r = _buffer.Read();
 			}
 
-- 
2.43.0


From 1336de36f1fe6c5de1ec40298390eab6af694db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 05/20] fix: promise::swap: swap the retrieved flag along with
 the state it belongs to

---
 stingraykit/future.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/stingraykit/future.h b/stingraykit/future.h
index 608fc6d..4495e74 100644
--- a/stingraykit/future.h
+++ b/stingraykit/future.h
@@ -297,7 +297,10 @@ namespace stingray
 		{ _futureImpl->set_exception(MakeExceptionPtr(BrokenPromise())); }
 
 		void swap(promise& other)
-		{ _futureImpl.swap(other._futureImpl); }
+		{
+			_futureImpl.swap(other._futureImpl);
+			std::swap(_futureRetrieved, other._futureRetrieved);
+		}
 
 		future<ResultType> get_future()
 		{ STINGRAYKIT_CHECK(!_futureRetrieved, FutureAlreadyRetrieved()); _futureRetrieved = true; return future<ResultType>(_futureImpl); }
@@ -329,7 +332,10 @@ namespace stingray
 		{ _futureImpl->set_exception(MakeExceptionPtr(BrokenPromise())); }
 
 		void swap(promise& other)
-		{ _futureImpl.swap(other._futureImpl); }
+		{
+			_futureImpl.swap(other._futureImpl);
+			std::swap(_futureRetrieved, other._futureRetrieved);
+		}
 
 		future<ResultType> get_future()
 		{ STINGRAYKIT_CHECK(!_futureRetrieved, FutureAlreadyRetrieved()); _futureRetrieved = true; return future<ResultType>(_futureImpl); }
-- 
2.43.0


From 835e812c8aa67ca6aaf5c96eeb6821f01c005c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 06/20] fix: TransactionalList::Transaction::Apply: insert
 added items

---
 stingraykit/collection/TransactionalList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/collection/TransactionalList.h b/stingraykit/collection/TransactionalList.h
index 3347cd6..8921da5 100644
--- a/stingraykit/collection/TransactionalList.h
+++ b/stingraykit/collection/TransactionalList.h
@@ -325,7 +325,7 @@ namespace stingray
 				switch (entry.Op)
 				{
 				case CollectionOp::Added:
-					Set(entry.Item.Key, entry.Item.Value);
+					Insert(entry.Item.Key, entry.Item.Value);
 					break;
 				case CollectionOp::Updated:
 					Set(entry.Item.Key, entry.Item.Value);
-- 
2.43.0


From 43ded723d5514631898e6b9558ee6f7b0289f0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 07/20] fix: CircularBufferBase::Clear: keep the wrap flag in
 step with the write offset

---
 stingraykit/io/CircularBufferBase.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stingraykit/io/CircularBufferBase.h b/stingraykit/io/CircularBufferBase.h
index edb2264..04cfa2c 100644
--- a/stingraykit/io/CircularBufferBase.h
+++ b/stingraykit/io/CircularBufferBase.h
@@ -211,9 +211,15 @@ namespace stingray
 			}
 
 			if (_readOffset + _lockedDataSize < GetStorageSize())
+			{
 				_writeOffset = _readOffset + _lockedDataSize;
+				_dataIsContiguous = true;
+			}
 			else
+			{
 				_writeOffset = _readOffset + _lockedDataSize - GetStorageSize();
+				_dataIsContiguous = false;
+			}
 
 			if (_loggingEnabled)
 			{
-- 
2.43.0


From baeafb0f27255ff8287abff4c447e7f17c7a8da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 08/20] fix: Barrier::Wait: do not take a spurious wake-up for
 the arrival of the others

---
 stingraykit/thread/Barrier.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/thread/Barrier.h b/stingraykit/thread/Barrier.h
index 04d04da..ab8520a 100644
--- a/stingraykit/thread/Barrier.h
+++ b/stingraykit/thread/Barrier.h
@@ -46,7 +46,8 @@ namespace stingray
 				_cv.Broadcast();
 			}
 			else
-				_cv.Wait(_mutex);
+				while (!_releasing)
+					_cv.Wait(_mutex);
 			if (--_currentCount == 0)
 			{
 				_releasing = false;
-- 
2.43.0


From 570640e55802869c595741a7b7d772b6e012f8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:41 +0000
Subject: [PATCH 09/20] fix: SortedMultiSet, MultiMapDictionary: ReverseFind:
 find the greatest element

---
 stingraykit/collection/MultiMapDictionary.h | 6 +++---
 stingraykit/collection/SortedMultiSet.h     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/stingraykit/collection/MultiMapDictionary.h b/stingraykit/collection/MultiMapDictionary.h
index 8040b06..2c525cd 100644
--- a/stingraykit/collection/MultiMapDictionary.h
+++ b/stingraykit/collection/MultiMapDictionary.h
@@ -121,11 +121,11 @@ namespace stingray
 		{
 			using cri = typename MapType::const_reverse_iterator;
 
-			const auto it = _map->upper_bound(key);
-			if (it == _map->end() || KeyCompareType()(cri(it)->first, key))
+			const auto it = cri(_map->upper_bound(key));
+			if (it == _map->crend() || KeyCompareType()(it->first, key))
 				return MakeEmptyEnumerator();
 
-			return WrapMapEnumerator(EnumeratorFromStlIterators(cri(it), _map->crend(), GetMapHolder()));
+			return WrapMapEnumerator(EnumeratorFromStlIterators(it, _map->crend(), GetMapHolder()));
 		}
 
 		ValueType GetFirst(const KeyType& key) const override
diff --git a/stingraykit/collection/SortedMultiSet.h b/stingraykit/collection/SortedMultiSet.h
index 67baf35..eade8d3 100644
--- a/stingraykit/collection/SortedMultiSet.h
+++ b/stingraykit/collection/SortedMultiSet.h
@@ -111,11 +111,11 @@ namespace stingray
 		{
 			using cri = typename SetType::const_reverse_iterator;
 
-			const auto it = _items->upper_bound(value);
-			if (it == _items->end() || CompareType_()(*cri(it), value))
+			const auto it = cri(_items->upper_bound(value));
+			if (it == _items->crend() || CompareType_()(*it, value))
 				return MakeEmptyEnumerator();
 
-			return EnumeratorFromStlIterators(cri(it), _items->crend(), GetItemsHolder());
+			return EnumeratorFromStlIterators(it, _items->crend(), GetItemsHolder());
 		}
 
 		void Add(const ValueType& value) override
-- 
2.43.0


From 1fb3d74504a0453ad233bfd0c9706679678955fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:35 +0000
Subject: [PATCH 10/20] fix: read reference counts atomically in
 self_counter::use_count and basic_ref_count::get

---
 stingraykit/ref_count.h    | 2 +-
 stingraykit/self_counter.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/ref_count.h b/stingraykit/ref_count.h
index 5d2bc2a..bbc768d 100644
--- a/stingraykit/ref_count.h
+++ b/stingraykit/ref_count.h
@@ -87,7 +87,7 @@ namespace stingray
 		inline const UserDataType& GetUserData() const { assert(_value); return _value->UserData; }
 		inline bool IsNull() const { return !_value; }
 
-		inline u32 get() const				{ assert(_value); return _value->Value; }
+		inline u32 get() const				{ assert(_value); return AtomicU32::Load(_value->Value); }
 		inline u32 add_ref()				{ assert(_value); return AtomicU32::Inc(_value->Value); }
 		inline u32 release()				{ assert(_value); return AtomicU32::Dec(_value->Value); }
 		inline bool release_if_unique()		{ assert(_value); return AtomicU32::CompareAndExchange(_value->Value, 1, 0) == 1; }
diff --git a/stingraykit/self_counter.h b/stingraykit/self_counter.h
index 8fb9314..3725ee9 100644
--- a/stingraykit/self_counter.h
+++ b/stingraykit/self_counter.h
@@ -201,7 +201,7 @@ namespace stingray
 		}
 
 		int use_count() const
-		{ return _value; }
+		{ return AtomicS32::Load(_value); }
 
 	protected:
 		self_counter()
-- 
2.43.0


From 15278ebefbf57f6b54cef84ee283f88c1fb3b75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:43 +0000
Subject: [PATCH 11/20] fix: any: keep a valid value when an assignment fails,
 refers to its own content or moves a string

---
 stingraykit/any.cpp |  1 +
 stingraykit/any.h   | 11 +++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/stingraykit/any.cpp b/stingraykit/any.cpp
index e9e4053..ccd0264 100644
--- a/stingraykit/any.cpp
+++ b/stingraykit/any.cpp
@@ -85,6 +85,7 @@ namespace stingray
 			break;
 		case Type::String:
 			_data.String.Ctor(std::move(other._data.String.Ref()));
+			other._data.String.Dtor();
 			break;
 		case Type::Object:
 		case Type::SerializableObject:
diff --git a/stingraykit/any.h b/stingraykit/any.h
index 331d40d..45a05ee 100644
--- a/stingraykit/any.h
+++ b/stingraykit/any.h
@@ -287,23 +287,26 @@ namespace stingray
 
 		any& operator = (const any& other)
 		{
+			any tmp(other);
 			Destroy();
-			Copy(other);
+			Move(std::move(tmp));
 			return *this;
 		}
 
 		any& operator = (any&& other)
 		{
+			any tmp(std::move(other));
 			Destroy();
-			Move(std::move(other));
+			Move(std::move(tmp));
 			return *this;
 		}
 
 		template < typename T >
 		typename EnableIf<!IsSame<any, typename Decay<T>::ValueT>::Value, any>::ValueT& operator = (T&& val)
 		{
+			any tmp(std::forward<T>(val));
 			Destroy();
-			Init<T>(std::forward<T>(val));
+			Move(std::move(tmp));
 			return *this;
 		}
 
@@ -322,8 +325,8 @@ namespace stingray
 		{
 			typedef typename Decay<T>::ValueT RawType;
 
-			_type = Detail::any::CppTypeToAnyUnionType<RawType>::Value;
 			Detail::any::AnyValAccessor<Detail::any::CppTypeToAnyUnionType<RawType>::Value>::Set(_data, std::forward<T>(val));
+			_type = Detail::any::CppTypeToAnyUnionType<RawType>::Value;
 		}
 
 		template < typename T >
-- 
2.43.0


From 02dfb7f1016a1011fea2ba4ce6ec8aa1c5eddea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:43 +0000
Subject: [PATCH 12/20] fix: variant: do not end up without a value on an
 exception that is not a std::exception

---
 stingraykit/variant.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stingraykit/variant.h b/stingraykit/variant.h
index 581a6b3..70b7ca6 100644
--- a/stingraykit/variant.h
+++ b/stingraykit/variant.h
@@ -17,6 +17,7 @@
 		do { \
 			try { __VA_ARGS__; } \
 			catch (const std::exception& ex) { STINGRAYKIT_FATAL(StringBuilder() % ErrorMessage_ % ":\n" % ex); } \
+			catch (...) { STINGRAYKIT_FATAL(StringBuilder() % ErrorMessage_ % ":\n<unknown exception>"); } \
 		} while (0)
 
 
@@ -512,7 +513,7 @@ namespace stingray
 				this->_storage.template Ctor<T>(std::forward<Us>(args)...);
 				this->_type = IndexOfTypeListItem<TypeList, T>::Value;
 			}
-			catch (const std::exception& ex)
+			catch (...)
 			{ AssignDefault(); throw; }
 		}
 
@@ -525,7 +526,7 @@ namespace stingray
 				this->_storage.template Ctor<typename Decay<T>::ValueT>(std::forward<T>(val));
 				this->_type = IndexOfTypeListItem<TypeList, typename Decay<T>::ValueT>::Value;
 			}
-			catch (const std::exception& ex)
+			catch (...)
 			{ AssignDefault(); throw; }
 		}
 
-- 
2.43.0


From dcd180d161c3a0d675c8f78ed5e3d1060faefb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:43 +0000
Subject: [PATCH 13/20] fix: variant: do not destroy the source of an
 assignment from the variant itself or its own value

---
 stingraykit/variant.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/stingraykit/variant.h b/stingraykit/variant.h
index 70b7ca6..88afd86 100644
--- a/stingraykit/variant.h
+++ b/stingraykit/variant.h
@@ -310,12 +310,18 @@ namespace stingray
 
 		void assign(const variant& other)
 		{
+			if (this == &other)
+				return;
+
 			base::Destruct();
 			Assign(other);
 		}
 
 		void assign(variant&& other)
 		{
+			if (this == &other)
+				return;
+
 			base::Destruct();
 			Assign(std::move(other));
 		}
@@ -323,8 +329,9 @@ namespace stingray
 		template < typename T >
 		void assign(T&& val, typename EnableIf<TypeListContains<TypeList, typename Decay<T>::ValueT>::Value, Dummy>::ValueT* = 0)
 		{
+			typename Decay<T>::ValueT tmp(std::forward<T>(val));
 			base::Destruct();
-			AssignVal(std::forward<T>(val));
+			AssignVal(std::move(tmp));
 		}
 
 		variant& operator = (const variant& other)
@@ -446,12 +453,18 @@ namespace stingray
 
 		void assign(const variant& other)
 		{
+			if (this == &other)
+				return;
+
 			base::Destruct();
 			Assign(other);
 		}
 
 		void assign(variant&& other)
 		{
+			if (this == &other)
+				return;
+
 			base::Destruct();
 			Assign(std::move(other));
 		}
@@ -459,8 +472,9 @@ namespace stingray
 		template < typename T >
 		void assign(T&& val, typename EnableIf<TypeListContains<TypeList, typename Decay<T>::ValueT>::Value, Dummy>::ValueT* = 0)
 		{
+			typename Decay<T>::ValueT tmp(std::forward<T>(val));
 			base::Destruct();
-			AssignVal(std::forward<T>(val));
+			AssignVal(std::move(tmp));
 		}
 
 		variant& operator = (const variant& other)
-- 
2.43.0


From fbadf38d859b080d847aa38ba4d9bc84396d2a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:43 +0000
Subject: [PATCH 14/20] fix: inplace_vector: keep the content on
 self-assignment

---
 stingraykit/collection/inplace_vector.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stingraykit/collection/inplace_vector.h b/stingraykit/collection/inplace_vector.h
index 34d68f2..6906b42 100644
--- a/stingraykit/collection/inplace_vector.h
+++ b/stingraykit/collection/inplace_vector.h
@@ -111,6 +111,9 @@ namespace stingray
 
 		inplace_vector& operator = (const inplace_vector& other)
 		{
+			if (this == &other)
+				return *this;
+
 			clear();
 			Copy(other);
 			return *this;
@@ -118,6 +121,9 @@ namespace stingray
 
 		inplace_vector& operator = (inplace_vector&& other)
 		{
+			if (this == &other)
+				return *this;
+
 			clear();
 			Move(std::move(other));
 			return *this;
-- 
2.43.0


From 88a428e6fa62a8e055bcd4e3a2e4c4c22b3d7569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:29 +0000
Subject: [PATCH 15/20] fix: PipeDataSource: keep what the consumer did not
 take for the next Read

---
 stingraykit/io/PipeDataSource.cpp | 18 ++++++++++--------
 stingraykit/io/PipeDataSource.h   |  3 +++
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/stingraykit/io/PipeDataSource.cpp b/stingraykit/io/PipeDataSource.cpp
index e2a5f00..f6b28c5 100644
--- a/stingraykit/io/PipeDataSource.cpp
+++ b/stingraykit/io/PipeDataSource.cpp
@@ -11,7 +11,7 @@ namespace stingray
 {
 
 	PipeDataSource::PipeDataSource(const IPipePtr& pipe, size_t bufferSize)
-		: _pipe(pipe), _buffer(bufferSize)
+		: _pipe(pipe), _buffer(bufferSize), _bufferOffset(), _bufferSize()
 	{ }
 
 
@@ -19,15 +19,17 @@ namespace stingray
 	{
 		try
 		{
-			const size_t read = _pipe->Read(_buffer, token);
-			if (read == 0)
-				return;
+			if (_bufferOffset == _bufferSize)
+			{
+				const size_t size = _pipe->Read(_buffer, token);
+				if (size == 0)
+					return;
 
-			const size_t processed = consumer.Process(ConstByteData(_buffer, 0, read), token);
-			if (processed == 0)
-				return;
+				_bufferOffset = 0;
+				_bufferSize = size;
+			}
 
-			STINGRAYKIT_CHECK(processed == read, NotImplementedException());
+			_bufferOffset += consumer.Process(ConstByteData(_buffer, _bufferOffset, _bufferSize - _bufferOffset), token);
 		}
 		catch (const PipeClosedException&)
 		{
diff --git a/stingraykit/io/PipeDataSource.h b/stingraykit/io/PipeDataSource.h
index cd9295a..fa5be48 100644
--- a/stingraykit/io/PipeDataSource.h
+++ b/stingraykit/io/PipeDataSource.h
@@ -23,6 +23,9 @@ namespace stingray
 
 		ByteArray	_buffer;
 
+		size_t		_bufferOffset;
+		size_t		_bufferSize;
+
 	public:
 		explicit PipeDataSource(const IPipePtr& pipe, size_t bufferSize = DefaultBufferSize);
 
-- 
2.43.0


From d400558a973c8c72802f5dc649f505ee711a2ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:29 +0000
Subject: [PATCH 16/20] fix: BufferedStream: do not read beyond the end of the
 buffer after a short read at an unaligned position

---
 stingraykit/io/BufferedStream.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/io/BufferedStream.h b/stingraykit/io/BufferedStream.h
index 9c12500..a8b7a84 100644
--- a/stingraykit/io/BufferedStream.h
+++ b/stingraykit/io/BufferedStream.h
@@ -44,12 +44,12 @@ namespace stingray
 			u8* dst = data.data();
 			for (size_t toCopy = 0; total < dstSize && token; _inBufferOffset += toCopy, dst += toCopy, total += toCopy)
 			{
-				if (!_bufferSize || _inBufferOffset == _bufferSize)
+				if (!_bufferSize || _inBufferOffset >= _bufferSize)
 				{
 					if (_bufferSize)
 						SeekStream(Tell());
 					_bufferSize = _stream->Read(_buffer, token);
-					if (!_bufferSize || _inBufferOffset == _bufferSize)
+					if (!_bufferSize || _inBufferOffset >= _bufferSize)
 						break;
 				}
 				toCopy = std::min(dstSize - total, _bufferSize - _inBufferOffset);
-- 
2.43.0


From 7e9dc549415fcb03a8321d124ff33e989b5a71c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:29 +0000
Subject: [PATCH 17/20] fix: ChunkedMemoryByteStream: go on to the next chunk
 when a write spans chunks

---
 stingraykit/io/ChunkedMemoryByteStream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/io/ChunkedMemoryByteStream.h b/stingraykit/io/ChunkedMemoryByteStream.h
index 5956060..494d783 100644
--- a/stingraykit/io/ChunkedMemoryByteStream.h
+++ b/stingraykit/io/ChunkedMemoryByteStream.h
@@ -58,11 +58,12 @@ namespace stingray
 		virtual u64 Write(ConstByteData data, const ICancellationToken& token = DummyCancellationToken())
 		{
 			STINGRAYKIT_CHECK(data.size() > 0, LogicException("writing empty data"));
-			NormalizePosition();
 
 			size_t passed = 0;
 			for (size_t curcount = 0; passed < data.size(); passed += curcount)
 			{
+				NormalizePosition();
+
 				if (_chunk == _container->end())
 				{
 					STINGRAYKIT_CHECK(_chunkOffset == 0, LogicException("_chunkOffset must be 0"));
-- 
2.43.0


From a0f065164d08e9c56ce1177004109c426b300046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:29 +0000
Subject: [PATCH 18/20] fix: SkippingConsumer: return what was really consumed
 when the rest is cut short by cancellation

---
 stingraykit/io/DataUtils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/io/DataUtils.h b/stingraykit/io/DataUtils.h
index 2441ea7..b6bd651 100644
--- a/stingraykit/io/DataUtils.h
+++ b/stingraykit/io/DataUtils.h
@@ -96,9 +96,9 @@ namespace stingray
 			_leftToSkip -= skipped;
 
 			if (data.size() > skipped && _processRest)
-				ConsumeAll(_consumer, ConstByteData(data, skipped), token);
+				return skipped + ConsumeAll(_consumer, ConstByteData(data, skipped), token);
 
-			return _processRest ? data.size() : skipped;
+			return skipped;
 		}
 
 		void EndOfData(const ICancellationToken& token) override
-- 
2.43.0


From 347b651a338cd4f08796ce8bc23d53630c30e932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:29 +0000
Subject: [PATCH 19/20] fix: PagedBuffer: count the data a consumer has
 processed even if the read is cancelled meanwhile

---
 stingraykit/io/PagedBuffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/io/PagedBuffer.cpp b/stingraykit/io/PagedBuffer.cpp
index 6b0ed4d..cf5240c 100644
--- a/stingraykit/io/PagedBuffer.cpp
+++ b/stingraykit/io/PagedBuffer.cpp
@@ -97,7 +97,6 @@ namespace stingray
 			MutexUnlock ul(l);
 
 			processed = page->Read(offset, consumer, token);
-			STINGRAYKIT_CHECK_CANCELLATION(token);
 		}
 
 		Log(LogLevel::Trace) << "Read: processed size: " << processed << " (" << (processed / _chunkSize) << " chunk(s))";
@@ -111,6 +110,8 @@ namespace stingray
 
 		if (_currentOffset == currentOffset)
 			_currentOffset += processed;
+
+		STINGRAYKIT_CHECK_CANCELLATION(token);
 	}
 
 
-- 
2.43.0


From 9cdb041cc706014102194047822bb6d78342d75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:39 +0000
Subject: [PATCH 20/20] fix: texts that compare as alike in different encodings
 are equal, whatever number of bytes they take

---
 stingraykit/locale/LocaleString.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/stingraykit/locale/LocaleString.cpp b/stingraykit/locale/LocaleString.cpp
index a6b7b92..81707e6 100644
--- a/stingraykit/locale/LocaleString.cpp
+++ b/stingraykit/locale/LocaleString.cpp
@@ -44,9 +44,6 @@ namespace stingray
 		if (TextEncoding == other.TextEncoding) //encoding matched
 			return Text == other.Text;
 
-		if (Text.size() != other.Text.size())
-			return false;
-
 		return Compare(other) == 0;
 	}
 
-- 
2.43.0

