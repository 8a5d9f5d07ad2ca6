From e44bfd7f844123f321501a8bbce2c74c4d96d311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:28 +0000
Subject: [PATCH 01/17] fix: serialize every element of an array of virtually
 serializable objects

---
 src/checkpoint/dispatch/dispatch_serializer_nonbyte.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
index 247e0c4..c8ac236 100644
--- a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
+++ b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
@@ -222,7 +222,10 @@ struct SerializerDispatchNonByte {
       s.setVirtualDisabled(false);
       applyStatic(s, val, num);
     } else {
-      dispatch::vrt::virtualSerialize(val, s);
+      for (SerialSizeType i = 0; i < num; i++) {
+        T* elm = val + i;
+        dispatch::vrt::virtualSerialize(elm, s);
+      }
     }
   }
 
-- 
2.43.0


From 30790cd422359469d1e79e3afb6715a9f9256c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:28 +0000
Subject: [PATCH 02/17] fix: in-place deserialization of containers discards
 their previous elements

---
 src/checkpoint/container/list_serialize.h   | 3 +++
 src/checkpoint/container/map_serialize.h    | 3 +++
 src/checkpoint/container/queue_serialize.h  | 5 +++++
 src/checkpoint/container/vector_serialize.h | 3 +++
 4 files changed, 14 insertions(+)

diff --git a/src/checkpoint/container/list_serialize.h b/src/checkpoint/container/list_serialize.h
index 262a08d..4bab083 100644
--- a/src/checkpoint/container/list_serialize.h
+++ b/src/checkpoint/container/list_serialize.h
@@ -86,6 +86,9 @@ deserializeOrderedElems(
   using Reconstructor =
     dispatch::Reconstructor<typename dispatch::CleanType<ElmT>::CleanT>;
 
+  // Support deserialization in place: drop whatever the container held before
+  cont.clear();
+
   Alloc allocated;
   for (typename ContainerT::size_type i = 0; i < size; ++i) {
     auto* reconstructed = Reconstructor::construct(allocated.buf);
diff --git a/src/checkpoint/container/map_serialize.h b/src/checkpoint/container/map_serialize.h
index a1a2a88..7e983b2 100644
--- a/src/checkpoint/container/map_serialize.h
+++ b/src/checkpoint/container/map_serialize.h
@@ -67,6 +67,9 @@ inline typename std::enable_if_t<
   using Reconstructor =
     dispatch::Reconstructor<typename dispatch::CleanType<ElmT>::CleanT>;
 
+  // Support deserialization in place: drop whatever the container held before
+  cont.clear();
+
   Alloc allocated;
   for (typename ContainerT::size_type i = 0; i < size; i++) {
     auto* reconstructed = Reconstructor::construct(allocated.buf);
diff --git a/src/checkpoint/container/queue_serialize.h b/src/checkpoint/container/queue_serialize.h
index 485fbcc..03428e7 100644
--- a/src/checkpoint/container/queue_serialize.h
+++ b/src/checkpoint/container/queue_serialize.h
@@ -56,6 +56,11 @@ void deserializeQueueElems(SerializerT& s, std::queue<T>& q, typename std::queue
   using Reconstructor =
     dispatch::Reconstructor<typename dispatch::CleanType<T>::CleanT>;
 
+  // Support deserialization in place: drop whatever the queue held before
+  while (!q.empty()) {
+    q.pop();
+  }
+
   dispatch::Allocator<T> allocated;
   for (typename std::queue<T>::size_type i = 0; i < size; ++i) {
     auto* reconstructed = Reconstructor::construct(allocated.buf);
diff --git a/src/checkpoint/container/vector_serialize.h b/src/checkpoint/container/vector_serialize.h
index ed4478c..16e9918 100644
--- a/src/checkpoint/container/vector_serialize.h
+++ b/src/checkpoint/container/vector_serialize.h
@@ -99,6 +99,9 @@ void constructVectorData(
   using Reconstructor =
     dispatch::Reconstructor<typename dispatch::CleanType<T>::CleanT>;
 
+  // Support deserialization in place: drop whatever the vector held before
+  vec.clear();
+
   Alloc allocated;
   for (SerialSizeType i = 0; i < vec_size; ++i) {
     auto* reconstructed = Reconstructor::construct(allocated.buf);
-- 
2.43.0


From 37582e85411d2466893e54cf77a6bba4c554296d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:55 +0000
Subject: [PATCH 03/17] fix: destroy the temporaries reconstructed while
 deserializing containers

---
 src/checkpoint/container/list_serialize.h     | 14 ++--------
 src/checkpoint/container/map_serialize.h      |  7 +----
 src/checkpoint/container/optional_serialize.h | 18 ++++---------
 src/checkpoint/container/queue_serialize.h    |  6 +----
 src/checkpoint/container/variant_serialize.h  |  6 +----
 src/checkpoint/container/vector_serialize.h   | 14 ++--------
 src/checkpoint/dispatch/allocator.h           | 26 +++++++++++++++++++
 7 files changed, 38 insertions(+), 53 deletions(-)

diff --git a/src/checkpoint/container/list_serialize.h b/src/checkpoint/container/list_serialize.h
index 4bab083..cd388c8 100644
--- a/src/checkpoint/container/list_serialize.h
+++ b/src/checkpoint/container/list_serialize.h
@@ -62,12 +62,7 @@ deserializeOrderedElems(
   Serializer& s, ContainerT& cont, typename ContainerT::size_type size,
   isCopyConstructible<ElmT>* = nullptr
 ) {
-  using Alloc = dispatch::Allocator<ElmT>;
-  using Reconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<ElmT>::CleanT>;
-
-  Alloc allocated;
-  auto* reconstructed = Reconstructor::construct(allocated.buf);
+  dispatch::Temporary<ElmT> reconstructed;
   cont.resize(size, *reconstructed);
   for (auto& val : cont) {
     s | val;
@@ -82,16 +77,11 @@ deserializeOrderedElems(
   Serializer& s, ContainerT& cont, typename ContainerT::size_type size,
   isNotCopyConstructible<ElmT>* = nullptr
 ) {
-  using Alloc = dispatch::Allocator<ElmT>;
-  using Reconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<ElmT>::CleanT>;
-
   // Support deserialization in place: drop whatever the container held before
   cont.clear();
 
-  Alloc allocated;
   for (typename ContainerT::size_type i = 0; i < size; ++i) {
-    auto* reconstructed = Reconstructor::construct(allocated.buf);
+    dispatch::Temporary<ElmT> reconstructed;
     s | *reconstructed;
     cont.emplace_back(std::move(*reconstructed));
   }
diff --git a/src/checkpoint/container/map_serialize.h b/src/checkpoint/container/map_serialize.h
index 7e983b2..fc3bcb0 100644
--- a/src/checkpoint/container/map_serialize.h
+++ b/src/checkpoint/container/map_serialize.h
@@ -63,16 +63,11 @@ inline typename std::enable_if_t<
 > deserializeEmplaceElems(
   Serializer& s, ContainerT& cont, typename ContainerT::size_type size
 ) {
-  using Alloc = dispatch::Allocator<ElmT>;
-  using Reconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<ElmT>::CleanT>;
-
   // Support deserialization in place: drop whatever the container held before
   cont.clear();
 
-  Alloc allocated;
   for (typename ContainerT::size_type i = 0; i < size; i++) {
-    auto* reconstructed = Reconstructor::construct(allocated.buf);
+    dispatch::Temporary<ElmT> reconstructed;
     s | *reconstructed;
     cont.emplace(std::move(*reconstructed));
   }
diff --git a/src/checkpoint/container/optional_serialize.h b/src/checkpoint/container/optional_serialize.h
index c996286..9116306 100644
--- a/src/checkpoint/container/optional_serialize.h
+++ b/src/checkpoint/container/optional_serialize.h
@@ -52,20 +52,12 @@ namespace checkpoint {
 
 template <typename SerializerT, typename T>
 void deserializeOptional(SerializerT& s, std::optional<T>& optional) {
-  using BoolReconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<bool>::CleanT>;
-  using ValReconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<T>::CleanT>;
-
-  dispatch::Allocator<bool> boolAllocated;
-  dispatch::Allocator<T> valAllocated;
-
-  auto* has_value = BoolReconstructor::construct(boolAllocated.buf);
-  s | *has_value;
-  if (*has_value) {
-    auto* value = ValReconstructor::construct(valAllocated.buf);
+  bool has_value = false;
+  s | has_value;
+  if (has_value) {
+    dispatch::Temporary<T> value;
     s | *value;
-    optional = *value;
+    optional = std::move(*value);
   } else {
     optional.reset();
   }
diff --git a/src/checkpoint/container/queue_serialize.h b/src/checkpoint/container/queue_serialize.h
index 03428e7..2cfbcc2 100644
--- a/src/checkpoint/container/queue_serialize.h
+++ b/src/checkpoint/container/queue_serialize.h
@@ -53,17 +53,13 @@ namespace checkpoint {
 
 template<typename SerializerT, typename T>
 void deserializeQueueElems(SerializerT& s, std::queue<T>& q, typename std::queue<T>::size_type size) {
-  using Reconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<T>::CleanT>;
-
   // Support deserialization in place: drop whatever the queue held before
   while (!q.empty()) {
     q.pop();
   }
 
-  dispatch::Allocator<T> allocated;
   for (typename std::queue<T>::size_type i = 0; i < size; ++i) {
-    auto* reconstructed = Reconstructor::construct(allocated.buf);
+    dispatch::Temporary<T> reconstructed;
     s | *reconstructed;
     q.push(std::move(*reconstructed));
   }
diff --git a/src/checkpoint/container/variant_serialize.h b/src/checkpoint/container/variant_serialize.h
index 7c0e69a..04a7bb6 100644
--- a/src/checkpoint/container/variant_serialize.h
+++ b/src/checkpoint/container/variant_serialize.h
@@ -64,11 +64,7 @@ struct SerializeEntry<Arg, Args...> {
   ) {
     if (entry == cur) {
       if (s.isUnpacking()) {
-        using Alloc = dispatch::Allocator<Arg>;
-        using Reconstructor =
-          dispatch::Reconstructor<typename dispatch::CleanType<Arg>::CleanT>;
-        Alloc allocated;
-        auto* reconstructed = Reconstructor::construct(allocated.buf);
+        dispatch::Temporary<Arg> reconstructed;
         s | *reconstructed;
         v = std::move(*reconstructed);
       } else {
diff --git a/src/checkpoint/container/vector_serialize.h b/src/checkpoint/container/vector_serialize.h
index 16e9918..4b04001 100644
--- a/src/checkpoint/container/vector_serialize.h
+++ b/src/checkpoint/container/vector_serialize.h
@@ -81,12 +81,7 @@ void constructVectorData(
   SerialSizeType const vec_size, std::vector<T, VectorAllocator>& vec,
   isNotDefaultConsType<T>* = nullptr, isCopyConstructible<T>* = nullptr
 ) {
-  using Alloc = dispatch::Allocator<T>;
-  using Reconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<T>::CleanT>;
-
-  Alloc allocated;
-  auto* reconstructed = Reconstructor::construct(allocated.buf);
+  dispatch::Temporary<T> reconstructed;
   vec.resize(vec_size, *reconstructed);
 }
 
@@ -95,16 +90,11 @@ void constructVectorData(
   SerialSizeType const vec_size, std::vector<T, VectorAllocator>& vec,
   isNotDefaultConsType<T>* = nullptr, isNotCopyConstructible<T>* = nullptr
 ) {
-  using Alloc = dispatch::Allocator<T>;
-  using Reconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<T>::CleanT>;
-
   // Support deserialization in place: drop whatever the vector held before
   vec.clear();
 
-  Alloc allocated;
   for (SerialSizeType i = 0; i < vec_size; ++i) {
-    auto* reconstructed = Reconstructor::construct(allocated.buf);
+    dispatch::Temporary<T> reconstructed;
     vec.emplace_back(std::move(*reconstructed));
   }
 }
diff --git a/src/checkpoint/dispatch/allocator.h b/src/checkpoint/dispatch/allocator.h
index 1083c55..f9779ef 100644
--- a/src/checkpoint/dispatch/allocator.h
+++ b/src/checkpoint/dispatch/allocator.h
@@ -55,9 +55,35 @@ struct Allocator {
   Allocator() : buf{Standard::template allocate<T>()} { }
   ~Allocator() { std::allocator<T>{}.deallocate(reinterpret_cast<T*>(buf), 1); }
 
+  Allocator(Allocator const&) = delete;
+  Allocator& operator=(Allocator const&) = delete;
+
   SerialByteType* buf;
 };
 
+/**
+ * \struct Temporary
+ *
+ * \brief A \c T built by the reconstruction strategy on its own storage, which
+ * is destroyed along with the storage at the end of the scope
+ */
+template <typename T>
+struct Temporary {
+  Temporary()
+    : obj{Reconstructor<typename CleanType<T>::CleanT>::construct(alloc.buf)}
+  { }
+  ~Temporary() { std::destroy_at(obj); }
+
+  Temporary(Temporary const&) = delete;
+  Temporary& operator=(Temporary const&) = delete;
+
+  T& operator*() const { return *obj; }
+
+private:
+  Allocator<T> alloc;
+  typename CleanType<T>::CleanT* obj;
+};
+
 }} // namespace checkpoint::dispatch
 
 #endif /*INCLUDED_SRC_CHECKPOINT_DISPATCH_ALLOCATOR_H*/
-- 
2.43.0


From 063fb2c613a214bd4dcc7732fd074a68eef08fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 04/17] fix: reconstruct every element of a list or deque
 separately

---
 src/checkpoint/container/list_serialize.h | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/checkpoint/container/list_serialize.h b/src/checkpoint/container/list_serialize.h
index cd388c8..4be8c97 100644
--- a/src/checkpoint/container/list_serialize.h
+++ b/src/checkpoint/container/list_serialize.h
@@ -59,31 +59,16 @@ inline typename std::enable_if_t<
   not checkpoint::is_footprinter_v<Serializer>, void
 >
 deserializeOrderedElems(
-  Serializer& s, ContainerT& cont, typename ContainerT::size_type size,
-  isCopyConstructible<ElmT>* = nullptr
-) {
-  dispatch::Temporary<ElmT> reconstructed;
-  cont.resize(size, *reconstructed);
-  for (auto& val : cont) {
-    s | val;
-  }
-}
-
-template <typename Serializer, typename ContainerT, typename ElmT>
-inline typename std::enable_if_t<
-  not checkpoint::is_footprinter_v<Serializer>, void
->
-deserializeOrderedElems(
-  Serializer& s, ContainerT& cont, typename ContainerT::size_type size,
-  isNotCopyConstructible<ElmT>* = nullptr
+  Serializer& s, ContainerT& cont, typename ContainerT::size_type size
 ) {
   // Support deserialization in place: drop whatever the container held before
   cont.clear();
 
+  // Every element gets its own construction, so none shares state with another
   for (typename ContainerT::size_type i = 0; i < size; ++i) {
     dispatch::Temporary<ElmT> reconstructed;
-    s | *reconstructed;
     cont.emplace_back(std::move(*reconstructed));
+    s | cont.back();
   }
 }
 
-- 
2.43.0


From 54ee7dff937a19bd2dd3e6b008b56884079a960a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:57 +0000
Subject: [PATCH 05/17] fix: vector elements follow the reconstruction
 precedence, each on its own

---
 src/checkpoint/container/vector_serialize.h | 30 ++++++++++-----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/checkpoint/container/vector_serialize.h b/src/checkpoint/container/vector_serialize.h
index 4b04001..5c812b7 100644
--- a/src/checkpoint/container/vector_serialize.h
+++ b/src/checkpoint/container/vector_serialize.h
@@ -68,31 +68,31 @@ serializeVectorMeta(SerializerT& s, std::vector<T, VectorAllocator>& vec) {
   return vec_size;
 }
 
-template <typename T, typename VectorAllocator>
-void constructVectorData(
-  SerialSizeType const vec_size, std::vector<T, VectorAllocator>& vec,
-  isDefaultConsType<T>* = nullptr
-) {
-  vec.resize(vec_size);
-}
+// The default constructor comes last in the reconstruction precedence, so only
+// then does resize() create the elements as required
+template <typename T>
+static constexpr bool const vector_elms_use_default_cons_v =
+  std::is_default_constructible<T>::value and
+  not SerializableTraits<T, void>::is_tagged_constructible and
+  not SerializableTraits<T, void>::is_reconstructible;
 
 template <typename T, typename VectorAllocator>
-void constructVectorData(
-  SerialSizeType const vec_size, std::vector<T, VectorAllocator>& vec,
-  isNotDefaultConsType<T>* = nullptr, isCopyConstructible<T>* = nullptr
+typename std::enable_if_t<vector_elms_use_default_cons_v<T>, void>
+constructVectorData(
+  SerialSizeType const vec_size, std::vector<T, VectorAllocator>& vec
 ) {
-  dispatch::Temporary<T> reconstructed;
-  vec.resize(vec_size, *reconstructed);
+  vec.resize(vec_size);
 }
 
 template <typename T, typename VectorAllocator>
-void constructVectorData(
-  SerialSizeType const vec_size, std::vector<T, VectorAllocator>& vec,
-  isNotDefaultConsType<T>* = nullptr, isNotCopyConstructible<T>* = nullptr
+typename std::enable_if_t<not vector_elms_use_default_cons_v<T>, void>
+constructVectorData(
+  SerialSizeType const vec_size, std::vector<T, VectorAllocator>& vec
 ) {
   // Support deserialization in place: drop whatever the vector held before
   vec.clear();
 
+  // Every element gets its own construction, so none shares state with another
   for (SerialSizeType i = 0; i < vec_size; ++i) {
     dispatch::Temporary<T> reconstructed;
     vec.emplace_back(std::move(*reconstructed));
-- 
2.43.0


From 581bbb3cb99131fd8314820a4778e9c8101af8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:38 +0000
Subject: [PATCH 06/17] fix: serialize virtual objects to and from any standard
 stream class

---
 src/checkpoint/checkpoint_api.impl.h           |  6 +++---
 src/checkpoint/serializers/stream_serializer.h | 17 +++++++++++++++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index 863472e..9eea1f6 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -126,7 +126,7 @@ void deserializeInPlaceFromFile(std::string const& file, T* t) {
 template <typename T, typename StreamT>
 void serializeToStream(T& target, StreamT& stream) {
   auto len = getSize<T>(target);
-  dispatch::Standard::pack<T, StreamPacker<StreamT>>(
+  dispatch::Standard::pack<T, StreamPackerFor<StreamT>>(
     target, len, stream
   );
 }
@@ -135,7 +135,7 @@ template <typename T, typename StreamT>
 std::unique_ptr<T> deserializeFromStream(StreamT& stream) {
   auto mem = dispatch::Standard::allocate<T>();
   T* t_buf = dispatch::Standard::construct<T>(mem);
-  auto t = dispatch::Standard::unpack<T, StreamUnpacker<StreamT>>(
+  auto t = dispatch::Standard::unpack<T, StreamUnpackerFor<StreamT>>(
     t_buf, stream
   );
   return std::unique_ptr<T>(t);
@@ -143,7 +143,7 @@ std::unique_ptr<T> deserializeFromStream(StreamT& stream) {
 
 template <typename T, typename StreamT>
 void deserializeInPlaceFromStream(StreamT& stream, T* t) {
-  dispatch::Standard::unpack<T, StreamUnpacker<StreamT>>(
+  dispatch::Standard::unpack<T, StreamUnpackerFor<StreamT>>(
     t, stream
   );
 }
diff --git a/src/checkpoint/serializers/stream_serializer.h b/src/checkpoint/serializers/stream_serializer.h
index 2974009..efe96fc 100644
--- a/src/checkpoint/serializers/stream_serializer.h
+++ b/src/checkpoint/serializers/stream_serializer.h
@@ -48,6 +48,7 @@
 #include "checkpoint/serializers/base_serializer.h"
 #include <ostream>
 #include <istream>
+#include <type_traits>
 
 namespace checkpoint {
 
@@ -94,6 +95,22 @@ private:
   SerialSizeType n_bytes = 0;
 };
 
+/// Any standard stream goes through the serializers instantiated for virtually
+/// serialized objects (see \c checkpoint_serializer_variadic_args)
+template <typename StreamT>
+using StreamPackerFor = StreamPacker<
+  std::conditional_t<
+    std::is_base_of<std::ostream, StreamT>::value, std::ostream, StreamT
+  >
+>;
+
+template <typename StreamT>
+using StreamUnpackerFor = StreamUnpacker<
+  std::conditional_t<
+    std::is_base_of<std::istream, StreamT>::value, std::istream, StreamT
+  >
+>;
+
 } /* end namespace checkpoint */
 
 #endif /*INCLUDED_SRC_CHECKPOINT_SERIALIZERS_STREAM_SERIALIZER_H*/
-- 
2.43.0


From f0c08d6909e75d0f6aa77616dda294ad0799a56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:22 +0000
Subject: [PATCH 07/17] fix: release only what is owned when deserializing a
 new object fails

---
 src/checkpoint/checkpoint_api.impl.h    | 18 +++++-----
 src/checkpoint/dispatch/dispatch.h      | 26 ++++++++++++++
 src/checkpoint/dispatch/dispatch.impl.h | 45 +++++++++++++++++++++----
 3 files changed, 73 insertions(+), 16 deletions(-)

diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index 9eea1f6..f700685 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -108,12 +108,11 @@ void serializeToFile(T& target, std::string const& file) {
 
 template <typename T>
 std::unique_ptr<T> deserializeFromFile(std::string const& file) {
-  auto mem = dispatch::Standard::allocate<T>();
-  T* t_buf = dispatch::Standard::construct<T>(mem);
-  auto t = dispatch::Standard::unpack<T, UnpackerBuffer<buffer::IOBuffer>>(
-    t_buf, buffer::IOBuffer::ReadFromFileTag{}, file
+  dispatch::ObjectHolder<T> holder;
+  dispatch::Standard::unpack<T, UnpackerBuffer<buffer::IOBuffer>>(
+    holder.get(), buffer::IOBuffer::ReadFromFileTag{}, file
   );
-  return std::unique_ptr<T>(t);
+  return std::unique_ptr<T>(holder.release());
 }
 
 template <typename T>
@@ -133,12 +132,11 @@ void serializeToStream(T& target, StreamT& stream) {
 
 template <typename T, typename StreamT>
 std::unique_ptr<T> deserializeFromStream(StreamT& stream) {
-  auto mem = dispatch::Standard::allocate<T>();
-  T* t_buf = dispatch::Standard::construct<T>(mem);
-  auto t = dispatch::Standard::unpack<T, StreamUnpackerFor<StreamT>>(
-    t_buf, stream
+  dispatch::ObjectHolder<T> holder;
+  dispatch::Standard::unpack<T, StreamUnpackerFor<StreamT>>(
+    holder.get(), stream
   );
-  return std::unique_ptr<T>(t);
+  return std::unique_ptr<T>(holder.release());
 }
 
 template <typename T, typename StreamT>
diff --git a/src/checkpoint/dispatch/dispatch.h b/src/checkpoint/dispatch/dispatch.h
index e5c6da1..fb03667 100644
--- a/src/checkpoint/dispatch/dispatch.h
+++ b/src/checkpoint/dispatch/dispatch.h
@@ -188,6 +188,32 @@ struct Standard {
   static SerialByteType* allocate();
 };
 
+/**
+ * \struct ObjectHolder
+ *
+ * \brief Constructs a \c T with the reconstruction strategy and owns it until
+ * released. If it is never released, the object is destroyed; its memory is
+ * deallocated unless it was supplied by the user.
+ */
+template <typename T>
+struct ObjectHolder {
+  explicit ObjectHolder(SerialByteType* user_mem = nullptr);
+  ~ObjectHolder();
+
+  ObjectHolder(ObjectHolder const&) = delete;
+  ObjectHolder& operator=(ObjectHolder const&) = delete;
+
+  T* get() const { return obj_; }
+  T* release();
+
+private:
+  void deallocate();
+
+  SerialByteType* user_mem_ = nullptr;
+  SerialByteType* mem_ = nullptr;
+  T* obj_ = nullptr;
+};
+
 template <typename T>
 buffer::ImplReturnType packBuffer(
   T& target, SerialSizeType size, BufferObtainFnType fn
diff --git a/src/checkpoint/dispatch/dispatch.impl.h b/src/checkpoint/dispatch/dispatch.impl.h
index 44aac6a..7a8f16e 100644
--- a/src/checkpoint/dispatch/dispatch.impl.h
+++ b/src/checkpoint/dispatch/dispatch.impl.h
@@ -48,6 +48,7 @@
 #include "checkpoint/dispatch/dispatch.h"
 #include "checkpoint/dispatch/type_registry.h"
 
+#include <memory>
 #include <stdexcept>
 #include <string>
 
@@ -272,14 +273,46 @@ buffer::ImplReturnType serializeType(T& target, BufferObtainFnType fn) {
   return packBuffer<T>(target, len, fn);
 }
 
+template <typename T>
+ObjectHolder<T>::ObjectHolder(SerialByteType* user_mem)
+  : user_mem_(user_mem),
+    mem_(user_mem ? user_mem : Standard::allocate<T>())
+{
+  try {
+    obj_ = Standard::construct<T>(mem_);
+  } catch (...) {
+    deallocate();
+    throw;
+  }
+}
+
+template <typename T>
+ObjectHolder<T>::~ObjectHolder() {
+  if (obj_ != nullptr) {
+    std::destroy_at(obj_);
+    deallocate();
+  }
+}
+
+template <typename T>
+void ObjectHolder<T>::deallocate() {
+  if (user_mem_ == nullptr) {
+    std::allocator<T>{}.deallocate(reinterpret_cast<T*>(mem_), 1);
+  }
+}
+
+template <typename T>
+T* ObjectHolder<T>::release() {
+  auto ret = obj_;
+  obj_ = nullptr;
+  return ret;
+}
+
 template <typename T>
 T* deserializeType(SerialByteType* data, SerialByteType* allocBuf) {
-  auto mem = allocBuf ? allocBuf : Standard::allocate<T>();
-  auto t_buf = std::unique_ptr<T>(Standard::construct<T>(mem));
-  T* traverser =
-    Standard::unpack<T, UnpackerBuffer<buffer::UserBuffer>>(t_buf.get(), data);
-  t_buf.release();
-  return traverser;
+  ObjectHolder<T> holder(allocBuf);
+  Standard::unpack<T, UnpackerBuffer<buffer::UserBuffer>>(holder.get(), data);
+  return holder.release();
 }
 
 template <typename T>
-- 
2.43.0


From 7f9eace626288df72455b62422a8ac49475454c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:09 +0000
Subject: [PATCH 08/17] fix: free the memory of a pointed-to object whose
 construction throws

---
 src/checkpoint/dispatch/vrt/object_registry.h  | 11 ++++++++++-
 .../dispatch/vrt/virtual_serialize.h           | 18 ++++++++++++++----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/checkpoint/dispatch/vrt/object_registry.h b/src/checkpoint/dispatch/vrt/object_registry.h
index 54da0de..6254f0b 100644
--- a/src/checkpoint/dispatch/vrt/object_registry.h
+++ b/src/checkpoint/dispatch/vrt/object_registry.h
@@ -58,21 +58,24 @@ namespace objregistry {
 template <typename T>
 struct ObjectEntry {
 
-  template <typename Allocator, typename Constructor>
+  template <typename Allocator, typename Deallocator, typename Constructor>
   ObjectEntry(
     TypeIdx in_idx,
     std::size_t in_size,
     Allocator&& in_allocator,
+    Deallocator&& in_deallocator,
     Constructor&& in_constructor
   ) : idx_(in_idx),
       size_(in_size),
       allocator_(in_allocator),
+      deallocator_(in_deallocator),
       constructor_(in_constructor)
   { }
 
   TypeIdx idx_ = no_type_idx;              /**< The type index for this ObjT */
   std::size_t size_ = 0;                   /**< The registered object size */
   std::function<void*(void)> allocator_;   /**< Do standard allocation for object */
+  std::function<void(void*)> deallocator_; /**< Release what allocator_ returned */
   std::function<T*(void*)> constructor_;   /**< Construct object on memory */
 };
 
@@ -110,6 +113,7 @@ Registrar<ObjT>::Registrar() {
       index,
       sizeof(ObjT),
       []()          -> void*       { return std::allocator<ObjT>{}.allocate(1); },
+      [](void* buf) { std::allocator<ObjT>{}.deallocate(static_cast<ObjT*>(buf), 1); },
       [](void* buf) -> BaseType*   { return dispatch::Reconstructor<ObjT>::constructAllowFail(buf); }
     }
   );
@@ -134,6 +138,11 @@ inline auto allocateConcreteType(TypeIdx han) {
   return getRegistry<T>().at(han).allocator_();
 }
 
+template <typename T>
+inline void deallocateConcreteType(TypeIdx han, void* buf) {
+  getRegistry<T>().at(han).deallocator_(buf);
+}
+
 template <typename T>
 inline auto constructConcreteType(TypeIdx han, void* buf) {
   return getRegistry<T>().at(han).constructor_(buf);
diff --git a/src/checkpoint/dispatch/vrt/virtual_serialize.h b/src/checkpoint/dispatch/vrt/virtual_serialize.h
index 2082dd4..80dcc92 100644
--- a/src/checkpoint/dispatch/vrt/virtual_serialize.h
+++ b/src/checkpoint/dispatch/vrt/virtual_serialize.h
@@ -152,7 +152,12 @@ struct ReconstructAsVirtualIfNeeded<
   static T* apply(SerializerT&, dispatch::vrt::TypeIdx) {
     // no type idx needed in this case, static construction in default case
     auto t = std::allocator<T>{}.allocate(1);
-    return dispatch::Reconstructor<T>::construct(t);
+    try {
+      return dispatch::Reconstructor<T>::construct(t);
+    } catch (...) {
+      std::allocator<T>{}.deallocate(t, 1);
+      throw;
+    }
   }
 };
 
@@ -181,9 +186,14 @@ struct ReconstructAsVirtualIfNeeded<
 
     // use type idx here, registration needed for proper type re-construction
     auto t = dispatch::vrt::objregistry::allocateConcreteType<BaseT>(entry);
-    return static_cast<T*>(
-                           dispatch::vrt::objregistry::constructConcreteType<BaseT>(entry, t)
-                           );
+    try {
+      return static_cast<T*>(
+                             dispatch::vrt::objregistry::constructConcreteType<BaseT>(entry, t)
+                             );
+    } catch (...) {
+      dispatch::vrt::objregistry::deallocateConcreteType<BaseT>(entry, t);
+      throw;
+    }
   }
 };
 
-- 
2.43.0


From b77872994587c3bdbaf1f88b358bb819622b2954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:52 +0000
Subject: [PATCH 09/17] fix: packing more than was sized is reported instead of
 overflowing

---
 src/checkpoint/checkpoint_api.impl.h     |  3 ++-
 src/checkpoint/serializers/packer.impl.h | 10 ++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index f700685..bdae992 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -101,9 +101,10 @@ std::size_t getMemoryFootprint(T& target, std::size_t size_offset) {
 template <typename T>
 void serializeToFile(T& target, std::string const& file) {
   auto len = getSize<T>(target);
-  dispatch::Standard::pack<T, PackerBuffer<buffer::IOBuffer>>(
+  auto p = dispatch::Standard::pack<T, PackerBuffer<buffer::IOBuffer>>(
     target, len, buffer::IOBuffer::WriteToFileTag{}, len, file
   );
+  dispatch::validatePackerBufferSize<T>(p, len);
 }
 
 template <typename T>
diff --git a/src/checkpoint/serializers/packer.impl.h b/src/checkpoint/serializers/packer.impl.h
index 8754cb6..f0460c7 100644
--- a/src/checkpoint/serializers/packer.impl.h
+++ b/src/checkpoint/serializers/packer.impl.h
@@ -119,6 +119,14 @@ void PackerBuffer<BufferT>::contiguousBytes(
   );
 
   SerialSizeType const len = size * num_elms;
+
+  // Never write past the buffer when more is packed than was sized; the used
+  // size still grows, so the mismatch gets reported once packing is finished
+  usedSize_ += len;
+  if (usedSize_ > size_) {
+    return;
+  }
+
   SerialByteType* spot = this->getSpotIncrement(len);
   #pragma GCC diagnostic push
 #if !defined(__has_warning)
@@ -128,8 +136,6 @@ void PackerBuffer<BufferT>::contiguousBytes(
 #endif
   std::memcpy(spot, ptr, len);
   #pragma GCC diagnostic pop
-
-  usedSize_ += len;
 }
 
 template <typename BufferT>
-- 
2.43.0


From 83d09dbdf973b0e2305ee335711db214be1d355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:30 +0000
Subject: [PATCH 10/17] fix: report errors closing a checkpoint file without
 terminating or leaking

---
 src/checkpoint/buffer/io_buffer.cc   | 122 +++++++++++++--------------
 src/checkpoint/buffer/io_buffer.h    |  16 +++-
 src/checkpoint/checkpoint_api.impl.h |   1 +
 3 files changed, 72 insertions(+), 67 deletions(-)

diff --git a/src/checkpoint/buffer/io_buffer.cc b/src/checkpoint/buffer/io_buffer.cc
index 7cad8ec..cb7ac57 100644
--- a/src/checkpoint/buffer/io_buffer.cc
+++ b/src/checkpoint/buffer/io_buffer.cc
@@ -218,91 +218,83 @@ void IOBuffer::setupForWrite() {
 void IOBuffer::setupFile() {
   debug_checkpoint("IOBuffer: opening file: %s\n", file_.c_str());
 
-  if (mode_ == ModeEnum::ReadFromFile) {
-    setupForRead();
-  } else if (mode_ == ModeEnum::WriteToFile) {
-    setupForWrite();
-  } else {
-    throw std::runtime_error("Invalid IOBuffer mode");
+  try {
+    if (mode_ == ModeEnum::ReadFromFile) {
+      setupForRead();
+    } else if (mode_ == ModeEnum::WriteToFile) {
+      setupForWrite();
+    } else {
+      throw std::runtime_error("Invalid IOBuffer mode");
+    }
+  } catch (...) {
+    // The destructor does not run, do not leave the file open
+    releaseFile();
+    throw;
   }
 }
 
 void IOBuffer::closeFile() {
-  /*
-   * If fd_ is not set, then we should not have anything open or mapped
-   */
-  if (fd_ == -1) {
-    return;
+  auto const err = releaseFile();
+  if (not err.empty()) {
+    throw std::runtime_error(err);
   }
+}
 
-  auto addr = static_cast<void*>(buffer_);
-
-  int ret = 0;
-
-  /*
-   * msync/msync64 the mapped file causing the file to be written out
-   */
-  if (mode_ == ModeEnum::WriteToFile) {
-    debug_checkpoint("~IOBuffer: msync: file=%s, len=%lu\n", file_.c_str(), size_);
-
-#   if defined(checkpoint_has_msync64)
-    ret = msync64(addr, size_, MS_SYNC);
-
-    if (ret != 0) {
-      auto err = std::string("msync64 failed on file after write: errno=") +
-                 std::to_string(errno) + ": " + strerror(errno);
-      throw std::runtime_error(err);
+/*
+ * Flush, unmap and close whatever is mapped and open. Goes on after a failure,
+ * so that nothing is left behind, and returns a description of the first one.
+ */
+std::string IOBuffer::releaseFile() {
+  std::string err;
+  auto check = [&err](int ret, char const* what) {
+    if (ret != 0 and err.empty()) {
+      err = std::string(what) + ": errno=" + std::to_string(errno) + ": " +
+            strerror(errno);
     }
-
-#   else
-    ret = msync(addr, size_, MS_SYNC);
-
-    if (ret != 0) {
-      auto err = std::string("msync failed on file after write: errno=") +
-                 std::to_string(errno) + ": " + strerror(errno);
-      throw std::runtime_error(err);
+  };
+
+  if (buffer_ != nullptr) {
+    auto addr = static_cast<void*>(buffer_);
+
+    /*
+     * msync/msync64 the mapped file causing the file to be written out
+     */
+    if (mode_ == ModeEnum::WriteToFile) {
+      debug_checkpoint("~IOBuffer: msync: file=%s, len=%lu\n", file_.c_str(), size_);
+
+#     if defined(checkpoint_has_msync64)
+      check(msync64(addr, size_, MS_SYNC), "msync64 failed on file after write");
+#     else
+      check(msync(addr, size_, MS_SYNC), "msync failed on file after write");
+#     endif
     }
-#   endif
-  }
 
-  /*
-   * Unmap the file via munmap/munmap64
-   */
-  debug_checkpoint("~IOBuffer: munmap\n");
-
-# if defined(checkpoint_has_munmap64)
-  ret = munmap64(addr, size_);
+    /*
+     * Unmap the file via munmap/munmap64
+     */
+    debug_checkpoint("~IOBuffer: munmap\n");
 
-  if (ret != 0) {
-    auto err = std::string("munmap64 failed on after write: errno=") +
-               std::to_string(errno) + ": " + strerror(errno);
-    throw std::runtime_error(err);
-  }
-
-# else
-  ret = munmap(addr, size_);
+#   if defined(checkpoint_has_munmap64)
+    check(munmap64(addr, size_), "munmap64 failed on after write");
+#   else
+    check(munmap(addr, size_), "munmap failed on file after write");
+#   endif
 
-  if (ret != 0) {
-    auto err = std::string("munmap failed on file after write: errno=") +
-               std::to_string(errno) + ": " + strerror(errno);
-    throw std::runtime_error(err);
+    buffer_ = nullptr;
   }
-# endif
 
   /*
    * Finally, close the file. We are done.
    */
-  debug_checkpoint("~IOBuffer: closing file\n");
+  if (fd_ != -1) {
+    debug_checkpoint("~IOBuffer: closing file\n");
 
-  ret = close(fd_);
+    check(close(fd_), "close on file descriptor failed");
 
-  if (ret != 0) {
-    auto err = std::string("close on file descriptor failed: errno=") +
-               std::to_string(errno) + ": " + strerror(errno);
-    throw std::runtime_error(err);
+    fd_ = -1;
   }
 
-  fd_ = -1;
+  return err;
 }
 
 }} /* end namespace checkpoint::buffer */
diff --git a/src/checkpoint/buffer/io_buffer.h b/src/checkpoint/buffer/io_buffer.h
index 43a5db6..139ccd2 100644
--- a/src/checkpoint/buffer/io_buffer.h
+++ b/src/checkpoint/buffer/io_buffer.h
@@ -79,13 +79,25 @@ public:
 
 private:
   void setupFile();
-  void closeFile();
+  std::string releaseFile();
   void setupForRead();
   void setupForWrite();
 
 public:
 
-  virtual ~IOBuffer() { closeFile(); }
+  IOBuffer(IOBuffer const&) = delete;
+  IOBuffer& operator=(IOBuffer const&) = delete;
+
+  /// Releases whatever is still open or mapped, errors can not be reported here
+  virtual ~IOBuffer() { releaseFile(); }
+
+  /**
+   * \brief Flush (when writing), unmap and close the file
+   *
+   * Everything is released in any case. Throws \c std::runtime_error if any of
+   * the steps failed.
+   */
+  void closeFile();
 
   virtual SerialByteType* getBuffer() const override {
     return buffer_;
diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index bdae992..f191108 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -105,6 +105,7 @@ void serializeToFile(T& target, std::string const& file) {
     target, len, buffer::IOBuffer::WriteToFileTag{}, len, file
   );
   dispatch::validatePackerBufferSize<T>(p, len);
+  p.extractPackedBuffer()->closeFile();
 }
 
 template <typename T>
-- 
2.43.0


From e94491fe490643e1617fb4618055815727258c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:11 +0000
Subject: [PATCH 11/17] fix: do not read past the end of a truncated checkpoint
 file

---
 src/checkpoint/serializers/unpacker.impl.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/checkpoint/serializers/unpacker.impl.h b/src/checkpoint/serializers/unpacker.impl.h
index ad2429b..488466b 100644
--- a/src/checkpoint/serializers/unpacker.impl.h
+++ b/src/checkpoint/serializers/unpacker.impl.h
@@ -50,6 +50,7 @@
 
 #include <cstdlib>
 #include <cstring>
+#include <stdexcept>
 
 namespace checkpoint {
 
@@ -92,6 +93,16 @@ void UnpackerBuffer<BufferT>::contiguousBytes(
   );
 
   SerialSizeType const len = size * num_elms;
+
+  // Do not read past the end when the buffer knows its size, e.g. for a file
+  // that has been truncated
+  auto const available = buffer_->getSize();
+  if (available != 0 and len > available - usedSize_) {
+    throw std::runtime_error(
+      "Buffer too short: unable to read required number of bytes!"
+    );
+  }
+
   SerialByteType* spot = this->getSpotIncrement(len);
   std::memcpy(ptr, spot, len);
 
-- 
2.43.0


From 43ed0c770cc1e3cb7c30fbb9827544fc9bfd74f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:46 +0000
Subject: [PATCH 12/17] fix: looking up the name of an unknown type index does
 not register it

---
 src/checkpoint/dispatch/type_registry.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/checkpoint/dispatch/type_registry.h b/src/checkpoint/dispatch/type_registry.h
index 69881a9..03a59b6 100644
--- a/src/checkpoint/dispatch/type_registry.h
+++ b/src/checkpoint/dispatch/type_registry.h
@@ -124,7 +124,11 @@ inline DecodedIndex getTypeIdx() {
 }
 
 inline std::string const& getTypeNameForIdx(DecodedIndex const typeIdx) {
-  return getRegisteredNames()[typeIdx];
+  // Look it up without registering it: the index may come from a checkpoint
+  static std::string const unknown;
+  auto const& names = getRegisteredNames();
+  auto const iter = names.find(typeIdx);
+  return iter != names.end() ? iter->second : unknown;
 }
 
 template <typename ObjT>
-- 
2.43.0


From 6a94d1f98d75a3ca2ec88d00c7799de9468262d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:44 +0000
Subject: [PATCH 13/17] fix: serializing from several threads does not race on
 registry links

Virtual objects rewrote the derived-to-base links of the shared registry on
every traversal while other threads read them, and the footprint warning
flag was an unsynchronized static.
---
 src/checkpoint/dispatch/dispatch_serializer_nonbyte.h | 6 +++---
 src/checkpoint/dispatch/vrt/serialize_instantiator.h  | 5 ++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
index c8ac236..15ab46f 100644
--- a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
+++ b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
@@ -52,6 +52,7 @@
 #include <type_traits>
 #include <tuple>
 #include <cstdlib>
+#include <atomic>
 #include <cassert>
 
 namespace checkpoint { namespace dispatch {
@@ -158,9 +159,8 @@ struct SerializerDispatchNonByte {
       static_cast<void*>(&val),
       typeid(val).name()
     );
-    static bool firstCall = true;
-    if (firstCall) {
-      firstCall = false;
+    static std::atomic<bool> firstCall{true};
+    if (firstCall.exchange(false)) {
       debug_checkpoint(
         "SerializerDispatch: warning: simplified footprinting in use!\n"
         "Objects of type: typeid=%s will not be traversed\n",
diff --git a/src/checkpoint/dispatch/vrt/serialize_instantiator.h b/src/checkpoint/dispatch/vrt/serialize_instantiator.h
index bf286d0..34266de 100644
--- a/src/checkpoint/dispatch/vrt/serialize_instantiator.h
+++ b/src/checkpoint/dispatch/vrt/serialize_instantiator.h
@@ -73,7 +73,10 @@ struct InstantiateIfPossible<
     // using BaseType = typename ObjT::_CheckpointVirtualSerializerBaseType;
     // linkDerivedToBase<SerializerT, ObjT, BaseType>();
     using BaseType = ::checkpoint::dispatch::vrt::checkpoint_base_type_t<ObjT>;
-    linkDerivedToBase<SerializerT, ObjT, BaseType>();
+    // Link only once: other threads may be reading the registry meanwhile
+    static bool const linked =
+      (linkDerivedToBase<SerializerT, ObjT, BaseType>(), true);
+    checkpoint_force_use(linked);
   }
 };
 
-- 
2.43.0


From afc093d04e705cb17fb87f0501cc9ed083f26103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:43 +0000
Subject: [PATCH 14/17] fix: destroy the constructed elements of a tuple when a
 later one throws

---
 src/checkpoint/container/tuple_serialize.h | 28 +++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/checkpoint/container/tuple_serialize.h b/src/checkpoint/container/tuple_serialize.h
index 5efe06e..4ffe553 100644
--- a/src/checkpoint/container/tuple_serialize.h
+++ b/src/checkpoint/container/tuple_serialize.h
@@ -47,6 +47,7 @@
 #include "checkpoint/common.h"
 #include "checkpoint/serializers/serializers_headers.h"
 
+#include <memory>
 #include <tuple>
 #include <utility>
 #include <new>
@@ -60,11 +61,36 @@ void tuple_helper(Serializer& s, std::tuple<T...>& tup, std::index_sequence<Idxs
   );
 }
 
+/**
+ * \struct TupleElementGuard
+ *
+ * \brief Destroys a reconstructed tuple element again unless it is released,
+ * which happens only once all the elements have been constructed
+ */
+template <typename T>
+struct TupleElementGuard {
+  TupleElementGuard() = default;
+  TupleElementGuard(TupleElementGuard const&) = delete;
+  TupleElementGuard& operator=(TupleElementGuard const&) = delete;
+  ~TupleElementGuard() { if (elm_ != nullptr) { std::destroy_at(elm_); } }
+
+  void construct(T* elm) {
+    dispatch::Reconstructor<T>::construct(elm);
+    elm_ = elm;
+  }
+  void release() { elm_ = nullptr; }
+
+private:
+  T* elm_ = nullptr;
+};
+
 template <typename... T, size_t... Idxs>
 void tuple_helper_reconstruct(std::tuple<T...>*& tup, std::index_sequence<Idxs...>) {
+  [[maybe_unused]] std::tuple<TupleElementGuard<T>...> guards;
   std::forward_as_tuple(
-    (dispatch::Reconstructor<T>::construct(&std::get<Idxs>(*tup)))...
+    (std::get<Idxs>(guards).construct(&std::get<Idxs>(*tup)),0)...
   );
+  (std::get<Idxs>(guards).release(), ...);
 }
 
 template <typename Serializer, typename... Args>
-- 
2.43.0


From f57141095a0499102d6da5671feda0ce7ddbce9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:39 +0000
Subject: [PATCH 15/17] fix: exceeding the disk quota while preallocating a
 file is reported

---
 src/checkpoint/buffer/io_buffer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checkpoint/buffer/io_buffer.cc b/src/checkpoint/buffer/io_buffer.cc
index cb7ac57..e3cf03f 100644
--- a/src/checkpoint/buffer/io_buffer.cc
+++ b/src/checkpoint/buffer/io_buffer.cc
@@ -149,7 +149,7 @@ void IOBuffer::setupForWrite() {
 
   ret = fallocate(fd_, 0, 0, size_);
 
-  if (ret != 0 and errno == ENOSPC) {
+  if (ret != 0 and (errno == ENOSPC or errno == EDQUOT)) {
     auto err = std::string("fallocate failed on file: errno=") +
                std::to_string(errno) + ": " + strerror(errno);
     throw std::runtime_error(err);
-- 
2.43.0


From 2d68f650bee5a0c1237642c5784dfc17e1475ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:28 +0000
Subject: [PATCH 16/17] fix: do not write to enums and durations unless
 unpacking

Sizing, packing and footprinting an object with an enum or a
std::chrono::duration assigned the value back to it, so a constant object
in read-only memory crashed the process.
---
 src/checkpoint/container/chrono_serialize.h | 4 +++-
 src/checkpoint/container/enum_serialize.h   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/checkpoint/container/chrono_serialize.h b/src/checkpoint/container/chrono_serialize.h
index ea2a478..0e3a0af 100644
--- a/src/checkpoint/container/chrono_serialize.h
+++ b/src/checkpoint/container/chrono_serialize.h
@@ -54,7 +54,9 @@ template <typename Serializer, typename Rep, typename Period>
 void serialize(Serializer& s, std::chrono::duration<Rep, Period>& d) {
     Rep r = d.count();
     s | r;
-    d = std::chrono::duration<Rep, Period>(r);
+    if (s.isUnpacking()) {
+      d = std::chrono::duration<Rep, Period>(r);
+    }
 }
 
 } /* end namespace checkpoint */
diff --git a/src/checkpoint/container/enum_serialize.h b/src/checkpoint/container/enum_serialize.h
index 760ce15..40cfa16 100644
--- a/src/checkpoint/container/enum_serialize.h
+++ b/src/checkpoint/container/enum_serialize.h
@@ -59,7 +59,9 @@ template <
 void serializeEnum(Serializer& s, Enum& e) {
     Underlying u = static_cast<Underlying>(e);
     s | u;
-    e = static_cast<Enum>(u);
+    if (s.isUnpacking()) {
+      e = static_cast<Enum>(u);
+    }
 }
 
 } /* end namespace checkpoint */
-- 
2.43.0


From c84720667893ea93115982a393e8fc7cdbdba939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:37 +0000
Subject: [PATCH 17/17] fix: refuse to serialize a variant that has no value

It was restored as another alternative, or left the value of the target.
---
 src/checkpoint/container/variant_serialize.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/checkpoint/container/variant_serialize.h b/src/checkpoint/container/variant_serialize.h
index 04a7bb6..7c13c97 100644
--- a/src/checkpoint/container/variant_serialize.h
+++ b/src/checkpoint/container/variant_serialize.h
@@ -113,6 +113,11 @@ struct ByteCopyNonIntrusive<std::variant<Args...>> {
 
 template <typename SerializerT, typename... Args>
 void serialize(SerializerT& s, std::variant<Args...>& v) {
+  if ((s.isSizing() or s.isPacking()) and v.valueless_by_exception()) {
+    // There is no way to put an unpacked variant into this state
+    throw std::bad_variant_access{};
+  }
+
   std::size_t entry = v.index();
   s | entry;
   detail::SerializeEntry<Args...>::serialize(s, v, entry, 0);
-- 
2.43.0

