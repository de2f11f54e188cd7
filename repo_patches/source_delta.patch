From 64daac2934ae424b40c9e960338ad158a35437ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:58 +0000
Subject: [PATCH 01/27] fix: keep the position of ByteArrayInputStream when a
 seek is rejected

Seek stored the new position before checking it. After a rejected seek to a
negative position the next Read copied bytes from before the buffer.
---
 src/paimon/common/io/byte_array_input_stream.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/paimon/common/io/byte_array_input_stream.cpp b/src/paimon/common/io/byte_array_input_stream.cpp
index b98ab24..703cafd 100644
--- a/src/paimon/common/io/byte_array_input_stream.cpp
+++ b/src/paimon/common/io/byte_array_input_stream.cpp
@@ -33,28 +33,30 @@ const char* ByteArrayInputStream::GetRawData() const {
 }
 
 Status ByteArrayInputStream::Seek(int64_t offset, SeekOrigin origin) {
+    int64_t position = position_;
     switch (origin) {
         case SeekOrigin::FS_SEEK_SET: {
-            position_ = offset;
+            position = offset;
             break;
         }
         case SeekOrigin::FS_SEEK_CUR: {
-            position_ += offset;
+            position += offset;
             break;
         }
         case SeekOrigin::FS_SEEK_END: {
             PAIMON_ASSIGN_OR_RAISE(uint64_t length, Length());
-            position_ = static_cast<int64_t>(length) + offset;
+            position = static_cast<int64_t>(length) + offset;
             break;
         }
         default:
             return Status::Invalid(
                 "invalid SeekOrigin, only support FS_SEEK_SET, FS_SEEK_CUR, and FS_SEEK_END");
     }
-    if (position_ < 0 || position_ > static_cast<int64_t>(length_)) {
+    if (position < 0 || position > static_cast<int64_t>(length_)) {
         return Status::Invalid(
-            fmt::format("invalid seek, after seek, current pos {}, length {}", position_, length_));
+            fmt::format("invalid seek, after seek, current pos {}, length {}", position, length_));
     }
+    position_ = position;
     return Status::OK();
 }
 
-- 
2.43.0


From 0cf0134af5215fd39bb4310870584253fbecee30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:59 +0000
Subject: [PATCH 02/27] fix: reject positioned reads whose end wraps around in
 ByteArrayInputStream

offset + size was computed modulo 2^64, so an offset close to the maximum
passed the boundary check and bytes outside the buffer were copied.
---
 src/paimon/common/io/byte_array_input_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paimon/common/io/byte_array_input_stream.cpp b/src/paimon/common/io/byte_array_input_stream.cpp
index 703cafd..c5658fd 100644
--- a/src/paimon/common/io/byte_array_input_stream.cpp
+++ b/src/paimon/common/io/byte_array_input_stream.cpp
@@ -73,7 +73,7 @@ Result<int32_t> ByteArrayInputStream::Read(char* buffer, uint32_t size) {
 }
 
 Result<int32_t> ByteArrayInputStream::Read(char* buffer, uint32_t size, uint64_t offset) {
-    if (offset + static_cast<uint64_t>(size) > length_) {
+    if (offset > length_ || static_cast<uint64_t>(size) > length_ - offset) {
         return Status::Invalid(
             fmt::format("ByteArrayInputStream assert boundary failed: need length {}, read offset "
                         "{}, exceed length {}",
-- 
2.43.0


From 3fa341d149f337296211db7f0625e662ed7029d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:59 +0000
Subject: [PATCH 03/27] fix: check OffsetInputStream boundaries with 64-bit
 positions

AssertBoundary took an int32_t. Positions above 2 GiB of a large window were
rejected, and positions far outside a small window were accepted when their
low 32 bits happened to be inside.
---
 src/paimon/common/io/offset_input_stream.cpp | 2 +-
 src/paimon/common/io/offset_input_stream.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/paimon/common/io/offset_input_stream.cpp b/src/paimon/common/io/offset_input_stream.cpp
index 1382e6a..0ce4a7e 100644
--- a/src/paimon/common/io/offset_input_stream.cpp
+++ b/src/paimon/common/io/offset_input_stream.cpp
@@ -122,7 +122,7 @@ Result<uint64_t> OffsetInputStream::Length() const {
     return length_;
 }
 
-Status OffsetInputStream::AssertBoundary(int32_t inner_pos) const {
+Status OffsetInputStream::AssertBoundary(int64_t inner_pos) const {
     if (inner_pos < 0 || inner_pos > length_) {
         return Status::Invalid(
             fmt::format("OffsetInputStream assert boundary failed: inner pos {} exceed length {}",
diff --git a/src/paimon/common/io/offset_input_stream.h b/src/paimon/common/io/offset_input_stream.h
index 6316eec..fa42899 100644
--- a/src/paimon/common/io/offset_input_stream.h
+++ b/src/paimon/common/io/offset_input_stream.h
@@ -53,7 +53,7 @@ class PAIMON_EXPORT OffsetInputStream : public InputStream {
 
  private:
     OffsetInputStream(const std::shared_ptr<InputStream>& wrapped, int64_t length, int64_t offset);
-    Status AssertBoundary(int32_t inner_pos) const;
+    Status AssertBoundary(int64_t inner_pos) const;
 
  private:
     std::shared_ptr<InputStream> wrapped_;
-- 
2.43.0


From b1a58cf7dcf37bd4f0b517317d80ca01201cb765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:59 +0000
Subject: [PATCH 04/27] fix: keep OffsetInputStream in step with the wrapped
 stream

Seek moved the inner position before the boundary check and the wrapped seek,
so a rejected seek left the two positions apart. Read advanced by the
requested size even when fewer bytes were read.
---
 src/paimon/common/io/offset_input_stream.cpp | 28 ++++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/paimon/common/io/offset_input_stream.cpp b/src/paimon/common/io/offset_input_stream.cpp
index 0ce4a7e..f3768c5 100644
--- a/src/paimon/common/io/offset_input_stream.cpp
+++ b/src/paimon/common/io/offset_input_stream.cpp
@@ -56,33 +56,39 @@ OffsetInputStream::OffsetInputStream(const std::shared_ptr<InputStream>& wrapped
     : wrapped_(wrapped), length_(length), offset_(offset) {}
 
 Status OffsetInputStream::Seek(int64_t offset, SeekOrigin origin) {
+    int64_t position = inner_position_;
     switch (origin) {
         case SeekOrigin::FS_SEEK_SET: {
-            inner_position_ = offset;
-            PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_));
-            return wrapped_->Seek(offset_ + inner_position_, SeekOrigin::FS_SEEK_SET);
+            position = offset;
+            PAIMON_RETURN_NOT_OK(AssertBoundary(position));
+            PAIMON_RETURN_NOT_OK(wrapped_->Seek(offset_ + position, SeekOrigin::FS_SEEK_SET));
+            break;
         }
         case SeekOrigin::FS_SEEK_CUR: {
-            inner_position_ += offset;
-            PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_));
-            return wrapped_->Seek(offset, SeekOrigin::FS_SEEK_CUR);
+            position += offset;
+            PAIMON_RETURN_NOT_OK(AssertBoundary(position));
+            PAIMON_RETURN_NOT_OK(wrapped_->Seek(offset, SeekOrigin::FS_SEEK_CUR));
+            break;
         }
         case SeekOrigin::FS_SEEK_END: {
-            inner_position_ = length_ + offset;
-            PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_));
-            return wrapped_->Seek(offset_ + inner_position_, SeekOrigin::FS_SEEK_SET);
+            position = length_ + offset;
+            PAIMON_RETURN_NOT_OK(AssertBoundary(position));
+            PAIMON_RETURN_NOT_OK(wrapped_->Seek(offset_ + position, SeekOrigin::FS_SEEK_SET));
+            break;
         }
         default:
             return Status::Invalid(
                 "invalid SeekOrigin, only support FS_SEEK_SET, FS_SEEK_CUR, and FS_SEEK_END");
     }
+    inner_position_ = position;
     return Status::OK();
 }
 
 Result<int32_t> OffsetInputStream::Read(char* buffer, uint32_t size) {
     PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_ + size));
-    inner_position_ += size;
-    return wrapped_->Read(buffer, size);
+    PAIMON_ASSIGN_OR_RAISE(int32_t actual_read_length, wrapped_->Read(buffer, size));
+    inner_position_ += actual_read_length;
+    return actual_read_length;
 }
 
 Result<int32_t> OffsetInputStream::Read(char* buffer, uint32_t size, uint64_t offset) {
-- 
2.43.0


From fd4df6dfa89e13f1a9492c0be61fd0804d9647f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:59 +0000
Subject: [PATCH 05/27] fix: check DataInputStream boundaries with 64-bit
 lengths

A requested length above INT32_MAX became negative in AssertBoundary, so the
check passed although the stream was shorter.
---
 include/paimon/io/data_input_stream.h      | 2 +-
 src/paimon/common/io/data_input_stream.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/paimon/io/data_input_stream.h b/include/paimon/io/data_input_stream.h
index f9ca635..bdbf768 100644
--- a/include/paimon/io/data_input_stream.h
+++ b/include/paimon/io/data_input_stream.h
@@ -81,7 +81,7 @@ class PAIMON_EXPORT DataInputStream {
 
     /// Check if there are enough bytes available to read.
     /// @param need_length Number of bytes needed.
-    Status AssertBoundary(int32_t need_length) const;
+    Status AssertBoundary(int64_t need_length) const;
 
     /// Determine if byte swapping is needed based on current byte order and system endianness.
     /// @return `true` if byte swapping is required, `false` otherwise.
diff --git a/src/paimon/common/io/data_input_stream.cpp b/src/paimon/common/io/data_input_stream.cpp
index 32df025..74d64ef 100644
--- a/src/paimon/common/io/data_input_stream.cpp
+++ b/src/paimon/common/io/data_input_stream.cpp
@@ -52,7 +52,7 @@ Result<T> DataInputStream::ReadValue() const {
 }
 
 Status DataInputStream::ReadBytes(Bytes* bytes) const {
-    int32_t read_length = bytes->size();
+    int64_t read_length = bytes->size();
     PAIMON_RETURN_NOT_OK(AssertBoundary(read_length));
     PAIMON_ASSIGN_OR_RAISE(int32_t actual_read_length,
                            input_stream_->Read(bytes->data(), read_length));
@@ -96,7 +96,7 @@ Status DataInputStream::AssertReadLength(int32_t read_length, int32_t actual_rea
     return Status::OK();
 }
 
-Status DataInputStream::AssertBoundary(int32_t need_length) const {
+Status DataInputStream::AssertBoundary(int64_t need_length) const {
     // TODO(jinli.zjw): Store current_pos and file_length as member variables to reduce the overhead
     // of I/O calls.
     PAIMON_ASSIGN_OR_RAISE(int64_t pos, input_stream_->GetPos());
-- 
2.43.0


From d215bfddac00a1c9d9f224da748d7c282e25ebd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:59 +0000
Subject: [PATCH 06/27] fix: report end of stream from
 BufferedInputStream::Read

When the wrapped stream returned no bytes the read loop hit an assertion in
debug builds and never ended in release builds.
---
 src/paimon/common/io/buffered_input_stream.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/paimon/common/io/buffered_input_stream.cpp b/src/paimon/common/io/buffered_input_stream.cpp
index 7739b1d..701bc1e 100644
--- a/src/paimon/common/io/buffered_input_stream.cpp
+++ b/src/paimon/common/io/buffered_input_stream.cpp
@@ -61,7 +61,12 @@ Result<int32_t> BufferedInputStream::Read(char* buffer, uint32_t size) {
     while (actual_read_len < size) {
         PAIMON_ASSIGN_OR_RAISE(int32_t nread,
                                InnerRead(buffer + actual_read_len, size - actual_read_len));
-        assert(nread > 0);
+        if (nread <= 0) {
+            return Status::Invalid(
+                fmt::format("read failed, no bytes available (may read eof), but expect read {} "
+                            "bytes, actual read {} bytes",
+                            size, actual_read_len));
+        }
         actual_read_len += nread;
     }
     PAIMON_RETURN_NOT_OK(AssertReadLength(size, actual_read_len));
-- 
2.43.0


From e91d507e44cbb74f5620c7797debb27be83ab940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:59 +0000
Subject: [PATCH 07/27] fix: reject strings that do not fit the length prefix
 in DataOutputStream

WriteString truncated strings longer than 65535 bytes modulo 65536 and
reported success.
---
 src/paimon/common/io/data_output_stream.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/paimon/common/io/data_output_stream.cpp b/src/paimon/common/io/data_output_stream.cpp
index 5252ece..24c0ad8 100644
--- a/src/paimon/common/io/data_output_stream.cpp
+++ b/src/paimon/common/io/data_output_stream.cpp
@@ -17,6 +17,7 @@
 #include "paimon/common/io/data_output_stream.h"
 
 #include <cassert>
+#include <limits>
 #include <type_traits>
 
 #include "fmt/format.h"
@@ -54,6 +55,11 @@ Status DataOutputStream::WriteBytes(const std::shared_ptr<Bytes>& bytes) {
 }
 
 Status DataOutputStream::WriteString(const std::string& value) {
+    if (value.size() > std::numeric_limits<uint16_t>::max()) {
+        return Status::Invalid(
+            fmt::format("string length {} exceeds the maximum length {} of a serialized string",
+                        value.size(), std::numeric_limits<uint16_t>::max()));
+    }
     uint16_t write_length = value.size();
     PAIMON_RETURN_NOT_OK(WriteValue<uint16_t>(write_length));
     PAIMON_ASSIGN_OR_RAISE(int32_t actual_write_length,
-- 
2.43.0


From 827a6c2ebdce5f97619f2544b678e9732a6b59bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:28:21 +0000
Subject: [PATCH 08/27] fix: name the NotExist and Exist status codes

Status::CodeAsString and ToString reported both as "Unknown".
---
 src/paimon/common/utils/status.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/paimon/common/utils/status.cpp b/src/paimon/common/utils/status.cpp
index 5f21b08..2637a83 100644
--- a/src/paimon/common/utils/status.cpp
+++ b/src/paimon/common/utils/status.cpp
@@ -102,6 +102,12 @@ std::string Status::CodeAsString(StatusCode code) {
         case StatusCode::SerializationError:
             type = "Serialization error";
             break;
+        case StatusCode::NotExist:
+            type = "NotExist";
+            break;
+        case StatusCode::Exist:
+            type = "Exist";
+            break;
         default:
             type = "Unknown";
             break;
-- 
2.43.0


From 702770b002ddf19107c8957cbbb66a631ebcb2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:58:20 +0000
Subject: [PATCH 09/27] fix: compare kind and message of statuses whose details
 are equal

---
 include/paimon/status.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/paimon/status.h b/include/paimon/status.h
index 2de31a7..5269b79 100644
--- a/include/paimon/status.h
+++ b/include/paimon/status.h
@@ -364,7 +364,9 @@ bool Status::Equals(const Status& s) const {
         if ((detail() && !s.detail()) || (!detail() && s.detail())) {
             return false;
         }
-        return *detail() == *s.detail();
+        if (!(*detail() == *s.detail())) {
+            return false;
+        }
     }
 
     return code() == s.code() && message() == s.message();
-- 
2.43.0


From 5fc15680b8eb1d5039ad811abda55c0126bf3f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:58 +0000
Subject: [PATCH 10/27] fix: erase an entry of LinkedHashMap by a reference to
 its own key

---
 src/paimon/common/utils/linked_hash_map.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/paimon/common/utils/linked_hash_map.h b/src/paimon/common/utils/linked_hash_map.h
index 28300cc..4ce0393 100644
--- a/src/paimon/common/utils/linked_hash_map.h
+++ b/src/paimon/common/utils/linked_hash_map.h
@@ -70,12 +70,14 @@ class LinkedHashMap {
     }
 
     IteratorType erase(const K& key) {
-        if (!map_.count(key)) {
+        auto iter = map_.find(key);
+        if (iter == map_.end()) {
             return order_.end();
         }
-        auto iter = order_.erase(map_[key]);
-        map_.erase(key);
-        return iter;
+        // key may refer to the entry itself, do not use it once the entry is gone
+        auto entry = iter->second;
+        map_.erase(iter);
+        return order_.erase(entry);
     }
 
     IteratorType insert(const K& key, const V& value) {
-- 
2.43.0


From 6a7ea492de2f1d4c7594ff794ead823c181becb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:23 +0000
Subject: [PATCH 11/27] fix: reject values below the minimum when appending to
 a bit slice index

Such a value made the offset negative and wrote to slices that do not exist.
---
 .../common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
index 468ffb3..78a050f 100644
--- a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
+++ b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
@@ -256,6 +256,10 @@ Status BitSliceIndexRoaringBitmap::Appender::Append(int32_t rid, int64_t value)
         return Status::Invalid(
             fmt::format("value {} is too large for append to BitSliceIndexRoaringBitmap", value));
     }
+    if (value < bsi_->min_) {
+        return Status::Invalid(
+            fmt::format("value {} is too small for append to BitSliceIndexRoaringBitmap", value));
+    }
     if (bsi_->ebm_.Contains(rid)) {
         return Status::Invalid(
             fmt::format("rid {} is already exists for append to BitSliceIndexRoaringBitmap", rid));
-- 
2.43.0


From dce279e04306555f3952b4d20a4b56a36a3a3448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:23 +0000
Subject: [PATCH 12/27] fix: return an error for a bit slice index with a bad
 slice count

A negative or huge count threw from vector::reserve instead of returning a status.
---
 .../common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
index 78a050f..4dfcb38 100644
--- a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
+++ b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
@@ -59,8 +59,11 @@ Result<std::shared_ptr<BitSliceIndexRoaringBitmap>> BitSliceIndexRoaringBitmap::
 
     // deserialize slices
     PAIMON_ASSIGN_OR_RAISE(int32_t slice_num, data_input_stream.ReadValue<int32_t>());
+    if (slice_num < 0) {
+        return Status::Invalid(
+            fmt::format("deserialize bsi index fail, invalid slice num {}", slice_num));
+    }
     std::vector<RoaringBitmap32> slices;
-    slices.reserve(slice_num);
     for (int32_t i = 0; i < slice_num; i++) {
         RoaringBitmap32 slice;
         PAIMON_RETURN_NOT_OK(slice.Deserialize(input_stream.get()));
-- 
2.43.0


From ca407221043aed98f3a167d07543ea078f8bc24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:23 +0000
Subject: [PATCH 13/27] fix: return an error for a blob descriptor with a
 negative uri length

---
 src/paimon/common/data/blob_descriptor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/paimon/common/data/blob_descriptor.cpp b/src/paimon/common/data/blob_descriptor.cpp
index d0189cd..b3dd12f 100644
--- a/src/paimon/common/data/blob_descriptor.cpp
+++ b/src/paimon/common/data/blob_descriptor.cpp
@@ -65,6 +65,9 @@ Result<std::unique_ptr<BlobDescriptor>> BlobDescriptor::Deserialize(const char*
             "Expecting BlobDescriptor version to be {}, but found {}.", CURRENT_VERSION, version));
     }
     PAIMON_ASSIGN_OR_RAISE(int32_t uri_length, in.ReadValue<int32_t>());
+    if (uri_length < 0) {
+        return Status::Invalid(fmt::format("uri length {} is less than 0", uri_length));
+    }
     std::string uri(uri_length, '\0');
     PAIMON_RETURN_NOT_OK(in.Read(uri.data(), uri.size()));
     PAIMON_ASSIGN_OR_RAISE(int64_t offset, in.ReadValue<int64_t>());
-- 
2.43.0


From 8dccf542f5400994ffeebf4a9232cf8b3717b88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:24 +0000
Subject: [PATCH 14/27] fix: return an error for a global index result with a
 negative bitmap length

---
 src/paimon/common/global_index/global_index_result.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/common/global_index/global_index_result.cpp b/src/paimon/common/global_index/global_index_result.cpp
index 061dc6f..ea857e2 100644
--- a/src/paimon/common/global_index/global_index_result.cpp
+++ b/src/paimon/common/global_index/global_index_result.cpp
@@ -113,6 +113,10 @@ Result<std::shared_ptr<GlobalIndexResult>> GlobalIndexResult::Deserialize(
         return Status::Invalid(fmt::format("invalid version {} for GlobalIndexResult", version));
     }
     PAIMON_ASSIGN_OR_RAISE(int32_t bitmap_bytes_len, in.ReadValue<int32_t>());
+    if (bitmap_bytes_len < 0) {
+        return Status::Invalid(
+            fmt::format("invalid bitmap length {} for GlobalIndexResult", bitmap_bytes_len));
+    }
     auto bitmap_bytes = Bytes::AllocateBytes(bitmap_bytes_len, pool.get());
     PAIMON_RETURN_NOT_OK(in.ReadBytes(bitmap_bytes.get()));
     RoaringBitmap64 bitmap;
-- 
2.43.0


From 04a5e09643b34862779c58b7b8fbd3943a6caece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:44 +0000
Subject: [PATCH 15/27] fix: compare memory segments byte-wise

Words of eight bytes were compared as little endian integers, so a later byte decided before an earlier one and the
result disagreed with the byte-wise comparison of shorter regions.
---
 src/paimon/common/memory/memory_segment.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/paimon/common/memory/memory_segment.cpp b/src/paimon/common/memory/memory_segment.cpp
index 836010e..ae5958e 100644
--- a/src/paimon/common/memory/memory_segment.cpp
+++ b/src/paimon/common/memory/memory_segment.cpp
@@ -18,18 +18,23 @@
 
 #include <algorithm>
 
+#include "paimon/common/utils/math.h"
+#include "paimon/io/byte_order.h"
+
 namespace paimon {
 
 int32_t MemorySegment::Compare(const MemorySegment& seg2, int32_t offset1, int32_t offset2,
                                int32_t len) const {
     while (len >= 8) {
-        // TODO(yonghao.fyh): support big endian, decide SmallEndian or BigEndian
-        // long l1 = GetLongBigEndian(offset1);
-        // long l2 = seg2.getLongBigEndian(offset2);
         uint64_t l1 = GetValue<int64_t>(offset1);
         uint64_t l2 = seg2.GetValue<int64_t>(offset2);
 
         if (l1 != l2) {
+            // the first byte is the most significant one
+            if (SystemByteOrder() == ByteOrder::PAIMON_LITTLE_ENDIAN) {
+                l1 = EndianSwapValue(l1);
+                l2 = EndianSwapValue(l2);
+            }
             return (l1 < l2) ? -1 : 1;
         }
 
-- 
2.43.0


From dea36b6387d19ef96b0e764b07a641eefce4ded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:54 +0000
Subject: [PATCH 16/27] fix: keep substrings of binary strings inside the
 string

A text that ends in the middle of a character announced more bytes than it has, so the substring included bytes behind
the string or read past its memory.
---
 src/paimon/common/data/binary_string.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/common/data/binary_string.cpp b/src/paimon/common/data/binary_string.cpp
index aed44e4..72a29b8 100644
--- a/src/paimon/common/data/binary_string.cpp
+++ b/src/paimon/common/data/binary_string.cpp
@@ -245,6 +245,8 @@ BinaryString BinaryString::SubStringMultiSegs(const int32_t start, const int32_t
         index.SkipBytes(char_size, seg_size);
         c += 1;
     }
+    // the last character may be incomplete
+    i = std::min(i, size_in_bytes_);
 
     if (i > j) {
         std::shared_ptr<Bytes> bytes =
@@ -274,6 +276,8 @@ BinaryString BinaryString::Substring(int32_t begin_index, int32_t end_index,
             i += NumBytesForFirstByte(segment.Get(i + offset_));
             c += 1;
         }
+        // the last character may be incomplete
+        i = std::min(i, size_in_bytes_);
 
         if (i > j) {
             std::shared_ptr<Bytes> bytes = Bytes::AllocateBytes(i - j, pool);
-- 
2.43.0


From a8217ff8e4897d1522ef9e2bca8e222311060327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:39 +0000
Subject: [PATCH 17/27] fix: report a failing directory read when listing a
 local path

The listing stopped at the first error and returned the names read so far
as if the directory had ended there.
---
 src/paimon/fs/local/local_file.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/paimon/fs/local/local_file.cpp b/src/paimon/fs/local/local_file.cpp
index c9a1381..60cf67c 100644
--- a/src/paimon/fs/local/local_file.cpp
+++ b/src/paimon/fs/local/local_file.cpp
@@ -83,11 +83,20 @@ Status LocalFile::List(std::vector<std::string>* file_list) const {
             fmt::format("list path '{}' fail, ec: {}", path_, std::strerror(cur_errno)));
     }
 
+    // readdir() returns nullptr at the end as well as on error, only errno tells the difference
+    errno = 0;
     while ((ep = readdir(dp)) != nullptr) {
-        if (strcmp(ep->d_name, ".") == 0 || strcmp(ep->d_name, "..") == 0) {
-            continue;
+        if (strcmp(ep->d_name, ".") != 0 && strcmp(ep->d_name, "..") != 0) {
+            file_list->push_back(ep->d_name);
         }
-        file_list->push_back(ep->d_name);
+        errno = 0;
+    }
+    if (errno != 0) {
+        int32_t cur_errno = errno;
+        file_list->clear();
+        closedir(dp);
+        return Status::IOError(
+            fmt::format("list path '{}' fail, ec: {}", path_, std::strerror(cur_errno)));
     }
     if (closedir(dp) < 0) {
         file_list->clear();
-- 
2.43.0


From a36ca584df73509eb39518b5173388960b6cb7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:08:30 +0000
Subject: [PATCH 18/27] fix: report failed reallocation in the memory pool

MemoryPoolImpl::Realloc ignored a null result of realloc: it returned null
while counting the new size as in use. Throw std::bad_alloc as Malloc does and
leave the counters and the old block as they were.
---
 src/paimon/common/memory/memory_pool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/paimon/common/memory/memory_pool.cpp b/src/paimon/common/memory/memory_pool.cpp
index a0f3573..59ea991 100644
--- a/src/paimon/common/memory/memory_pool.cpp
+++ b/src/paimon/common/memory/memory_pool.cpp
@@ -58,6 +58,9 @@ void* MemoryPoolImpl::Malloc(uint64_t size, uint64_t alignment) {
 void* MemoryPoolImpl::Realloc(void* p, size_t old_size, size_t new_size, size_t alignment) {
     if (alignment == 0) {
         void* memptr = ::realloc(p, new_size);
+        if (memptr == nullptr && new_size != 0) {
+            throw std::bad_alloc();
+        }
         total_allocated_size.fetch_add(new_size - old_size);
         max_allocated.store(std::max(total_allocated_size.load(), max_allocated.load()));
         return memptr;
-- 
2.43.0


From b92375d5c29a2f3354bfcf7efd118ecb1d6e8cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:08:30 +0000
Subject: [PATCH 19/27] fix: keep the peak of the memory pool under concurrent
 allocation

The peak was updated by separate load, max and store steps, so an update of
another thread could be overwritten by a smaller value. Raise the peak with
compare and exchange instead.
---
 src/paimon/common/memory/memory_pool.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/paimon/common/memory/memory_pool.cpp b/src/paimon/common/memory/memory_pool.cpp
index 59ea991..557d4f3 100644
--- a/src/paimon/common/memory/memory_pool.cpp
+++ b/src/paimon/common/memory/memory_pool.cpp
@@ -39,10 +39,19 @@ class MemoryPoolImpl : public MemoryPool {
     }
 
  protected:
+    void UpdateMax(int64_t allocated_size);
+
     std::atomic<int64_t> total_allocated_size = {0};
     std::atomic<int64_t> max_allocated = {0};
 };
 
+void MemoryPoolImpl::UpdateMax(int64_t allocated_size) {
+    int64_t current_max = max_allocated.load();
+    while (current_max < allocated_size &&
+           !max_allocated.compare_exchange_weak(current_max, allocated_size)) {
+    }
+}
+
 void* MemoryPoolImpl::Malloc(uint64_t size, uint64_t alignment) {
     void* memptr = nullptr;
 #define DEFAULT_ALIGNMENT 64
@@ -50,8 +59,7 @@ void* MemoryPoolImpl::Malloc(uint64_t size, uint64_t alignment) {
                        alignment == 0 ? DEFAULT_ALIGNMENT : alignment, size) != 0) {
         throw std::bad_alloc();
     }
-    total_allocated_size.fetch_add(size);
-    max_allocated.store(std::max(total_allocated_size.load(), max_allocated.load()));
+    UpdateMax(total_allocated_size.fetch_add(size) + size);
     return memptr;
 }
 
@@ -61,8 +69,7 @@ void* MemoryPoolImpl::Realloc(void* p, size_t old_size, size_t new_size, size_t
         if (memptr == nullptr && new_size != 0) {
             throw std::bad_alloc();
         }
-        total_allocated_size.fetch_add(new_size - old_size);
-        max_allocated.store(std::max(total_allocated_size.load(), max_allocated.load()));
+        UpdateMax(total_allocated_size.fetch_add(new_size - old_size) + new_size - old_size);
         return memptr;
     } else {
         if (p == nullptr) {
@@ -73,8 +80,7 @@ void* MemoryPoolImpl::Realloc(void* p, size_t old_size, size_t new_size, size_t
             Free(p, old_size);
             return Malloc(0, alignment);
         } else if (new_size < old_size && old_size / 2 < new_size) {
-            total_allocated_size.fetch_add(new_size - old_size);
-            max_allocated.store(std::max(total_allocated_size.load(), max_allocated.load()));
+            total_allocated_size.fetch_sub(old_size - new_size);
             // do not shrink to fit, when new size is not very small, to avoid memory copy
             return p;
         } else {
-- 
2.43.0


From 33d0d0f89b63360420b0e2f02f2bab7f4eaa545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:12:05 +0000
Subject: [PATCH 20/27] fix: reject a negative number of stored deletion files

DeletionFile::DeserializeList passed the stored count to reserve without a
check, so a negative count ended in std::length_error instead of an error
status.
---
 src/paimon/core/table/source/deletion_file.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/paimon/core/table/source/deletion_file.h b/src/paimon/core/table/source/deletion_file.h
index f15d9ab..2ebd41c 100644
--- a/src/paimon/core/table/source/deletion_file.h
+++ b/src/paimon/core/table/source/deletion_file.h
@@ -95,6 +95,9 @@ struct DeletionFile {
         PAIMON_ASSIGN_OR_RAISE(char has_deletion_file, in->ReadValue<char>());
         if (has_deletion_file == static_cast<char>(1)) {
             PAIMON_ASSIGN_OR_RAISE(int32_t size, in->ReadValue<int32_t>());
+            if (size < 0) {
+                return Status::Invalid(fmt::format("Invalid deletion file count: {}", size));
+            }
             files.reserve(size);
             for (int32_t i = 0; i < size; i++) {
                 std::optional<DeletionFile> file;
-- 
2.43.0


From 4d9a817696b3f59815e392ca506a89755ec3a3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:49:35 +0000
Subject: [PATCH 21/27] fix: keep the root as parent of a path directly below
 it

The parent of "/a" was the empty path.  Temporary and index paths built
from it were relative to the working directory.
---
 src/paimon/common/utils/path_util.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/paimon/common/utils/path_util.cpp b/src/paimon/common/utils/path_util.cpp
index 088d18c..9a80014 100644
--- a/src/paimon/common/utils/path_util.cpp
+++ b/src/paimon/common/utils/path_util.cpp
@@ -119,8 +119,13 @@ std::string PathUtil::GetParentDirPath(const std::string& path) noexcept {
     }
     for (; it != path.rend() && *it != '/'; it++) {
     }
+    auto separator = it;
     for (; it != path.rend() && *it == '/'; it++) {
     }
+    if (it == path.rend() && it != separator) {
+        // the parent is the root itself
+        return "/";
+    }
     return path.substr(0, path.rend() - it);
 }
 
-- 
2.43.0


From 704e8f6dac3c1f3b1ebd910b36795c169b4214df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:49:35 +0000
Subject: [PATCH 22/27] fix: ignore all trailing separators when taking the
 name of a path

Only one trailing separator was dropped, so "/d/a//" had an empty name
while its parent was "/d".
---
 src/paimon/common/utils/path_util.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/paimon/common/utils/path_util.cpp b/src/paimon/common/utils/path_util.cpp
index 9a80014..4ecd23e 100644
--- a/src/paimon/common/utils/path_util.cpp
+++ b/src/paimon/common/utils/path_util.cpp
@@ -130,12 +130,13 @@ std::string PathUtil::GetParentDirPath(const std::string& path) noexcept {
 }
 
 std::string PathUtil::GetName(const std::string& path) noexcept {
-    std::string dir_path = path;
-    TrimLastDelim(&dir_path);
     std::string::const_reverse_iterator it;
-    for (it = dir_path.rbegin(); it != dir_path.rend() && *it != '/'; it++) {
+    for (it = path.rbegin(); it != path.rend() && *it == '/'; it++) {
+    }
+    auto name_end = it;
+    for (; it != path.rend() && *it != '/'; it++) {
     }
-    return dir_path.substr(dir_path.rend() - it);
+    return path.substr(path.rend() - it, it - name_end);
 }
 
 void PathUtil::TrimLastDelim(std::string* dir_path) noexcept {
-- 
2.43.0


From 4e03c18499e20b8fdd61798d9733e5fc8a28dd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:49:35 +0000
Subject: [PATCH 23/27] fix: return the text unchanged when the text to replace
 is empty

The documented result of replacing an empty text is the unchanged text.
The loop inserted the replacement again and again and never ended.
---
 src/paimon/common/utils/string_utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/paimon/common/utils/string_utils.cpp b/src/paimon/common/utils/string_utils.cpp
index 88312d0..3cf7b56 100644
--- a/src/paimon/common/utils/string_utils.cpp
+++ b/src/paimon/common/utils/string_utils.cpp
@@ -29,6 +29,9 @@
 namespace paimon {
 std::string StringUtils::Replace(const std::string& text, const std::string& search_string,
                                  const std::string& replacement, int32_t max) {
+    if (search_string.empty()) {
+        return text;
+    }
     std::string str = text;
     size_t pos = str.find(search_string);
     int32_t count = 0;
-- 
2.43.0


From 39bcde3325591b782648edca3593aab4c7dee3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:47:36 +0000
Subject: [PATCH 24/27] fix: rename local files given with a file scheme

Rename passed its arguments to the system as they were given, so paths with
a scheme were never found although every other operation accepts them.
Storing a file atomically under such a path failed for the same reason.
---
 src/paimon/fs/local/local_file_system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paimon/fs/local/local_file_system.cpp b/src/paimon/fs/local/local_file_system.cpp
index 07a3fe3..0dd7255 100644
--- a/src/paimon/fs/local/local_file_system.cpp
+++ b/src/paimon/fs/local/local_file_system.cpp
@@ -224,7 +224,7 @@ Status LocalFileSystem::Rename(const std::string& src, const std::string& dst) c
     PAIMON_ASSIGN_OR_RAISE(LocalFile dst_file, ToFile(dst));
     auto parent = dst_file.GetParentFile();
     PAIMON_RETURN_NOT_OK(Mkdirs(parent.GetAbsolutePath()));
-    if (::rename(src.c_str(), dst.c_str()) != 0) {
+    if (::rename(src_file.GetAbsolutePath().c_str(), dst_file.GetAbsolutePath().c_str()) != 0) {
         int32_t cur_errno = errno;
         return Status::IOError(err_msg, std::strerror(cur_errno));
     }
-- 
2.43.0


From 8c49af02a7ffcecd125b554d5f9fdb6a14510f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:47:36 +0000
Subject: [PATCH 25/27] fix: report a failing close after writing a file

WriteFile ignored the result of closing the stream, and AtomicStore then
published a file whose content may not have been persisted.
---
 src/paimon/common/fs/file_system.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/paimon/common/fs/file_system.cpp b/src/paimon/common/fs/file_system.cpp
index 262973e..815d20e 100644
--- a/src/paimon/common/fs/file_system.cpp
+++ b/src/paimon/common/fs/file_system.cpp
@@ -76,8 +76,10 @@ Status FileSystem::WriteFile(const std::string& path, const std::string& content
                                                path, length, write_length));
         }
         PAIMON_RETURN_NOT_OK(out->Flush());
+        guard.Release();
     }
-    return Status::OK();
+    // content may only be persisted on close
+    return out->Close();
 }
 
 Status FileSystem::AtomicStore(const std::string& path, const std::string& content) {
-- 
2.43.0


From b9e6fa6285cbd6b91e1bddacbd6f0724719efcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:48:41 +0000
Subject: [PATCH 26/27] fix: create and rename local files without a parent
 directory in their path

A file directly below the root or with a plain relative name has an empty
parent path. Making that directory was refused, so such files could not be
created or be the target of a rename.
---
 src/paimon/fs/local/local_file_system.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/paimon/fs/local/local_file_system.cpp b/src/paimon/fs/local/local_file_system.cpp
index 0dd7255..9cc8e64 100644
--- a/src/paimon/fs/local/local_file_system.cpp
+++ b/src/paimon/fs/local/local_file_system.cpp
@@ -65,7 +65,9 @@ Result<std::unique_ptr<OutputStream>> LocalFileSystem::Create(const std::string&
     }
     PAIMON_ASSIGN_OR_RAISE(LocalFile file, ToFile(path));
     LocalFile parent = file.GetParentFile();
-    PAIMON_RETURN_NOT_OK(Mkdirs(parent.GetAbsolutePath()));
+    if (!parent.IsEmpty()) {
+        PAIMON_RETURN_NOT_OK(Mkdirs(parent.GetAbsolutePath()));
+    }
     PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<LocalOutputStream> out, LocalOutputStream::Create(file));
     return out;
 }
@@ -223,7 +225,9 @@ Status LocalFileSystem::Rename(const std::string& src, const std::string& dst) c
     }
     PAIMON_ASSIGN_OR_RAISE(LocalFile dst_file, ToFile(dst));
     auto parent = dst_file.GetParentFile();
-    PAIMON_RETURN_NOT_OK(Mkdirs(parent.GetAbsolutePath()));
+    if (!parent.IsEmpty()) {
+        PAIMON_RETURN_NOT_OK(Mkdirs(parent.GetAbsolutePath()));
+    }
     if (::rename(src_file.GetAbsolutePath().c_str(), dst_file.GetAbsolutePath().c_str()) != 0) {
         int32_t cur_errno = errno;
         return Status::IOError(err_msg, std::strerror(cur_errno));
-- 
2.43.0


From fee9ad4c63fed5e16a0dbf72ef173b4d5c312eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:24:11 +0000
Subject: [PATCH 27/27] fix: keep two local renames to one target from both
 succeeding

Rename checks that the target does not exist and then calls rename(2), which
replaces an existing file. Two threads renaming to the same target could both
pass the check, and the second silently replaced the file of the first. The
class already declared a rename lock but never defined or took it. Take it for
the whole operation.
---
 src/paimon/fs/local/local_file_system.cpp | 4 ++++
 src/paimon/fs/local/local_file_system.h   | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/paimon/fs/local/local_file_system.cpp b/src/paimon/fs/local/local_file_system.cpp
index 9cc8e64..f96ba9a 100644
--- a/src/paimon/fs/local/local_file_system.cpp
+++ b/src/paimon/fs/local/local_file_system.cpp
@@ -31,6 +31,8 @@
 
 namespace paimon {
 
+std::mutex LocalFileSystem::RENAME_LOCK;
+
 Result<LocalFile> LocalFileSystem::ToFile(const std::string& path_string) const {
     // local file system does not support path_string with scheme, e.g., "file:/tmp" will be
     // rewritten to "/tmp"
@@ -208,6 +210,8 @@ Status LocalFileSystem::Delete(const LocalFile& f, bool recursive) const {
 
 Status LocalFileSystem::Rename(const std::string& src, const std::string& dst) const {
     std::string err_msg = fmt::format("rename '{}' to '{}' failed, because: ", src, dst);
+    // another rename must not create dst between the check and the system call
+    std::lock_guard<std::mutex> lock(RENAME_LOCK);
     PAIMON_ASSIGN_OR_RAISE(bool is_src_exist, Exists(src));
     if (!is_src_exist) {
         return Status::NotExist(err_msg, "src file not exist");
diff --git a/src/paimon/fs/local/local_file_system.h b/src/paimon/fs/local/local_file_system.h
index 9ab4bb1..d259b51 100644
--- a/src/paimon/fs/local/local_file_system.h
+++ b/src/paimon/fs/local/local_file_system.h
@@ -59,7 +59,7 @@ class LocalFileSystem : public FileSystem {
 
  private:
     // the lock to ensure atomic renaming
-    static const std::mutex RENAME_LOCK;
+    static std::mutex RENAME_LOCK;
 
     Status Delete(const LocalFile& f, bool recursive = true) const;
     std::string GetParentPath(const std::string& path) const;
-- 
2.43.0

