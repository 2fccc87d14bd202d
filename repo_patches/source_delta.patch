From a5949a7f0752a80ac051c023dc2e1c5b57c0e971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 01/75] fix: odc_open_stream readers could not read any frame
 (position and seek not supported, short reads rejected)

---
 src/odc/api/odc.cc | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 624c61a..b7814a5 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -290,8 +290,10 @@ int odc_open_buffer(odc_reader_t** reader, const void* data, long length) {
 int odc_open_stream(odc_reader_t** reader, void* handle, odc_stream_read_t stream_proc) {
 
     // Wrap the stream in a DataHandle
+    // n.b. Frames are located first and decoded later (possibly repeatedly), so it must be possible to return to data
+    //      which has already been consumed from the stream. It is therefore retained.
     struct ReadStreamDataHandle : public eckit::DataHandle {
-        ReadStreamDataHandle(void* handle, odc_stream_read_t fn) : handle_(handle), fn_(fn) {}
+        ReadStreamDataHandle(void* handle, odc_stream_read_t fn) : handle_(handle), fn_(fn), pos_(0), eof_(false) {}
         virtual ~ReadStreamDataHandle() {}
         void print(std::ostream& s) const override { s << "StreamReadHandle(" << fn_ << "(" << handle_ << "))"; }
         // Hack for compiler bug on clang-14.0.3 running on MacOS 13
@@ -299,12 +301,48 @@ int odc_open_stream(odc_reader_t** reader, void* handle, odc_stream_read_t strea
         Length openForRead() override { return workaroundFunction(); }
         void openForWrite(const Length&) override { NOTIMP; }
         void openForAppend(const Length&) override { NOTIMP; }
-        long read(void* buffer, long length) override { return fn_(handle_, buffer, length); }
+        long read(void* buffer, long length) override {
+            ASSERT(length >= 0);
+            ensure(pos_ + size_t(length));
+            if (pos_ > data_.size()) {
+                throw ReadError("Attempting to read beyond the end of the stream", Here());
+            }
+            size_t available = std::min(size_t(length), data_.size() - pos_);
+            if (available != 0) {
+                ::memcpy(buffer, &data_[pos_], available);
+                pos_ += available;
+            }
+            return available;
+        }
         long write(const void*, long) override { NOTIMP; }
         void close() override {}
+        Offset position() override { return pos_; }
+        Offset seek(const Offset& offset) override {
+            pos_ = offset;
+            return offset;
+        }
+
+        // Consume the stream until size bytes have been obtained, or it has ended
+        void ensure(size_t size) {
+            constexpr size_t max_chunk = 1024 * 1024;
+            while (!eof_ && data_.size() < size) {
+                size_t current = data_.size();
+                size_t chunk   = std::min(size - current, max_chunk);
+                data_.resize(current + chunk);
+                long bytesRead = fn_(handle_, &data_[current], chunk);
+                data_.resize(current + ((bytesRead > 0 && size_t(bytesRead) <= chunk) ? bytesRead : 0));
+                if (bytesRead < 0 || bytesRead > long(chunk)) {
+                    throw ReadError("Read from stream failed", Here());
+                }
+                eof_ = (bytesRead == 0);
+            }
+        }
 
         void* handle_;
         odc_stream_read_t fn_;
+        std::vector<char> data_;
+        size_t pos_;
+        bool eof_;
     };
 
     return wrapApiFunction(
-- 
2.43.0


From 60e1edb9ad4d879ebdc9831d2836e9c9bc1386af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 02/75] fix: decoding uninitialised memory when less row data
 than announced can be read

---
 src/odc/core/Table.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 4f85a1b..0871e02 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -75,13 +75,15 @@ Buffer Table::readEncodedData(bool includeHeader) {
     if (includeHeader) {
         Buffer data(nextPosition() - startPosition());
         dh_.seek(startPosition());
-        dh_.read(data, nextPosition() - startPosition());
+        if (dh_.read(data, data.size()) != long(data.size()))
+            throw ODBIncomplete(dh_.title(), Here());
         return data;
     }
     else {
         Buffer data(dataSize_);
         dh_.seek(dataPosition_);
-        dh_.read(data, dataSize_);
+        if (dh_.read(data, data.size()) != long(data.size()))
+            throw ODBIncomplete(dh_.title(), Here());
         return data;
     }
 }
-- 
2.43.0


From 7a2bfe096abf35202706eb6f0e20ae4aadd2d9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 03/75] fix: odc_frame_property_idx only checked the index on
 its first call

---
 src/odc/api/odc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index b7814a5..00185f9 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -494,7 +494,6 @@ int odc_frame_property_idx(const odc_frame_t* frame, int idx, const char** key,
 
         if (!frame->propertiesMemoised_) {
             const auto& properties(frame->frame_.properties());
-            ASSERT(idx >= 0 && size_t(idx) < properties.size());
 
             frame->propertiesIndex_.reserve(properties.size());
             for (std::map<std::string, std::string>::const_iterator it = properties.begin(); it != properties.end();
@@ -505,6 +504,7 @@ int odc_frame_property_idx(const odc_frame_t* frame, int idx, const char** key,
             frame->propertiesMemoised_ = true;
         }
 
+        ASSERT(idx >= 0 && size_t(idx) < frame->propertiesIndex_.size());
         *key   = frame->propertiesIndex_[idx]->first.c_str();
         *value = frame->propertiesIndex_[idx]->second.c_str();
     });
-- 
2.43.0


From 58214a7e4b66a72f937235c47d61728c10a2f7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 04/75] fix: copying a frame kept references into its source,
 and copying an empty frame crashed

---
 src/odc/api/Odb.cc | 6 ++++--
 src/odc/api/odc.cc | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index 86c282b..31233ed 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -508,14 +508,16 @@ Frame::Frame() : impl_(nullptr) {}
 
 Frame::Frame(std::unique_ptr<FrameImpl>&& impl) : impl_(std::move(impl)) {}
 
-Frame::Frame(const Frame& rhs) : impl_(new FrameImpl(*rhs.impl_)) {}
+Frame::Frame(const Frame& rhs) : impl_(rhs.impl_ ? new FrameImpl(*rhs.impl_) : nullptr) {}
 
 Frame::Frame(Frame&& rhs) : impl_(std::move(rhs.impl_)) {}
 
 Frame::~Frame() {}
 
 Frame& Frame::operator=(const Frame& rhs) {
-    impl_.reset(new FrameImpl(*rhs.impl_));
+    if (this != &rhs) {
+        impl_.reset(rhs.impl_ ? new FrameImpl(*rhs.impl_) : nullptr);
+    }
     return *this;
 }
 
diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 00185f9..3df6658 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -423,7 +423,8 @@ int odc_next_frame_aggregated(odc_frame_t* frame, long maximum_rows) {
 int odc_copy_frame(odc_frame_t* source_frame, odc_frame_t** copy) {
     return wrapApiFunction([source_frame, copy] {
         ASSERT(source_frame);
-        (*copy) = new odc_frame_t{*source_frame};
+        // n.b. The memoised property iterators refer to the source frame, and must not be copied
+        (*copy) = new odc_frame_t{source_frame->reader_, false, {}, source_frame->frame_};
     });
 }
 
-- 
2.43.0


From 214c5a82c358cecde177904283242c189c09d9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 05/75] fix: odc_open_file_descriptor did not notice that dup()
 failed

---
 src/odc/api/odc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 3df6658..6ba1059 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -277,7 +277,7 @@ int odc_open_file_descriptor(odc_reader_t** reader, int fd) {
         // Take a copy of the file descriptor. This allows us to decouple the life of this
         // from the life of the caller
         int fd2 = dup(fd);
-        if (fd == -1)
+        if (fd2 == -1)
             throw CantOpenFile("dup() failed on supplied file descriptor", Here());
         (*reader) = new odc_reader_t(new FileDescHandle(fd2, true));
     });
-- 
2.43.0


From bb6cac202377317ca8579a7e032d57005918232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 06/75] fix: data race on the error message when several
 threads use the C API

---
 src/odc/api/odc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 6ba1059..37f35e4 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -94,7 +94,7 @@ struct odc_encoder_t {
 
 /* Error handling */
 
-static std::string g_current_error_str;
+static thread_local std::string g_current_error_str;
 static odc_failure_handler_t g_failure_handler = nullptr;
 static void* g_failure_handler_context         = nullptr;
 
-- 
2.43.0


From 0b84cee52566015d87a55095a5fcf59eac21ca48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 07/75] fix: frames of the opposite byte order could not be
 decoded (codec clones lost the byte order and the converted missing value)

---
 src/odc/codec/String.h |  2 --
 src/odc/core/Codec.cc  | 12 +++++++-----
 src/odc/core/Codec.h   |  6 ++++++
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/odc/codec/String.h b/src/odc/codec/String.h
index 5a5b71a..9bf897a 100644
--- a/src/odc/codec/String.h
+++ b/src/odc/codec/String.h
@@ -300,8 +300,6 @@ std::unique_ptr<core::Codec> CodecChars<ByteOrder>::clone() {
     c.stringLookup_                  = stringLookup_;
     c.strings_                       = strings_;
     c.decodedSizeDoubles_            = decodedSizeDoubles_;
-    ASSERT(c.min() == this->min_);
-    ASSERT(c.max() == this->max_);
     return cdc;
 }
 
diff --git a/src/odc/core/Codec.cc b/src/odc/core/Codec.cc
index 303e550..fe30073 100644
--- a/src/odc/core/Codec.cc
+++ b/src/odc/core/Codec.cc
@@ -30,11 +30,13 @@ Codec::Codec(const std::string& name, api::ColumnType type) :
     type_(type) {}
 
 std::unique_ptr<Codec> Codec::clone() {
-    auto c           = CodecFactory::instance().build<SameByteOrder>(name_, type_);
-    c->hasMissing_   = hasMissing_;
-    c->missingValue_ = missingValue_;
-    c->min_          = min_;
-    c->max_          = max_;
+    // n.b. The clone must be able to decode the same data as the original.
+    auto c = otherByteOrder() ? CodecFactory::instance().build<OtherByteOrder>(name_, type_)
+                              : CodecFactory::instance().build<SameByteOrder>(name_, type_);
+    c->missingValue(missingValue_);  // n.b. virtual. Derived codecs may store a converted value
+    c->hasMissing_ = hasMissing_;
+    c->min_        = min_;
+    c->max_        = max_;
     return c;
 }
 
diff --git a/src/odc/core/Codec.h b/src/odc/core/Codec.h
index 108c711..16b3fa5 100644
--- a/src/odc/core/Codec.h
+++ b/src/odc/core/Codec.h
@@ -14,6 +14,7 @@
 
 #include <cstring>
 #include <limits>
+#include <type_traits>
 
 #include "odc/MDI.h"
 #include "odc/api/ColumnType.h"
@@ -52,6 +53,9 @@ public:
     virtual void setDataStream(DataStream<OtherByteOrder>& ds);
     virtual void clearDataStream() = 0;
 
+    /// Is this codec for data with the opposite byte order to the native one?
+    virtual bool otherByteOrder() const = 0;
+
     void load(GeneralDataStream& ds);
     virtual void load(DataStream<SameByteOrder>& ds);
     virtual void load(DataStream<OtherByteOrder>& ds);
@@ -136,6 +140,8 @@ public:  // methods
     void setDataStream(DataStream<ByteOrder>& ds) override { ds_ = &ds; }
     void clearDataStream() override { ds_ = 0; }
 
+    bool otherByteOrder() const override { return std::is_same<ByteOrder, OtherByteOrder>::value; }
+
 protected:  // methods
 
     using Codec::load;
-- 
2.43.0


From f0ced3c25f02a6c9571ac0d2e9672f3aef322ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 08/75] fix: an empty string stored by the long constant string
 codec could not be read back

---
 src/odc/codec/Constant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/codec/Constant.h b/src/odc/codec/Constant.h
index 31d3d83..3c9fd8e 100644
--- a/src/odc/codec/Constant.h
+++ b/src/odc/codec/Constant.h
@@ -194,7 +194,7 @@ void CodecLongConstantString<ByteOrder>::load(core::DataStream<ByteOrder>& ds) {
     core::DataStreamCodec<ByteOrder>::load(ds);
     std::string s;
     ds.read(s);
-    this->decodedSizeDoubles_ = ((s.length() - 1) / sizeof(double)) + 1;
+    this->decodedSizeDoubles_ = s.empty() ? 1 : ((s.length() - 1) / sizeof(double)) + 1;
     this->strings_.push_back(s);
 }
 
-- 
2.43.0


From a12bdc1852f4d2abe9506679443785e703b2f6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 09/75] fix: integers which the codecs cannot represent were
 silently altered when encoded

---
 src/odc/codec/Integer.h | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/odc/codec/Integer.h b/src/odc/codec/Integer.h
index 683f172..066c303 100644
--- a/src/odc/codec/Integer.h
+++ b/src/odc/codec/Integer.h
@@ -11,6 +11,13 @@
 #ifndef odc_core_codec_Integer_H
 #define odc_core_codec_Integer_H
 
+#include <cstdint>
+#include <limits>
+#include <sstream>
+#include <type_traits>
+
+#include "eckit/exception/Exceptions.h"
+
 #include "odc/core/Codec.h"
 
 /// @note We have some strange behaviour in here. In particular, we support BOTH decoding
@@ -66,6 +73,18 @@ private:  // methods
     void gatherStats(const double& v) override {
         static_assert(sizeof(ValueType) == sizeof(v), "unsafe casting check");
         const ValueType& val(reinterpret_cast<const ValueType&>(v));
+
+        // The statistics (and so the offsets/constants derived from them) are stored as doubles. An integer which
+        // cannot be represented exactly as a double cannot be encoded without changing it.
+        if (std::is_integral<ValueType>::value) {
+            constexpr int64_t limit = int64_t(1) << std::numeric_limits<double>::digits;
+            if (int64_t(val) > limit || int64_t(val) < -limit) {
+                std::ostringstream ss;
+                ss << "Integer value " << val << " is too large to be encoded";
+                throw eckit::BadValue(ss.str(), Here());
+            }
+        }
+
         core::Codec::gatherStats(val);
     }
 
@@ -136,7 +155,7 @@ private:  // methods
         static_assert(sizeof(ValueType) == sizeof(d), "unsafe casting check");
 
         const ValueType& val(reinterpret_cast<const ValueType&>(d));
-        InternalValueType s = val;
+        InternalValueType s = narrow(val);
         ByteOrder::swap(s);
         ::memcpy(p, &s, sizeof(s));
         return p + sizeof(s);
@@ -152,6 +171,20 @@ private:  // methods
     }
 
     void skip() override { this->ds().advance(sizeof(InternalValueType)); }
+
+    InternalValueType narrow(const ValueType& val) const {
+        if (val >= std::numeric_limits<InternalValueType>::min() && val <= std::numeric_limits<InternalValueType>::max()) {
+            return static_cast<InternalValueType>(val);
+        }
+        // A bitfield is a pattern of (at most 32) bits, which may have been provided as an unsigned number
+        using UnsignedType = typename std::make_unsigned<InternalValueType>::type;
+        if (this->type_ == api::BITFIELD && val >= 0 && val <= std::numeric_limits<UnsignedType>::max()) {
+            return static_cast<InternalValueType>(static_cast<UnsignedType>(val));
+        }
+        std::ostringstream ss;
+        ss << "Value " << val << " cannot be represented by codec " << DerivedCodec::codec_name();
+        throw eckit::BadValue(ss.str(), Here());
+    }
 };
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 1378724505d2f4f2c3c174f977824cefb28fc839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 10/75] fix: NaN values in an otherwise constant REAL or DOUBLE
 column were replaced by the constant

---
 src/odc/codec/CodecOptimizer.h |  9 ++++++---
 src/odc/codec/Real.h           | 14 +++++++++++++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/odc/codec/CodecOptimizer.h b/src/odc/codec/CodecOptimizer.h
index 24b841c..ebda6cc 100644
--- a/src/odc/codec/CodecOptimizer.h
+++ b/src/odc/codec/CodecOptimizer.h
@@ -60,7 +60,7 @@ int CodecOptimizer::setOptimalCodecs(core::MetaData& columns) {
                     dynamic_cast<CodecLongReal<core::SameByteOrder>*>(&col.coder());
                 ASSERT(codec_long != 0);
 
-                if (max == min) {
+                if (max == min && !codec_long->hasNaN()) {
                     codec = col.hasMissing() ? "real_constant_or_missing" : "constant";
                 }
                 else if (codec_long->hasShortReal2InternalMissing()) {
@@ -82,8 +82,10 @@ int CodecOptimizer::setOptimalCodecs(core::MetaData& columns) {
                 break;
             }
 
-            case api::DOUBLE:
-                if (max == min)
+            case api::DOUBLE: {
+                auto* codec_long = dynamic_cast<CodecLongReal<core::SameByteOrder>*>(&col.coder());
+
+                if (max == min && !(codec_long && codec_long->hasNaN()))
                     codec = col.hasMissing() ? "real_constant_or_missing" : "constant";
                 col.coder(core::CodecFactory::instance().build<ByteOrder>(codec, col.type()));
                 col.hasMissing(hasMissing);
@@ -94,6 +96,7 @@ int CodecOptimizer::setOptimalCodecs(core::MetaData& columns) {
                 //         << ">. Codec: "  << col.coder()
                 //         << std::endl;
                 break;
+            }
 
             case api::STRING: {
                 n = col.coder().numStrings();
diff --git a/src/odc/codec/Real.h b/src/odc/codec/Real.h
index 776d162..56a58c9 100644
--- a/src/odc/codec/Real.h
+++ b/src/odc/codec/Real.h
@@ -11,6 +11,8 @@
 #ifndef odc_core_codec_Real_H
 #define odc_core_codec_Real_H
 
+#include <cmath>
+
 #include "odc/core/Codec.h"
 
 
@@ -37,12 +39,14 @@ public:  // methods
     CodecLongReal(api::ColumnType type) :
         core::DataStreamCodec<ByteOrder>(codec_name(), type),
         hasShortRealInternalMissing_(false),
-        hasShortReal2InternalMissing_(false) {}
+        hasShortReal2InternalMissing_(false),
+        hasNaN_(false) {}
 
     ~CodecLongReal() override {}
 
     bool hasShortRealInternalMissing() const { return hasShortRealInternalMissing_; }
     bool hasShortReal2InternalMissing() const { return hasShortReal2InternalMissing_; }
+    bool hasNaN() const { return hasNaN_; }
 
 private:  // methods
 
@@ -59,6 +63,13 @@ private:  // methods
 
     /// Keep track on internal missing value collisions, to help the CodecOptimizer.
     void gatherStats(const double& v) override {
+
+        // A NaN has no place in a range, but a column which contains one is not constant.
+        if (std::isnan(v)) {
+            hasNaN_ = true;
+            return;
+        }
+
         core::Codec::gatherStats(v);
 
         float realInternalMissing  = reinterpret_cast<const float&>(minFloatAsInt);
@@ -73,6 +84,7 @@ private:  // members
 
     bool hasShortRealInternalMissing_;
     bool hasShortReal2InternalMissing_;
+    bool hasNaN_;
 };
 
 
-- 
2.43.0


From b834ca391f834b38eebfede890e74a0fa10c8a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 11/75] fix: REAL columns containing values stored as -FLT_MAX,
 or both internal missing values, could not be encoded

---
 src/odc/codec/CodecOptimizer.h | 4 ++--
 src/odc/codec/Real.h           | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/odc/codec/CodecOptimizer.h b/src/odc/codec/CodecOptimizer.h
index ebda6cc..647122f 100644
--- a/src/odc/codec/CodecOptimizer.h
+++ b/src/odc/codec/CodecOptimizer.h
@@ -64,8 +64,8 @@ int CodecOptimizer::setOptimalCodecs(core::MetaData& columns) {
                     codec = col.hasMissing() ? "real_constant_or_missing" : "constant";
                 }
                 else if (codec_long->hasShortReal2InternalMissing()) {
-                    ASSERT(!codec_long->hasShortRealInternalMissing());
-                    codec = "short_real";
+                    // If neither of the internal missing values is available, use the full width
+                    codec = codec_long->hasShortRealInternalMissing() ? "long_real" : "short_real";
                 }
                 else if (codec_long->hasShortRealInternalMissing()) {
                     codec = "short_real2";
diff --git a/src/odc/codec/Real.h b/src/odc/codec/Real.h
index 56a58c9..071cef5 100644
--- a/src/odc/codec/Real.h
+++ b/src/odc/codec/Real.h
@@ -73,10 +73,11 @@ private:  // methods
         core::Codec::gatherStats(v);
 
         float realInternalMissing  = reinterpret_cast<const float&>(minFloatAsInt);
-        float realInternalMissing2 = reinterpret_cast<const float&>(maxFloatAsInt);
-        if (v == realInternalMissing)
+        float realInternalMissing2 = reinterpret_cast<const float&>(real2MissingAsInt);
+        float rounded              = static_cast<float>(v);  // n.b. This is what the short codecs would store
+        if (rounded == realInternalMissing)
             hasShortRealInternalMissing_ = true;
-        if (v == realInternalMissing2)
+        if (rounded == realInternalMissing2)
             hasShortReal2InternalMissing_ = true;
     }
 
-- 
2.43.0


From 5e5b8b31390825da179f6688d4715c44bf3c56b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 12/75] fix: damaged headers and row markers could cause
 out-of-bounds accesses and huge allocations

---
 src/odc/codec/String.h    |  8 +++-----
 src/odc/core/DataStream.h | 40 ++++++++++++++++++++++++++++-----------
 src/odc/core/Header.cc    | 16 ++++++++++++----
 src/odc/core/MetaData.h   |  3 +--
 src/odc/core/Table.cc     |  9 ++++++++-
 5 files changed, 53 insertions(+), 23 deletions(-)

diff --git a/src/odc/codec/String.h b/src/odc/codec/String.h
index 9bf897a..8541fa6 100644
--- a/src/odc/codec/String.h
+++ b/src/odc/codec/String.h
@@ -140,7 +140,7 @@ private:  // methods
         InternalInt i;
         static_cast<core::Codec&>(intCodec_).decode(reinterpret_cast<double*>(&i));
 
-        ASSERT(i < long(this->strings_.size()));
+        ASSERT(i >= 0 && i < long(this->strings_.size()));
         const std::string& s(this->strings_[i]);
 
         ::memset(out, 0, this->decodedSizeDoubles_ * sizeof(double));
@@ -155,9 +155,7 @@ private:  // methods
 
         // Load the table of strings
         // This is based on the old-style hash-table storage, so it isn't a trivial list of strings
-        int32_t numStrings;
-        ds.read(numStrings);
-        ASSERT(numStrings >= 0);
+        int32_t numStrings = ds.readCount(3 * sizeof(int32_t));
 
         this->strings_.resize(numStrings);
 
@@ -174,7 +172,7 @@ private:  // methods
             int32_t index;
             ds.read(index);
 
-            ASSERT(index < numStrings);
+            ASSERT(index >= 0 && index < numStrings);
             this->strings_[index] = s;
 
             if (s.length() != 0) {
diff --git a/src/odc/core/DataStream.h b/src/odc/core/DataStream.h
index a207a62..027afb5 100644
--- a/src/odc/core/DataStream.h
+++ b/src/odc/core/DataStream.h
@@ -80,6 +80,10 @@ public:
     void read(void* addr, size_t bytes);
     void readBytes(void* addr, size_t bytes);  // ReadBytes does no endianness checks
 
+    // Read the number of elements which follow. Each of these occupies at least minElementSize bytes, so the count is
+    // bounded by the amount of data available
+    int32_t readCount(size_t minElementSize = 1);
+
     // Writing
 
     template <typename T>
@@ -103,10 +107,12 @@ public:
         current_ = p;
     }
     void advance(size_t nbytes) {
+        ASSERT(nbytes <= remaining());
         current_ += nbytes;
-        ASSERT(current_ <= end_);
     }
 
+    size_t remaining() const { return end_ - current_; }
+
 private:  // members
 
     bool const_;
@@ -223,12 +229,28 @@ inline void DataStream<ByteOrder>::read(T& elem) {
 }
 
 
+template <typename ByteOrder>
+inline int32_t DataStream<ByteOrder>::readCount(size_t minElementSize) {
+
+    int32_t count;
+    read(count);
+
+    if (count < 0 || size_t(count) > remaining() / minElementSize) {
+        std::stringstream ss;
+        ss << "Attempting to read " << count << " elements from DataStream with only " << remaining()
+           << " bytes remaining";
+        throw ODBEndOfDataStream(ss.str(), Here());
+    }
+
+    return count;
+}
+
+
 template <typename ByteOrder>
 template <typename T>
 inline void DataStream<ByteOrder>::read(std::vector<T>& vec) {
     vec.clear();
-    int32_t count;
-    read(count);
+    int32_t count = readCount();
     vec.resize(count);
     for (auto& elem : vec)
         read(elem);
@@ -239,8 +261,7 @@ template <typename ByteOrder>
 template <typename T, typename S>
 inline void DataStream<ByteOrder>::read(std::map<T, S>& props) {
     props.clear();
-    int32_t count;
-    read(count);
+    int32_t count = readCount();
     for (int32_t i = 0; i < count; i++) {
         T first;
         S second;
@@ -254,8 +275,7 @@ inline void DataStream<ByteOrder>::read(std::map<T, S>& props) {
 template <typename ByteOrder>
 inline void DataStream<ByteOrder>::read(std::string& s) {
 
-    int32_t len;
-    read(len);
+    int32_t len = readCount();
 
     s.resize(len);
     readBytes(&s[0], len);  // n.b. raw read. Bytes are in order.
@@ -274,9 +294,7 @@ inline void DataStream<ByteOrder>::read(void* addr, size_t bytes) {
 template <typename ByteOrder>
 inline void DataStream<ByteOrder>::readBytes(void* addr, size_t bytes) {
 
-    char* newpos = current_ + bytes;
-
-    if (newpos > end_) {
+    if (bytes > remaining()) {
         std::stringstream ss;
         ss << "Attempting to read " << bytes << " bytes from DataStream with only " << (end_ - current_)
            << " bytes remaining";
@@ -284,7 +302,7 @@ inline void DataStream<ByteOrder>::readBytes(void* addr, size_t bytes) {
     }
 
     ::memcpy(addr, current_, bytes);
-    current_ = newpos;
+    current_ += bytes;
 }
 
 
diff --git a/src/odc/core/Header.cc b/src/odc/core/Header.cc
index 2e325cd..28237ac 100644
--- a/src/odc/core/Header.cc
+++ b/src/odc/core/Header.cc
@@ -63,7 +63,8 @@ void Header::load(DataHandle& dh) {
 
     int32_t formatVersionMajor;
     ds1.read(formatVersionMajor);
-    ASSERT("File format version not supported" && formatVersionMajor <= FORMAT_VERSION_NUMBER_MAJOR);
+    ASSERT("File format version not supported" && formatVersionMajor >= 0 &&
+           formatVersionMajor <= FORMAT_VERSION_NUMBER_MAJOR);
 
     int32_t formatVersionMinor;
     ds1.read(formatVersionMinor);
@@ -75,6 +76,7 @@ void Header::load(DataHandle& dh) {
 
     int32_t headerSize;
     ds1.read(headerSize);
+    ASSERT(headerSize >= 0);
 
     // Read the remaining header data
 
@@ -95,6 +97,7 @@ void Header::load(DataHandle& dh) {
     // 0 means we don't know offset of next header.
     int64_t nextFrameOffset;
     ds2.read(nextFrameOffset);
+    ASSERT(nextFrameOffset >= 0);
     dataSize_ = nextFrameOffset;
     md_.dataSize(dataSize_);
 
@@ -107,6 +110,7 @@ void Header::load(DataHandle& dh) {
 
     int64_t numberOfRows;
     ds2.read(numberOfRows);
+    ASSERT(numberOfRows >= 0);
     rowsNumber_ = numberOfRows;
     md_.rowsNumber(rowsNumber_);
 
@@ -127,11 +131,15 @@ void Header::loadAfterMagic(DataHandle& dh) {
         throw ODBIncomplete(dh.title(), Here());
     }
 
-    if (byteOrder_ != BYTE_ORDER_INDICATOR) {
-        load<OtherByteOrder>(dh);
+    if (byteOrder_ == BYTE_ORDER_INDICATOR) {
+        load<SameByteOrder>(dh);
     }
     else {
-        load<SameByteOrder>(dh);
+        auto swapped = byteOrder_;
+        OtherByteOrder::swap(swapped);
+        if (swapped != BYTE_ORDER_INDICATOR)
+            throw ODBInvalid(dh.title(), "Invalid byte order indicator", Here());
+        load<OtherByteOrder>(dh);
     }
 }
 
diff --git a/src/odc/core/MetaData.h b/src/odc/core/MetaData.h
index 428dc0b..7a0e7de 100644
--- a/src/odc/core/MetaData.h
+++ b/src/odc/core/MetaData.h
@@ -148,8 +148,7 @@ void MetaData::load(DataStream<ByteOrder>& ds) {
         delete at(i);
     clear();
 
-    int32_t nCols;
-    ds.read(nCols);
+    int32_t nCols = ds.readCount(3 * sizeof(int32_t));  // n.b. at least name, type, codec name
     resize(nCols, NULL);
     for (size_t i = 0; i < size(); i++) {
         delete at(i);
diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 0871e02..0537b1b 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -159,6 +159,7 @@ void Table::decode(DecodeTarget& target) {
         visitColumn[pos] = true;
         facades[pos]     = &target.dataFacades()[i];
         ASSERT(target.dataFacades()[i].nelem() >= nrows);
+        ASSERT(target.dataFacades()[i].dataSize() >= metadata[pos]->dataSizeDoubles() * sizeof(double));
     }
 
     // Read the data in in bulk for this table
@@ -201,6 +202,7 @@ void Table::decode(DecodeTarget& target) {
         unsigned char marker[2];
         ds.readBytes(&marker, sizeof(marker));
         int startCol = (marker[0] * 256) + marker[1];  // Endian independant
+        ASSERT(startCol <= long(ncols));
 
         if (lastStartCol > startCol) {
             for (int col = startCol; col < lastStartCol; col++) {
@@ -377,11 +379,11 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
             case api::STRING:
                 columnValues[it->second].reset(
                     new StringColumnValues(columnName, sizeof(double) * metadata[it->second]->dataSizeDoubles()));
-                maxDoublesDecode = std::max(maxDoublesDecode, metadata[it->second]->dataSizeDoubles());
                 break;
             default:
                 throw SeriousBug("Unexpected type in decoding column: " + columnName, Here());
         };
+        maxDoublesDecode = std::max(maxDoublesDecode, metadata[it->second]->dataSizeDoubles());
     }
 
     // Read the data in in bulk for this table
@@ -408,6 +410,7 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
         unsigned char marker[2];
         ds.readBytes(&marker, sizeof(marker));
         int startCol = (marker[0] * 256) + marker[1];  // Endian independant
+        ASSERT(startCol <= long(ncols));
 
         for (int col = startCol; col < long(ncols); col++) {
             if (visitColumn[col]) {
@@ -452,6 +455,10 @@ std::unique_ptr<Table> Table::readTable(odc::core::ThreadSharedDataHandle& dh) {
     newTable->nextPosition_  = dh.position() + newTable->dataSize_;
     newTable->byteOrder_     = hdr.byteOrder();
 
+    // Every row occupies at least the two bytes of its marker
+    if (newTable->rowCount() > newTable->dataSize_ / 2)
+        throw ODBInvalid(dh.title(), "More rows than can be contained in the data", Here());
+
     // Check that the ODB hasn't been truncated.
     // n.b. Some DataHandles always return 0 (e.g. on a stream), so leth that pass.
     if (newTable->nextPosition_ > dh.estimate() && dh.estimate() != 0) {
-- 
2.43.0


From b8071d1e2f26ec40a4f845fac972cbcee84a7916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:13 +0000
Subject: [PATCH 13/75] fix: row iterator read stale data of earlier frames,
 and accepted row markers beyond the last column

---
 src/odc/ReaderIterator.cc | 14 +++++++++-----
 src/odc/core/Table.cc     |  7 ++++++-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/odc/ReaderIterator.cc b/src/odc/ReaderIterator.cc
index a4406cd..81f9f03 100644
--- a/src/odc/ReaderIterator.cc
+++ b/src/odc/ReaderIterator.cc
@@ -151,7 +151,7 @@ void ReaderIterator::initRowBuffer() {
     size_t nCols       = columns().size();
 
     delete[] lastValues_;
-    lastValues_ = new double[numDoubles];
+    lastValues_ = new double[numDoubles]();
 
     codecs_.clear();
     codecs_.resize(nCols, 0);
@@ -161,9 +161,10 @@ void ReaderIterator::initRowBuffer() {
 
     size_t offset = 0;
     for (size_t i = 0; i < nCols; i++) {
-        codecs_[i]          = &columns()[i]->coder();
-        lastValues_[offset] = codecs_[i]->missingValue();
-        columnOffsets_[i]   = offset;
+        codecs_[i] = &columns()[i]->coder();
+        if (columns()[i]->type() != api::STRING)
+            lastValues_[offset] = codecs_[i]->missingValue();
+        columnOffsets_[i] = offset;
         offset += columns()[i]->dataSizeDoubles();
     }
 }
@@ -190,7 +191,9 @@ size_t ReaderIterator::readBuffer(size_t dataSize) {
 
     // Assign the data to a DataStream.
 
-    rowDataStream_ = GeneralDataStream(byteOrder_ != BYTE_ORDER_INDICATOR, rowDataBuffer_);
+    // n.b. The buffer may be bigger, and contain old data.
+
+    rowDataStream_ = GeneralDataStream(byteOrder_ != BYTE_ORDER_INDICATOR, rowDataBuffer_.data(), dataSize);
 
     // Assign the appropriate data stream to each of the codecs.
 
@@ -217,6 +220,7 @@ bool ReaderIterator::next() {
     int startCol = (marker[0] * 256) + marker[1];
 
     size_t nCols = columns().size();
+    ASSERT(size_t(startCol) <= nCols);
     for (size_t i = startCol; i < nCols; i++) {
         codecs_[i]->decode(&lastValues_[columnOffsets_[i]]);
     }
diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 0537b1b..7b5229b 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -188,7 +188,12 @@ void Table::decode(DecodeTarget& target) {
 
     for (int col = 0; col < long(ncols); col++) {
         if (visitColumn[col]) {
-            *reinterpret_cast<double*>((*facades[col])[0]) = decoders[col].get().missingValue();
+            if (metadata[col]->type() == api::STRING) {
+                ::memset((*facades[col])[0], 0, metadata[col]->dataSizeDoubles() * sizeof(double));
+            }
+            else {
+                *reinterpret_cast<double*>((*facades[col])[0]) = decoders[col].get().missingValue();
+            }
         }
     }
 
-- 
2.43.0


From 918ba83dda53cb6c3d04633ce0a44f26da7f69c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:09 +0000
Subject: [PATCH 14/75] fix: reconfigured decoders, and decoders with explicit
 sizes, wrote outside or to the wrong place of the data array

---
 src/odc/api/odc.cc | 54 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 37f35e4..df3f2f2 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -12,6 +12,7 @@
 #include <cstdint>
 #include <cstring>
 #include <functional>
+#include <limits>
 #include <numeric>
 
 #include "eckit/exception/Exceptions.h"
@@ -51,8 +52,26 @@ struct odc_decoder_t {
         size_t elemSize;
         size_t stride;
         bool transpose;
+        bool inArray;   // data, stride (and transpose) have been determined from the data array
+        bool autoSize;  // elemSize has been determined from the frame
     };
 
+    // If a decoder which has been used is reconfigured, the layout of the data array must be determined again.
+    void resetArrayLayout() {
+        for (auto& col : columnData) {
+            if (col.inArray) {
+                col.data      = 0;
+                col.stride    = 0;
+                col.transpose = false;
+                col.inArray   = false;
+            }
+            if (col.autoSize) {
+                col.elemSize = 0;
+                col.autoSize = false;
+            }
+        }
+    }
+
     odc_decoder_t() : nrows(0), dataWidth(0), dataHeight(0), externalData(0), columnMajor(false), ownedData() {}
 
     size_t nrows;
@@ -554,6 +573,7 @@ int odc_decoder_defaults_from_frame(odc_decoder_t* decoder, const odc_frame_t* f
 int odc_decoder_set_column_major(odc_decoder_t* decoder, bool columnMajor) {
     return wrapApiFunction([decoder, columnMajor] {
         ASSERT(decoder);
+        decoder->resetArrayLayout();
         decoder->columnMajor = columnMajor;
     });
 }
@@ -561,6 +581,8 @@ int odc_decoder_set_column_major(odc_decoder_t* decoder, bool columnMajor) {
 int odc_decoder_set_row_count(odc_decoder_t* decoder, long nrows) {
     return wrapApiFunction([decoder, nrows] {
         ASSERT(decoder);
+        ASSERT(nrows >= 0);
+        decoder->resetArrayLayout();
         decoder->nrows = nrows;
     });
 }
@@ -579,6 +601,7 @@ int odc_decoder_set_data_array(odc_decoder_t* decoder, void* buffer, long width,
         ASSERT(buffer);
         ASSERT(width > 0);
         ASSERT(height > 0);
+        decoder->resetArrayLayout();
         decoder->externalData = buffer;
         decoder->dataWidth    = width;
         decoder->dataHeight   = height;
@@ -615,8 +638,9 @@ int odc_decoder_add_column(odc_decoder_t* decoder, const char* name) {
     return wrapApiFunction([decoder, name] {
         ASSERT(decoder);
         ASSERT(name);
+        decoder->resetArrayLayout();
         decoder->columnNames.emplace_back(name);
-        decoder->columnData.emplace_back(odc_decoder_t::DecodeColumn{0, 0, 0, false});
+        decoder->columnData.emplace_back(odc_decoder_t::DecodeColumn{0, 0, 0, false, false, false});
     });
 }
 
@@ -633,6 +657,9 @@ int odc_decoder_column_set_data_size(odc_decoder_t* decoder, int col, int elemen
         ASSERT(decoder);
         ASSERT(col >= 0 && size_t(col) < decoder->columnData.size());
 
+        ASSERT(element_size >= 0);
+        decoder->resetArrayLayout();
+
         auto& cd(decoder->columnData[col]);
         cd.elemSize = element_size;
     });
@@ -643,6 +670,10 @@ int odc_decoder_column_set_data_array(odc_decoder_t* decoder, int col, int eleme
         ASSERT(decoder);
         ASSERT(col >= 0 && size_t(col) < decoder->columnData.size());
 
+        ASSERT(element_size >= 0);
+        ASSERT(stride >= 0);
+        decoder->resetArrayLayout();
+
         auto& cd(decoder->columnData[col]);
         cd.elemSize = element_size;
         cd.stride   = stride;
@@ -679,7 +710,7 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
     for (size_t i = 0; i < decoder->columnData.size(); ++i) {
         odc_decoder_t::DecodeColumn& col(decoder->columnData[i]);
 
-        if (col.elemSize == 0) {
+        if (col.elemSize == 0 || (col.autoSize && !col.inArray)) {
             if (col.data) {
                 col.elemSize = sizeof(double);  // backwards compatible default
             }
@@ -691,9 +722,18 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
                 ASSERT(it->decodedSize > 0);
                 ASSERT(it->decodedSize % sizeof(double) == 0);
                 col.elemSize = it->decodedSize;
+                col.autoSize = true;
             }
+        }
+
+        // The columns which have not been supplied with memory are located in the data array
+
+        if (!col.data) {
             width += col.elemSize;
         }
+        else if (col.stride == 0) {
+            col.stride = col.elemSize;
+        }
     }
 
     if (width != 0 && height != 0) {
@@ -707,6 +747,7 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
             height = decoder->dataHeight;
         }
         else {
+            ASSERT(width <= std::numeric_limits<size_t>::max() / height);
             decoder->ownedData.reset(new char[width * height]);
             decoder->dataWidth  = width;
             decoder->dataHeight = height;
@@ -716,7 +757,8 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
         size_t offset = 0;
         for (auto& col : decoder->columnData) {
             if (!col.data) {
-                col.data = static_cast<char*>(dataPtr) + offset;
+                col.data    = static_cast<char*>(dataPtr) + offset;
+                col.inArray = true;
                 if (decoder->columnMajor) {
                     col.stride = col.elemSize;
                     offset += height * col.elemSize;
@@ -728,10 +770,6 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
                     offset += col.elemSize;
                 }
             }
-            else {
-                if (col.stride == 0)
-                    col.stride = col.elemSize;
-            }
         }
     }
 }
@@ -792,7 +830,7 @@ int odc_decode_threaded(odc_decoder_t* decoder, const odc_frame_t* frame, long*
             size_t colIndex        = kv.first;
             const double* tmpArray = kv.second.get();
             double* output         = static_cast<double*>(decoder->columnData[colIndex].data);
-            size_t rows            = decoder->nrows;
+            size_t rows            = decoder->dataHeight;
             size_t cols            = decoder->columnData[colIndex].elemSize / sizeof(double);
             for (size_t row = 0; row < frame_rows; row++) {
                 for (size_t col = 0; col < cols; col++) {
-- 
2.43.0


From f0cd7dd43243b4a5df8b0983db7d4aa8bda5cdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:49 +0000
Subject: [PATCH 15/75] fix: encoders could not be reused, silently dropped
 rows of taller arrays, and read outside mis-sized column-major arrays

---
 src/odc/api/odc.cc | 47 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index df3f2f2..901a12d 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -90,7 +90,13 @@ struct odc_decoder_t {
 struct odc_encoder_t {
 
     odc_encoder_t() :
-        arrayData(0), columnMajorWidth(0), nrows(0), arrayWidth(0), arrayHeight(0), maxRowsPerFrame(10000) {}
+        arrayData(0),
+        columnMajorWidth(0),
+        nrows(0),
+        nrowsFromArray(false),
+        arrayWidth(0),
+        arrayHeight(0),
+        maxRowsPerFrame(10000) {}
 
     struct EncodeColumn {
         const void* data;
@@ -101,6 +107,7 @@ struct odc_encoder_t {
     int columnMajorWidth;
 
     size_t nrows;
+    bool nrowsFromArray;
     size_t arrayWidth;
     size_t arrayHeight;
     size_t maxRowsPerFrame;
@@ -873,7 +880,9 @@ int odc_encoder_add_property(odc_encoder_t* encoder, const char* key, const char
 int odc_encoder_set_row_count(odc_encoder_t* encoder, long nrows) {
     return wrapApiFunction([encoder, nrows] {
         ASSERT(encoder);
-        encoder->nrows = nrows;
+        ASSERT(nrows >= 0);
+        encoder->nrows          = nrows;
+        encoder->nrowsFromArray = false;
     });
 }
 
@@ -899,13 +908,17 @@ int odc_encoder_set_data_array(odc_encoder_t* encoder, const void* data, long wi
             }
         }
 
-        ASSERT(columnMajorWidth % 8 == 0);
+        ASSERT(width >= 0);
+        ASSERT(height >= 0);
+        ASSERT(columnMajorWidth >= 0 && columnMajorWidth % 8 == 0);
         encoder->arrayData        = data;
         encoder->arrayWidth       = width;
         encoder->arrayHeight      = height;
         encoder->columnMajorWidth = columnMajorWidth;
-        if (encoder->nrows == 0)
-            encoder->nrows = height;
+        if (encoder->nrows == 0 || encoder->nrowsFromArray) {
+            encoder->nrows          = height;
+            encoder->nrowsFromArray = true;
+        }
     });
 }
 
@@ -957,7 +970,12 @@ int odc_encoder_column_add_bitfield(odc_encoder_t* encoder, int col, const char*
     });
 }
 
-void fill_in_encoder(odc_encoder_t* encoder, std::vector<std::unique_ptr<char[]>>& transposedData) {
+// n.b. The locations determined here are only valid during one encoding, and so are not stored in the encoder
+
+static std::vector<odc_encoder_t::EncodeColumn> fill_in_encoder(odc_encoder_t* encoder,
+                                                                std::vector<std::unique_ptr<char[]>>& transposedData) {
+
+    std::vector<odc_encoder_t::EncodeColumn> columnData(encoder->columnData);
 
     ASSERT(encoder->nrows > 0);
     ASSERT(encoder->columnData.size() == encoder->columnInfo.size());
@@ -994,8 +1012,8 @@ void fill_in_encoder(odc_encoder_t* encoder, std::vector<std::unique_ptr<char[]>
         //      and split across multiple columns. Need to aggregate it for encoding.
 
         size_t offset = 0;
-        for (size_t i = 0; i < encoder->columnData.size(); ++i) {
-            odc_encoder_t::EncodeColumn& c(encoder->columnData[i]);
+        for (size_t i = 0; i < columnData.size(); ++i) {
+            odc_encoder_t::EncodeColumn& c(columnData[i]);
             const ColumnInfo& info(encoder->columnInfo[i]);
 
             ASSERT(info.decodedSize != 0);
@@ -1006,6 +1024,7 @@ void fill_in_encoder(odc_encoder_t* encoder, std::vector<std::unique_ptr<char[]>
             c.data = static_cast<const char*>(encoder->arrayData) + offset;
 
             if (encoder->columnMajorWidth != 0) {
+                ASSERT(info.decodedSize % encoder->columnMajorWidth == 0);
                 c.stride = info.decodedSize;
                 if (long(info.decodedSize) != encoder->columnMajorWidth) {
                     // Transpose data for contiguous elementsn
@@ -1039,8 +1058,8 @@ void fill_in_encoder(odc_encoder_t* encoder, std::vector<std::unique_ptr<char[]>
 
         // We are constructing the data with a supplied structure per column
 
-        for (size_t i = 0; i < encoder->columnData.size(); ++i) {
-            odc_encoder_t::EncodeColumn& c(encoder->columnData[i]);
+        for (size_t i = 0; i < columnData.size(); ++i) {
+            odc_encoder_t::EncodeColumn& c(columnData[i]);
             const ColumnInfo& info(encoder->columnInfo[i]);
 
             // If no stride is supplied for a column, assume that it is densely packed
@@ -1055,6 +1074,8 @@ void fill_in_encoder(odc_encoder_t* encoder, std::vector<std::unique_ptr<char[]>
             ASSERT(info.decodedSize % sizeof(double) == 0);
         }
     }
+
+    return columnData;
 }
 
 void odc_encode_to_data_handle(odc_encoder_t* encoder, eckit::DataHandle& dh) {
@@ -1066,9 +1087,9 @@ void odc_encode_to_data_handle(odc_encoder_t* encoder, eckit::DataHandle& dh) {
 
     // TransposedData allows column-oriented data to be reordered before encoding if needed.
     std::vector<std::unique_ptr<char[]>> transposedData;
-    fill_in_encoder(encoder, transposedData);
+    std::vector<odc_encoder_t::EncodeColumn> columnData = fill_in_encoder(encoder, transposedData);
 
-    size_t ncolumns = encoder->columnData.size();
+    size_t ncolumns = columnData.size();
     ASSERT(ncolumns > 0);
 
     std::vector<ConstStridedData> stridedData;
@@ -1077,7 +1098,7 @@ void odc_encode_to_data_handle(odc_encoder_t* encoder, eckit::DataHandle& dh) {
 
     for (size_t i = 0; i < ncolumns; i++) {
         const ColumnInfo& info{encoder->columnInfo[i]};
-        const odc_encoder_t::EncodeColumn& c{encoder->columnData[i]};
+        const odc_encoder_t::EncodeColumn& c{columnData[i]};
         stridedData.emplace_back(ConstStridedData{c.data, encoder->nrows, info.decodedSize, c.stride});
     }
 
-- 
2.43.0


From 4502d20360a3d4ba73f7ff27a9ea2c8c79df5733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 16/75] fix: null and out-of-range arguments of the C API
 crashed or were accepted

---
 src/odc/api/odc.cc | 67 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 57 insertions(+), 10 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 901a12d..36459be 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -198,11 +198,18 @@ extern "C" {
 // Types for lookup
 
 int odc_column_type_count(int* count) {
-    return wrapApiFunction([count] { (*count) = NUM_TYPES; });
+    return wrapApiFunction([count] {
+        ASSERT(count);
+        (*count) = NUM_TYPES;
+    });
 }
 
 int odc_column_type_name(int type, const char** type_name) {
-    return wrapApiFunction([type, type_name] { (*type_name) = columnTypeName(static_cast<ColumnType>(type)); });
+    return wrapApiFunction([type, type_name] {
+        ASSERT(type_name);
+        ASSERT(type >= 0 && type < NUM_TYPES);
+        (*type_name) = columnTypeName(static_cast<ColumnType>(type));
+    });
 }
 
 //----------------------------------------------------------------------------------------------------------------------
@@ -280,11 +287,17 @@ int odc_set_missing_double(double missing_double) {
 }
 
 int odc_version(const char** version) {
-    return wrapApiFunction([version] { (*version) = Settings::version().c_str(); });
+    return wrapApiFunction([version] {
+        ASSERT(version);
+        (*version) = Settings::version().c_str();
+    });
 }
 
 int odc_vcs_version(const char** sha1) {
-    return wrapApiFunction([sha1] { (*sha1) = Settings::gitsha1().c_str(); });
+    return wrapApiFunction([sha1] {
+        ASSERT(sha1);
+        (*sha1) = Settings::gitsha1().c_str();
+    });
 }
 
 //----------------------------------------------------------------------------------------------------------------------
@@ -294,12 +307,15 @@ int odc_vcs_version(const char** sha1) {
 int odc_open_path(odc_reader_t** reader, const char* filename) {
     return wrapApiFunction([reader, filename] {
         //        ASSERT(!(*reader));
+        ASSERT(reader);
+        ASSERT(filename);
         (*reader) = new odc_reader_t(PathName(filename).fileHandle());
     });
 }
 
 int odc_open_file_descriptor(odc_reader_t** reader, int fd) {
     return wrapApiFunction([reader, fd] {
+        ASSERT(reader);
         // Take a copy of the file descriptor. This allows us to decouple the life of this
         // from the life of the caller
         int fd2 = dup(fd);
@@ -310,7 +326,12 @@ int odc_open_file_descriptor(odc_reader_t** reader, int fd) {
 }
 
 int odc_open_buffer(odc_reader_t** reader, const void* data, long length) {
-    return wrapApiFunction([reader, data, length] { (*reader) = new odc_reader_t(new MemoryHandle(data, length)); });
+    return wrapApiFunction([reader, data, length] {
+        ASSERT(reader);
+        ASSERT(length >= 0);
+        ASSERT(data || length == 0);
+        (*reader) = new odc_reader_t(new MemoryHandle(data, length));
+    });
 }
 
 int odc_open_stream(odc_reader_t** reader, void* handle, odc_stream_read_t stream_proc) {
@@ -371,8 +392,11 @@ int odc_open_stream(odc_reader_t** reader, void* handle, odc_stream_read_t strea
         bool eof_;
     };
 
-    return wrapApiFunction(
-        [reader, handle, stream_proc] { (*reader) = new odc_reader_t(new ReadStreamDataHandle(handle, stream_proc)); });
+    return wrapApiFunction([reader, handle, stream_proc] {
+        ASSERT(reader);
+        ASSERT(stream_proc);
+        (*reader) = new odc_reader_t(new ReadStreamDataHandle(handle, stream_proc));
+    });
 }
 
 int odc_close(const odc_reader_t* reader) {
@@ -390,6 +414,7 @@ int odc_close(const odc_reader_t* reader) {
 
 int odc_new_frame(odc_frame_t** frame, odc_reader_t* reader) {
     return wrapApiFunction([frame, reader] {
+        ASSERT(frame);
         ASSERT(reader);
         (*frame) = new odc_frame_t{*reader, false, {}, {}};
     });
@@ -449,6 +474,7 @@ int odc_next_frame_aggregated(odc_frame_t* frame, long maximum_rows) {
 int odc_copy_frame(odc_frame_t* source_frame, odc_frame_t** copy) {
     return wrapApiFunction([source_frame, copy] {
         ASSERT(source_frame);
+        ASSERT(copy);
         // n.b. The memoised property iterators refer to the source frame, and must not be copied
         (*copy) = new odc_frame_t{source_frame->reader_, false, {}, source_frame->frame_};
     });
@@ -510,6 +536,7 @@ int odc_frame_bitfield_attributes(const odc_frame_t* frame, int col, int field,
 int odc_frame_properties_count(const odc_frame_t* frame, int* nproperties) {
     return wrapApiFunction([frame, nproperties] {
         ASSERT(frame);
+        ASSERT(nproperties);
 
         (*nproperties) = frame->frame_.properties().size();
     });
@@ -518,6 +545,8 @@ int odc_frame_properties_count(const odc_frame_t* frame, int* nproperties) {
 int odc_frame_property_idx(const odc_frame_t* frame, int idx, const char** key, const char** value) {
     return wrapApiFunction([frame, idx, key, value] {
         ASSERT(frame);
+        ASSERT(key);
+        ASSERT(value);
 
         if (!frame->propertiesMemoised_) {
             const auto& properties(frame->frame_.properties());
@@ -540,6 +569,8 @@ int odc_frame_property_idx(const odc_frame_t* frame, int idx, const char** key,
 int odc_frame_property(const odc_frame_t* frame, const char* key, const char** value) {
     return wrapApiFunction([frame, key, value] {
         ASSERT(frame);
+        ASSERT(key);
+        ASSERT(value);
         const auto& properties(frame->frame_.properties());
 
         auto it = properties.find(key);
@@ -552,7 +583,10 @@ int odc_frame_property(const odc_frame_t* frame, const char* key, const char** v
 /* Decode functionality */
 
 int odc_new_decoder(odc_decoder_t** decoder) {
-    return wrapApiFunction([decoder] { (*decoder) = new odc_decoder_t; });
+    return wrapApiFunction([decoder] {
+        ASSERT(decoder);
+        (*decoder) = new odc_decoder_t;
+    });
 }
 
 int odc_free_decoder(const odc_decoder_t* decoder) {
@@ -863,7 +897,10 @@ int odc_decode(odc_decoder_t* decoder, const odc_frame_t* frame, long* rows_deco
 /* Encode functionality */
 
 int odc_new_encoder(odc_encoder_t** encoder) {
-    return wrapApiFunction([encoder] { (*encoder) = new odc_encoder_t; });
+    return wrapApiFunction([encoder] {
+        ASSERT(encoder);
+        (*encoder) = new odc_encoder_t;
+    });
 }
 
 int odc_free_encoder(const odc_encoder_t* encoder) {
@@ -873,6 +910,8 @@ int odc_free_encoder(const odc_encoder_t* encoder) {
 int odc_encoder_add_property(odc_encoder_t* encoder, const char* key, const char* value) {
     return wrapApiFunction([encoder, key, value] {
         ASSERT(encoder);
+        ASSERT(key);
+        ASSERT(value);
         encoder->properties[key] = value;
     });
 }
@@ -925,6 +964,8 @@ int odc_encoder_set_data_array(odc_encoder_t* encoder, const void* data, long wi
 int odc_encoder_add_column(odc_encoder_t* encoder, const char* name, int type) {
     return wrapApiFunction([encoder, name, type] {
         ASSERT(encoder);
+        ASSERT(name);
+        ASSERT(type > 0 && type < NUM_TYPES);
         encoder->columnInfo.emplace_back(ColumnInfo{std::string(name), ColumnType(type), {}, {}});
         encoder->columnData.emplace_back(odc_encoder_t::EncodeColumn{0, 0});
     });
@@ -965,6 +1006,8 @@ int odc_encoder_column_add_bitfield(odc_encoder_t* encoder, int col, const char*
             offset = ci.bitfield.back().offset + ci.bitfield.back().size;
         }
 
+        ASSERT(name);
+        ASSERT(nbits > 0 && nbits <= 32);
         ASSERT(offset + nbits <= 32);
         ci.bitfield.emplace_back(ColumnInfo::Bit{name, nbits, int(offset)});
     });
@@ -1131,11 +1174,13 @@ int odc_encode_to_stream(odc_encoder_t* encoder, void* handle, odc_stream_write_
     };
 
     return wrapApiFunction([encoder, handle, write_fn, bytes_encoded] {
+        ASSERT(write_fn);
         WriteStreamDataHandle dh(handle, write_fn);
         dh.openForWrite(0);
         AutoClose closer(dh);
         odc_encode_to_data_handle(encoder, dh);
-        (*bytes_encoded) = dh.position();
+        if (bytes_encoded)
+            (*bytes_encoded) = dh.position();
     });
 }
 
@@ -1152,6 +1197,8 @@ int odc_encode_to_file_descriptor(odc_encoder_t* encoder, int fd, long* bytes_en
 
 int odc_encode_to_buffer(odc_encoder_t* encoder, void* buffer, long length, long* bytes_encoded) {
     return wrapApiFunction([encoder, buffer, length, bytes_encoded] {
+        ASSERT(buffer);
+        ASSERT(length >= 0);
         MemoryHandle dh(buffer, length);
         dh.openForWrite(0);
         AutoClose closer(dh);
-- 
2.43.0


From b2cd96645361ee0bad674377d26a85cd904460a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:50 +0000
Subject: [PATCH 17/75] fix: ambiguous short column names decoded another
 column; short names failed in library owned arrays

---
 src/odc/api/odc.cc    | 13 +++++--
 src/odc/core/Table.cc | 84 +++++++++++++++++++++++++------------------
 src/odc/core/Table.h  |  3 ++
 3 files changed, 64 insertions(+), 36 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 36459be..24ff490 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -756,10 +756,19 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
                 col.elemSize = sizeof(double);  // backwards compatible default
             }
             else {
+                // n.b. Columns may be identified by their names without the table, if that is unambiguous
                 const std::string& colName(decoder->columnNames[i]);
-                auto it = std::find_if(frame->frame_.columnInfo().begin(), frame->frame_.columnInfo().end(),
+                const auto& columnInfo(frame->frame_.columnInfo());
+                auto it = std::find_if(columnInfo.begin(), columnInfo.end(),
                                        [&colName](const ColumnInfo& ci) { return ci.name == colName; });
-                ASSERT(it != frame->frame_.columnInfo().end());
+                if (it == columnInfo.end()) {
+                    auto matches = [&colName](const ColumnInfo& ci) {
+                        return ci.name.substr(0, ci.name.find('@')) == colName;
+                    };
+                    it = std::find_if(columnInfo.begin(), columnInfo.end(), matches);
+                    ASSERT(it != columnInfo.end());
+                    ASSERT(std::find_if(it + 1, columnInfo.end(), matches) == columnInfo.end());
+                }
                 ASSERT(it->decodedSize > 0);
                 ASSERT(it->decodedSize % sizeof(double) == 0);
                 col.elemSize = it->decodedSize;
diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 7b5229b..8d74abd 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -12,6 +12,7 @@
 
 #include <bitset>
 #include <functional>
+#include <limits>
 
 #include "eckit/io/AutoCloser.h"
 #include "eckit/io/Buffer.h"
@@ -88,6 +89,9 @@ Buffer Table::readEncodedData(bool includeHeader) {
     }
 }
 
+// Marks the simple column names which are shared by several columns
+static constexpr size_t ambiguousColumn = std::numeric_limits<size_t>::max();
+
 const std::map<std::string, size_t>& Table::columnLookup() {
 
     if (columnLookup_.empty()) {
@@ -95,15 +99,25 @@ const std::map<std::string, size_t>& Table::columnLookup() {
         const MetaData& metadata(columns());
         size_t ncols = metadata.size();
 
+        // n.b. If there are duplicates, every call must fail
+        std::map<std::string, size_t> lookup;
+        std::map<std::string, size_t> simpleLookup;
+
         for (size_t i = 0; i < ncols; i++) {
             const auto& nm(metadata[i]->name());
-            if (!columnLookup_.emplace(nm, i).second) {
+            if (!lookup.emplace(nm, i).second) {
                 std::stringstream ss;
                 ss << "Duplicate column '" << nm << "' " << " found in table";
                 throw ODBDecodeError(ss.str(), Here());
             }
-            simpleColumnLookup_.emplace(nm.substr(0, nm.find('@')), i);
+            // A simple name which could refer to several columns does not identify any of them
+            auto r = simpleLookup.emplace(nm.substr(0, nm.find('@')), i);
+            if (!r.second)
+                r.first->second = ambiguousColumn;
         }
+
+        columnLookup_       = std::move(lookup);
+        simpleColumnLookup_ = std::move(simpleLookup);
     }
 
     return columnLookup_;
@@ -119,15 +133,36 @@ const std::map<std::string, size_t>& Table::simpleColumnLookup() {
 }
 
 
+size_t Table::columnPosition(const std::string& name) {
+
+    const std::map<std::string, size_t>& lookup(columnLookup());
+    auto it = lookup.find(name);
+    if (it != lookup.end())
+        return it->second;
+
+    const std::map<std::string, size_t>& lookupSimple(simpleColumnLookup());
+    auto itSimple = lookupSimple.find(name);
+    if (itSimple == lookupSimple.end()) {
+        std::stringstream ss;
+        ss << "Column '" << name << "' not found in ODB";
+        throw ODBDecodeError(ss.str(), Here());
+    }
+    if (itSimple->second == ambiguousColumn) {
+        std::stringstream ss;
+        ss << "Column name '" << name << "' is ambiguous in ODB";
+        throw ODBDecodeError(ss.str(), Here());
+    }
+
+    return itSimple->second;
+}
+
+
 void Table::decode(DecodeTarget& target) {
 
     const MetaData& metadata(columns());
     size_t nrows = metadata.rowsNumber();
     size_t ncols = metadata.size();
 
-    const std::map<std::string, size_t>& columnLookup(this->columnLookup());
-    const std::map<std::string, size_t>& lookupSimple(simpleColumnLookup());
-
     // Loop over the specified output columns, and select the correct ones for decoding.
 
     std::vector<char> visitColumn(ncols, false);
@@ -140,16 +175,7 @@ void Table::decode(DecodeTarget& target) {
     for (size_t i = 0; i < target.columns().size(); i++) {
 
         const auto& nm(target.columns()[i]);
-        auto it = columnLookup.find(nm);
-        if (it == columnLookup.end())
-            it = lookupSimple.find(nm);
-        if (it == lookupSimple.end()) {
-            std::stringstream ss;
-            ss << "Column '" << nm << "' not found in ODB";
-            throw ODBDecodeError(ss.str(), Here());
-        }
-
-        size_t pos = it->second;
+        size_t pos = columnPosition(nm);
         if (visitColumn[pos]) {
             std::stringstream ss;
             ss << "Duplicated column '" << nm << "' in decode specification";
@@ -340,9 +366,6 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
     size_t nrows = metadata.rowsNumber();
     size_t ncols = metadata.size();
 
-    const std::map<std::string, size_t>& columnLookup = this->columnLookup();
-    const std::map<std::string, size_t>& lookupSimple = simpleColumnLookup();
-
     // Store the unique values
 
     std::vector<std::unique_ptr<ColumnValuesBase>> columnValues(ncols);
@@ -354,41 +377,34 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
 
     for (const std::string& columnName : columns) {
 
-        auto it = columnLookup.find(columnName);
-        if (it == columnLookup.end())
-            it = lookupSimple.find(columnName);
-        if (it == lookupSimple.end()) {
-            std::stringstream ss;
-            ss << "Column '" << columnName << "' not found in ODB";
-            throw ODBDecodeError(ss.str(), Here());
-        }
+        const size_t pos = columnPosition(columnName);
 
-        visitColumn[it->second] = true;
+        visitColumn[pos] = true;
 
         // What do we do with the values?
 
-        switch (metadata[it->second]->type()) {
+        switch (metadata[pos]->type()) {
             case api::BITFIELD:
             case api::INTEGER:
                 if (ODBAPISettings::instance().integersAsDoubles()) {
-                    columnValues[it->second].reset(new IntegerColumnValuesAsDoubles(columnName));
+                    columnValues[pos].reset(new IntegerColumnValuesAsDoubles(columnName));
                 }
                 else {
-                    columnValues[it->second].reset(new IntegerColumnValues(columnName));
+                    columnValues[pos].reset(new IntegerColumnValues(columnName));
                 }
                 break;
             case api::REAL:
             case api::DOUBLE:
-                columnValues[it->second].reset(new DoubleColumnValues(columnName));
+                columnValues[pos].reset(new DoubleColumnValues(columnName));
                 break;
             case api::STRING:
-                columnValues[it->second].reset(
-                    new StringColumnValues(columnName, sizeof(double) * metadata[it->second]->dataSizeDoubles()));
+                columnValues[pos].reset(
+                    new StringColumnValues(columnName, sizeof(double) * metadata[pos]->dataSizeDoubles()));
                 break;
             default:
                 throw SeriousBug("Unexpected type in decoding column: " + columnName, Here());
         };
-        maxDoublesDecode = std::max(maxDoublesDecode, metadata[it->second]->dataSizeDoubles());
+        maxDoublesDecode = std::max(maxDoublesDecode, metadata[pos]->dataSizeDoubles());
     }
 
     // Read the data in in bulk for this table
diff --git a/src/odc/core/Table.h b/src/odc/core/Table.h
index 0213199..6c7129c 100644
--- a/src/odc/core/Table.h
+++ b/src/odc/core/Table.h
@@ -72,6 +72,9 @@ private:  // methods
     const std::map<std::string, size_t>& columnLookup();
     const std::map<std::string, size_t>& simpleColumnLookup();
 
+    /// Index of the column identified by a full name, or by an unambiguous name without the table
+    size_t columnPosition(const std::string& name);
+
 private:  // members
 
     ThreadSharedDataHandle dh_;
-- 
2.43.0


From 6636057e9b112a1387ead64e81a13d9e56d54064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 18/75] fix: strings decoded into wider elements were not
 padded (uninitialised memory in column-major arrays)

---
 src/odc/api/odc.cc    |  2 +-
 src/odc/core/Table.cc | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 24ff490..574e397 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -860,7 +860,7 @@ int odc_decode_threaded(odc_decoder_t* decoder, const odc_frame_t* frame, long*
                 ASSERT(col.elemSize % sizeof(double) == 0);
                 ASSERT(col.stride == col.elemSize);
                 size_t cols = col.elemSize / sizeof(double);
-                temporaryTransposeData.emplace_back(i, std::unique_ptr<double[]>(new double[frame_rows * cols]));
+                temporaryTransposeData.emplace_back(i, std::unique_ptr<double[]>(new double[frame_rows * cols]()));
                 data = temporaryTransposeData.back().second.get();
             }
             dataFacade.emplace_back(
diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 8d74abd..d2c6d98 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -223,6 +223,17 @@ void Table::decode(DecodeTarget& target) {
         }
     }
 
+    // Strings are padded with NULs to the size of the output elements
+
+    std::vector<size_t> padding(ncols, 0);
+    for (size_t col = 0; col < ncols; col++) {
+        if (visitColumn[col] && metadata[col]->type() == api::STRING) {
+            size_t decodedSize = metadata[col]->dataSizeDoubles() * sizeof(double);
+            padding[col]       = facades[col]->dataSize() - decodedSize;
+            ::memset((*facades[col])[0] + decodedSize, 0, padding[col]);
+        }
+    }
+
     // Do the decoding
 
     int lastStartCol = 0;
@@ -245,7 +256,10 @@ void Table::decode(DecodeTarget& target) {
 
         for (int col = startCol; col < long(ncols); col++) {
             if (visitColumn[col]) {
-                decoders[col].get().decode(reinterpret_cast<double*>((*facades[col])[rowCount]));
+                char* out = (*facades[col])[rowCount];
+                decoders[col].get().decode(reinterpret_cast<double*>(out));
+                if (padding[col] != 0)
+                    ::memset(out + facades[col]->dataSize() - padding[col], 0, padding[col]);
                 lastDecoded[col] = rowCount;
             }
             else {
-- 
2.43.0


From a42b50ba9b450d6698db4a81ca50f4b6035d56fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:02 +0000
Subject: [PATCH 19/75] fix: aggregation failed on frames above the row limit,
 ignored the arguments of later calls; decoding with zero threads did nothing

---
 src/odc/api/Odb.cc | 19 +++++++++++++++----
 src/odc/api/Odb.h  |  7 +++++++
 src/odc/api/odc.cc |  8 ++++----
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index 31233ed..592585e 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -94,6 +94,7 @@ public:  // methods
 
     void restart();
     Frame next();
+    Frame next(bool aggregated, long rowlimit);
 
 private:  // members
 
@@ -123,6 +124,10 @@ void ReaderImpl::restart() {
 }
 
 Frame ReaderImpl::next() {
+    return next(aggregated_, rowlimit_);
+}
+
+Frame ReaderImpl::next(bool aggregated, long rowlimit) {
 
     std::vector<core::Table> tables;
 
@@ -139,7 +144,7 @@ Frame ReaderImpl::next() {
     tables.emplace_back(*it_);
     long nrows = tables.back().rowCount();
 
-    if (aggregated_) {
+    if (aggregated) {
         while (true) {
             auto it_next = it_;
             ++it_next;
@@ -147,7 +152,7 @@ Frame ReaderImpl::next() {
                 break;
 
             long next_nrows = nrows + it_next->rowCount();
-            if (rowlimit_ >= 0 && next_nrows > rowlimit_)
+            if (rowlimit >= 0 && next_nrows > rowlimit)
                 break;
             if (!tables.front().columns().compatible(it_next->columns()))
                 break;
@@ -158,7 +163,8 @@ Frame ReaderImpl::next() {
         }
     }
 
-    ASSERT(rowlimit_ < 0 || nrows <= rowlimit_);
+    // n.b. A single frame which exceeds the limit cannot be split
+    ASSERT(rowlimit < 0 || nrows <= rowlimit || tables.size() == 1);
     return Frame(std::unique_ptr<FrameImpl>(new FrameImpl(std::move(tables))));
 }
 
@@ -211,6 +217,11 @@ Frame Reader::next() {
     return impl_->next();
 }
 
+Frame Reader::next(bool aggregated, long rowlimit) {
+    ASSERT(impl_);
+    return impl_->next(aggregated, rowlimit);
+}
+
 //----------------------------------------------------------------------------------------------------------------------
 
 // Shim for decoding
@@ -364,7 +375,7 @@ void FrameImpl::decode(DecoderImpl& target, size_t nthreads) {
         for (core::Table& t : tables_) {
             size_t rows = t.rowCount();
             core::DecodeTarget&& subTarget(target.slice(rowOffset, rows));
-            if (nthreads == 1) {
+            if (nthreads <= 1) {
                 t.decode(subTarget);
             }
             else {
diff --git a/src/odc/api/Odb.h b/src/odc/api/Odb.h
index ae02300..f8e20a0 100644
--- a/src/odc/api/Odb.h
+++ b/src/odc/api/Odb.h
@@ -301,6 +301,13 @@ public:  // methods
      */
     Frame next();
 
+    /** Advances to the next frame in the stream, irrespective of how aggregation was configured for the reader
+     * \param aggregated Whether to aggregate compatible data into a logical frame
+     * \param rowlimit Maximum number of rows to aggregate into one logical frame
+     * \returns Next frame
+     */
+    Frame next(bool aggregated, long rowlimit = -1);
+
 private:  // members
 
     std::unique_ptr<ReaderImpl> impl_;
diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 574e397..313d41c 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -431,13 +431,13 @@ int odc_next_frame(odc_frame_t* frame) {
     return wrapApiFunction(std::function<int()>{[frame] {
         ASSERT(frame);
 
+        const bool aggregated = false;
         odc_reader_t& r(frame->reader_);
         if (!r.impl_) {
-            bool aggregated = false;
             r.impl_.reset(new Reader(*r.dh_, aggregated));
         }
 
-        if ((frame->frame_ = r.impl_->next())) {
+        if ((frame->frame_ = r.impl_->next(aggregated))) {
             frame->propertiesMemoised_ = false;
             frame->propertiesIndex_.clear();
 
@@ -453,13 +453,13 @@ int odc_next_frame_aggregated(odc_frame_t* frame, long maximum_rows) {
     return wrapApiFunction(std::function<int()>{[frame, maximum_rows] {
         ASSERT(frame);
 
+        const bool aggregated = true;
         odc_reader_t& r(frame->reader_);
         if (!r.impl_) {
-            bool aggregated = true;
             r.impl_.reset(new Reader(*r.dh_, aggregated, maximum_rows));
         }
 
-        if ((frame->frame_ = r.impl_->next())) {
+        if ((frame->frame_ = r.impl_->next(aggregated, maximum_rows))) {
             frame->propertiesMemoised_ = false;
             frame->propertiesIndex_.clear();
 
-- 
2.43.0


From bd396cbd031130f29084cdabaf9762e7ddb1ea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:02 +0000
Subject: [PATCH 20/75] fix: shared data handles were queried without holding
 their lock

---
 src/odc/core/ThreadSharedDataHandle.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/odc/core/ThreadSharedDataHandle.cc b/src/odc/core/ThreadSharedDataHandle.cc
index e1d3f38..bc21270 100644
--- a/src/odc/core/ThreadSharedDataHandle.cc
+++ b/src/odc/core/ThreadSharedDataHandle.cc
@@ -115,6 +115,7 @@ void ThreadSharedDataHandle::close() {
 
 eckit::Length ThreadSharedDataHandle::estimate() {
     ASSERT(internal_);
+    std::lock_guard<std::mutex> lock(internal_->m_);
     return internal_->dh_->estimate();
 }
 
@@ -129,6 +130,7 @@ eckit::Offset ThreadSharedDataHandle::seek(const eckit::Offset& position) {
 
 std::string ThreadSharedDataHandle::title() const {
     ASSERT(internal_);
+    std::lock_guard<std::mutex> lock(internal_->m_);
     return internal_->dh_->name();
 }
 
-- 
2.43.0


From 5d9a46a840aec640747a1cf397318ca735a6d1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:36 +0000
Subject: [PATCH 21/75] fix: data race when the first encoders of a process are
 used by several threads at once

---
 src/odc/codec/CodecOptimizer.cc | 41 +++++++++++++++++++--------------
 src/odc/codec/CodecOptimizer.h  |  6 +++--
 2 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/odc/codec/CodecOptimizer.cc b/src/odc/codec/CodecOptimizer.cc
index 96eb9fa..685dfc2 100644
--- a/src/odc/codec/CodecOptimizer.cc
+++ b/src/odc/codec/CodecOptimizer.cc
@@ -24,25 +24,32 @@ namespace codec {
 
 //----------------------------------------------------------------------------------------------------------------------
 
-std::map<api::ColumnType, std::string> CodecOptimizer::defaultCodec_;
+static std::map<api::ColumnType, std::string> loadDefaultCodecs() {
+    std::map<api::ColumnType, std::string> codecs;
+    codecs[api::REAL]     = "short_real2";
+    codecs[api::DOUBLE]   = "long_real";
+    codecs[api::STRING]   = "chars";
+    codecs[api::INTEGER]  = "int32";
+    codecs[api::BITFIELD] = "int32";
+
+    typedef eckit::StringTools S;
+    std::vector<std::string> mappings(S::split(",", eckit::Resource<std::string>("$ODC_DEFAULT_CODEC", "")));
+
+    for (size_t i = 0; i < mappings.size(); ++i) {
+        std::vector<std::string> a(S::split(":", mappings[i]));
+        ASSERT("Wrong format of $ODC_DEFAULT_CODEC" && a.size() == 2);
+        codecs[core::Column::type(S::trim(a[0]))] = S::trim(a[1]);
+    }
+    return codecs;
+}
+
+const std::map<api::ColumnType, std::string>& CodecOptimizer::defaultCodecs() {
+    static const std::map<api::ColumnType, std::string> codecs(loadDefaultCodecs());
+    return codecs;
+}
 
 CodecOptimizer::CodecOptimizer() {
-    if (defaultCodec_.empty()) {
-        defaultCodec_[api::REAL]     = "short_real2";
-        defaultCodec_[api::DOUBLE]   = "long_real";
-        defaultCodec_[api::STRING]   = "chars";
-        defaultCodec_[api::INTEGER]  = "int32";
-        defaultCodec_[api::BITFIELD] = "int32";
-
-        typedef eckit::StringTools S;
-        std::vector<std::string> mappings(S::split(",", eckit::Resource<std::string>("$ODC_DEFAULT_CODEC", "")));
-
-        for (size_t i = 0; i < mappings.size(); ++i) {
-            std::vector<std::string> a(S::split(":", mappings[i]));
-            ASSERT("Wrong format of $ODC_DEFAULT_CODEC" && a.size() == 2);
-            defaultCodec_[core::Column::type(S::trim(a[0]))] = S::trim(a[1]);
-        }
-    }
+    defaultCodecs();
 }
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/odc/codec/CodecOptimizer.h b/src/odc/codec/CodecOptimizer.h
index 647122f..4062d1b 100644
--- a/src/odc/codec/CodecOptimizer.h
+++ b/src/odc/codec/CodecOptimizer.h
@@ -35,7 +35,8 @@ public:
 
 private:
 
-    static std::map<api::ColumnType, std::string> defaultCodec_;
+    // Initialised once, safely with respect to other threads, and not modified afterwards
+    static const std::map<api::ColumnType, std::string>& defaultCodecs();
 };
 
 template <typename ByteOrder>
@@ -50,7 +51,8 @@ int CodecOptimizer::setOptimalCodecs(core::MetaData& columns) {
         double missing  = col.rawMissingValue();
         // LOG << "CodecOptimizer::setOptimalCodecs: " << i << " " << col.name() << ", min=" << min << ", max=" << max
         // << std::endl;
-        std::string codec(defaultCodec_[col.type()]);
+        auto defaultCodec = defaultCodecs().find(col.type());
+        std::string codec(defaultCodec == defaultCodecs().end() ? std::string() : defaultCodec->second);
         switch (col.type()) {
             case api::REAL: {
 
-- 
2.43.0


From 15ea15f69b51098b284185e78069a930d5f47256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:09 +0000
Subject: [PATCH 22/75] fix: missing values of constant integer columns had the
 wrong representation when integers are read as longs

---
 src/odc/codec/Constant.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/odc/codec/Constant.h b/src/odc/codec/Constant.h
index 3c9fd8e..6f8979e 100644
--- a/src/odc/codec/Constant.h
+++ b/src/odc/codec/Constant.h
@@ -41,6 +41,8 @@ public:  // methods
 
 private:  // methods
 
+    double missingValue() const override;
+
     void gatherStats(const double& v) override;
     unsigned char* encode(unsigned char* p, const double& d) override;
     void decode(double* out) override;
@@ -108,6 +110,16 @@ void CodecConstant<ByteOrder, ValueType>::gatherStats(const double& v) {
     core::Codec::gatherStats(val);
 }
 
+template <typename ByteOrder, typename ValueType>
+double CodecConstant<ByteOrder, ValueType>::missingValue() const {
+    // As for the other codecs, this has the representation of the decoded data
+    static_assert(sizeof(ValueType) == sizeof(double), "unsafe casting check");
+    const ValueType casted = static_cast<ValueType>(this->missingValue_);
+    double punned;
+    ::memcpy(&punned, &casted, sizeof(punned));
+    return punned;
+}
+
 template <typename ByteOrder, typename ValueType>
 unsigned char* CodecConstant<ByteOrder, ValueType>::encode(unsigned char* p, const double&) {
     return p;
-- 
2.43.0


From fd8dce1bb3bbe8a2aa5a9ed64c6958ca23a8a0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 23/75] fix: invalid column types, bitfield sizes and missing
 flags in a file header led to undefined behaviour or endless loops

---
 src/odc/core/Codec.h  |  1 +
 src/odc/core/Column.h | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/odc/core/Codec.h b/src/odc/core/Codec.h
index 16b3fa5..cef5755 100644
--- a/src/odc/core/Codec.h
+++ b/src/odc/core/Codec.h
@@ -148,6 +148,7 @@ protected:  // methods
     void load(DataStream<ByteOrder>& ds) override {
         // n.b. name read by the CodecFactory.
         ds.read(hasMissing_);
+        hasMissing_ = (hasMissing_ != 0);
         ds.read(min_);
         ds.read(max_);
         ds.read(missingValue_);
diff --git a/src/odc/core/Column.h b/src/odc/core/Column.h
index 2312dda..b530def 100644
--- a/src/odc/core/Column.h
+++ b/src/odc/core/Column.h
@@ -17,6 +17,7 @@
 #include "eckit/sql/SQLTypedefs.h"
 #include "odc/api/ColumnType.h"
 #include "odc/core/Codec.h"
+#include "odc/core/Exceptions.h"
 
 namespace eckit {
 class DataHandle;
@@ -131,6 +132,10 @@ template <typename ByteOrder>
 void Column::load(DataStream<ByteOrder>& ds) {
     ds.read(name_);
     ds.read(type_);
+    if (type_ < api::IGNORE || type_ > api::DOUBLE) {
+        throw ODBInvalid("column '" + name_ + "'", "unknown column type " + std::to_string(type_), Here());
+    }
+
     if (type_ == api::BITFIELD) {
         eckit::sql::FieldNames& names(bitfieldDef_.first);
         eckit::sql::Sizes& sizes(bitfieldDef_.second);
@@ -146,6 +151,11 @@ void Column::load(DataStream<ByteOrder>& ds) {
         ds.read(names);
         ds.read(sizes);
         ASSERT(names.size() == sizes.size());
+        for (int32_t size : sizes) {
+            if (size < 0 || size > 64) {
+                throw ODBInvalid("column '" + name_ + "'", "invalid bitfield size " + std::to_string(size), Here());
+            }
+        }
     }
 
     coder_ = CodecFactory::instance().load(ds, api::ColumnType(type_));
-- 
2.43.0


From c65531d25f31922e424f802c36d35f5288232daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 24/75] fix: undefined conversions of out of range doubles
 found in the header of corrupt files

---
 src/odc/codec/Constant.h       |  6 +++---
 src/odc/codec/Integer.h        |  8 ++++----
 src/odc/codec/IntegerMissing.h |  3 ++-
 src/odc/core/Codec.h           | 24 ++++++++++++++++++++++++
 4 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/odc/codec/Constant.h b/src/odc/codec/Constant.h
index 6f8979e..d76511b 100644
--- a/src/odc/codec/Constant.h
+++ b/src/odc/codec/Constant.h
@@ -114,7 +114,7 @@ template <typename ByteOrder, typename ValueType>
 double CodecConstant<ByteOrder, ValueType>::missingValue() const {
     // As for the other codecs, this has the representation of the decoded data
     static_assert(sizeof(ValueType) == sizeof(double), "unsafe casting check");
-    const ValueType casted = static_cast<ValueType>(this->missingValue_);
+    const ValueType casted = core::valueFromDouble<ValueType>(this->missingValue_);
     double punned;
     ::memcpy(&punned, &casted, sizeof(punned));
     return punned;
@@ -128,7 +128,7 @@ unsigned char* CodecConstant<ByteOrder, ValueType>::encode(unsigned char* p, con
 template <typename ByteOrder, typename ValueType>
 void CodecConstant<ByteOrder, ValueType>::decode(double* out) {
     static_assert(sizeof(ValueType) == sizeof(double), "unsafe casting check");
-    *reinterpret_cast<ValueType*>(out) = static_cast<ValueType>(this->min_);
+    *reinterpret_cast<ValueType*>(out) = core::valueFromDouble<ValueType>(this->min_);
 }
 
 template <typename ByteOrder, typename ValueType>
@@ -136,7 +136,7 @@ void CodecConstant<ByteOrder, ValueType>::skip() {}
 
 template <typename ByteOrder, typename ValueType>
 void CodecConstant<ByteOrder, ValueType>::print(std::ostream& s) const {
-    s << this->name_ << ", value=" << std::fixed << static_cast<ValueType>(this->min_)
+    s << this->name_ << ", value=" << std::fixed << core::valueFromDouble<ValueType>(this->min_)
       << ", hasMissing=" << (this->hasMissing_ ? "true" : "false");
     if (this->hasMissing_) {
         s << ", missingValue=" << this->missingValue_;
diff --git a/src/odc/codec/Integer.h b/src/odc/codec/Integer.h
index 066c303..b69514e 100644
--- a/src/odc/codec/Integer.h
+++ b/src/odc/codec/Integer.h
@@ -43,7 +43,7 @@ public:  // definitions
 public:  // methods
 
     BaseCodecInteger(api::ColumnType type, const std::string& name, double minmaxmissing = odc::MDI::integerMDI()) :
-        core::DataStreamCodec<ByteOrder>(name, type), castedMissingValue_(static_cast<ValueType>(minmaxmissing)) {
+        core::DataStreamCodec<ByteOrder>(name, type), castedMissingValue_(core::valueFromDouble<ValueType>(minmaxmissing)) {
 
         this->min_          = minmaxmissing;
         this->max_          = minmaxmissing;
@@ -56,7 +56,7 @@ private:  // methods
 
     void missingValue(double v) override {
         core::Codec::missingValue(v);
-        castedMissingValue_ = static_cast<ValueType>(this->missingValue_);
+        castedMissingValue_ = core::valueFromDouble<ValueType>(this->missingValue_);
     }
 
     double missingValue() const override {
@@ -67,7 +67,7 @@ private:  // methods
 
     void load(odc::core::DataStream<ByteOrder>& ds) override {
         core::DataStreamCodec<ByteOrder>::load(ds);
-        castedMissingValue_ = static_cast<ValueType>(this->missingValue_);
+        castedMissingValue_ = core::valueFromDouble<ValueType>(this->missingValue_);
     }
 
     void gatherStats(const double& v) override {
@@ -130,7 +130,7 @@ private:  // methods
         ValueType* val_out = reinterpret_cast<ValueType*>(out);
         InternalValueType s;
         this->ds().read(s);
-        (*val_out) = s + this->min_;
+        (*val_out) = core::valueFromDouble<ValueType>(s + this->min_);
     }
 
     void skip() override { this->ds().advance(sizeof(InternalValueType)); }
diff --git a/src/odc/codec/IntegerMissing.h b/src/odc/codec/IntegerMissing.h
index b6312d1..9df276c 100644
--- a/src/odc/codec/IntegerMissing.h
+++ b/src/odc/codec/IntegerMissing.h
@@ -58,7 +58,8 @@ private:  // methods
         ValueType* val_out = reinterpret_cast<ValueType*>(out);
         InternalValueType s;
         this->ds().read(s);
-        (*val_out) = (s == DerivedCodec::missingMarker ? this->missingValue_ : (s + this->min_));
+        (*val_out) =
+            core::valueFromDouble<ValueType>(s == DerivedCodec::missingMarker ? this->missingValue_ : (s + this->min_));
     }
 
     void skip() override { this->ds().advance(sizeof(InternalValueType)); }
diff --git a/src/odc/core/Codec.h b/src/odc/core/Codec.h
index cef5755..48f4a02 100644
--- a/src/odc/core/Codec.h
+++ b/src/odc/core/Codec.h
@@ -30,6 +30,30 @@ namespace core {
 
 //----------------------------------------------------------------------------------------------------------------------
 
+/// Convert a value stored as a double into the type the data is decoded into. The values found in (corrupt) files need
+/// not be representable as an integer, in which case a plain cast is undefined behaviour: out of range values saturate,
+/// and NaN is converted to zero.
+
+template <typename ValueType>
+inline ValueType valueFromDouble(double v) {
+    if constexpr (std::is_integral<ValueType>::value) {
+        constexpr double limit = 9223372036854775808.0;  // 2^63
+        static_assert(std::is_same<ValueType, int64_t>::value, "Only int64_t is supported");
+        if (v != v) {
+            return 0;
+        }
+        if (v >= limit) {
+            return std::numeric_limits<ValueType>::max();
+        }
+        if (v < -limit) {
+            return std::numeric_limits<ValueType>::min();
+        }
+    }
+    return static_cast<ValueType>(v);
+}
+
+//----------------------------------------------------------------------------------------------------------------------
+
 
 class Codec {
 public:
-- 
2.43.0


From 2cf691ce843f6c2c28cd42666b4282edc48d9c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 25/75] fix: stack use after scope when an exception is thrown
 whilst decoding with multiple threads

---
 src/odc/api/Odb.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index 592585e..5a651fe 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -386,9 +386,12 @@ void FrameImpl::decode(DecoderImpl& target, size_t nthreads) {
 
         if (nthreads > 1) {
             std::mutex guard_mutex;
-            std::vector<std::future<void>> threads;
             size_t next_frame = 0;
 
+            // n.b. If an exception is thrown, the destruction of this joins the threads. So it must be destroyed before
+            //      any of the variables that the threads make use of.
+            std::vector<std::future<void>> threads;
+
             for (size_t i = 0; i < nthreads; i++) {
                 threads.emplace_back(std::async(std::launch::async, [&] {
                     while (true) {
-- 
2.43.0


From a456ff73c401bf683762988181f7826745680939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:43 +0000
Subject: [PATCH 26/75] fix: heap overflow in the set tool when the data
 contains strings of more than 8 characters

---
 src/odc/ODAUpdatingIterator.cc | 43 +++++++++++++++++++++++++++-------
 src/odc/ODAUpdatingIterator.h  |  5 +++-
 2 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/odc/ODAUpdatingIterator.cc b/src/odc/ODAUpdatingIterator.cc
index 4b39e38..345a818 100644
--- a/src/odc/ODAUpdatingIterator.cc
+++ b/src/odc/ODAUpdatingIterator.cc
@@ -23,15 +23,17 @@ ODAUpdatingIterator<T>::ODAUpdatingIterator(T& ii, const T& end, const std::vect
     ii_(ii),
     end_(end),
     columns_(columns),
-    columnIndices_(columns.size()),
+    columnOffsets_(columns.size()),
+    columnNumDoubles_(columns.size()),
     values_(values),
+    rowDataSizeDoubles_(0),
     data_(0),
     refCount_(0),
     noMore_(false) {
     ASSERT(columns.size() == values.size());
 
     updateIndices();
-    std::copy(ii_->data(), ii_->data() + ii_->columns().size(), data_);
+    std::copy(ii_->data(), ii_->data() + rowDataSizeDoubles_, data_);
     update();
 }
 
@@ -39,16 +41,36 @@ template <typename T>
 void ODAUpdatingIterator<T>::updateIndices() {
     const core::MetaData& md(ii_->columns());
 
+    // n.b. Strings may be wider than a double, so the offset of a column in the row is not the index of the column.
+    rowDataSizeDoubles_ = 0;
+    std::vector<size_t> offsets;
+    for (size_t i = 0; i < md.size(); ++i) {
+        offsets.push_back(rowDataSizeDoubles_);
+        rowDataSizeDoubles_ += md[i]->dataSizeDoubles();
+    }
+
     delete[] data_;
-    data_ = new double[md.size()];
+    data_ = 0;
+    data_ = new double[rowDataSizeDoubles_];
 
-    for (size_t i = 0; i < columns_.size(); ++i)
-        columnIndices_[i] = md.columnIndex(columns_[i]);
+    for (size_t i = 0; i < columns_.size(); ++i) {
+        const size_t index   = md.columnIndex(columns_[i]);
+        columnOffsets_[i]    = offsets[index];
+        columnNumDoubles_[i] = md[index]->dataSizeDoubles();
+    }
 }
 
 template <typename T>
 ODAUpdatingIterator<T>::ODAUpdatingIterator(const T& end) :
-    ii_(end), end_(end), columnIndices_(), values_(), data_(0), refCount_(0), noMore_(true) {}
+    ii_(end),
+    end_(end),
+    columnOffsets_(),
+    columnNumDoubles_(),
+    values_(),
+    rowDataSizeDoubles_(0),
+    data_(0),
+    refCount_(0),
+    noMore_(true) {}
 
 template <typename T>
 ODAUpdatingIterator<T>::~ODAUpdatingIterator() {
@@ -57,8 +79,11 @@ ODAUpdatingIterator<T>::~ODAUpdatingIterator() {
 
 template <typename T>
 void ODAUpdatingIterator<T>::update() {
-    for (size_t i = 0; i < columnIndices_.size(); ++i)
-        data_[columnIndices_[i]] = values_[i];
+    for (size_t i = 0; i < columnOffsets_.size(); ++i) {
+        double* p = data_ + columnOffsets_[i];
+        std::fill(p, p + columnNumDoubles_[i], 0);
+        *p = values_[i];
+    }
 }
 
 template <typename T>
@@ -76,7 +101,7 @@ bool ODAUpdatingIterator<T>::next() {
         if (ii_->isNewDataset())
             updateIndices();
 
-        std::copy(ii_->data(), ii_->data() + ii_->columns().size(), data_);
+        std::copy(ii_->data(), ii_->data() + rowDataSizeDoubles_, data_);
         update();
     }
     noMore_ = !r;
diff --git a/src/odc/ODAUpdatingIterator.h b/src/odc/ODAUpdatingIterator.h
index 901d57c..d82ee59 100644
--- a/src/odc/ODAUpdatingIterator.h
+++ b/src/odc/ODAUpdatingIterator.h
@@ -64,9 +64,12 @@ private:
     const T& end_;
 
     std::vector<std::string> columns_;
-    std::vector<size_t> columnIndices_;
+    std::vector<size_t> columnOffsets_;
+    std::vector<size_t> columnNumDoubles_;
     const std::vector<double> values_;
 
+    size_t rowDataSizeDoubles_;
+
     double* data_;
 
 public:
-- 
2.43.0


From 085ccaa78fb1d1a467c8e041d82d6ef277630417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:33 +0000
Subject: [PATCH 27/75] fix: the row writer lost the missing value markers of
 columns after each flush, when copying and when the schema changes

---
 src/odc/WriterBufferingIterator.cc | 26 ++++++++++++++++++++++++++
 src/odc/WriterBufferingIterator.h  |  5 ++++-
 src/odc/core/Column.h              |  5 ++++-
 3 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index eb0e8e4..6333e3f 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -213,6 +213,23 @@ int WriterBufferingIterator::writeRow(const double* data, unsigned long nCols) {
     return 0;
 }
 
+bool WriterBufferingIterator::encodesSameData(const core::MetaData& md) const {
+
+    if (md != columns_)
+        return false;
+
+    for (size_t i = 0; i < md.size(); ++i) {
+        const Column& in  = *md[i];
+        const Column& out = *columns_[i];
+        if (in.type() == api::BITFIELD && in.bitfieldDef() != out.bitfieldDef())
+            return false;
+        if (in.type() != api::STRING && in.rawMissingValue() != out.rawMissingValue())
+            return false;
+    }
+
+    return true;
+}
+
 size_t WriterBufferingIterator::rowDataSizeDoublesInternal() const {
 
     size_t total = 0;
@@ -324,6 +341,15 @@ void WriterBufferingIterator::flush() {
     Buffer encodedBuffer(rowsBuffer_.size() + (sizeof(uint16_t) * rowsBufferSize_));
     core::DataStream<core::SameByteOrder> encodedStream(encodedBuffer);
 
+    // Unchanged values in the first row are relative to the missing values stored in the header, which may have been
+    // modified since the buffers were allocated.
+
+    if (lastValues_ == 0)
+        allocBuffers();
+    for (size_t i = 0; i < columns().size(); ++i) {
+        lastValues_[columnOffsets_[i]] = columns_[i]->missingValue();
+    }
+
     // Iterate over stored rows, and re-encode them into the encodedBuffer
 
     size_t rowsWritten = 0;
diff --git a/src/odc/WriterBufferingIterator.h b/src/odc/WriterBufferingIterator.h
index 51d12e3..25b64bf 100644
--- a/src/odc/WriterBufferingIterator.h
+++ b/src/odc/WriterBufferingIterator.h
@@ -145,6 +145,9 @@ private:
     template <typename T>
     void pass1init(T&, const T&);
 
+    /// Can rows with the given metadata be written to the current frame without losing any information?
+    bool encodesSameData(const core::MetaData& md) const;
+
     std::pair<eckit::Buffer, size_t> serializeHeader(size_t dataSize, size_t rowsNumber);
 
     void allocBuffers();
@@ -199,7 +202,7 @@ unsigned long WriterBufferingIterator::pass1(T& it, const T& end) {
 
     unsigned long nrows = 0;
     for (; it != end; ++it, ++nrows) {
-        if (it->isNewDataset() && it->columns() != columns()) {
+        if (it->isNewDataset() && !encodesSameData(it->columns())) {
             LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::pass1: Change of input metadata." << std::endl;
             flush();
             pass1init(it, end);
diff --git a/src/odc/core/Column.h b/src/odc/core/Column.h
index b530def..67e43e9 100644
--- a/src/odc/core/Column.h
+++ b/src/odc/core/Column.h
@@ -222,9 +222,12 @@ void Column::type(api::ColumnType t) {
 
 template <typename ByteOrder>
 void Column::resetCodec() {
-    int ds = dataSizeDoubles();  // Preserve byte size (part of type information)
+    int ds         = dataSizeDoubles();  // Preserve byte size (part of type information)
+    double missing = rawMissingValue();  // and the value which represents missing data
     type<ByteOrder>(static_cast<api::ColumnType>(type_));
     dataSizeDoubles(ds);
+    if (type_ != api::STRING)
+        missingValue(missing);
 }
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From f39b07251ef9c220fe900c183aa5351e88d74981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:30 +0000
Subject: [PATCH 28/75] fix: sorted split lost the data of a file starting with
 a very large frame

---
 src/odc/tools/SplitTool.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/odc/tools/SplitTool.cc b/src/odc/tools/SplitTool.cc
index 9c9692a..245f528 100644
--- a/src/odc/tools/SplitTool.cc
+++ b/src/odc/tools/SplitTool.cc
@@ -84,15 +84,16 @@ vector<pair<Offset, Length> > SplitTool::getChunks(const PathName& inFile, size_
         LOG_DEBUG_LIB(LibOdc) << "SplitTool::getChunks: " << offset << " " << length << endl;
 
         size_t size(numberOfRows * numberOfColumns * sizeof(double));
-        if (currentSize + size > maxExpandedSize) {
+        if (currentLength != Length(0) && currentSize + size > maxExpandedSize) {
             LOG_DEBUG_LIB(LibOdc) << "SplitTool::getChunks: collect " << currentOffset << " " << currentLength << endl;
             r.push_back(make_pair(currentOffset, currentLength));
             currentOffset = offset;
             currentLength = length;
+            currentSize   = size;
         }
         else {
             currentLength += length;
-            currentSize += numberOfRows * numberOfColumns * sizeof(double);
+            currentSize += size;
         }
     }
     if (r.size() == 0 || r.back().first != currentOffset)
-- 
2.43.0


From 10c80aa730418fac4730cd37cbf591f95b6970de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:30 +0000
Subject: [PATCH 29/75] fix: split truncated string keys, lost data when
 several keys give the same file name, and mixed up rows with wide strings or
 changing schemas

---
 src/odc/WriterBufferingIterator.cc   |  17 ---
 src/odc/WriterBufferingIterator.h    |   5 +-
 src/odc/WriterDispatchingIterator.cc | 153 ++++++++++++++++++---------
 src/odc/WriterDispatchingIterator.h  |   5 +-
 src/odc/core/MetaData.cc             |  17 +++
 src/odc/core/MetaData.h              |   4 +
 6 files changed, 126 insertions(+), 75 deletions(-)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index 6333e3f..776375d 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -213,23 +213,6 @@ int WriterBufferingIterator::writeRow(const double* data, unsigned long nCols) {
     return 0;
 }
 
-bool WriterBufferingIterator::encodesSameData(const core::MetaData& md) const {
-
-    if (md != columns_)
-        return false;
-
-    for (size_t i = 0; i < md.size(); ++i) {
-        const Column& in  = *md[i];
-        const Column& out = *columns_[i];
-        if (in.type() == api::BITFIELD && in.bitfieldDef() != out.bitfieldDef())
-            return false;
-        if (in.type() != api::STRING && in.rawMissingValue() != out.rawMissingValue())
-            return false;
-    }
-
-    return true;
-}
-
 size_t WriterBufferingIterator::rowDataSizeDoublesInternal() const {
 
     size_t total = 0;
diff --git a/src/odc/WriterBufferingIterator.h b/src/odc/WriterBufferingIterator.h
index 25b64bf..dd958b0 100644
--- a/src/odc/WriterBufferingIterator.h
+++ b/src/odc/WriterBufferingIterator.h
@@ -145,9 +145,6 @@ private:
     template <typename T>
     void pass1init(T&, const T&);
 
-    /// Can rows with the given metadata be written to the current frame without losing any information?
-    bool encodesSameData(const core::MetaData& md) const;
-
     std::pair<eckit::Buffer, size_t> serializeHeader(size_t dataSize, size_t rowsNumber);
 
     void allocBuffers();
@@ -202,7 +199,7 @@ unsigned long WriterBufferingIterator::pass1(T& it, const T& end) {
 
     unsigned long nrows = 0;
     for (; it != end; ++it, ++nrows) {
-        if (it->isNewDataset() && !encodesSameData(it->columns())) {
+        if (it->isNewDataset() && !columns().encodesSameData(it->columns())) {
             LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::pass1: Change of input metadata." << std::endl;
             flush();
             pass1init(it, end);
diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index db163f4..d1eee01 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -14,6 +14,7 @@
 
 #include "odc/Comparator.h"
 #include "odc/LibOdc.h"
+#include "odc/ODBAPISettings.h"
 #include "odc/Reader.h"
 #include "odc/WriterDispatchingIterator.h"
 
@@ -45,7 +46,6 @@ WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::WriterDispatchingIterator(OWNE
     append_(append),
     refCount_(0),
     iterators_(),
-    files_(),
     templateParameters_(),
     maxOpenFiles_(maxOpenFiles),
     filesCreated_() {}
@@ -89,14 +89,14 @@ std::string WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::generateFileName(c
     // function is declared in an annonymos workspace the declaration is marked as unneeded and emits
     // a warning.
     //      TODO: Put somewhere better.
-    static const auto trimStringInDouble = [](char*& p, size_t& len) {
+    static const auto trimStringInDouble = [](const char*& p, size_t maxLen, size_t& len) {
         len = 0;
-        for (; len < sizeof(double) && isprint(p[len]); ++len)
+        for (; len < maxLen && isprint(p[len]); ++len)
             ;
         for (; len > 0 && isspace(p[len - 1]); --len)
             ;
         size_t plen = len;
-        for (char* pp = p; isspace(*p) && p < pp + plen;) {
+        for (const char* pp = p; p < pp + plen && isspace(*p);) {
             ++p;
             --len;
         }
@@ -109,23 +109,27 @@ std::string WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::generateFileName(c
         // TODO: if values collected can be of different type then integer,
         // then below code must be updated:
         // code updated for std::string [19/07/2011] AF
-        double d(values[p.columnIndex]);
+        const Column& column(*columns_[p.columnIndex]);
+        const double* d(&values[inputOffsets_[p.columnIndex]]);
         std::string s;
-        if (columns_[p.columnIndex]->type() == api::STRING) {
-            char* sp(reinterpret_cast<char*>(&d));
+        if (column.type() == api::STRING) {
+            const char* sp(reinterpret_cast<const char*>(d));
             size_t len(0);
-            trimStringInDouble(sp, len);
+            trimStringInDouble(sp, column.dataSizeDoubles() * sizeof(double), len);
             s = std::string(sp, len);
             while (s.find("/") != std::string::npos) {
-                std::string old(s);
                 size_t pos(s.find("/"));
-                s.replace(pos, pos + 1, std::string("__SLASH__"));
-                // eckit::Log::info() << "WriterDispatchingIterator::generateFileName: '" << old << "' => '" << s << "'"
-                // << std::endl;
+                s.replace(pos, 1, std::string("__SLASH__"));
             }
         }
+        else if (!ODBAPISettings::instance().integersAsDoubles() &&
+                 (column.type() == api::INTEGER || column.type() == api::BITFIELD)) {
+            int64_t n;
+            ::memcpy(&n, d, sizeof(n));
+            s = std::to_string(n);
+        }
         else {
-            s = eckit::Translator<int, std::string>()(int(d));
+            s = std::to_string(valueFromDouble<int64_t>(*d));
         }
 
         fileName.replace(p.startPos - diff, p.endPos - p.startPos + 1, s);
@@ -144,11 +148,21 @@ WRITE_ITERATOR& WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::dispatch(const
 template <typename WRITE_ITERATOR, typename OWNER>
 int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::dispatchIndex(const double* values, unsigned long count) {
     Values dispatchedValues;
-    for (size_t i(0); i < dispatchedIndexes_.size(); ++i)
-        dispatchedValues.push_back(values[dispatchedIndexes_[i]]);
+    for (size_t i(0); i < dispatchedIndexes_.size(); ++i) {
+        // n.b. Compare the representation of the values, as they may hold strings or integers
+        const size_t n = columns_[dispatchedIndexes_[i]]->dataSizeDoubles();
+        const double* d(&values[inputOffsets_[dispatchedIndexes_[i]]]);
+        for (size_t j(0); j < n; ++j) {
+            uint64_t bits;
+            ::memcpy(&bits, d + j, sizeof(bits));
+            dispatchedValues.push_back(bits);
+        }
+    }
 
-    if (dispatchedValues == lastDispatchedValues_)
+    if (dispatchedValues == lastDispatchedValues_) {
+        lastDispatch_[lastIndex_] = nrows_;
         return lastIndex_;
+    }
 
     Values2IteratorIndex::iterator p(values2iteratorIndex_.find(dispatchedValues));
     size_t iteratorIndex((p != values2iteratorIndex_.end())
@@ -164,6 +178,14 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::dispatchIndex(const double
 template <typename WRITE_ITERATOR, typename OWNER>
 int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Values& dispatchedValues,
                                                                      const std::string& fileName) {
+    // Different values may result in the same file name
+    for (size_t i(0); i < iterators_.size(); ++i) {
+        if (iteratorIndex2fileName_[i] == fileName) {
+            values2iteratorIndex_[dispatchedValues] = i;
+            return i;
+        }
+    }
+
     int iteratorIndex(iterators_.size());
     if (iterators_.size() >= maxOpenFiles_) {
         ASSERT(iterators_.size());
@@ -186,14 +208,16 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Value
         iterators_[iteratorIndex] = 0;
 
         Values2IteratorIndex::iterator vit(values2iteratorIndex_.begin());
-        for (; vit != values2iteratorIndex_.end(); ++vit)
+        while (vit != values2iteratorIndex_.end()) {
             if (vit->second == iteratorIndex)
-                break;
-        values2iteratorIndex_.erase(vit);
+                vit = values2iteratorIndex_.erase(vit);
+            else
+                ++vit;
+        }
     }
 
     std::string operation;
-    // bool append = false;
+    bool append = append_;
     if (append_ || !eckit::PathName(fileName).exists()) {
         filesCreated_[fileName] = 1;
         operation               = "creating";
@@ -204,7 +228,7 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Value
             operation               = "overwriting";
         }
         else {
-            append_ = true;
+            append = true;
             filesCreated_[fileName]++;
             operation = "appending";
         }
@@ -213,13 +237,10 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Value
     LOG_DEBUG_LIB(LibOdc) << iteratorIndex << ": " << operation << " '" << fileName << "'" << std::endl;
 
     if (iteratorIndex == iterators_.size()) {
-        iterators_.push_back(iteratorsOwner_.createWriteIterator(fileName, append_));
-        files_.push_back(fileName);
+        iterators_.push_back(iteratorsOwner_.createWriteIterator(fileName, append));
     }
     else {
-        iterators_[iteratorIndex] = iteratorsOwner_.createWriteIterator(fileName, append_);
-        files_[iteratorIndex]     = fileName;
-        // ASSERT(files_[iteratorIndex] == fileName);
+        iterators_[iteratorIndex] = iteratorsOwner_.createWriteIterator(fileName, append);
     }
     values2iteratorIndex_[dispatchedValues] = iteratorIndex;
     iteratorIndex2fileName_[iteratorIndex]  = fileName;
@@ -265,19 +286,22 @@ void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::writeHeader() {
     int32_t numDoubles = rowDataSizeDoubles();
     int32_t count      = columns().size();
 
-    lastValues_    = new double[numDoubles];
-    nextRow_       = new double[numDoubles];
+    lastValues_    = new double[numDoubles]();
+    nextRow_       = new double[numDoubles]();
     columnOffsets_ = new size_t[count];
     ASSERT(lastValues_);
 
     size_t offset = 0;
     for (int i(0); i < count; i++) {
-        nextRow_[i] = lastValues_[i] = columns_[i]->missingValue();
-        columnOffsets_[i]            = offset;
+        nextRow_[offset] = lastValues_[offset] = columns_[i]->missingValue();
+        columnOffsets_[i]                      = offset;
         offset += columns_[i]->dataSizeDoubles();
     }
 
     nrows_ = 0;
+
+    if (initialized_)
+        resetColumns();
 }
 
 template <typename WRITE_ITERATOR, typename OWNER>
@@ -297,9 +321,28 @@ void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::parseTemplateParameters()
     dispatchedIndexes_.clear();
     for (size_t i(0); i < templateParameters_.size(); ++i)
         dispatchedIndexes_.push_back(templateParameters_[i]->columnIndex);
+
+    // n.b. Strings may be wider than a double, so the offset of a column in the row is not the index of the column.
+    inputOffsets_.clear();
+    size_t offset = 0;
+    for (const auto& column : columns()) {
+        inputOffsets_.push_back(offset);
+        offset += column->dataSizeDoubles();
+    }
     initialized_ = true;
 }
 
+template <typename WRITE_ITERATOR, typename OWNER>
+void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::resetColumns() {
+    parseTemplateParameters();
+
+    for (size_t i = 0; i < iterators_.size(); ++i) {
+        iterators_[i]->flush();
+        iterators_[i]->columns(columns());
+        iterators_[i]->writeHeader();
+    }
+}
+
 template <typename WRITE_ITERATOR, typename OWNER>
 double* WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::data() {
     return nextRow_;
@@ -414,9 +457,7 @@ unsigned long WriterDispatchingIterator<WriterBufferingIterator, DispatchingWrit
 
     // Copy columns from the input iterator.
     columns(it->columns());
-
-    if (!initialized_)
-        parseTemplateParameters();
+    resetColumns();
 
     size_t maxcols = columns().size();
     ASSERT(maxcols > 0);
@@ -425,16 +466,11 @@ unsigned long WriterDispatchingIterator<WriterBufferingIterator, DispatchingWrit
                           << maxcols << std::endl;
 
     nrows_ = 0;
+    std::fill(lastDispatch_.begin(), lastDispatch_.end(), 0);
     for (; it != end; ++it) {
-        if (it->isNewDataset() && columns() != it->columns()) {
+        if (it->isNewDataset() && !columns().encodesSameData(it->columns())) {
             columns(it->columns());
-            parseTemplateParameters();
-
-            for (size_t i = 0; i < iterators_.size(); ++i) {
-                iterators_[i]->flush();
-                iterators_[i]->columns(columns());
-                iterators_[i]->writeHeader();
-            }
+            resetColumns();
         }
 
         const double* data(it->data());
@@ -450,6 +486,12 @@ unsigned long WriterDispatchingIterator<WriterBufferingIterator, DispatchingWrit
 template <typename WRITE_ITERATOR, typename OWNER>
 void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::flushAndResetColumnSizes(
     const std::map<std::string, size_t>& resetColumnSizeDoubles) {
+    for (const auto& kv : resetColumnSizeDoubles) {
+        columns_.columnByName(kv.first)->dataSizeDoubles(kv.second);
+    }
+    if (initialized_)
+        parseTemplateParameters();
+
     for (size_t i = 0; i < iterators_.size(); ++i) {
         iterators_[i]->flushAndResetColumnSizes(resetColumnSizeDoubles);
     }
@@ -467,15 +509,22 @@ void WriterDispatchingIterator<WriterBufferingIterator, DispatchingWriter>::veri
     // Copy columns from the input iterator.
     columns(it->columns());
 
-    vector<Reader*> readers;
+    if (filesCreated_.size() > size_t(maxOpenFiles_)) {
+        Log::warning() << "Split verification: skipped, as there are more files than may be opened." << endl;
+        return;
+    }
+    parseTemplateParameters();
+
+    vector<std::unique_ptr<Reader>> readers;
     vector<pair<Reader::iterator, Reader::iterator> > iterators;
-    for (size_t i(0); i < files_.size(); ++i) {
-        Reader* reader(new Reader(files_[i]));
-        readers.push_back(reader);
-        iterators.push_back(make_pair(reader->begin(), reader->end()));
+    std::map<std::string, size_t> fileIndices;
+    for (const auto& kv : filesCreated_) {
+        fileIndices[kv.first] = readers.size();
+        readers.emplace_back(new Reader(kv.first));
+        iterators.push_back(make_pair(readers.back()->begin(), readers.back()->end()));
     }
 
-    vector<size_t> rowsRead(files_.size());
+    vector<size_t> rowsRead(readers.size());
 
     // Frames in the source/dispatched cases will have different sizes, so the haveMissing()
     // value may differ. Only compare the values
@@ -490,8 +539,9 @@ void WriterDispatchingIterator<WriterBufferingIterator, DispatchingWriter>::veri
             parseTemplateParameters();
         }
 
-        size_t fileIndex(dispatchIndex(it->data(), it->columns().size()));
-        const std::string& outFileName(files_[fileIndex]);
+        const std::string outFileName(generateFileName(it->data(), it->columns().size()));
+        ASSERT(fileIndices.find(outFileName) != fileIndices.end());
+        size_t fileIndex(fileIndices[outFileName]);
 
         size_t n(columns().size());
         typedef Reader::iterator I;
@@ -524,9 +574,6 @@ void WriterDispatchingIterator<WriterBufferingIterator, DispatchingWriter>::veri
     }
     Log::info() << "Number of rows: " << i << ". Total number of differences: " << numberOfDifferences << std::endl;
     ASSERT(!(it != end));
-
-    for (size_t j = 0; j < readers.size(); ++j)
-        delete readers[j];
 }
 
 template <typename WRITE_ITERATOR, typename OWNER>
@@ -549,6 +596,8 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::close() {
         delete *it;
     }
     iterators_.clear();
+    values2iteratorIndex_.clear();
+    lastDispatchedValues_.clear();
 
     return rc;
 }
diff --git a/src/odc/WriterDispatchingIterator.h b/src/odc/WriterDispatchingIterator.h
index 82c2f64..27012b9 100644
--- a/src/odc/WriterDispatchingIterator.h
+++ b/src/odc/WriterDispatchingIterator.h
@@ -38,7 +38,7 @@ class TemplateParameters;
 
 template <typename WRITE_ITERATOR, typename OWNER>
 class WriterDispatchingIterator {
-    typedef std::vector<double> Values;
+    typedef std::vector<uint64_t> Values;
     typedef std::map<Values, int> Values2IteratorIndex;
     typedef std::vector<WRITE_ITERATOR*> Iterators;
 
@@ -123,6 +123,7 @@ protected:
     core::Properties properties_;
 
     std::vector<int> dispatchedIndexes_;
+    std::vector<size_t> inputOffsets_;
     Values2IteratorIndex values2iteratorIndex_;
     std::vector<unsigned long long> lastDispatch_;
     std::vector<std::string> iteratorIndex2fileName_;
@@ -139,11 +140,11 @@ private:
     WriterDispatchingIterator& operator=(const WriterDispatchingIterator&);
 
     void parseTemplateParameters();
+    void resetColumns();
 
     int refCount_;
 
     Iterators iterators_;
-    std::vector<eckit::PathName> files_;
 
     TemplateParameters templateParameters_;
     int maxOpenFiles_;
diff --git a/src/odc/core/MetaData.cc b/src/odc/core/MetaData.cc
index 04b2edc..0ea9e08 100644
--- a/src/odc/core/MetaData.cc
+++ b/src/odc/core/MetaData.cc
@@ -229,6 +229,23 @@ bool MetaData::equals(const MetaData& other, bool compareDataSizes) const {
     return true;
 }
 
+bool MetaData::encodesSameData(const MetaData& other) const {
+
+    if (!equals(other))
+        return false;
+
+    for (size_t i = 0; i < size(); ++i) {
+        const Column& c1 = *at(i);
+        const Column& c2 = *other[i];
+        if (c1.type() == api::BITFIELD && c1.bitfieldDef() != c2.bitfieldDef())
+            return false;
+        if (c1.type() != api::STRING && c1.rawMissingValue() != c2.rawMissingValue())
+            return false;
+    }
+
+    return true;
+}
+
 bool MetaData::compatible(const MetaData& other) const {
 
     // Normal case will be equality --> try O[N] check first.
diff --git a/src/odc/core/MetaData.h b/src/odc/core/MetaData.h
index 7a0e7de..8e9d763 100644
--- a/src/odc/core/MetaData.h
+++ b/src/odc/core/MetaData.h
@@ -54,6 +54,10 @@ public:
     bool operator==(const MetaData&) const;
     bool equals(const MetaData& md, bool compareDataSizes = true) const;
 
+    /// Can rows with the given metadata be written to a frame with this metadata without losing any information? Over
+    /// and above equality, this requires the definitions of the bitfields and the missing values to be the same.
+    bool encodesSameData(const MetaData& other) const;
+
     bool equalsIncludingConstants(const MetaData&, const std::vector<std::string>& constColumns) const;
 
     bool operator!=(const MetaData& other) const { return !(*this == other); }
-- 
2.43.0


From 05f4d85290e76d69954ff402f4375d41b1cba9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 30/75] fix: failures to write the last rows of a file
 terminated the process, and failed rows were written again

---
 src/odc/IteratorProxy.h              | 12 ++++---
 src/odc/WriterBufferingIterator.cc   | 51 ++++++++++++++++++++++------
 src/odc/WriterBufferingIterator.h    |  3 +-
 src/odc/WriterDispatchingIterator.cc | 28 ++++++++++++---
 src/odc/WriterDispatchingIterator.h  |  2 +-
 src/odc/sql/ODAOutput.cc             | 13 ++++++-
 src/odc/sql/ODAOutput.h              |  2 +-
 src/odc/sql/TODATable.cc             |  2 +-
 src/odc/sql/TODATable.h              |  2 +-
 src/odc/sql/TODATableIterator.cc     |  2 +-
 src/odc/sql/TODATableIterator.h      |  2 +-
 11 files changed, 90 insertions(+), 29 deletions(-)

diff --git a/src/odc/IteratorProxy.h b/src/odc/IteratorProxy.h
index 03d4bba..26b7ad7 100644
--- a/src/odc/IteratorProxy.h
+++ b/src/odc/IteratorProxy.h
@@ -178,7 +178,7 @@ public:
             ++iter_->refCount_;
     }
 
-    ~IteratorProxy() {
+    ~IteratorProxy() noexcept(false) {
         if (iter_ && (--iter_->refCount_ == 0))
             delete iter_;
     }
@@ -187,11 +187,13 @@ public:
         if (iter_ == other.iter_)
             return *this;
 
-        if (iter_ && (--iter_->refCount_ == 0))
-            delete iter_;
+        ITERATOR* old = iter_;
+        iter_         = other.iter_;
+        if (iter_)
+            ++iter_->refCount_;
 
-        iter_ = other.iter_;
-        ++iter_->refCount_;
+        if (old && (--old->refCount_ == 0))
+            delete old;
         return *this;
     }
 
diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index 776375d..c59c15d 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -48,7 +48,8 @@ WriterBufferingIterator::WriterBufferingIterator(Owner& owner, DataHandle* dh, b
     nextRowInBuffer_(0),
     rowsBufferSize_(owner.rowsBufferSize()),
     tableDef_(tableDef),
-    openDataHandle_(openDataHandle) {
+    openDataHandle_(openDataHandle),
+    closed_(false) {
     if (openDataHandle)
         open();
 }
@@ -71,17 +72,32 @@ WriterBufferingIterator::WriterBufferingIterator(Owner& owner, DataHandle& dh, b
     nextRowInBuffer_(0),
     rowsBufferSize_(owner.rowsBufferSize()),
     tableDef_(tableDef),
-    openDataHandle_(openDataHandle) {
+    openDataHandle_(openDataHandle),
+    closed_(false) {
     if (openDataHandle)
         open();
 }
 
-WriterBufferingIterator::~WriterBufferingIterator() {
-    close();
+WriterBufferingIterator::~WriterBufferingIterator() noexcept(false) {
+
+    // n.b. Writing the remaining rows may fail. This must not go unnoticed, unless we are already handling an exception.
+
+    std::exception_ptr error;
+    try {
+        close();
+    }
+    catch (std::exception& e) {
+        Log::error() << "Failed to write data: " << e.what() << std::endl;
+        error = std::current_exception();
+    }
+
     delete[] lastValues_;
     delete[] nextRow_;
     delete[] columnOffsets_;
     delete[] columnByteSizes_;
+
+    if (error && std::uncaught_exceptions() == 0)
+        std::rethrow_exception(error);
 }
 
 unsigned long WriterBufferingIterator::gatherStats(const double* values, unsigned long count) {
@@ -318,6 +334,11 @@ void WriterBufferingIterator::flush() {
     if (nextRowInBuffer_ == rowsBuffer_ || rowsBuffer_.size() == 0)
         return;
 
+    // Whatever happens, do not attempt to write these rows again
+
+    unsigned char* const endOfRows = nextRowInBuffer_;
+    nextRowInBuffer_               = reinterpret_cast<unsigned char*>(rowsBuffer_.data());
+
     setOptimalCodecs();
 
     // n.b. ensure that we leave space for the header in the worst case (data doesn't compress at all)
@@ -337,7 +358,7 @@ void WriterBufferingIterator::flush() {
 
     size_t rowsWritten = 0;
     unsigned char* p   = reinterpret_cast<unsigned char*>(rowsBuffer_.data());
-    while (p < nextRowInBuffer_) {
+    while (p < endOfRows) {
         doWriteRow(encodedStream, reinterpret_cast<double*>(p));
         p += rowByteSize_;
         ++rowsWritten;
@@ -358,10 +379,6 @@ void WriterBufferingIterator::flush() {
 
     LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::flush: flushed " << rowsWritten << " rows." << std::endl;
 
-    // Reset the write buffers
-
-    nextRowInBuffer_ = reinterpret_cast<unsigned char*>(rowsBuffer_.data());
-
     // This is a bad place to be. We need to reset the coders in the columns, not clone
     // the existing ones (which have been optimised).
 
@@ -375,8 +392,20 @@ std::pair<Buffer, size_t> WriterBufferingIterator::serializeHeader(size_t dataSi
 }
 
 int WriterBufferingIterator::close() {
-    if (initialisedColumns_)
-        flush();
+    if (closed_)
+        return 0;
+    closed_ = true;
+
+    try {
+        if (initialisedColumns_)
+            flush();
+    }
+    catch (...) {
+        if (!openDataHandle_) {
+            handle().close();
+        }
+        throw;
+    }
 
     if (!openDataHandle_) {
         handle().close();
diff --git a/src/odc/WriterBufferingIterator.h b/src/odc/WriterBufferingIterator.h
index dd958b0..5c5c5e5 100644
--- a/src/odc/WriterBufferingIterator.h
+++ b/src/odc/WriterBufferingIterator.h
@@ -52,7 +52,7 @@ public:
     WriterBufferingIterator(Owner& owner, eckit::DataHandle&, bool openDataHandle,
                             const odc::sql::TableDef* tableDef = 0);
 
-    ~WriterBufferingIterator();
+    ~WriterBufferingIterator() noexcept(false);
 
     int open();
 
@@ -170,6 +170,7 @@ private:
 private:
 
     bool openDataHandle_;
+    bool closed_;
 
     friend class IteratorProxy<WriterBufferingIterator, Owner>;
 };
diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index d1eee01..cfd76d2 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -204,8 +204,9 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Value
                               << iteratorIndex2fileName_[iteratorIndex] << "' "
                               << " (oldest row: " << oldestRow << "), nrows_=" << nrows_ << std::endl;
 
-        delete iterators_[iteratorIndex];
+        WRITE_ITERATOR* evicted   = iterators_[iteratorIndex];
         iterators_[iteratorIndex] = 0;
+        delete evicted;
 
         Values2IteratorIndex::iterator vit(values2iteratorIndex_.begin());
         while (vit != values2iteratorIndex_.end()) {
@@ -261,13 +262,21 @@ std::vector<eckit::PathName> WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::o
 }
 
 template <typename WRITE_ITERATOR, typename OWNER>
-WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::~WriterDispatchingIterator() {
+WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::~WriterDispatchingIterator() noexcept(false) {
     // LOG_DEBUG_LIB(LibOdc) << "WriterDispatchingIterator<WRITE_ITERATOR>::~WriterDispatchingIterator()" << std::endl;
     delete[] lastValues_;
     delete[] nextRow_;
     delete[] columnOffsets_;
-    for (size_t i = 0; i < iterators_.size(); ++i)
-        delete iterators_[i];
+
+    std::exception_ptr error;
+    try {
+        close();
+    }
+    catch (...) {
+        error = std::current_exception();
+    }
+    if (error && std::uncaught_exceptions() == 0)
+        std::rethrow_exception(error);
 }
 
 template <typename WRITE_ITERATOR, typename OWNER>
@@ -591,13 +600,22 @@ template <typename WRITE_ITERATOR, typename OWNER>
 int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::close() {
     // LOG_DEBUG_LIB(LibOdc) << "WriterDispatchingIterator<WRITE_ITERATOR>::close()" << std::endl;
     int rc = 0;
+    std::exception_ptr error;
     for (typename Iterators::iterator it = iterators_.begin(); it != iterators_.end(); ++it) {
-        rc |= (*it)->close();
+        try {
+            if (*it)
+                rc |= (*it)->close();
+        }
+        catch (...) {
+            error = std::current_exception();
+        }
         delete *it;
     }
     iterators_.clear();
     values2iteratorIndex_.clear();
     lastDispatchedValues_.clear();
+    if (error)
+        std::rethrow_exception(error);
 
     return rc;
 }
diff --git a/src/odc/WriterDispatchingIterator.h b/src/odc/WriterDispatchingIterator.h
index 27012b9..1717a4a 100644
--- a/src/odc/WriterDispatchingIterator.h
+++ b/src/odc/WriterDispatchingIterator.h
@@ -45,7 +45,7 @@ class WriterDispatchingIterator {
 public:
 
     WriterDispatchingIterator(OWNER& owner, int maxOpenFiles, bool append = false);
-    ~WriterDispatchingIterator();
+    ~WriterDispatchingIterator() noexcept(false);
 
     int open();
 
diff --git a/src/odc/sql/ODAOutput.cc b/src/odc/sql/ODAOutput.cc
index b5c0168..afb590f 100644
--- a/src/odc/sql/ODAOutput.cc
+++ b/src/odc/sql/ODAOutput.cc
@@ -33,7 +33,15 @@ template <typename WRITER>
 ODAOutput<WRITER>::ODAOutput(WRITER* writer) : writer_(writer), it_(nullptr), col_(0), count_(0), initted_(false) {}
 
 template <typename WRITER>
-ODAOutput<WRITER>::~ODAOutput() {}
+ODAOutput<WRITER>::~ODAOutput() noexcept {
+    // n.b. Errors have been reported by cleanup() already, unless the select has been abandoned
+    try {
+        it_ = typename WRITER::iterator(nullptr);
+    }
+    catch (std::exception& e) {
+        eckit::Log::error() << "Failed to write data: " << e.what() << std::endl;
+    }
+}
 
 template <typename WRITER>
 void ODAOutput<WRITER>::print(std::ostream& s) const {
@@ -56,6 +64,9 @@ void ODAOutput<WRITER>::flush() {}
 template <typename WRITER>
 void ODAOutput<WRITER>::cleanup(SQLSelect& sql) {
     sql.outputFiles((**it_).outputFiles());
+
+    // Write all the remaining data, such that any errors are reported
+    (**it_).close();
 }
 
 template <typename WRITER>
diff --git a/src/odc/sql/ODAOutput.h b/src/odc/sql/ODAOutput.h
index 8fc6bc8..0782190 100644
--- a/src/odc/sql/ODAOutput.h
+++ b/src/odc/sql/ODAOutput.h
@@ -34,7 +34,7 @@ public:
 
     ODAOutput(WRITER*);
     //	ODAOutput(WRITER*, const MetaData&);
-    virtual ~ODAOutput();  // Change to virtual if base class
+    virtual ~ODAOutput() noexcept;
 
 private:  // methods
 
diff --git a/src/odc/sql/TODATable.cc b/src/odc/sql/TODATable.cc
index 0c9a10b..812ae39 100644
--- a/src/odc/sql/TODATable.cc
+++ b/src/odc/sql/TODATable.cc
@@ -75,7 +75,7 @@ TODATable<READER>::TODATable(SQLDatabase& owner, const std::string& path, const
 
 
 template <typename READER>
-TODATable<READER>::~TODATable() {}
+TODATable<READER>::~TODATable() noexcept {}
 
 template <typename READER>
 const READER& TODATable<READER>::oda() const {
diff --git a/src/odc/sql/TODATable.h b/src/odc/sql/TODATable.h
index 7e58591..5cb26bb 100644
--- a/src/odc/sql/TODATable.h
+++ b/src/odc/sql/TODATable.h
@@ -32,7 +32,7 @@ public:
 
     TODATable(eckit::sql::SQLDatabase& owner, const std::string& path, const std::string& name);
 
-    virtual ~TODATable();
+    virtual ~TODATable() noexcept;
 
     const READER& oda() const;
 
diff --git a/src/odc/sql/TODATableIterator.cc b/src/odc/sql/TODATableIterator.cc
index 6dcf607..a4f1e46 100644
--- a/src/odc/sql/TODATableIterator.cc
+++ b/src/odc/sql/TODATableIterator.cc
@@ -77,7 +77,7 @@ void TODATableIterator<READER>::rewind() {
 }
 
 template <typename READER>
-TODATableIterator<READER>::~TODATableIterator() {}
+TODATableIterator<READER>::~TODATableIterator() noexcept {}
 
 template <typename READER>
 bool TODATableIterator<READER>::next() {
diff --git a/src/odc/sql/TODATableIterator.h b/src/odc/sql/TODATableIterator.h
index 91ae541..71cc637 100644
--- a/src/odc/sql/TODATableIterator.h
+++ b/src/odc/sql/TODATableIterator.h
@@ -38,7 +38,7 @@ public:  // methods
                       const std::vector<std::reference_wrapper<const eckit::sql::SQLColumn>>& columns,
                       std::function<void(eckit::sql::SQLTableIterator&)> metadataUpdateCallback,
                       const typename READER::iterator& seedIterator);
-    virtual ~TODATableIterator();
+    virtual ~TODATableIterator() noexcept;
 
 private:  // methods (override>
 
-- 
2.43.0


From 06545868c81e2ff40a2e99bebb90e2b75e848bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 31/75] fix: spans lost values next to NaN, truncated long
 constant strings, ignored missing first values and used the wrong integer
 treatment; unrepresentable integers and sizes

---
 src/odc/codec/CodecOptimizer.h |   2 +-
 src/odc/codec/Integer.h        |   4 +
 src/odc/core/Span.cc           |   4 +-
 src/odc/core/Table.cc          | 153 +++++++++++++++++++--------------
 src/odc/core/Table.h           |   3 +
 src/odc/tools/LSTool.cc        |   3 +-
 6 files changed, 102 insertions(+), 67 deletions(-)

diff --git a/src/odc/codec/CodecOptimizer.h b/src/odc/codec/CodecOptimizer.h
index 4062d1b..74f5003 100644
--- a/src/odc/codec/CodecOptimizer.h
+++ b/src/odc/codec/CodecOptimizer.h
@@ -132,7 +132,7 @@ int CodecOptimizer::setOptimalCodecs(core::MetaData& columns) {
 
             case api::BITFIELD:
             case api::INTEGER:
-                n = max - min;
+                n = core::valueFromDouble<int64_t>(max - min);
                 // LOG << " { min=" << min << ", max=" << max << ", n=" << n << "} ";
                 if (col.hasMissing()) {
                     if (n == 0)
diff --git a/src/odc/codec/Integer.h b/src/odc/codec/Integer.h
index b69514e..9a9c753 100644
--- a/src/odc/codec/Integer.h
+++ b/src/odc/codec/Integer.h
@@ -85,6 +85,10 @@ private:  // methods
             }
         }
 
+        if (val != val) {
+            throw eckit::BadValue("NaN cannot be encoded as an integer", Here());
+        }
+
         core::Codec::gatherStats(val);
     }
 
diff --git a/src/odc/core/Span.cc b/src/odc/core/Span.cc
index 5f4a80d..ec8e060 100644
--- a/src/odc/core/Span.cc
+++ b/src/odc/core/Span.cc
@@ -15,6 +15,8 @@
 #include "eckit/exception/Exceptions.h"
 #include "eckit/types/Types.h"
 
+#include "odc/core/Codec.h"
+
 
 using namespace eckit;
 
@@ -53,7 +55,7 @@ void Span::addValue(const std::string& column, api::ColumnType t, double val) {
         case api::BITFIELD:
             ASSERT(realValues_.find(column) == realValues_.end());
             ASSERT(stringValues_.find(column) == stringValues_.end());
-            integerValues_[column].insert(static_cast<int64_t>(val));
+            integerValues_[column].insert(valueFromDouble<int64_t>(val));
             break;
 
         case api::REAL:
diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index d2c6d98..5108578 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -32,7 +32,8 @@ namespace core {
 
 //----------------------------------------------------------------------------------------------------------------------
 
-Table::Table(const ThreadSharedDataHandle& dh) : dh_(dh) {}
+Table::Table(const ThreadSharedDataHandle& dh) :
+    dh_(dh), integersAsDoubles_(ODBAPISettings::instance().integersAsDoubles()) {}
 
 Offset Table::startPosition() const {
     return startPosition_;
@@ -285,44 +286,6 @@ void Table::decode(DecodeTarget& target) {
 }
 
 
-Span Table::span(const std::vector<std::string>& columns, bool onlyConstants) {
-
-    Span s(startPosition(), nextPosition() - startPosition());
-
-    // Get any constant columns
-
-    std::vector<std::string> nonConstantColumns;
-
-    for (const std::string& columnName : columns) {
-
-        Column* column = metadata_.columnByName(columnName);
-        if (!column)
-            throw UserError("Column '" + columnName + "' not found", Here());
-
-        if (column->isConstant()) {
-            s.addValue(columnName, column->type(), column->min());
-        }
-        else {
-            nonConstantColumns.push_back(columnName);
-        }
-    }
-
-    // We don't decode non-constant columns unless allowed to
-
-    if (!nonConstantColumns.empty() && onlyConstants) {
-        std::stringstream ss;
-        ss << "Non-constant columns required in span: " << nonConstantColumns;
-        throw UserError(ss.str(), Here());
-    }
-
-    if (!nonConstantColumns.empty()) {
-        s.extend(decodeSpan(nonConstantColumns));
-    }
-
-    return s;
-}
-
-
 // Helper workers to simplify building span decoder
 
 class ColumnValuesBase {
@@ -351,7 +314,7 @@ protected:  // members
 
 struct IntegerColumnValuesAsDoubles : ColumnValues<long> {
     using ColumnValues<long>::ColumnValues;
-    void addValue(double* val) override { values_.insert(static_cast<int64_t>(*val)); }
+    void addValue(double* val) override { values_.insert(valueFromDouble<int64_t>(*val)); }
 };
 
 struct IntegerColumnValues : ColumnValues<long> {
@@ -361,7 +324,11 @@ struct IntegerColumnValues : ColumnValues<long> {
 
 struct DoubleColumnValues : ColumnValues<double> {
     using ColumnValues<double>::ColumnValues;
-    void addValue(double* val) override { values_.insert(*val); }
+    void addValue(double* val) override {
+        // n.b. NaN is not ordered. If inserted into a set it would be considered equal to every other value.
+        if (*val == *val)
+            values_.insert(*val);
+    }
 };
 
 struct StringColumnValues : ColumnValues<std::string> {
@@ -373,6 +340,71 @@ struct StringColumnValues : ColumnValues<std::string> {
     size_t maxLength_;
 };
 
+static std::unique_ptr<ColumnValuesBase> columnValuesBuilder(const std::string& name, const Column& column,
+                                                             bool integersAsDoubles) {
+    switch (column.type()) {
+        case api::BITFIELD:
+        case api::INTEGER:
+            if (integersAsDoubles) {
+                return std::unique_ptr<ColumnValuesBase>(new IntegerColumnValuesAsDoubles(name));
+            }
+            return std::unique_ptr<ColumnValuesBase>(new IntegerColumnValues(name));
+        case api::REAL:
+        case api::DOUBLE:
+            return std::unique_ptr<ColumnValuesBase>(new DoubleColumnValues(name));
+        case api::STRING:
+            return std::unique_ptr<ColumnValuesBase>(
+                new StringColumnValues(name, sizeof(double) * column.dataSizeDoubles()));
+        default:
+            throw SeriousBug("Unexpected type in decoding column: " + name, Here());
+    };
+}
+
+
+Span Table::span(const std::vector<std::string>& columns, bool onlyConstants) {
+
+    Span s(startPosition(), nextPosition() - startPosition());
+
+    // Get any constant columns
+
+    std::vector<std::string> nonConstantColumns;
+
+    for (const std::string& columnName : columns) {
+
+        if (!metadata_.hasColumn(columnName))
+            throw ColumnNotFoundException(columnName);
+        Column* column = metadata_[columnPosition(columnName)];
+
+        if (column->isConstant()) {
+            // n.b. The codecs for constants do not require any encoded data
+            auto values = columnValuesBuilder(columnName, *column, integersAsDoubles_);
+            if (rowCount() != 0) {
+                std::vector<double> value(column->dataSizeDoubles());
+                column->coder().decode(value.data());
+                values->addValue(value.data());
+            }
+            values->updateSpan(s);
+        }
+        else {
+            nonConstantColumns.push_back(columnName);
+        }
+    }
+
+    // We don't decode non-constant columns unless allowed to
+
+    if (!nonConstantColumns.empty() && onlyConstants) {
+        std::stringstream ss;
+        ss << "Non-constant columns required in span: " << nonConstantColumns;
+        throw UserError(ss.str(), Here());
+    }
+
+    if (!nonConstantColumns.empty()) {
+        s.extend(decodeSpan(nonConstantColumns));
+    }
+
+    return s;
+}
+
 
 Span Table::decodeSpan(const std::vector<std::string>& columns) {
 
@@ -397,27 +429,7 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
 
         // What do we do with the values?
 
-        switch (metadata[pos]->type()) {
-            case api::BITFIELD:
-            case api::INTEGER:
-                if (ODBAPISettings::instance().integersAsDoubles()) {
-                    columnValues[pos].reset(new IntegerColumnValuesAsDoubles(columnName));
-                }
-                else {
-                    columnValues[pos].reset(new IntegerColumnValues(columnName));
-                }
-                break;
-            case api::REAL:
-            case api::DOUBLE:
-                columnValues[pos].reset(new DoubleColumnValues(columnName));
-                break;
-            case api::STRING:
-                columnValues[pos].reset(
-                    new StringColumnValues(columnName, sizeof(double) * metadata[pos]->dataSizeDoubles()));
-                break;
-            default:
-                throw SeriousBug("Unexpected type in decoding column: " + columnName, Here());
-        };
+        columnValues[pos] = columnValuesBuilder(columnName, *metadata[pos], integersAsDoubles_);
         maxDoublesDecode = std::max(maxDoublesDecode, metadata[pos]->dataSizeDoubles());
     }
 
@@ -435,8 +447,6 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
 
     // Do the decoding
 
-    std::vector<size_t> lastDecoded(ncols, 0);
-
     std::vector<double> decodeBufferVec(maxDoublesDecode);
     auto decodeBuffer = decodeBufferVec.data();
 
@@ -447,6 +457,19 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
         int startCol = (marker[0] * 256) + marker[1];  // Endian independant
         ASSERT(startCol <= long(ncols));
 
+        // As for decode(): (old, unsupported) ODBs may not start from column zero in the first row
+
+        if (rowCount == 0) {
+            for (int col = 0; col < startCol; col++) {
+                if (visitColumn[col]) {
+                    std::fill(decodeBufferVec.begin(), decodeBufferVec.end(), 0);
+                    if (metadata[col]->type() != api::STRING)
+                        *decodeBuffer = decoders[col].get().missingValue();
+                    columnValues[col]->addValue(decodeBuffer);
+                }
+            }
+        }
+
         for (int col = startCol; col < long(ncols); col++) {
             if (visitColumn[col]) {
                 decoders[col].get().decode(decodeBuffer);
@@ -487,6 +510,8 @@ std::unique_ptr<Table> Table::readTable(odc::core::ThreadSharedDataHandle& dh) {
     newTable->startPosition_ = startPosition;
     newTable->dataPosition_  = dh.position();
     newTable->dataSize_      = hdr.dataSize();
+    if (hdr.dataSize() > std::numeric_limits<int64_t>::max() - static_cast<long long>(dh.position()))
+        throw ODBInvalid(dh.title(), "Invalid size of the data", Here());
     newTable->nextPosition_  = dh.position() + newTable->dataSize_;
     newTable->byteOrder_     = hdr.byteOrder();
 
diff --git a/src/odc/core/Table.h b/src/odc/core/Table.h
index 6c7129c..67a1100 100644
--- a/src/odc/core/Table.h
+++ b/src/odc/core/Table.h
@@ -86,6 +86,9 @@ private:  // members
     eckit::Offset nextPosition_;
     int32_t byteOrder_;
 
+    /// How the codecs represent integers, which is determined when the table is read
+    bool integersAsDoubles_;
+
     MetaData metadata_;
     Properties properties_;
 
diff --git a/src/odc/tools/LSTool.cc b/src/odc/tools/LSTool.cc
index 5da0829..efbbd9f 100644
--- a/src/odc/tools/LSTool.cc
+++ b/src/odc/tools/LSTool.cc
@@ -14,6 +14,7 @@
 #include "eckit/exception/Exceptions.h"
 
 #include "odc/Reader.h"
+#include "odc/core/Codec.h"
 #include "odc/tools/LSTool.h"
 
 using namespace eckit;
@@ -60,7 +61,7 @@ unsigned long long LSTool::printData(const std::string& db, std::ostream& out) {
                             out << ".";
                         }
                         else {
-                            out << static_cast<int>((*it)[i]);
+                            out << core::valueFromDouble<int64_t>((*it)[i]);
                         }
                         break;
                     case odc::api::REAL:
-- 
2.43.0


From 230fd608ff75d69670dcf9aedbb35c225ee75ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 32/75] fix: undefined conversions when encoding infinities

---
 src/odc/codec/Integer.h        | 2 +-
 src/odc/codec/IntegerMissing.h | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/odc/codec/Integer.h b/src/odc/codec/Integer.h
index 9a9c753..24227ee 100644
--- a/src/odc/codec/Integer.h
+++ b/src/odc/codec/Integer.h
@@ -122,7 +122,7 @@ private:  // methods
         // undefined behaviour sanitizer. It is correct that we can generate an integer
         // that is too big, and throw it away, if invalid data gets here.
         const ValueType& val(reinterpret_cast<const ValueType&>(d));
-        InternalValueType s = static_cast<uint64_t>(val - this->min_);
+        InternalValueType s = static_cast<uint64_t>(core::valueFromDouble<int64_t>(val - this->min_));
         ByteOrder::swap(s);
         ::memcpy(p, &s, sizeof(s));
         return p + sizeof(s);
diff --git a/src/odc/codec/IntegerMissing.h b/src/odc/codec/IntegerMissing.h
index 9df276c..ff6ed92 100644
--- a/src/odc/codec/IntegerMissing.h
+++ b/src/odc/codec/IntegerMissing.h
@@ -44,7 +44,8 @@ private:  // methods
             s = DerivedCodec::missingMarker;
         }
         else {
-            s = val - this->min_;
+            // n.b. The difference of infinities is NaN, which gives zero
+            s = static_cast<InternalValueType>(core::valueFromDouble<int64_t>(val - this->min_));
             ASSERT(s != DerivedCodec::missingMarker);
         }
         ByteOrder::swap(s);
-- 
2.43.0


From 59e9340d64b8d9ceedcf1cfe1b258357c714dfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 33/75] fix: C API frame properties are not taken from a
 released frame once iteration is complete

---
 src/odc/api/odc.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 313d41c..2b971b8 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -437,10 +437,13 @@ int odc_next_frame(odc_frame_t* frame) {
             r.impl_.reset(new Reader(*r.dh_, aggregated));
         }
 
-        if ((frame->frame_ = r.impl_->next(aggregated))) {
-            frame->propertiesMemoised_ = false;
-            frame->propertiesIndex_.clear();
+        // n.b. The memoised properties refer to the previous frame, also if there is no further frame
+        Frame next = r.impl_->next(aggregated);
+        frame->propertiesMemoised_ = false;
+        frame->propertiesIndex_.clear();
+        frame->frame_ = std::move(next);
 
+        if (frame->frame_) {
             return ODC_SUCCESS;
         }
         else {
@@ -459,10 +462,13 @@ int odc_next_frame_aggregated(odc_frame_t* frame, long maximum_rows) {
             r.impl_.reset(new Reader(*r.dh_, aggregated, maximum_rows));
         }
 
-        if ((frame->frame_ = r.impl_->next(aggregated, maximum_rows))) {
-            frame->propertiesMemoised_ = false;
-            frame->propertiesIndex_.clear();
+        // n.b. The memoised properties refer to the previous frame, also if there is no further frame
+        Frame next = r.impl_->next(aggregated, maximum_rows);
+        frame->propertiesMemoised_ = false;
+        frame->propertiesIndex_.clear();
+        frame->frame_ = std::move(next);
 
+        if (frame->frame_) {
             return ODC_SUCCESS;
         }
         else {
-- 
2.43.0


From a6ec8ba810248587423d8a5772ede99044ad1c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 34/75] fix: refuse to decode into elements which overlap

---
 src/odc/api/Odb.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index 5a651fe..ddb810c 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -364,6 +364,13 @@ size_t FrameImpl::columnCount() const {
 
 void FrameImpl::decode(DecoderImpl& target, size_t nthreads) {
 
+    // The elements of a column must not overlap
+    if (rowCount() > 1) {
+        for (const StridedData& facade : target.dataFacades()) {
+            ASSERT(facade.stride() >= facade.dataSize());
+        }
+    }
+
     if (tables_.size() == 1) {
         tables_[0].decode(target);
     }
-- 
2.43.0


From 25721b95c35c28adc37fdfe61102e760f43b9de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 35/75] fix: index, sorted split and merge of selections opened
 their input twice

---
 src/odc/Indexer.cc         | 3 +--
 src/odc/tools/MergeTool.cc | 3 +--
 src/odc/tools/SplitTool.cc | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/odc/Indexer.cc b/src/odc/Indexer.cc
index 3fce56b..59f897f 100644
--- a/src/odc/Indexer.cc
+++ b/src/odc/Indexer.cc
@@ -77,8 +77,7 @@ void Indexer::createIndex(const PathName& dataFile, const PathName& indexFile) {
         Length blockLength(offsets[i].second);
 
         PartFileHandle h(dataFile, blockBegin, blockLength);
-        h.openForRead();
-        AutoClose closer(h);
+        AutoClose closer(h);  // n.b. the handle is opened by Select
 
         int prevSeqno(-1);
         int nRows(0);
diff --git a/src/odc/tools/MergeTool.cc b/src/odc/tools/MergeTool.cc
index ac8ebaf..1b7395e 100644
--- a/src/odc/tools/MergeTool.cc
+++ b/src/odc/tools/MergeTool.cc
@@ -135,8 +135,7 @@ void MergeTool::merge(const std::vector<PathName>& inputFiles, const std::vector
     std::vector<std::pair<S::iterator, S::iterator>> iterators;
     for (size_t i = 0; i < inputFiles.size(); ++i) {
         fhs.push_back(std::unique_ptr<eckit::FileHandle>(new FileHandle(inputFiles[i])));
-        fhs.back()->openForRead();
-        closers.push_back(std::unique_ptr<eckit::AutoClose>(new AutoClose(*fhs.back())));
+        closers.push_back(std::unique_ptr<eckit::AutoClose>(new AutoClose(*fhs.back())));  // n.b. opened by Select
         readers.push_back(std::unique_ptr<odc::Select>(new S(sqls[i], *fhs[i])));
         iterators.push_back(std::make_pair(readers[i]->begin(), readers[i]->end()));
     }
diff --git a/src/odc/tools/SplitTool.cc b/src/odc/tools/SplitTool.cc
index 245f528..503f648 100644
--- a/src/odc/tools/SplitTool.cc
+++ b/src/odc/tools/SplitTool.cc
@@ -127,8 +127,7 @@ void SplitTool::presortAndSplit(const PathName& inFile, const std::string& outFi
     vector<std::pair<Offset, Length> > chunks(getChunks(inFile));
     for (size_t i = 0; i < chunks.size(); ++i) {
         PartFileHandle h(inFile, chunks[i].first, chunks[i].second);
-        h.openForRead();
-        AutoClose closer(h);
+        AutoClose closer(h);  // n.b. the handle is opened by Select
         odc::Select in(sql, h);
         outIt->pass1(in.begin(), in.end());
     }
-- 
2.43.0


From 5c1aff990383ee6c4d58cb526369fb59f0f4b17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 36/75] fix: failed writes were repeated, writers did not
 report failures to close their file, and wrong byte counts for file
 descriptors

---
 src/odc/WriterBufferingIterator.cc | 25 ++++++++++++++++++-------
 src/odc/WriterBufferingIterator.h  |  1 +
 src/odc/api/odc.cc                 | 22 +++++++++++++++++++---
 src/odc/core/Encoder.cc            |  8 ++++++--
 src/odc/tools/ImportTool.cc        |  1 +
 src/odc/tools/MDSetTool.cc         | 11 ++++++++---
 6 files changed, 53 insertions(+), 15 deletions(-)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index c59c15d..1447af7 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -49,6 +49,7 @@ WriterBufferingIterator::WriterBufferingIterator(Owner& owner, DataHandle* dh, b
     rowsBufferSize_(owner.rowsBufferSize()),
     tableDef_(tableDef),
     openDataHandle_(openDataHandle),
+    ownDataHandle_(true),
     closed_(false) {
     if (openDataHandle)
         open();
@@ -73,6 +74,7 @@ WriterBufferingIterator::WriterBufferingIterator(Owner& owner, DataHandle& dh, b
     rowsBufferSize_(owner.rowsBufferSize()),
     tableDef_(tableDef),
     openDataHandle_(openDataHandle),
+    ownDataHandle_(false),
     closed_(false) {
     if (openDataHandle)
         open();
@@ -372,10 +374,12 @@ void WriterBufferingIterator::flush() {
 
     LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::flush: header size: " << encodedHeader.second << std::endl;
 
-    ASSERT(dataHandle().write(encodedHeader.first, encodedHeader.second) ==
-           long(encodedHeader.second));  // Write header
-    ASSERT(dataHandle().write(encodedBuffer, encodedStream.position()) ==
-           encodedStream.position());  // Write encoded data
+    // n.b. ASSERT evaluates its argument again if it is false. Do not put the writes inside it, or the data is written twice.
+
+    long written = dataHandle().write(encodedHeader.first, encodedHeader.second);  // Write header
+    ASSERT(written == long(encodedHeader.second));
+    written = dataHandle().write(encodedBuffer, encodedStream.position());  // Write encoded data
+    ASSERT(written == long(encodedStream.position()));
 
     LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::flush: flushed " << rowsWritten << " rows." << std::endl;
 
@@ -401,13 +405,20 @@ int WriterBufferingIterator::close() {
             flush();
     }
     catch (...) {
-        if (!openDataHandle_) {
-            handle().close();
+        if (ownDataHandle_ || !openDataHandle_) {
+            try {
+                handle().close();
+            }
+            catch (std::exception& e) {
+                Log::error() << "Failed to close data handle: " << e.what() << std::endl;
+            }
         }
         throw;
     }
 
-    if (!openDataHandle_) {
+    // n.b. Data may be buffered by the handle, so failing to close it must be reported.
+
+    if (ownDataHandle_ || !openDataHandle_) {
         handle().close();
     }
     return 0;
diff --git a/src/odc/WriterBufferingIterator.h b/src/odc/WriterBufferingIterator.h
index 5c5c5e5..6e3b42d 100644
--- a/src/odc/WriterBufferingIterator.h
+++ b/src/odc/WriterBufferingIterator.h
@@ -170,6 +170,7 @@ private:
 private:
 
     bool openDataHandle_;
+    bool ownDataHandle_;
     bool closed_;
 
     friend class IteratorProxy<WriterBufferingIterator, Owner>;
diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 2b971b8..4b73b30 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -1177,7 +1177,8 @@ int odc_encode_to_stream(odc_encoder_t* encoder, void* handle, odc_stream_write_
         long read(void*, long) override { NOTIMP; }
         long write(const void* buffer, long length) override {
             long written = fn_(handle_, buffer, length);
-            pos_ += written;
+            if (written > 0)
+                pos_ += written;
             return written;
         }
         Offset position() override { return pos_; }
@@ -1200,13 +1201,28 @@ int odc_encode_to_stream(odc_encoder_t* encoder, void* handle, odc_stream_write_
 }
 
 int odc_encode_to_file_descriptor(odc_encoder_t* encoder, int fd, long* bytes_encoded) {
+
+    // n.b. The position of the file descriptor does not tell us how much we have written to it (it may be non-zero
+    //      to start with, or be unavailable if the descriptor is a pipe or a socket)
+    struct CountingFileDescHandle : public FileDescHandle {
+        explicit CountingFileDescHandle(int fd) : FileDescHandle(fd), count_(0) {}
+        long write(const void* buffer, long length) override {
+            long written = FileDescHandle::write(buffer, length);
+            if (written > 0)
+                count_ += written;
+            return written;
+        }
+
+        long count_;
+    };
+
     return wrapApiFunction([encoder, fd, bytes_encoded] {
-        FileDescHandle dh(fd);
+        CountingFileDescHandle dh(fd);
         dh.openForWrite(0);
         AutoClose closer(dh);
         odc_encode_to_data_handle(encoder, dh);
         if (bytes_encoded)
-            (*bytes_encoded) = dh.position();
+            (*bytes_encoded) = dh.count_;
     });
 }
 
diff --git a/src/odc/core/Encoder.cc b/src/odc/core/Encoder.cc
index f5934fc..202a7ec 100644
--- a/src/odc/core/Encoder.cc
+++ b/src/odc/core/Encoder.cc
@@ -114,8 +114,12 @@ void encodeFrame(eckit::DataHandle& out, const std::vector<api::ColumnInfo>& col
 
     // And output the data
 
-    ASSERT(out.write(encodedHeader.first, encodedHeader.second) == long(encodedHeader.second));
-    ASSERT(out.write(encodedBuffer, encodedStream.position()) == encodedStream.position());
+    // n.b. ASSERT evaluates its argument again if it is false. Do not put the writes inside it, or the data is written twice.
+
+    long written = out.write(encodedHeader.first, encodedHeader.second);
+    ASSERT(written == long(encodedHeader.second));
+    written = out.write(encodedBuffer, encodedStream.position());
+    ASSERT(written == long(encodedStream.position()));
 }
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/odc/tools/ImportTool.cc b/src/odc/tools/ImportTool.cc
index 83dd7f0..d23e623 100644
--- a/src/odc/tools/ImportTool.cc
+++ b/src/odc/tools/ImportTool.cc
@@ -81,6 +81,7 @@ void ImportTool::run() {
         dh_out.openForWrite(0);
         AutoClose close_out(dh_out);
         size_t n = api::odbFromCSV(dh_in, dh_out);
+        dh_out.close();
         Log::info() << "ImportTool::odbFromCSV: Copied " << n << " rows." << std::endl;
     }
     else {
diff --git a/src/odc/tools/MDSetTool.cc b/src/odc/tools/MDSetTool.cc
index 1189092..a58edae 100644
--- a/src/odc/tools/MDSetTool.cc
+++ b/src/odc/tools/MDSetTool.cc
@@ -104,17 +104,22 @@ void MDSetTool::run() {
 
             auto encodedHeader =
                 core::Header::serializeHeader(sizeOfEncodedData, md.rowsNumber(), it->properties(), md);
-            outHandle->write(encodedHeader.first, encodedHeader.second);
+            long written = outHandle->write(encodedHeader.first, encodedHeader.second);
+            ASSERT(written == long(encodedHeader.second));
         }
         else {
             Log::info() << "MDSetTool::run: OTHER ORDER " << sizeOfEncodedData << std::endl;
 
             auto encodedHeader =
                 core::Header::serializeHeaderOtherByteOrder(sizeOfEncodedData, md.rowsNumber(), it->properties(), md);
-            outHandle->write(encodedHeader.first, encodedHeader.second);
+            long written = outHandle->write(encodedHeader.first, encodedHeader.second);
+            ASSERT(written == long(encodedHeader.second));
         }
-        outHandle->write(encodedData.data(), sizeOfEncodedData);
+        long written = outHandle->write(encodedData.data(), sizeOfEncodedData);
+        ASSERT(written == long(sizeOfEncodedData));
     }
+
+    outHandle->close();
 }
 
 //
-- 
2.43.0


From 2a8b46184273a27487a138f20bd30a43b85090ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 37/75] fix: compact and fixrowsize reported a difference when
 only some input frames have missing values

---
 src/odc/tools/CompactTool.cc      | 2 +-
 src/odc/tools/FixedSizeRowTool.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/odc/tools/CompactTool.cc b/src/odc/tools/CompactTool.cc
index 3690d66..a4ee560 100644
--- a/src/odc/tools/CompactTool.cc
+++ b/src/odc/tools/CompactTool.cc
@@ -54,7 +54,7 @@ void CompactTool::run() {
     odc::Reader::iterator it2  = outReader.begin();
     odc::Reader::iterator end2 = outReader.end();
 
-    odc::Comparator comparator;
+    odc::Comparator comparator(true);  // the presence of missing values may differ frame by frame
     comparator.compare(it1, end1, it2, end2, inFile, outFile);
 }
 
diff --git a/src/odc/tools/FixedSizeRowTool.cc b/src/odc/tools/FixedSizeRowTool.cc
index 2292be8..5c78fa6 100644
--- a/src/odc/tools/FixedSizeRowTool.cc
+++ b/src/odc/tools/FixedSizeRowTool.cc
@@ -50,7 +50,7 @@ void FixedSizeRowTool::run() {
     odc::Reader::iterator end1 = in.end();
     odc::Reader::iterator it2  = outReader.begin();
     odc::Reader::iterator end2 = outReader.end();
-    odc::Comparator comparator;
+    odc::Comparator comparator(true);  // the presence of missing values may differ frame by frame
     comparator.compare(it1, end1, it2, end2, inFile, outFile);
 }
 
-- 
2.43.0


From 44e09c04c0ac542f77ec49dfe21179fe9a152df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:14 +0000
Subject: [PATCH 38/75] fix: a column was reported as ambiguous when another
 table has a column of the same name

---
 src/odc/core/MetaData.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/odc/core/MetaData.cc b/src/odc/core/MetaData.cc
index 0ea9e08..5641ef2 100644
--- a/src/odc/core/MetaData.cc
+++ b/src/odc/core/MetaData.cc
@@ -107,6 +107,19 @@ size_t MetaData::columnIndex(const std::string& name) const {
     const size_t notFound = std::numeric_limits<size_t>::max();
     size_t index          = notFound;
 
+    // n.b. A column which has exactly this name takes precedence over columns with this name in some table
+
+    for (size_t i = 0; i < size(); i++)
+        if (at(i)->name() == name) {
+            if (index == notFound)
+                index = i;
+            else
+                throw AmbiguousColumnException(name);
+        }
+
+    if (index != notFound)
+        return index;
+
     for (size_t i = 0; i < size(); i++)
         if (columnNameMatches(at(i)->name(), name)) {
             if (index == notFound)
-- 
2.43.0


From b16e3804c0760578fff9a6778b8c290e732cdb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 39/75] fix: sorted, distinct and aggregated selections failed
 when strings become narrower in a later frame

---
 src/odc/sql/SQLSelectOutput.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/odc/sql/SQLSelectOutput.cc b/src/odc/sql/SQLSelectOutput.cc
index 5fa9600..f31f4f2 100644
--- a/src/odc/sql/SQLSelectOutput.cc
+++ b/src/odc/sql/SQLSelectOutput.cc
@@ -153,6 +153,10 @@ void SQLSelectOutput::updateTypes(SQLSelect& sql) {
     metaData_.setSize(output.size());
     offsets_.clear();
     offsets_.reserve(output.size());
+
+    // n.b. Results may be delivered after the types have changed (e.g. when they are sorted). So the space for strings
+    //      must not shrink.
+    const std::vector<size_t> previousSizes(std::move(columnSizesDoubles_));
     columnSizesDoubles_.clear();
     columnSizesDoubles_.reserve(output.size());
     missingValues_.clear();
@@ -172,6 +176,9 @@ void SQLSelectOutput::updateTypes(SQLSelect& sql) {
         ASSERT(colSizeBytes % 8 == 0);
 
         columnSizesDoubles_.push_back(colSizeBytes / 8);
+        if (i < previousSizes.size()) {
+            columnSizesDoubles_.back() = std::max(columnSizesDoubles_.back(), previousSizes[i]);
+        }
         offsets_.push_back(offset);
         offset += columnSizesDoubles_.back();
 
-- 
2.43.0


From b946e710044fdcee16c1d6813734ee32a150f2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 40/75] fix: missing results of SQL expressions were not
 reported as missing

---
 src/odc/sql/SQLSelectOutput.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/odc/sql/SQLSelectOutput.cc b/src/odc/sql/SQLSelectOutput.cc
index f31f4f2..a8d9fb5 100644
--- a/src/odc/sql/SQLSelectOutput.cc
+++ b/src/odc/sql/SQLSelectOutput.cc
@@ -96,6 +96,10 @@ bool SQLSelectOutput::output(const expression::Expressions& results) {
 void SQLSelectOutput::outputNumber(double x, bool missing) {
     ASSERT(pos_ >= out_ && pos_ < end_);
     *pos_++ = (missing ? missingValues_[currentColumn_] : x);
+
+    // n.b. expressions don't know in advance if they are going to produce missing values
+    if (missing)
+        metaData_[currentColumn_]->hasMissing(true);
 }
 
 // TODO: We can add special missing-value behaviour here --- with user specified missing values!
-- 
2.43.0


From c09dcd087cde81b6ea0793e165e93a27c6ffb790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:56 +0000
Subject: [PATCH 41/75] fix: selecting a column which changes between string
 and number read outside of the row

---
 src/odc/sql/TODATableIterator.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/odc/sql/TODATableIterator.cc b/src/odc/sql/TODATableIterator.cc
index a4f1e46..07c1d65 100644
--- a/src/odc/sql/TODATableIterator.cc
+++ b/src/odc/sql/TODATableIterator.cc
@@ -16,6 +16,7 @@
 #include "odc/csv/TextReaderIterator.h"
 #include "odc/sql/TODATable.h"
 #include "odc/sql/TODATableIterator.h"
+#include "odc/sql/Types.h"
 
 
 namespace odc {
@@ -116,6 +117,10 @@ void TODATableIterator<READER>::updateMetaData() {
     for (const eckit::sql::SQLColumn& col : columns_) {
         const size_t idx = columnIndex(col.name(), md);
 
+        if ((sqlToOdbType(col.type()) == api::STRING) != (md[idx]->type() == api::STRING)) {
+            throw eckit::UserError("Column \"" + col.name() + "\" changes between string and numeric type.", Here());
+        }
+
         columnOffsets_.push_back(it_->dataOffset(idx));
         columnDoublesSizes_.push_back(it_->dataSizeDoubles(idx));
         columnsHaveMissing_.push_back(it_->hasMissing(idx));
-- 
2.43.0


From 2a5953ea7a4501c3df9360e45e0acd7b5c1ef377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 42/75] fix: sorted selections failed when strings become wider
 in a later frame

---
 src/odc/sql/ODAOutput.cc       | 17 +++++++++++++++++
 src/odc/sql/SQLSelectOutput.cc | 30 ++++++++++++++++++++++++++++++
 src/odc/sql/SQLSelectOutput.h  |  1 +
 3 files changed, 48 insertions(+)

diff --git a/src/odc/sql/ODAOutput.cc b/src/odc/sql/ODAOutput.cc
index afb590f..148f39a 100644
--- a/src/odc/sql/ODAOutput.cc
+++ b/src/odc/sql/ODAOutput.cc
@@ -72,6 +72,23 @@ void ODAOutput<WRITER>::cleanup(SQLSelect& sql) {
 template <typename WRITER>
 bool ODAOutput<WRITER>::output(const expression::Expressions& results) {
     size_t nCols(results.size());
+
+    // n.b. if the results are sorted, updateTypes() is not called when the types change
+
+    std::map<std::string, size_t> resetColumnSizeDoubles;
+    for (size_t i = 0; i < nCols; ++i) {
+        if (it_->columns()[i]->type() == STRING) {
+            size_t maxlen = results[i]->type()->size();
+            if (maxlen > columnSizes_[i]) {
+                columnSizes_[i]                                   = maxlen;
+                resetColumnSizeDoubles[it_->columns()[i]->name()] = maxlen / sizeof(double);
+            }
+        }
+    }
+    if (!resetColumnSizeDoubles.empty()) {
+        it_->flushAndResetColumnSizes(resetColumnSizeDoubles);
+    }
+
     for (col_ = 0; col_ < nCols; ++col_) {
         results[col_]->output(*this);
     }
diff --git a/src/odc/sql/SQLSelectOutput.cc b/src/odc/sql/SQLSelectOutput.cc
index a8d9fb5..6b0f33f 100644
--- a/src/odc/sql/SQLSelectOutput.cc
+++ b/src/odc/sql/SQLSelectOutput.cc
@@ -125,6 +125,11 @@ void SQLSelectOutput::outputString(const char* s, size_t len, bool missing) {
     ASSERT(pos_ >= out_ && (pos_ + columnSizesDoubles_[currentColumn_]) <= end_);
 
     size_t charSize = columnSizesDoubles_[currentColumn_] * sizeof(double);
+    if (len > charSize && manageOwnBuffer_) {
+        // n.b. if the results are sorted, updateTypes() is not called when the types change
+        growColumn((len + sizeof(double) - 1) / sizeof(double));
+        charSize = columnSizesDoubles_[currentColumn_] * sizeof(double);
+    }
     if (len > charSize) {
         std::ostringstream ss;
         ss << "String too long for configured output: " << len << " > " << charSize;
@@ -146,6 +151,31 @@ void SQLSelectOutput::outputString(const char* s, size_t len, bool missing) {
 }
 
 
+void SQLSelectOutput::growColumn(size_t sizeDoubles) {
+
+    ASSERT(manageOwnBuffer_);
+    ASSERT(sizeDoubles > columnSizesDoubles_[currentColumn_]);
+    const size_t extra = sizeDoubles - columnSizesDoubles_[currentColumn_];
+
+    columnSizesDoubles_[currentColumn_] = sizeDoubles;
+    metaData_[currentColumn_]->dataSizeDoubles(sizeDoubles);
+    for (size_t i = currentColumn_ + 1; i < offsets_.size(); i++) {
+        offsets_[i] += extra;
+    }
+    requiredBufferSize_ += extra;
+
+    // The columns before this one have been output already
+
+    data_.resize(requiredBufferSize_);
+    out_            = &data_[0];
+    pos_            = out_ + offsets_[currentColumn_];
+    end_            = out_ + requiredBufferSize_;
+    bufferElements_ = requiredBufferSize_;
+
+    isNewDataset_        = true;
+    newDatasetOutputted_ = false;
+}
+
 void SQLSelectOutput::prepare(SQLSelect& sql) {
     updateTypes(sql);
 }
diff --git a/src/odc/sql/SQLSelectOutput.h b/src/odc/sql/SQLSelectOutput.h
index 21bf7d4..23bc325 100644
--- a/src/odc/sql/SQLSelectOutput.h
+++ b/src/odc/sql/SQLSelectOutput.h
@@ -66,6 +66,7 @@ public:  // methods
 private:  // utility
 
     void outputNumber(double val, bool missing);
+    void growColumn(size_t sizeDoubles);
 
 private:  // methods (overrides)
 
-- 
2.43.0


From 0413ea11427a5fa4a728ca6e9da4c9d1a4dab471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:37 +0000
Subject: [PATCH 43/75] fix: odc import ignored the delimiter

---
 src/odc/tools/ImportTool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/tools/ImportTool.cc b/src/odc/tools/ImportTool.cc
index d23e623..28eb968 100644
--- a/src/odc/tools/ImportTool.cc
+++ b/src/odc/tools/ImportTool.cc
@@ -80,7 +80,7 @@ void ImportTool::run() {
         AutoClose close_in(dh_in);
         dh_out.openForWrite(0);
         AutoClose close_out(dh_out);
-        size_t n = api::odbFromCSV(dh_in, dh_out);
+        size_t n = api::odbFromCSV(dh_in, dh_out, delimiter);
         dh_out.close();
         Log::info() << "ImportTool::odbFromCSV: Copied " << n << " rows." << std::endl;
     }
-- 
2.43.0


From 6e5b394ddac30c85926ed5999c347c55145c2892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:37 +0000
Subject: [PATCH 44/75] fix: text import silently ended at the first blank line

---
 src/odc/csv/TextReaderIterator.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index 2141c28..ad8623a 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -191,16 +191,19 @@ bool TextReaderIterator::next() {
     if (noMore_)
         return false;
 
+    // Blank lines are not rows, but do not end the data either
+
     std::string line;
-    std::getline(*in_, line);
-    line = S::trim(line);
+    while (line.empty()) {
+        if (!std::getline(*in_, line)) {
+            noMore_ = true;
+            return false;
+        }
+        line = S::trim(line);
+    }
     std::vector<std::string> values(S::split(delimiter_, line));
 
     size_t nCols = values.size();
-    if (nCols == 0) {
-        noMore_ = true;
-        return false;
-    }
     ASSERT(nCols == columns().size());
 
     for (size_t i = 0; i < nCols; ++i) {
-- 
2.43.0


From 3d1cc8edfe3a7140e02e02e362183d6673af7136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:55 +0000
Subject: [PATCH 45/75] fix: text import truncated values which are not
 integers

---
 src/odc/csv/TextReaderIterator.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index ad8623a..c077d69 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -14,6 +14,7 @@
 /// @author Piotr Kuchta, Oct 2010
 
 #include <algorithm>
+#include <cmath>
 #include <fstream>
 
 #include "eckit/filesystem/PathName.h"
@@ -33,6 +34,19 @@ typedef StringTools S;
 
 namespace odc {
 
+namespace {
+
+/// Translator<std::string, long> ignores everything after the digits, and whatever does not fit.
+double parseInteger(const std::string& s) {
+    double d     = Translator<std::string, double>()(s);
+    double limit = 9223372036854775808.0;  // 2^63
+    if (!(d >= -limit && d < limit && d == std::trunc(d)))
+        throw UserError("Invalid integer '" + s + "'", Here());
+    return d;
+}
+
+}  // namespace
+
 TextReaderIterator::TextReaderIterator(TextReader& owner) :
     columns_(0),
     lastValues_(0),
@@ -256,7 +270,7 @@ bool TextReaderIterator::next() {
 
                 case api::INTEGER:
                 case api::BITFIELD:
-                    lastValues_[columnOffsets_[i]] = static_cast<double>(Translator<std::string, long>()(v));
+                    lastValues_[columnOffsets_[i]] = parseInteger(v);
                     break;
 
                 default:
-- 
2.43.0


From 7e3eb92bb161f2ab2ecf81f2aeaf7e39e8853662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:55 +0000
Subject: [PATCH 46/75] fix: text import accepted rows with additional empty
 fields

---
 src/odc/csv/TextReaderIterator.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index c077d69..47d01ac 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -45,6 +45,22 @@ double parseInteger(const std::string& s) {
     return d;
 }
 
+/// Split a line into fields. Empty fields count, unless the fields are separated by (any number of) spaces.
+std::vector<std::string> splitFields(const std::string& delimiter, const std::string& line) {
+    if (delimiter.size() != 1 || delimiter == " ")
+        return S::split(delimiter, line);
+
+    std::vector<std::string> fields;
+    size_t start = 0;
+    size_t end;
+    while ((end = line.find(delimiter, start)) != std::string::npos) {
+        fields.push_back(line.substr(start, end - start));
+        start = end + delimiter.size();
+    }
+    fields.push_back(line.substr(start));
+    return fields;
+}
+
 }  // namespace
 
 TextReaderIterator::TextReaderIterator(TextReader& owner) :
@@ -139,7 +155,7 @@ eckit::sql::BitfieldDef TextReaderIterator::parseBitfields(const std::string& c)
 void TextReaderIterator::parseHeader() {
     std::string header;
     std::getline(*in_, header);
-    std::vector<std::string> columns(S::split(delimiter_, header));
+    std::vector<std::string> columns(splitFields(delimiter_, header));
     // c->missingValue(missingValue);
 
     std::ostream& L(Log::info());
@@ -215,7 +231,7 @@ bool TextReaderIterator::next() {
         }
         line = S::trim(line);
     }
-    std::vector<std::string> values(S::split(delimiter_, line));
+    std::vector<std::string> values(splitFields(delimiter_, line));
 
     size_t nCols = values.size();
     ASSERT(nCols == columns().size());
-- 
2.43.0


From cd0fb70c1461bc3542bec6a163dc3575f172a9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:12 +0000
Subject: [PATCH 47/75] fix: text import accepted empty and duplicate column
 names and empty bitfield members

---
 src/odc/csv/TextReaderIterator.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index 47d01ac..b59dbc6 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -137,7 +137,7 @@ eckit::sql::BitfieldDef TextReaderIterator::parseBitfields(const std::string& c)
 
         int size = atoi(v[1].c_str());
 
-        if (!(v.size() > 0))
+        if (!(size > 0))
             throw UserError("Size of a bitfield must be positive and larger than zero");
 
         numberOfBits += size;
@@ -172,6 +172,11 @@ void TextReaderIterator::parseHeader() {
             throw UserError(std::string("Column '") + columns[i] + "': format should be NAME \":\" TYPE");
 
         const std::string columnName(S::trim(column[0]));
+        if (columnName.empty() || std::any_of(columns_.begin(), columns_.end(), [&columnName](const core::Column* c) {
+                return c->name() == columnName;
+            }))
+            throw UserError("Column '" + columns[i] + "': names must be unique and not empty");
+
         const std::string columnType(
             S::upper(S::join(":", std::vector<std::string>(column.begin() + 1, column.end()))));
 
-- 
2.43.0


From ed030d157e8c7af7a3ea60d362ec7d81b67b0061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:12 +0000
Subject: [PATCH 48/75] fix: NULL strings were imported with the end of the
 last row's string

---
 src/odc/csv/TextReaderIterator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index b59dbc6..c18ce99 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -245,6 +245,9 @@ bool TextReaderIterator::next() {
         const std::string& v(S::trim(values[i]));
         if (S::upper(v) == "NULL") {
             lastValues_[columnOffsets_[i]] = columns_[i]->missingValue();
+            // n.b. nothing may remain of the last row's string
+            std::fill(&lastValues_[columnOffsets_[i] + 1],
+                      &lastValues_[columnOffsets_[i] + columns_[i]->dataSizeDoubles()], 0.0);
         }
         else {
             api::ColumnType typ(columns()[i]->type());
-- 
2.43.0


From 35307c5ed3a4478b334ddde1be9a8a2895e5c2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:17 +0000
Subject: [PATCH 49/75] fix: text import lost empty fields at the ends of TAB
 separated lines

---
 src/odc/csv/TextReaderIterator.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index c18ce99..a67488c 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -48,7 +48,7 @@ double parseInteger(const std::string& s) {
 /// Split a line into fields. Empty fields count, unless the fields are separated by (any number of) spaces.
 std::vector<std::string> splitFields(const std::string& delimiter, const std::string& line) {
     if (delimiter.size() != 1 || delimiter == " ")
-        return S::split(delimiter, line);
+        return S::split(delimiter, S::trim(line));
 
     std::vector<std::string> fields;
     size_t start = 0;
@@ -229,13 +229,12 @@ bool TextReaderIterator::next() {
     // Blank lines are not rows, but do not end the data either
 
     std::string line;
-    while (line.empty()) {
+    do {
         if (!std::getline(*in_, line)) {
             noMore_ = true;
             return false;
         }
-        line = S::trim(line);
-    }
+    } while (S::trim(line).empty());
     std::vector<std::string> values(splitFields(delimiter_, line));
 
     size_t nCols = values.size();
-- 
2.43.0


From e1f421e267d1baa1a20ef2ce09830e7d2fbf54ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:47 +0000
Subject: [PATCH 50/75] fix: selecting from a table without rows failed

---
 src/odc/sql/TODATableIterator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/odc/sql/TODATableIterator.cc b/src/odc/sql/TODATableIterator.cc
index 07c1d65..135230c 100644
--- a/src/odc/sql/TODATableIterator.cc
+++ b/src/odc/sql/TODATableIterator.cc
@@ -64,8 +64,8 @@ TODATableIterator<READER>::TODATableIterator(
     metadataUpdateCallback_(metadataUpdateCallback),
     firstRow_(true) {
 
-    if (it_ != end_)
-        updateMetaData();
+    // n.b. the columns are known even if there are no rows
+    updateMetaData();
 }
 
 template <typename READER>
-- 
2.43.0


From 62b2dd3d2a5a257343d964aaba25f6e1bb404987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 51/75] fix: NULL fields of imported text took part in SQL
 conditions as numbers

---
 src/odc/sql/TODATable.cc         | 2 +-
 src/odc/sql/TODATable.h          | 9 +++++++++
 src/odc/sql/TODATableIterator.cc | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/odc/sql/TODATable.cc b/src/odc/sql/TODATable.cc
index 812ae39..9bc9e40 100644
--- a/src/odc/sql/TODATable.cc
+++ b/src/odc/sql/TODATable.cc
@@ -93,7 +93,7 @@ void TODATable<READER>::populateMetaData() {
         Column& column(*it->columns()[i]);
 
         const std::string name(column.name());
-        bool hasMissing(column.hasMissing());
+        bool hasMissing(mayBeMissing(oda_, column));
         double missing(column.missingValue());
         BitfieldDef bitfieldDef(column.bitfieldDef());
 
diff --git a/src/odc/sql/TODATable.h b/src/odc/sql/TODATable.h
index 5cb26bb..e453bf9 100644
--- a/src/odc/sql/TODATable.h
+++ b/src/odc/sql/TODATable.h
@@ -70,6 +70,15 @@ private:  // members
 
 // Specific cases for Reader and TextReader
 
+inline bool mayBeMissing(const Reader&, const core::Column& column) {
+    return column.hasMissing();
+}
+
+/// Whether there are missing values is not known until all the text has been read
+inline bool mayBeMissing(const TextReader&, const core::Column& column) {
+    return column.type() != api::STRING;
+}
+
 extern template class TODATable<Reader>;
 extern template class TODATable<TextReader>;
 
diff --git a/src/odc/sql/TODATableIterator.cc b/src/odc/sql/TODATableIterator.cc
index 135230c..98fc443 100644
--- a/src/odc/sql/TODATableIterator.cc
+++ b/src/odc/sql/TODATableIterator.cc
@@ -123,7 +123,7 @@ void TODATableIterator<READER>::updateMetaData() {
 
         columnOffsets_.push_back(it_->dataOffset(idx));
         columnDoublesSizes_.push_back(it_->dataSizeDoubles(idx));
-        columnsHaveMissing_.push_back(it_->hasMissing(idx));
+        columnsHaveMissing_.push_back(mayBeMissing(parent_.oda(), *md[idx]));
         columnMissingValues_.push_back(it_->missingValue(idx));
     }
 }
-- 
2.43.0


From 3afe8ba6dac10c745397c347e0f9c481bb495b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:20 +0000
Subject: [PATCH 52/75] fix: setting the size of the rows buffer of a writer
 had no defined result

---
 src/odc/Writer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/odc/Writer.h b/src/odc/Writer.h
index 8bb16d3..d35cd4f 100644
--- a/src/odc/Writer.h
+++ b/src/odc/Writer.h
@@ -54,7 +54,10 @@ public:
     ITERATOR* createWriteIterator(eckit::PathName, bool append = false);
 
     unsigned long rowsBufferSize() { return rowsBufferSize_; }
-    Writer& rowsBufferSize(unsigned long n) { rowsBufferSize_ = n; }
+    Writer& rowsBufferSize(unsigned long n) {
+        rowsBufferSize_ = n;
+        return *this;
+    }
 
     const eckit::PathName path() { return path_; }
 
-- 
2.43.0


From 5df93620fdd1f82af721f32490158ec4e6ebcae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:20 +0000
Subject: [PATCH 53/75] fix: values of a row which are not set again were lost
 when the row writer's buffer became full

---
 src/odc/WriterBufferingIterator.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index 1447af7..b502eea 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -13,6 +13,9 @@
 ///
 /// @author Piotr Kuchta, Feb 2009
 
+#include <algorithm>
+#include <vector>
+
 #include "eckit/exception/Exceptions.h"
 #include "eckit/io/DataHandle.h"
 #include "eckit/log/Log.h"
@@ -367,7 +370,10 @@ void WriterBufferingIterator::flush() {
     }
 
     // Clean up storage buffers for row data
+    // n.b. values which are not set again before the next row stay as they are, whether or not the buffer was full
+    const std::vector<double> nextRow(nextRow_, nextRow_ + rowDataSizeDoubles());
     allocBuffers();
+    std::copy(nextRow.begin(), nextRow.end(), nextRow_);
 
     std::pair<Buffer, size_t> encodedHeader = serializeHeader(encodedStream.position(), rowsWritten);
     ASSERT(encodedHeader.second <= encodedHeader.first.size());
-- 
2.43.0


From fa79e150acde13ed4cb03154d2630fe3b52f4bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:04 +0000
Subject: [PATCH 54/75] fix: wider strings through the dispatching writer were
 written beyond the row buffer

---
 src/odc/WriterDispatchingIterator.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index cfd76d2..51bc406 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -498,12 +498,9 @@ void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::flushAndResetColumnSizes(
     for (const auto& kv : resetColumnSizeDoubles) {
         columns_.columnByName(kv.first)->dataSizeDoubles(kv.second);
     }
-    if (initialized_)
-        parseTemplateParameters();
 
-    for (size_t i = 0; i < iterators_.size(); ++i) {
-        iterators_[i]->flushAndResetColumnSizes(resetColumnSizeDoubles);
-    }
+    // n.b. The layout of the row has changed, so this also flushes and resets the iterators
+    writeHeader();
 }
 
 
-- 
2.43.0


From 0c86a92ef448bd5d305cf4a62c5c2187f81d7437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:36 +0000
Subject: [PATCH 55/75] fix: rows went to the file of another value when a
 column of the name template changed its type

---
 src/odc/WriterDispatchingIterator.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index 51bc406..efa38cf 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -338,6 +338,11 @@ void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::parseTemplateParameters()
         inputOffsets_.push_back(offset);
         offset += column->dataSizeDoubles();
     }
+
+    // n.b. The same representation may stand for other values, if the types of the columns have changed
+    values2iteratorIndex_.clear();
+    lastDispatchedValues_.clear();
+
     initialized_ = true;
 }
 
-- 
2.43.0


From 67b5f2b4b3d6a22a80ef64865bac6df59c3624f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:10 +0000
Subject: [PATCH 56/75] fix: empty strings stored in different ways were
 compared as different

---
 src/odc/Comparator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/odc/Comparator.cc b/src/odc/Comparator.cc
index 2f2641f..43dc64e 100644
--- a/src/odc/Comparator.cc
+++ b/src/odc/Comparator.cc
@@ -121,8 +121,9 @@ void Comparator::compare(int nCols, const double* data1, const double* data2, co
 
             // Is this a missing value in both columns?
 
+            // n.b. There are no missing strings
             bool isMissing1 = false;
-            if (column.hasMissing() || skipTestingHaveMissing_) {
+            if (type != STRING && (column.hasMissing() || skipTestingHaveMissing_)) {
                 double missing1                 = column.missingValue();
                 const char* punnable_val1       = reinterpret_cast<const char*>(pdata1);
                 const char* punnable_missing1   = reinterpret_cast<const char*>(&missing1);
@@ -132,7 +133,7 @@ void Comparator::compare(int nCols, const double* data1, const double* data2, co
             }
 
             bool isMissing2 = false;
-            if (column2.hasMissing() || skipTestingHaveMissing_) {
+            if (column2.type() != STRING && (column2.hasMissing() || skipTestingHaveMissing_)) {
                 double missing2                 = column2.missingValue();
                 const char* punnable_val2       = reinterpret_cast<const char*>(pdata2);
                 const char* punnable_missing2   = reinterpret_cast<const char*>(&missing2);
-- 
2.43.0


From 3c65c0c5221b3afed3075f8f83f4fcf5862e4cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:10 +0000
Subject: [PATCH 57/75] fix: equal infinite values were compared as different

---
 src/odc/Comparator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/Comparator.h b/src/odc/Comparator.h
index 51ec346..6f42238 100644
--- a/src/odc/Comparator.h
+++ b/src/odc/Comparator.h
@@ -77,7 +77,7 @@ public:
         return relativeError;
     }
 
-    inline static int same(double A, double B) { return err(A, B) < maxRelativeError; }
+    inline static int same(double A, double B) { return A == B || err(A, B) < maxRelativeError; }
 
     void raiseNotEqual(const core::Column&, double, double);
 
-- 
2.43.0


From 69f2ec4f51f014b77189331320b232d9e89280cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:10 +0000
Subject: [PATCH 58/75] fix: integers which differ by less than 1e-9 of their
 value were compared as equal

---
 src/odc/Comparator.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/odc/Comparator.cc b/src/odc/Comparator.cc
index 43dc64e..f09041a 100644
--- a/src/odc/Comparator.cc
+++ b/src/odc/Comparator.cc
@@ -168,6 +168,13 @@ void Comparator::compare(int nCols, const double* data1, const double* data2, co
                     }
                     case INTEGER:
                     case BITFIELD:
+                        // n.b. integers are exact (and may not be represented as doubles)
+                        if (column2.type() == INTEGER || column2.type() == BITFIELD) {
+                            if (::memcmp(pdata1, pdata2, sizeof(double)) != 0 && !(*pdata1 == 0 && *pdata2 == 0))
+                                raiseNotEqual(column, *pdata1, *pdata2);
+                            break;
+                        }
+                        // fallthrough
                     case DOUBLE:
                         if (!(same(*pdata1, *pdata2) || (NaN_isOK_ && (::isnan(*pdata1) && ::isnan(*pdata2)))))
                             raiseNotEqual(column, *pdata1, *pdata2);
-- 
2.43.0


From 45a8fb83c8c724a4ee0d899a0a3ef847eee247e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:55 +0000
Subject: [PATCH 59/75] fix: merge cut strings to eight characters and mixed up
 columns of inputs which change

---
 src/odc/tools/MergeTool.cc | 55 +++++++++++++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 3 deletions(-)

diff --git a/src/odc/tools/MergeTool.cc b/src/odc/tools/MergeTool.cc
index 1b7395e..2ae6866 100644
--- a/src/odc/tools/MergeTool.cc
+++ b/src/odc/tools/MergeTool.cc
@@ -9,6 +9,11 @@
  */
 
 #include "odc/tools/MergeTool.h"
+
+#include <algorithm>
+#include <map>
+#include <string>
+
 #include "eckit/exception/Exceptions.h"
 #include "eckit/io/FileHandle.h"
 #include "eckit/log/Timer.h"
@@ -73,13 +78,21 @@ void MergeTool::run() {
         merge(inputFiles_, sql_, outputFile_);
 }
 
+static bool sameColumn(const MetaData& md, size_t i, const Column& column) {
+    return i < md.size() && md[i]->name() == column.name() && md[i]->type() == column.type() &&
+           md[i]->bitfieldDef() == column.bitfieldDef();
+}
+
 template <typename T, typename I>
 void doMerge(std::vector<std::pair<I, I>>& iterators, const PathName& outputFile) {
     odc::Writer<> writer(outputFile);
     odc::Writer<>::iterator out(writer.begin());
 
+    std::vector<size_t> numberOfColumns;
+
     for (size_t i = 0; i < iterators.size(); ++i) {
         MetaData columns(iterators[i].first->columns());
+        numberOfColumns.push_back(columns.size());
 
         for (size_t i = 0; i < columns.size(); ++i)
             if (out->columns().hasColumn(columns[i]->name()))
@@ -94,16 +107,52 @@ void doMerge(std::vector<std::pair<I, I>>& iterators, const PathName& outputFile
     out->writeHeader();
     Log::info() << "MergeTool::merge: output metadata: " << out->columns() << std::endl;
 
-    for (;;) {
+    for (bool first = true;; first = false) {
+
+        std::map<std::string, size_t> resetColumnSizeDoubles;
+
         for (size_t i = 0, ii = 0; ii < iterators.size(); ++ii) {
             I& in(iterators[ii].first);
             I& inEnd(iterators[ii].second);
             if (!(in != inEnd))
                 return (void)(Log::info() << "Input file number " << ii << " ended." << std::endl);
 
-            for (size_t cn = 0; cn < in->columns().size(); ++cn) {
+            if (first || !in->isNewDataset()) {
+                i += in->columns().size();
+                continue;
+            }
+
+            const MetaData& columns(in->columns());
+            for (size_t cn = 0; cn < columns.size(); ++cn, ++i) {
+                if (!sameColumn(out->columns(), i, *columns[cn]))
+                    throw eckit::UserError(std::string("The columns of input file number ") + std::to_string(ii) +
+                                           " of merge change.");
+                if (columns[cn]->dataSizeDoubles() > out->columns()[i]->dataSizeDoubles())
+                    resetColumnSizeDoubles[columns[cn]->name()] = columns[cn]->dataSizeDoubles();
+            }
+            if (columns.size() != numberOfColumns[ii])
+                throw eckit::UserError(std::string("The columns of input file number ") + std::to_string(ii) +
+                                       " of merge change.");
+        }
+
+        if (!resetColumnSizeDoubles.empty())
+            out->flushAndResetColumnSizes(resetColumnSizeDoubles);
+
+        for (size_t i = 0, ii = 0; ii < iterators.size(); ++ii) {
+            I& in(iterators[ii].first);
+
+            // n.b. Strings may be wider than a double
+            const MetaData& columns(in->columns());
+            const double* values(in->data());
+            for (size_t cn = 0; cn < columns.size(); ++cn, ++i) {
                 ASSERT(i < out->columns().size());
-                out->data(i++) = (*in)[cn];
+                const size_t n(columns[cn]->dataSizeDoubles());
+                double* p(&out->data(i));
+                std::fill(std::copy(values, values + n, p), p + out->columns()[i]->dataSizeDoubles(), 0);
+                if (columns[cn]->type() != odc::api::STRING && columns[cn]->hasMissing() &&
+                    *values == columns[cn]->missingValue())
+                    *p = out->columns()[i]->missingValue();
+                values += n;
             }
             ++in;
         }
-- 
2.43.0


From cdd5e38aa124108d1c01ccb119701531c415a6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:35 +0000
Subject: [PATCH 60/75] fix: mdset ignored the definition of a bitfield

---
 src/odc/tools/MDSetTool.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/odc/tools/MDSetTool.cc b/src/odc/tools/MDSetTool.cc
index a58edae..8baa9f6 100644
--- a/src/odc/tools/MDSetTool.cc
+++ b/src/odc/tools/MDSetTool.cc
@@ -77,10 +77,10 @@ void MDSetTool::run() {
             Column& c(*md[md.columnIndex(columns[i])]);
             Log::info() << "" << columns[i] << ": " << c << endl;
 
-            if (types[i].size() && types[i] != "NONE")
-                c.type(Column::type(types[i]));
             if (bitfieldDefs[i].first.size())
                 c.bitfieldDef(bitfieldDefs[i]);
+            else if (types[i].size() && types[i] != "NONE")
+                c.type(Column::type(types[i]));
             if (values[i].size() && values[i] != "NONE") {
                 Codec& codec(c.coder());
                 if (codec.name().find("constant") == std::string::npos) {
@@ -132,9 +132,10 @@ void MDSetTool::parseUpdateList(const std::string& s, std::vector<std::string>&
     for (size_t i = 0; i < assignments.size(); ++i) {
         vector<string> assignment(S::split("=", assignments[i]));
         string value(assignment.size() == 2 ? assignment[1] : "NONE");
-        vector<string> columnNameAndType(S::split(":", assignment[0]));
-        string type(columnNameAndType.size() == 2 ? columnNameAndType[1] : "NONE");
-        string column(columnNameAndType[0]);
+        // n.b. The definition of a bitfield has colons itself
+        size_t colon(assignment[0].find(':'));
+        string type(colon != string::npos ? assignment[0].substr(colon + 1) : "NONE");
+        string column(assignment[0].substr(0, colon));
 
         eckit::sql::BitfieldDef bf;
         if (type.size() && type[0] == '[' && type[type.size() - 1] == ']') {
-- 
2.43.0


From ae1247508e002ce2a3b990b17219f794aa8bc93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:31 +0000
Subject: [PATCH 61/75] fix: mdset left long constant strings as they were

---
 src/odc/tools/MDSetTool.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/odc/tools/MDSetTool.cc b/src/odc/tools/MDSetTool.cc
index 8baa9f6..5857fae 100644
--- a/src/odc/tools/MDSetTool.cc
+++ b/src/odc/tools/MDSetTool.cc
@@ -18,6 +18,7 @@
 #include "eckit/utils/Tokenizer.h"
 
 #include "odc/ODBAPISettings.h"
+#include "odc/core/CodecFactory.h"
 #include "odc/core/Header.h"
 #include "odc/core/MetaData.h"
 #include "odc/core/TablesReader.h"
@@ -88,6 +89,19 @@ void MDSetTool::run() {
                     ss << "Column '" << columns[i] << "' is not constant (codec: " << codec.name() << ")" << endl;
                     throw UserError(ss.str());
                 }
+                if (codec.name() == "long_constant_string") {
+                    // The text is not kept in the bounds of this codec
+                    bool hasMissing     = c.hasMissing();
+                    double missingValue = c.missingValue();
+                    if (it->byteOrder() == BYTE_ORDER_INDICATOR) {
+                        c.coder(CodecFactory::instance().build<SameByteOrder>("constant_string", c.type()));
+                    }
+                    else {
+                        c.coder(CodecFactory::instance().build<OtherByteOrder>("constant_string", c.type()));
+                    }
+                    c.hasMissing(hasMissing);
+                    c.missingValue(missingValue);
+                }
                 double v(StringTool::translate(values[i]));
                 c.min(v);
                 c.max(v);
-- 
2.43.0


From fe740dcac38ab6bb77cba51631b7b53118fbff4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:47 +0000
Subject: [PATCH 62/75] fix: odc header rounded the missing value of columns
 without any value

---
 src/odc/codec/IntegerMissing.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/odc/codec/IntegerMissing.h b/src/odc/codec/IntegerMissing.h
index ff6ed92..6cb8a24 100644
--- a/src/odc/codec/IntegerMissing.h
+++ b/src/odc/codec/IntegerMissing.h
@@ -105,13 +105,13 @@ struct CodecConstantOrMissing
 private:  // methods
 
     void print(std::ostream& s) const {
-        s << this->name_ << ", value=";
+        s << this->name_ << ", value=" << std::fixed;
 
         if (this->min_ == this->missingValue_) {
             s << "NULL";
         }
         else {
-            s << std::fixed << this->min_;
+            s << this->min_;
         }
         s << ", hasMissing=" << (this->hasMissing_ ? "true" : "false");
 
-- 
2.43.0


From 0435f6929724a5c9a3f85e2a3572bd6c9f16d0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:59 +0000
Subject: [PATCH 63/75] fix: odc header -ddl did not show changes of the
 members of bitfields

---
 src/odc/tools/ODAHeaderTool.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/odc/tools/ODAHeaderTool.cc b/src/odc/tools/ODAHeaderTool.cc
index b743cf4..5abdd72 100644
--- a/src/odc/tools/ODAHeaderTool.cc
+++ b/src/odc/tools/ODAHeaderTool.cc
@@ -63,12 +63,22 @@ public:
     DDLPrinter(const std::string& path, const std::string& tableName) : path_(path), tableName_(tableName) {}
 
     void print(std::ostream& o, const core::Table& tbl) {
-        if (md_.empty() || md_.back() != tbl.columns()) {
+        if (md_.empty() || !sameDefinition(md_.back(), tbl.columns())) {
             md_.push_back(tbl.columns());
             return;
         }
     }
 
+    static bool sameDefinition(const MetaData& lhs, const MetaData& rhs) {
+        if (lhs != rhs)
+            return false;
+        // n.b. The equality of columns does not include the members of bitfields
+        for (size_t i(0); i < lhs.size(); ++i)
+            if (lhs[i]->type() == api::BITFIELD && lhs[i]->bitfieldDef() != rhs[i]->bitfieldDef())
+                return false;
+        return true;
+    }
+
     void printSummary(std::ostream& o) {
         for (size_t i(0); i < md_.size(); ++i)
             printTable(o, md_[i], tableName_, path_);
-- 
2.43.0


From 79699133950d2fbb5bc1598deeb8b4daed64b99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:00 +0000
Subject: [PATCH 64/75] fix: api::Reader leaked the data handle it owns when it
 could not be opened

---
 src/odc/core/ThreadSharedDataHandle.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/odc/core/ThreadSharedDataHandle.cc b/src/odc/core/ThreadSharedDataHandle.cc
index bc21270..a32e536 100644
--- a/src/odc/core/ThreadSharedDataHandle.cc
+++ b/src/odc/core/ThreadSharedDataHandle.cc
@@ -22,7 +22,10 @@ namespace core {
 ThreadSharedDataHandle::Internal::Internal(eckit::DataHandle* dh, bool owned) : dh_(dh), owned_(owned) {
 
     if (owned_) {
+        // The destructor is not called if the constructor throws
+        std::unique_ptr<eckit::DataHandle> guard(dh_);
         dh_->openForRead();
+        guard.release();
     }
 }
 
-- 
2.43.0


From 83048cb6199f3d84b7b7bdd55bb5d027e6f594c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:00 +0000
Subject: [PATCH 65/75] fix: the row reader leaked its handle and open
 descriptor when the first frame could not be read

---
 src/odc/Reader.cc         |  6 ++++--
 src/odc/ReaderIterator.cc | 20 ++++++++++++++++----
 src/odc/ReaderIterator.h  |  1 +
 src/odc/Select.cc         |  4 ++--
 4 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/odc/Reader.cc b/src/odc/Reader.cc
index 8bc5c27..74beade 100644
--- a/src/odc/Reader.cc
+++ b/src/odc/Reader.cc
@@ -10,6 +10,8 @@
 
 #include "odc/Reader.h"
 
+#include <memory>
+
 #include "eckit/io/DataHandle.h"
 
 
@@ -54,9 +56,9 @@ ReaderIterator* Reader::createReadIterator() {
 }
 
 Reader::iterator Reader::begin() {
-    ReaderIterator* it = new ReaderIterator(*this);
+    std::unique_ptr<ReaderIterator> it(new ReaderIterator(*this));
     it->next();
-    return iterator(it);
+    return iterator(it.release());
 }
 
 const Reader::iterator Reader::end() const {
diff --git a/src/odc/ReaderIterator.cc b/src/odc/ReaderIterator.cc
index 81f9f03..2f1cf38 100644
--- a/src/odc/ReaderIterator.cc
+++ b/src/odc/ReaderIterator.cc
@@ -38,9 +38,7 @@ ReaderIterator::ReaderIterator(Reader& owner) :
     byteOrder_(BYTE_ORDER_INDICATOR),
     refCount_(0) {
     ASSERT(f_);
-    f_->openForRead();
-
-    loadHeaderAndBufferData();
+    open();
 }
 
 eckit::DataHandle* ReaderIterator::dataHandle() {
@@ -64,9 +62,23 @@ ReaderIterator::ReaderIterator(Reader& owner, const PathName& pathName) :
     byteOrder_(BYTE_ORDER_INDICATOR),
     refCount_(0) {
     ASSERT(f_);
+    open();
+}
+
+void ReaderIterator::open() {
+
     f_->openForRead();
 
-    loadHeaderAndBufferData();
+    // The destructor is not called if the constructor throws
+    try {
+        loadHeaderAndBufferData();
+    }
+    catch (...) {
+        close();
+        delete[] lastValues_;
+        delete[] columnOffsets_;
+        throw;
+    }
 }
 
 bool ReaderIterator::loadHeaderAndBufferData() {
diff --git a/src/odc/ReaderIterator.h b/src/odc/ReaderIterator.h
index db8b26c..1a52e42 100644
--- a/src/odc/ReaderIterator.h
+++ b/src/odc/ReaderIterator.h
@@ -113,6 +113,7 @@ private:
     ReaderIterator(const ReaderIterator&);
     ReaderIterator& operator=(const ReaderIterator&);
 
+    void open();
     void initRowBuffer();
     bool loadHeaderAndBufferData();
 
diff --git a/src/odc/Select.cc b/src/odc/Select.cc
index ca08bbd..c448293 100644
--- a/src/odc/Select.cc
+++ b/src/odc/Select.cc
@@ -86,10 +86,10 @@ const Select::iterator Select::end() {
 // iterate once, so we MUST NOT create two iterators if begin() is called twice.
 Select::iterator Select::begin() {
     if (!initted_) {
-        SelectIterator* it = createSelectIterator(selectStatement_);
+        std::unique_ptr<SelectIterator> it(createSelectIterator(selectStatement_));
         ASSERT(it);
         it->next();
-        it_      = iterator(it);
+        it_      = iterator(it.release());
         initted_ = true;
     }
     return it_;
-- 
2.43.0


From 5f478907cd1d36330486bc2f8bd5a78d04beb5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:32 +0000
Subject: [PATCH 66/75] fix: frames which had been read ahead kept the
 treatment of integers which was in force before

---
 src/odc/api/Odb.cc    |  3 +++
 src/odc/core/Table.cc | 11 +++++++++++
 src/odc/core/Table.h  |  3 +++
 3 files changed, 17 insertions(+)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index ddb810c..3ca10e8 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -142,6 +142,8 @@ Frame ReaderImpl::next(bool aggregated, long rowlimit) {
 
     first_ = false;
     tables.emplace_back(*it_);
+    // n.b. The table may have been read ahead, before the settings were changed
+    tables.back().refreshIntegerTreatment();
     long nrows = tables.back().rowCount();
 
     if (aggregated) {
@@ -159,6 +161,7 @@ Frame ReaderImpl::next(bool aggregated, long rowlimit) {
 
             ++it_;
             tables.emplace_back(*it_);
+            tables.back().refreshIntegerTreatment();
             nrows = next_nrows;
         }
     }
diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 5108578..00d76a8 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -492,6 +492,17 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
 }
 
 
+void Table::refreshIntegerTreatment() {
+
+    if (integersAsDoubles_ != ODBAPISettings::instance().integersAsDoubles()) {
+        dh_.seek(startPosition());
+        std::unique_ptr<Table> again(readTable(dh_));
+        if (!again)
+            throw ODBIncomplete(dh_.title(), Here());
+        *this = std::move(*again);
+    }
+}
+
 std::unique_ptr<Table> Table::readTable(odc::core::ThreadSharedDataHandle& dh) {
 
     Offset startPosition = dh.position();
diff --git a/src/odc/core/Table.h b/src/odc/core/Table.h
index 67a1100..7cc3032 100644
--- a/src/odc/core/Table.h
+++ b/src/odc/core/Table.h
@@ -59,6 +59,9 @@ public:  // methods
 
     eckit::Buffer readEncodedData(bool includeHeader = false);
 
+    /// Read the header again if the representation of integers has been changed since it was read
+    void refreshIntegerTreatment();
+
     void decode(DecodeTarget& target);
 
     Span span(const std::vector<std::string>& columns, bool onlyConstant = false);
-- 
2.43.0


From 600b5946c2501639268cd9288142ae885ac217d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:11 +0000
Subject: [PATCH 67/75] fix: copies of a frame changed the representation of
 integers if the settings had been changed

---
 src/odc/core/Codec.cc       | 10 ++++++----
 src/odc/core/Codec.h        |  3 +++
 src/odc/core/CodecFactory.h | 27 ++++++++++++++++-----------
 3 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/odc/core/Codec.cc b/src/odc/core/Codec.cc
index fe30073..1bde36d 100644
--- a/src/odc/core/Codec.cc
+++ b/src/odc/core/Codec.cc
@@ -27,12 +27,14 @@ Codec::Codec(const std::string& name, api::ColumnType type) :
     missingValue_(odc::MDI::realMDI()),
     min_(missingValue_),
     max_(missingValue_),
-    type_(type) {}
+    type_(type),
+    integersAsDoubles_(ODBAPISettings::instance().integersAsDoubles()) {}
 
 std::unique_ptr<Codec> Codec::clone() {
-    // n.b. The clone must be able to decode the same data as the original.
-    auto c = otherByteOrder() ? CodecFactory::instance().build<OtherByteOrder>(name_, type_)
-                              : CodecFactory::instance().build<SameByteOrder>(name_, type_);
+    // n.b. The clone must be able to decode the same data as the original, to the same representation
+    auto c = otherByteOrder() ? CodecFactory::instance().build<OtherByteOrder>(name_, type_, integersAsDoubles_)
+                              : CodecFactory::instance().build<SameByteOrder>(name_, type_, integersAsDoubles_);
+    c->integersAsDoubles_ = integersAsDoubles_;
     c->missingValue(missingValue_);  // n.b. virtual. Derived codecs may store a converted value
     c->hasMissing_ = hasMissing_;
     c->min_        = min_;
diff --git a/src/odc/core/Codec.h b/src/odc/core/Codec.h
index 48f4a02..da217a1 100644
--- a/src/odc/core/Codec.h
+++ b/src/odc/core/Codec.h
@@ -139,6 +139,9 @@ protected:
 
 private:
 
+    /// The representation of integers in force when the codec was created
+    bool integersAsDoubles_;
+
     Codec(const Codec&);
     Codec& operator=(const Codec&);
 };
diff --git a/src/odc/core/CodecFactory.h b/src/odc/core/CodecFactory.h
index 0a5b8d0..482b4ec 100644
--- a/src/odc/core/CodecFactory.h
+++ b/src/odc/core/CodecFactory.h
@@ -56,7 +56,12 @@ public:  // methods
     void deregister(const std::string& name, CodecBuilderBase& builder);
 
     template <typename ByteOrder>
-    std::unique_ptr<Codec> build(const std::string& name, api::ColumnType type) const;
+    std::unique_ptr<Codec> build(const std::string& name, api::ColumnType type) const {
+        return build<ByteOrder>(name, type, ODBAPISettings::instance().integersAsDoubles());
+    }
+
+    template <typename ByteOrder>
+    std::unique_ptr<Codec> build(const std::string& name, api::ColumnType type, bool integersAsDoubles) const;
 
     template <typename ByteOrder>
     std::unique_ptr<Codec> load(DataStream<ByteOrder>& ds, api::ColumnType type) const;
@@ -80,8 +85,8 @@ protected:  // methods
 
 public:  // methods
 
-    virtual std::unique_ptr<Codec> make(const SameByteOrder&, api::ColumnType) const  = 0;
-    virtual std::unique_ptr<Codec> make(const OtherByteOrder&, api::ColumnType) const = 0;
+    virtual std::unique_ptr<Codec> make(const SameByteOrder&, api::ColumnType, bool integersAsDoubles) const  = 0;
+    virtual std::unique_ptr<Codec> make(const OtherByteOrder&, api::ColumnType, bool integersAsDoubles) const = 0;
 
 private:  // members
 
@@ -106,10 +111,10 @@ public:  // methods
 
 private:  // methods
 
-    std::unique_ptr<Codec> make(const SameByteOrder&, api::ColumnType type) const override {
+    std::unique_ptr<Codec> make(const SameByteOrder&, api::ColumnType type, bool) const override {
         return std::unique_ptr<Codec>(new CODEC<SameByteOrder>(type));
     }
-    std::unique_ptr<Codec> make(const OtherByteOrder&, api::ColumnType type) const override {
+    std::unique_ptr<Codec> make(const OtherByteOrder&, api::ColumnType type, bool) const override {
         return std::unique_ptr<Codec>(new CODEC<OtherByteOrder>(type));
     }
 };
@@ -129,16 +134,16 @@ public:  // methods
 
 private:  // methods
 
-    std::unique_ptr<Codec> make(const SameByteOrder&, api::ColumnType type) const override {
-        if ((type == api::INTEGER || type == api::BITFIELD) && !ODBAPISettings::instance().integersAsDoubles()) {
+    std::unique_ptr<Codec> make(const SameByteOrder&, api::ColumnType type, bool integersAsDoubles) const override {
+        if ((type == api::INTEGER || type == api::BITFIELD) && !integersAsDoubles) {
             return std::unique_ptr<Codec>(new CODEC_T<SameByteOrder, int64_t>(type));
         }
         else {
             return std::unique_ptr<Codec>(new CODEC_T<SameByteOrder, double>(type));
         }
     }
-    std::unique_ptr<Codec> make(const OtherByteOrder&, api::ColumnType type) const override {
-        if ((type == api::INTEGER || type == api::BITFIELD) && !ODBAPISettings::instance().integersAsDoubles()) {
+    std::unique_ptr<Codec> make(const OtherByteOrder&, api::ColumnType type, bool integersAsDoubles) const override {
+        if ((type == api::INTEGER || type == api::BITFIELD) && !integersAsDoubles) {
             return std::unique_ptr<Codec>(new CODEC_T<OtherByteOrder, int64_t>(type));
         }
         else {
@@ -150,13 +155,13 @@ private:  // methods
 //----------------------------------------------------------------------------------------------------------------------
 
 template <typename ByteOrder>
-std::unique_ptr<Codec> CodecFactory::build(const std::string& name, api::ColumnType type) const {
+std::unique_ptr<Codec> CodecFactory::build(const std::string& name, api::ColumnType type, bool integersAsDoubles) const {
     std::lock_guard<std::mutex> lock(m_);
 
     auto it = builders_.find(name);
     if (it == builders_.end())
         throw ODBDecodeError(std::string("Codec '") + name + "' not found", Here());
-    return it->second.get().make(ByteOrder(), type);
+    return it->second.get().make(ByteOrder(), type, integersAsDoubles);
 }
 
 template <typename ByteOrder>
-- 
2.43.0


From 19dae49f87ad6a437c239b871593ce5ff7a7b5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:06 +0000
Subject: [PATCH 68/75] fix: filters and text import gave other integers when
 integers are treated as longs

---
 src/odc/api/Odb.cc | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index 3ca10e8..952a83a 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -657,6 +657,25 @@ const char* columnTypeName(const ColumnType& type) {
 
 //------------------------------------------------------------------------------------------------------------
 
+namespace {
+/// The SQL engine and the text reader handle integers as doubles, whatever the user has chosen for decoding
+class IntegersAsDoubles {
+public:
+
+    IntegersAsDoubles() : previous_(odc::ODBAPISettings::instance().integersAsDoubles()) {
+        odc::ODBAPISettings::instance().treatIntegersAsDoubles(true);
+    }
+    ~IntegersAsDoubles() { odc::ODBAPISettings::instance().treatIntegersAsDoubles(previous_); }
+
+    IntegersAsDoubles(const IntegersAsDoubles&)            = delete;
+    IntegersAsDoubles& operator=(const IntegersAsDoubles&) = delete;
+
+private:
+
+    bool previous_;
+};
+}  // namespace
+
 size_t odbFromCSV(DataHandle& dh_in, DataHandle& dh_out, const std::string& delimiter) {
 
     // Convert data handle to std::istream.
@@ -669,6 +688,8 @@ size_t odbFromCSV(DataHandle& dh_in, DataHandle& dh_out, const std::string& deli
 
 size_t odbFromCSV(std::istream& in, DataHandle& dh_out, const std::string& delimiter) {
 
+    IntegersAsDoubles integersAsDoubles;
+
     odc::TextReader reader(in, delimiter);
     odc::Writer<> writer(dh_out);
     odc::Writer<>::iterator output(writer.begin());
@@ -719,6 +740,8 @@ size_t filter(const std::string& sql, eckit::DataHandle& in, eckit::DataHandle&
         in.saveInto(out);
     }
     else {
+        IntegersAsDoubles integersAsDoubles;
+
         odc::Select odb(sql, in);
         odc::Select::iterator it  = odb.begin();
         odc::Select::iterator end = odb.end();
-- 
2.43.0


From 8c2a9b33cc57fe52e84b1ce8389dc143d94a79c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:35 +0000
Subject: [PATCH 69/75] fix: optional arguments omitted in Fortran took the
 values of earlier calls (implicit save)

---
 src/odc/api/odc.f90 | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/odc/api/odc.f90 b/src/odc/api/odc.f90
index dba8aec..8231729 100644
--- a/src/odc/api/odc.f90
+++ b/src/odc/api/odc.f90
@@ -726,9 +726,11 @@ contains
         integer(c_long), intent(in), optional :: maximum_rows
         integer :: err
 
-        integer(c_long) :: l_maximum_rows = -1
-        logical :: l_aggregated = .false.
+        integer(c_long) :: l_maximum_rows
+        logical :: l_aggregated
 
+        l_maximum_rows = -1
+        l_aggregated = .false.
         if (present(aggregated)) l_aggregated = aggregated
         if (present(maximum_rows)) then
             l_maximum_rows = maximum_rows
@@ -876,7 +878,8 @@ contains
         class(odc_decoder), intent(inout) :: decoder
         logical, intent(in), optional :: column_major
         integer :: err
-        logical(c_bool) :: l_column_major = .true.
+        logical(c_bool) :: l_column_major
+        l_column_major = .true.
         if (present(column_major)) l_column_major = column_major
         err = odc_new_decoder(decoder%impl)
         if (err == ODC_SUCCESS) then
@@ -916,8 +919,9 @@ contains
         real(dp), intent(inout), target :: data(:,:)
         logical, intent(in), optional :: column_major
         integer(c_long) :: width, height
-        logical(c_bool) :: l_column_major = .true.
+        logical(c_bool) :: l_column_major
         integer :: err
+        l_column_major = .true.
         if (present(column_major)) l_column_major = column_major
         if (l_column_major) then
             width = size(data, 2) * double_size
@@ -992,9 +996,13 @@ contains
         type(c_ptr), intent(in), optional :: data
         integer :: err
 
-        integer(c_int) :: l_element_size = 0
-        integer(c_int) :: l_stride = 0
-        type(c_ptr) :: l_data = c_null_ptr
+        integer(c_int) :: l_element_size
+        integer(c_int) :: l_stride
+        type(c_ptr) :: l_data
+
+        l_element_size = 0
+        l_stride = 0
+        l_data = c_null_ptr
         if (present(element_size)) l_element_size = element_size
         if (present(stride)) l_stride = stride
         if (present(data)) l_data = data
@@ -1075,8 +1083,9 @@ contains
         integer(c_long) :: width, height
         integer(c_int) :: columnMajorWidth
         integer :: err
-        logical(c_bool) :: l_column_major = .true.
+        logical(c_bool) :: l_column_major
 
+        l_column_major = .true.
         if (present(column_major)) l_column_major = column_major
         if (l_column_major) then
             width = size(data, 2) * double_size
@@ -1121,7 +1130,9 @@ contains
         integer :: err
 
 
-        integer(c_int) :: l_element_size = 0
+        integer(c_int) :: l_element_size
+
+        l_element_size = 0
         if (present(element_size)) l_element_size = element_size
         if (present(element_size_doubles)) l_element_size = element_size_doubles * double_size
 
@@ -1138,9 +1149,13 @@ contains
         type(c_ptr), intent(in), optional :: data
         integer :: err
 
-        integer(c_int) :: l_element_size = 0
-        integer(c_int) :: l_stride = 0
-        type(c_ptr) :: l_data = c_null_ptr
+        integer(c_int) :: l_element_size
+        integer(c_int) :: l_stride
+        type(c_ptr) :: l_data
+
+        l_element_size = 0
+        l_stride = 0
+        l_data = c_null_ptr
         if (present(element_size)) l_element_size = element_size
         if (present(element_size_doubles)) l_element_size = element_size_doubles * double_size
         if (present(stride)) l_stride = stride
-- 
2.43.0


From b760a0b4cb79aee93fe31e35ee826f7f57c6034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:58 +0000
Subject: [PATCH 70/75] fix: a failing write ended the program when encoding
 from Fortran instead of giving an error code

---
 src/odc/api/odc.f90 | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/odc/api/odc.f90 b/src/odc/api/odc.f90
index 8231729..49ea900 100644
--- a/src/odc/api/odc.f90
+++ b/src/odc/api/odc.f90
@@ -1185,11 +1185,16 @@ contains
         integer(c_long) :: written
         integer, pointer :: fortran_unit
         character(c_char), pointer :: fortran_buffer(:)
+        integer :: status
 
         call c_f_pointer(context, fortran_unit)
         call c_f_pointer(buffer, fortran_buffer, [length])
-        write(fortran_unit) fortran_buffer
-        written = length
+        write(fortran_unit, iostat=status) fortran_buffer
+        if (status == 0) then
+            written = length
+        else
+            written = -1
+        end if
     end function
 
     function encoder_encode(encoder, outunit, bytes_written) result(err)
-- 
2.43.0


From ce34f046ece8ae584acebe198e29f18451bb77a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:32 +0000
Subject: [PATCH 71/75] fix: parts of larger arrays given from Fortran were
 encoded and decoded with other elements

---
 src/odc/api/odc.f90 | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/odc/api/odc.f90 b/src/odc/api/odc.f90
index 49ea900..4e7273e 100644
--- a/src/odc/api/odc.f90
+++ b/src/odc/api/odc.f90
@@ -921,6 +921,12 @@ contains
         integer(c_long) :: width, height
         logical(c_bool) :: l_column_major
         integer :: err
+        ! the data is used where it is: elements in between would be taken for its own
+        if (.not. is_contiguous(data)) then
+            err = ODC_ERROR_GENERAL_EXCEPTION
+            return
+        end if
+
         l_column_major = .true.
         if (present(column_major)) l_column_major = column_major
         if (l_column_major) then
@@ -1085,6 +1091,12 @@ contains
         integer :: err
         logical(c_bool) :: l_column_major
 
+        ! the data is used where it is: elements in between would be taken for its own
+        if (.not. is_contiguous(data)) then
+            err = ODC_ERROR_GENERAL_EXCEPTION
+            return
+        end if
+
         l_column_major = .true.
         if (present(column_major)) l_column_major = column_major
         if (l_column_major) then
-- 
2.43.0


From e0054143546e7be88899b8dc06b81f490dd87f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:35 +0000
Subject: [PATCH 72/75] fix: the legacy interface read beyond the columns when
 asked for the missing value of the one after the last

---
 src/odc/odccapi.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/odc/odccapi.cc b/src/odc/odccapi.cc
index 05a5de0..12b3b27 100644
--- a/src/odc/odccapi.cc
+++ b/src/odc/odccapi.cc
@@ -451,7 +451,7 @@ int odb_write_iterator_get_column_offset(oda_write_iterator_ptr wi, int n, int*
 
 int odb_read_iterator_get_missing_value(oda_read_iterator_ptr ri, int index, double* value) {
     ReaderIterator* r(reinterpret_cast<ReaderIterator*>(ri));
-    if (index < 0 || long(r->columns().size()) < index) {
+    if (index < 0 || index >= long(r->columns().size())) {
         std::stringstream ss;
         ss << "odb_read_iterator_get_missing_value: index " << index << " out of range, should be between 0 and "
            << r->columns().size();
@@ -508,7 +508,7 @@ int odb_select_iterator_get_bitfield(oda_select_iterator_ptr it, int index, char
 
 int odb_select_iterator_get_missing_value(oda_select_iterator_ptr ri, int index, double* value) {
     SelectIterator* r(reinterpret_cast<SelectIterator*>(ri));
-    if (index < 0 || long(r->columns().size()) < index) {
+    if (index < 0 || index >= long(r->columns().size())) {
         std::stringstream ss;
         ss << "odb_select_iterator_get_missing_value: index " << index << " out of range, should be between 0 and "
            << r->columns().size();
-- 
2.43.0


From b6682febd811f107d6ad3d69a7eeb979befa1e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:05 +0000
Subject: [PATCH 73/75] fix: files which cannot be opened, read or written and
 bad queries ended programs using the legacy interface instead of giving codes

---
 src/odc/odccapi.cc | 125 +++++++++++++++++++++++++++++----------------
 1 file changed, 81 insertions(+), 44 deletions(-)

diff --git a/src/odc/odccapi.cc b/src/odc/odccapi.cc
index 12b3b27..fc6d7b3 100644
--- a/src/odc/odccapi.cc
+++ b/src/odc/odccapi.cc
@@ -62,6 +62,26 @@ int get_bitfield(T it, int index, char** bitfield_names, char** bitfield_sizes,
     return 0;
 }
 
+// Exceptions may not leave functions called from C or Fortran. The codes are those of odb_create_select_iterator.
+template <typename F>
+int errorCode(F&& function) {
+    try {
+        return function();
+    }
+    catch (eckit::CantOpenFile& e) {
+        eckit::Log::error() << "Caught exception: " << e << std::endl;
+        return 1;
+    }
+    catch (eckit::ReadError& e) {
+        eckit::Log::error() << "Caught exception: " << e << std::endl;
+        return 2;
+    }
+    catch (std::exception& e) {
+        eckit::Log::error() << "Caught exception: " << e.what() << std::endl;
+        return 3;
+    }
+}
+
 extern "C" {
 
 void odb_start() {
@@ -204,31 +224,22 @@ oda_read_iterator_ptr odb_create_read_iterator(oda_ptr co, const char* filename,
         return 0;
     }
 
-    ReaderIterator* iter(o->createReadIterator(fn));
-    *err = !iter;
+    ReaderIterator* iter = nullptr;
+    *err                 = errorCode([&] {
+        iter = o->createReadIterator(fn);
+        return !iter;
+    });
     return oda_read_iterator_ptr(iter);
 }
 
 oda_select_iterator_ptr odb_create_select_iterator(oda_ptr co, const char* sql, int* err) {
     Select* o(reinterpret_cast<Select*>(co));
-    try {
-        SelectIterator* iter(o->createSelectIterator(sql));
-        *err = !iter;
-        return oda_select_iterator_ptr(iter);
-    }
-    catch (eckit::CantOpenFile& e) {
-        *err = 1;
-        return 0;
-    }
-    catch (eckit::ReadError& e) {
-        *err = 2;
-        return 0;
-    }
-    catch (eckit::Exception& e) {
-        *err = 3;
-        eckit::Log::error() << "Caught exception: " << e << std::endl;
-        return 0;
-    }
+    SelectIterator* iter = nullptr;
+    *err                 = errorCode([&] {
+        iter = o->createSelectIterator(sql);
+        return !iter;
+    });
+    return oda_select_iterator_ptr(iter);
 }
 
 oda_select_iterator_ptr odb_create_select_iterator_from_file(oda_ptr co, const char* sql, const char* filename,
@@ -237,8 +248,11 @@ oda_select_iterator_ptr odb_create_select_iterator_from_file(oda_ptr co, const c
 
     std::string full_sql(std::string(sql) + " from \"" + std::string(filename) + "\"");
 
-    SelectIterator* iter(o->createSelectIterator(full_sql));
-    *err = !iter;
+    SelectIterator* iter = nullptr;
+    *err                 = errorCode([&] {
+        iter = o->createSelectIterator(full_sql);
+        return !iter;
+    });
     return oda_select_iterator_ptr(iter);
 }
 
@@ -317,7 +331,14 @@ int odb_select_iterator_get_column_name(oda_select_iterator_ptr it, int n, char*
 
 int odb_read_iterator_get_next_row(oda_read_iterator_ptr it, int count, double* data, int* new_dataset) {
     ReaderIterator* iter(reinterpret_cast<ReaderIterator*>(it));
-    if (!iter->next())
+    bool more = false;
+    int err   = errorCode([&] {
+        more = iter->next();
+        return 0;
+    });
+    if (err)
+        return 2 + err;
+    if (!more)
         return 1;
 
     if (iter->isNewDataset())
@@ -341,7 +362,14 @@ int odb_select_iterator_get_next_row(oda_select_iterator_ptr it, int count, doub
 
     iter->setOutputRowBuffer(data);
 
-    if (!iter->next())
+    bool more = false;
+    int err   = errorCode([&] {
+        more = iter->next();
+        return 0;
+    });
+    if (err)
+        return 2 + err;
+    if (!more)
         return 1;
 
     if (iter->isNewDataset()) {
@@ -356,29 +384,37 @@ int odb_select_iterator_get_next_row(oda_select_iterator_ptr it, int count, doub
 
 oda_write_iterator_ptr odb_create_append_iterator(oda_ptr co, const char* filename, int* err) {
     Writer<>* o(reinterpret_cast<Writer<>*>(co));
-    eckit::Length estimatedLength(0);
-    DataHandle* fh = ODBAPISettings::instance().appendToFile(PathName(std::string(filename)), estimatedLength, true);
-
-    // TODO: make sure there's no leaks (FileHandle)
-    Writer<>::iterator_class* w(new Writer<>::iterator_class(*o, fh, false));
-    *err = !w;
+    Writer<>::iterator_class* w = nullptr;
+    *err                        = errorCode([&] {
+        eckit::Length estimatedLength(0);
+        DataHandle* fh = ODBAPISettings::instance().appendToFile(PathName(std::string(filename)), estimatedLength, true);
+
+        // TODO: make sure there's no leaks (FileHandle)
+        w = new Writer<>::iterator_class(*o, fh, false);
+        return !w;
+    });
     return oda_write_iterator_ptr(w);
 }
 
 oda_write_iterator_ptr odb_create_write_iterator(oda_ptr co, const char* filename, int* err) {
     Writer<>* o(reinterpret_cast<Writer<>*>(co));
-    eckit::Length estimatedLength(0);
-    DataHandle* fh = ODBAPISettings::instance().writeToFile(PathName(std::string(filename)), estimatedLength, true);
-
-    // TODO: make sure there's no leaks (FileHandle)
-    Writer<>::iterator_class* w(new Writer<>::iterator_class(*o, fh, true));
-    *err = !w;
+    Writer<>::iterator_class* w = nullptr;
+    *err                        = errorCode([&] {
+        eckit::Length estimatedLength(0);
+        DataHandle* fh = ODBAPISettings::instance().writeToFile(PathName(std::string(filename)), estimatedLength, true);
+
+        // TODO: make sure there's no leaks (FileHandle)
+        w = new Writer<>::iterator_class(*o, fh, true);
+        return !w;
+    });
     return oda_write_iterator_ptr(w);
 }
 
 int odb_write_iterator_destroy(oda_write_iterator_ptr wi) {
-    delete reinterpret_cast<Writer<>::iterator_class*>(wi);
-    return 0;
+    return errorCode([&] {
+        delete reinterpret_cast<Writer<>::iterator_class*>(wi);
+        return 0;
+    });
 }
 
 int odb_write_iterator_set_no_of_columns(oda_write_iterator_ptr wi, int n) {
@@ -389,7 +425,7 @@ int odb_write_iterator_set_no_of_columns(oda_write_iterator_ptr wi, int n) {
 
 int odb_write_iterator_set_column(oda_write_iterator_ptr wi, int index, int type, const char* name) {
     Writer<>::iterator_class* w(reinterpret_cast<Writer<>::iterator_class*>(wi));
-    return w->setColumn(index, std::string(name), ColumnType(type));
+    return errorCode([&] { return w->setColumn(index, std::string(name), ColumnType(type)); });
 }
 
 int odb_write_iterator_set_bitfield(oda_write_iterator_ptr wi, int index, int type, const char* name,
@@ -424,8 +460,7 @@ int odb_write_iterator_set_bitfield(oda_write_iterator_ptr wi, int index, int ty
     Writer<>::iterator_class* w(reinterpret_cast<Writer<>::iterator_class*>(wi));
     std::string columnName(name);
 
-    int rc(w->setBitfieldColumn(index, columnName, ColumnType(type), bitfieldType));
-    return rc;
+    return errorCode([&] { return w->setBitfieldColumn(index, columnName, ColumnType(type), bitfieldType); });
 }
 
 int odb_write_iterator_set_column_size_doubles(oda_write_iterator_ptr wi, int n, int size) {
@@ -483,13 +518,15 @@ int odb_write_iterator_set_missing_value(oda_write_iterator_ptr wi, int index, d
 
 int odb_write_iterator_write_header(oda_write_iterator_ptr wi) {
     Writer<>::iterator_class* w(reinterpret_cast<Writer<>::iterator_class*>(wi));
-    w->writeHeader();
-    return 0;
+    return errorCode([&] {
+        w->writeHeader();
+        return 0;
+    });
 }
 
 int odb_write_iterator_set_next_row(oda_write_iterator_ptr wi, double* data, int count) {
     Writer<>::iterator_class* w(reinterpret_cast<Writer<>::iterator_class*>(wi));
-    return w->writeRow(data, count);
+    return errorCode([&] { return w->writeRow(data, count); });
 }
 
 int odb_read_iterator_get_bitfield(oda_read_iterator_ptr it, int index, char** bitfield_names, char** bitfield_sizes,
-- 
2.43.0


From afce5e70187856638afc3073812bc63c8212afe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:31 +0000
Subject: [PATCH 74/75] fix: headers were written outside of their buffer if
 the configured size was below that of the fixed part

---
 src/odc/core/Header.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/odc/core/Header.cc b/src/odc/core/Header.cc
index 28237ac..c03fe62 100644
--- a/src/odc/core/Header.cc
+++ b/src/odc/core/Header.cc
@@ -10,6 +10,8 @@
 
 #include "odc/core/Header.h"
 
+#include <algorithm>
+
 #include "eckit/io/Buffer.h"
 #include "eckit/io/DataHandle.h"
 #include "eckit/log/Log.h"
@@ -155,7 +157,9 @@ std::pair<eckit::Buffer, size_t> serializeHeaderInternal(size_t dataSize, size_t
 
     constexpr size_t initial_header_size = 9 + 8 + 4 + 32 + 4;
 
-    eckit::Buffer buffer(ODBAPISettings::instance().headerBufferSize());
+    // n.b. The configured size may be too small even for the fixed size part of the header.
+
+    eckit::Buffer buffer(std::max<size_t>(ODBAPISettings::instance().headerBufferSize(), 2 * initial_header_size));
     bool serialised           = false;
     char* variableHeaderStart = 0;
     int32_t variableHeaderSize;
-- 
2.43.0


From 6d5250ffbc8af4c334fb55347791d1c17b115014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:31 +0000
Subject: [PATCH 75/75] fix: encoding frames of at most no rows went on for
 ever writing empty frames

---
 src/odc/api/Odb.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index 952a83a..4bc32c4 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -709,6 +709,7 @@ void encode(DataHandle& out, const std::vector<ColumnInfo>& columns, const std::
 
     ASSERT(columns.size() == data.size());
     ASSERT(data.size() > 0);
+    ASSERT(maxRowsPerFrame > 0);
 
     size_t ncols = data.size();
     size_t nrows = data[0].nelem();
-- 
2.43.0

