From f35615eeee5857b93953f7866b2dddbf74b984c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 01/64] fix: decode integer differences of INT64_MIN

encodeVarint64 writes a single 0 byte for a difference of INT64_MIN (zig-zag
plus one wraps around), which every integer decoder rejected as an unexpected
NaN marker, so such clouds could not be decoded.
---
 cloudini_lib/include/cloudini_lib/encoding_utils.hpp | 10 ++++++++++
 cloudini_lib/include/cloudini_lib/field_decoder.hpp  |  2 +-
 cloudini_lib/src/v5_codec.cpp                        |  4 ++--
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/encoding_utils.hpp b/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
index 0eb976c..04c2ecf 100644
--- a/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
+++ b/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
@@ -147,4 +147,14 @@ inline size_t decodeVarint(const uint8_t* buf, size_t max_size, int64_t& val) {
   return count;
 }
 
+// Integer fields have no NaN: there, a single 0 byte is what encodeVarint64 writes for a
+// difference of INT64_MIN (zig-zag + 1 wraps around to 0).
+inline size_t decodeIntVarint(const uint8_t* buf, size_t max_size, int64_t& val) {
+  if (max_size > 0 && buf[0] == 0) {
+    val = std::numeric_limits<int64_t>::min();
+    return 1;
+  }
+  return decodeVarint(buf, max_size, val);
+}
+
 }  // namespace Cloudini
diff --git a/cloudini_lib/include/cloudini_lib/field_decoder.hpp b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
index c690275..afbbf3c 100644
--- a/cloudini_lib/include/cloudini_lib/field_decoder.hpp
+++ b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
@@ -86,7 +86,7 @@ class FieldDecoderInt : public FieldDecoder {
 
   void decode(ConstBufferView& input, BufferView dest_point_view) override {
     int64_t diff = 0;
-    auto count = decodeVarint(input.data(), input.size(), diff);
+    auto count = decodeIntVarint(input.data(), input.size(), diff);
 
     int64_t value = prev_value_ + diff;
     prev_value_ = value;
diff --git a/cloudini_lib/src/v5_codec.cpp b/cloudini_lib/src/v5_codec.cpp
index 9f41f3a..f679839 100644
--- a/cloudini_lib/src/v5_codec.cpp
+++ b/cloudini_lib/src/v5_codec.cpp
@@ -780,7 +780,7 @@ void decodeV5AdaptiveIntSection(
       int64_t prev = 0;
       for (size_t i = 0; i < expected_points; ++i) {
         int64_t diff = 0;
-        const auto consumed = decodeVarint(input.data(), input.size(), diff);
+        const auto consumed = decodeIntVarint(input.data(), input.size(), diff);
         input.trim_front(consumed);
         const int64_t value = prev + diff;
         prev = value;
@@ -853,7 +853,7 @@ void decodeV5AdaptiveIntSection(
       size_t out_index = 0;
       for (uint32_t r = 0; r < run_count; ++r) {
         int64_t diff = 0;
-        const auto consumed = decodeVarint(input.data(), input.size(), diff);
+        const auto consumed = decodeIntVarint(input.data(), input.size(), diff);
         input.trim_front(consumed);
         const uint64_t run_len = readUVarint(input);
         if (out_index + run_len > expected_points) {
-- 
2.43.0


From bea54e68353713cb32b0b30530c95dfe59db37e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 02/64] fix: accept compressed chunks whose serialized form
 exceeds the raw points

The decoder limited a decompressed chunk to width*height*point_step bytes, but
the encoder's output before compression can be larger than that (random
integers, small clouds with V5 sections), so valid clouds failed to decode.
---
 cloudini_lib/src/cloudini.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index e8301fb..ba32e4d 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -669,8 +669,20 @@ void PointcloudDecoder::decode(const EncodingInfo& info, ConstBufferView compres
 
 void PointcloudDecoder::decodeChunk(
     const EncodingInfo& info, ConstBufferView chunk_data, BufferView& output_buffer, size_t expected_points) {
-  const size_t max_decompressed_size =
-      static_cast<size_t>(info.width) * static_cast<size_t>(info.height) * info.point_step;
+  // A serialized chunk can be larger than the points it holds (varint expansion, V5 section
+  // headers), so bound it by the worst case the encoder accounts for in MaxCompressedSize.
+  size_t max_decompressed_size = 0;
+  if (info.compression_opt != CompressionOption::NONE) {
+    const size_t points_in_chunk =
+        (expected_points > 0) ? expected_points
+                              : static_cast<size_t>(info.width) * static_cast<size_t>(info.height);
+    const size_t max_point_size = detail::MaxSerializedPointSize(info);
+    const size_t slack = info.fields.size() * 32u + 1024u;
+    if (max_point_size != 0 && points_in_chunk > (std::numeric_limits<size_t>::max() - slack) / max_point_size) {
+      throw std::runtime_error("Declared point count is too large");
+    }
+    max_decompressed_size = points_in_chunk * max_point_size + slack;
+  }
   ConstBufferView encoded_view = detail::DecompressChunk(
       info.compression_opt, chunk_data, decompressed_buffer_, max_decompressed_size);
 
-- 
2.43.0


From 96909818a961aa9ed9d899403b0668465f89a572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 03/64] fix: honor kDecodeButSkipStore for V5 adaptive integer
 columns

The V5 section decoder wrote skipped integer fields at offset 0xFFFFFFFF,
far outside the output buffer.
---
 cloudini_lib/src/v5_codec.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cloudini_lib/src/v5_codec.cpp b/cloudini_lib/src/v5_codec.cpp
index f679839..bbbb58b 100644
--- a/cloudini_lib/src/v5_codec.cpp
+++ b/cloudini_lib/src/v5_codec.cpp
@@ -775,6 +775,12 @@ void decodeV5AdaptiveIntSection(
   }
   const auto mode = static_cast<AdaptiveIntMode>(mode_byte);
 
+  auto store_value = [&](uint64_t value, size_t index) {
+    if (field.offset != kDecodeButSkipStore) {
+      writeRawBitsToPoint(value, field.bytes_per_value, output_base + index * point_step + field.offset);
+    }
+  };
+
   switch (mode) {
     case AdaptiveIntMode::DeltaVarint: {
       int64_t prev = 0;
@@ -784,9 +790,7 @@ void decodeV5AdaptiveIntSection(
         input.trim_front(consumed);
         const int64_t value = prev + diff;
         prev = value;
-        writeRawBitsToPoint(
-            static_cast<uint64_t>(value), field.bytes_per_value,
-            output_base + i * point_step + field.offset);
+        store_value(static_cast<uint64_t>(value), i);
       }
     } break;
 
@@ -817,7 +821,7 @@ void decodeV5AdaptiveIntSection(
         if (idx >= palette.size()) {
           throw std::runtime_error("V5 adaptive int: palette index out of range");
         }
-        writeRawBitsToPoint(palette[idx], field.bytes_per_value, output_base + i * point_step + field.offset);
+        store_value(palette[idx], i);
       }
       input.trim_front(index_bytes);
     } break;
@@ -837,7 +841,7 @@ void decodeV5AdaptiveIntSection(
           throw std::runtime_error("V5 adaptive int: RLE run exceeds point count");
         }
         for (uint64_t k = 0; k < run_len; ++k) {
-          writeRawBitsToPoint(value, field.bytes_per_value, output_base + out_index * point_step + field.offset);
+          store_value(value, out_index);
           ++out_index;
         }
       }
@@ -862,9 +866,7 @@ void decodeV5AdaptiveIntSection(
         for (uint64_t k = 0; k < run_len; ++k) {
           const int64_t value = prev + diff;
           prev = value;
-          writeRawBitsToPoint(
-              static_cast<uint64_t>(value), field.bytes_per_value,
-              output_base + out_index * point_step + field.offset);
+          store_value(static_cast<uint64_t>(value), out_index);
           ++out_index;
         }
       }
-- 
2.43.0


From 2b11eea760e5a7659ef21d1825f7908fef9e5e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 04/64] fix: account for run lengths in the worst-case size of
 64-bit integers

A V5 column committed to delta-RLE by its first points needs up to 11 bytes
per point later on; encoding such a cloud failed with 'output buffer too
small' although the buffer had the advertised worst-case size.
---
 cloudini_lib/src/codec_common.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/codec_common.cpp b/cloudini_lib/src/codec_common.cpp
index f447ac3..67394e0 100644
--- a/cloudini_lib/src/codec_common.cpp
+++ b/cloudini_lib/src/codec_common.cpp
@@ -32,9 +32,12 @@ size_t MaxSerializedFieldSize(const PointField& field, EncodingOptions encoding_
     case FieldType::UINT16:
     case FieldType::INT32:
     case FieldType::UINT32:
+      return 10;  // worst-case signed varint64 size
     case FieldType::INT64:
     case FieldType::UINT64:
-      return 10;  // worst-case signed varint64 size
+      // Worst-case signed varint64 size, plus the run length when a V5 column that committed
+      // to delta-RLE has no runs left.
+      return 11;
     case FieldType::FLOAT32:
       if (encoding_opt == EncodingOptions::LOSSY && field.resolution.has_value()) {
         return 10;  // quantized int64 delta as varint
-- 
2.43.0


From 69c0a3021d63d7f2df535215c185788e09026388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 05/64] fix: let LZ4 encode into output buffers of more than 2
 GiB

---
 cloudini_lib/src/codec_common.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/src/codec_common.cpp b/cloudini_lib/src/codec_common.cpp
index 67394e0..84d0e58 100644
--- a/cloudini_lib/src/codec_common.cpp
+++ b/cloudini_lib/src/codec_common.cpp
@@ -228,13 +228,14 @@ uint32_t CompressChunk(CompressionOption compression, ConstBufferView input, Buf
   uint32_t chunk_size = 0;
   switch (compression) {
     case CompressionOption::LZ4: {
-      if (input.size() > static_cast<size_t>(std::numeric_limits<int>::max()) ||
-          output.size() > static_cast<size_t>(std::numeric_limits<int>::max())) {
+      if (input.size() > static_cast<size_t>(std::numeric_limits<int>::max())) {
         throw std::runtime_error("Chunk size too large for LZ4");
       }
+      // The remaining output may well be larger than what LZ4's interface can express.
+      const size_t capacity = std::min(output.size(), static_cast<size_t>(std::numeric_limits<int>::max()));
       const int cs = LZ4_compress_default(
           reinterpret_cast<const char*>(input.data()), reinterpret_cast<char*>(output.data()),
-          static_cast<int>(input.size()), static_cast<int>(output.size()));
+          static_cast<int>(input.size()), static_cast<int>(capacity));
       if (cs <= 0) {
         throw std::runtime_error("LZ4 compression failed");
       }
-- 
2.43.0


From c2af92e53b0a308ed178caedea5675ddad3b71fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 06/64] fix: write resolutions with enough digits in the text
 header

With the default 6 digits most resolutions come back as a different float, so
the decoder scales by another factor than the encoder and the error grows with
the distance from the origin.
---
 cloudini_lib/src/cloudini.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index ba32e4d..02c315e 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -17,7 +17,9 @@
 #include "cloudini_lib/cloudini.hpp"
 
 #include <algorithm>
+#include <cstdlib>
 #include <cstring>
+#include <iomanip>
 #include <limits>
 #include <sstream>
 #include <stdexcept>
@@ -43,6 +45,21 @@ void ensureScratchBuffer(std::unique_ptr<uint8_t[]>& buffer, size_t& capacity, s
   capacity = required_capacity;
 }
 
+// Shortest decimal form that reads back as exactly the same float.
+std::string FloatToString(float value) {
+  std::string text;
+  for (int digits = std::numeric_limits<float>::digits10; digits <= std::numeric_limits<float>::max_digits10;
+       ++digits) {
+    std::ostringstream stream;
+    stream << std::setprecision(digits) << value;
+    text = stream.str();
+    if (std::strtof(text.c_str(), nullptr) == value) {
+      break;
+    }
+  }
+  return text;
+}
+
 }  // namespace
 
 const char* ToString(const FieldType& type) {
@@ -181,7 +198,7 @@ std::string EncodingInfoToYAML(const EncodingInfo& info) {
     yaml << "    offset: " << field.offset << "\n";
     yaml << "    type: " << ToString(field.type) << "\n";
     if (field.resolution.has_value()) {
-      yaml << "    resolution: " << field.resolution.value() << "\n";
+      yaml << "    resolution: " << FloatToString(field.resolution.value()) << "\n";
     } else {
       yaml << "    resolution: null\n";
     }
-- 
2.43.0


From df2e53feb0e4a2434d32abe8a59095da9d17239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 07/64] fix: parse the version number in EncodingInfoFromYAML

It was read as a character ('5' became 53), so a description passed as YAML
produced headers with an unsupported version.
---
 cloudini_lib/src/cloudini.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 02c315e..3f35d2d 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -213,7 +213,11 @@ EncodingInfo EncodingInfoFromYAML(std::string_view yaml) {
   auto root = YAML::parse(yaml);
 
   // Read top-level fields
-  info.version = root["version"].as<uint8_t>();
+  const int version = root["version"].as<int>();  // as<uint8_t> would read a single character
+  if (version < 0 || version > std::numeric_limits<uint8_t>::max()) {
+    throw std::runtime_error("Invalid version in YAML: " + std::to_string(version));
+  }
+  info.version = static_cast<uint8_t>(version);
   info.width = root["width"].as<uint32_t>();
   info.height = root["height"].as<uint32_t>();
   info.point_step = root["point_step"].as<uint32_t>();
@@ -403,8 +407,7 @@ EncodingInfo DecodeHeader(ConstBufferView& input) {
     yaml_str = yaml_str.substr(0, null_pos);
     input.trim_front(null_pos + 1);  // consume header + null terminator
     EncodingInfo yaml_header = EncodingInfoFromYAML(yaml_str);
-    // The magic-header version is authoritative. YAML's parseScalar<uint8_t> reads a
-    // single character (e.g. "3" -> 51), so the YAML-parsed info.version is unreliable.
+    // The magic-header version is authoritative.
     yaml_header.version = version;
     return yaml_header;
   }
-- 
2.43.0


From 0efab4e7d9e41830fab302c755d39f554e277c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 08/64] fix: do not mistake binary headers for text when the
 width ends in 0x0A

---
 cloudini_lib/src/cloudini.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 3f35d2d..39757c1 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -398,18 +398,20 @@ EncodingInfo DecodeHeader(ConstBufferView& input) {
   // YAML payload starts with newline followed by a non-brace; legacy binary
   // payload starts with the brace of an inline schema.
   if (input.size() >= 2 && input.data()[0] == '\n' && input.data()[1] != '{') {
-    input.trim_front(1);  // consume newline
-    std::string_view yaml_str(reinterpret_cast<const char*>(input.data()), input.size());
+    std::string_view yaml_str(reinterpret_cast<const char*>(input.data() + 1), input.size() - 1);
     size_t null_pos = yaml_str.find('\0');
     if (null_pos == std::string::npos) {
       throw std::runtime_error("Malformed YAML header: missing null terminator");
     }
     yaml_str = yaml_str.substr(0, null_pos);
-    input.trim_front(null_pos + 1);  // consume header + null terminator
-    EncodingInfo yaml_header = EncodingInfoFromYAML(yaml_str);
-    // The magic-header version is authoritative.
-    yaml_header.version = version;
-    return yaml_header;
+    // A binary header starts the same way when the lowest byte of the width is '\n'.
+    if (yaml_str.find("version:") != std::string_view::npos) {
+      input.trim_front(1 + null_pos + 1);  // consume newline + header + null terminator
+      EncodingInfo yaml_header = EncodingInfoFromYAML(yaml_str);
+      // The magic-header version is authoritative.
+      yaml_header.version = version;
+      return yaml_header;
+    }
   }
 
   // Binary encoded header
-- 
2.43.0


From 1a9566854e7cc60e4947c622617ca046900f3afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 09/64] fix: keep empty field names in the text header

---
 cloudini_lib/include/cloudini_lib/yaml_parser.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/yaml_parser.hpp b/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
index 6abbe20..e46d309 100644
--- a/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
+++ b/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
@@ -269,9 +269,7 @@ class Parser {
           // Parse the first key-value pair
           std::string_view key = trim(item_value.substr(0, colon_pos));
           std::string_view value_str = trim(item_value.substr(colon_pos + 1));
-          if (!value_str.empty()) {
-            item_map.emplace_back(key, Node(value_str));  // Zero-copy key
-          }
+          item_map.emplace_back(key, Node(value_str));  // Zero-copy key. The value may be empty
 
           current_line_++;
 
-- 
2.43.0


From 4d8c0e6943f00aeb4b36db71a3064431aa112f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 10/64] fix: reject malformed streams instead of reading or
 writing out of bounds

Several field decoders relied on a per-point minimum that does not protect the
fields after a longer one, V5 did not check at all, run lengths could wrap
around the bound, Gorilla windows could be impossible, and field offsets of an
untrusted header could lie outside the point.
---
 .../include/cloudini_lib/field_decoder.hpp    | 21 ++++++++++++++++---
 cloudini_lib/src/cloudini.cpp                 | 19 +++++++++++++++++
 cloudini_lib/src/v5_codec.cpp                 |  7 +++++--
 3 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/field_decoder.hpp b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
index afbbf3c..ac2dd80 100644
--- a/cloudini_lib/include/cloudini_lib/field_decoder.hpp
+++ b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
@@ -60,7 +60,10 @@ class FieldDecoderCopy : public FieldDecoder {
   }
 
   void decode(ConstBufferView& input, BufferView dest_point_view) override {
-    // Bounds validated by PointcloudDecoder's per-point check + trim_front's own check
+    // The decoder's per-point check only covers the minimum size of the preceding fields
+    if (input.size() < field_size_) {
+      throw std::runtime_error("FieldDecoderCopy: truncated input");
+    }
     if (offset_ != kDecodeButSkipStore) {
       memcpy(dest_point_view.data() + offset_, input.data(), field_size_);
     }
@@ -271,6 +274,9 @@ inline void FieldDecoderFloat_Gorilla<FloatType>::decode(ConstBufferView& input,
       IntType xor_val;
       if (control == 0) {
         // Reuse previous window.
+        if (prev_leading_ == kLeadingSentinel) {
+          throw std::runtime_error("FieldDecoderFloat_Gorilla: no previous window");
+        }
         const uint8_t meaningful = static_cast<uint8_t>(kTypeBits - prev_leading_ - prev_trailing_);
         const uint64_t bits = getBits(meaningful, input);
         xor_val = static_cast<IntType>(bits << prev_trailing_);
@@ -278,6 +284,9 @@ inline void FieldDecoderFloat_Gorilla<FloatType>::decode(ConstBufferView& input,
         // New window: read leading(5), meaningful-1(6), meaningful bits.
         const uint8_t stored_leading = static_cast<uint8_t>(getBits(5, input));
         const uint8_t meaningful = static_cast<uint8_t>(getBits(6, input) + 1);
+        if (stored_leading + meaningful > kTypeBits) {
+          throw std::runtime_error("FieldDecoderFloat_Gorilla: invalid window");
+        }
         const uint64_t bits = getBits(meaningful, input);
         const uint8_t trailing = static_cast<uint8_t>(kTypeBits - stored_leading - meaningful);
         xor_val = static_cast<IntType>(bits << trailing);
@@ -329,7 +338,10 @@ class FieldDecoderFloatN_Lossy : public FieldDecoder {
 //------------------------------------------------------------------------------------------
 template <typename FloatType>
 inline void FieldDecoderFloat_Lossy<FloatType>::decode(ConstBufferView& input, BufferView dest_point_view) {
-  // Bounds validated by PointcloudDecoder's per-point min_encoded_point_bytes_ check
+  // The decoder's per-point check only covers the minimum size of the preceding fields
+  if (input.empty()) {
+    throw std::runtime_error("FieldDecoder(Float/Lossy): truncated input");
+  }
   if (input.data()[0] == 0) {
     constexpr auto nan_value = std::numeric_limits<FloatType>::quiet_NaN();
     if (offset_ != kDecodeButSkipStore) {
@@ -354,7 +366,10 @@ inline void FieldDecoderFloat_Lossy<FloatType>::decode(ConstBufferView& input, B
 
 template <typename FloatType>
 inline void FieldDecoderFloat_XOR<FloatType>::decode(ConstBufferView& input, BufferView dest_point_view) {
-  // Bounds validated by PointcloudDecoder's per-point check + trim_front's own check
+  // The decoder's per-point check only covers the minimum size of the preceding fields
+  if (input.size() < sizeof(IntType)) {
+    throw std::runtime_error("FieldDecoderFloat_XOR: truncated input");
+  }
   IntType residual = 0;
   memcpy(&residual, input.data(), sizeof(IntType));
   input.trim_front(sizeof(IntType));
diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 39757c1..8266771 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -45,6 +45,21 @@ void ensureScratchBuffer(std::unique_ptr<uint8_t[]>& buffer, size_t& capacity, s
   capacity = required_capacity;
 }
 
+// Fields must lie inside the point (or be marked as not stored, when decoding).
+void validateFields(const EncodingInfo& info, bool allow_skip) {
+  for (const auto& field : info.fields) {
+    if (SizeOf(field.type) == 0) {
+      throw std::runtime_error("Unsupported type of field '" + field.name + "'");
+    }
+    if (allow_skip && field.offset == kDecodeButSkipStore) {
+      continue;
+    }
+    if (static_cast<uint64_t>(field.offset) + static_cast<uint64_t>(SizeOf(field.type)) > info.point_step) {
+      throw std::runtime_error("Field '" + field.name + "' exceeds the point_step");
+    }
+  }
+}
+
 // Shortest decimal form that reads back as exactly the same float.
 std::string FloatToString(float value) {
   std::string text;
@@ -647,6 +662,10 @@ size_t PointcloudEncoder::encode(ConstBufferView cloud_data, BufferView& output,
 //------------------------------------------------------------------------------------------
 
 void PointcloudDecoder::updateDecoders(const EncodingInfo& info) {
+  if (info.point_step == 0) {
+    throw std::runtime_error("point_step cannot be 0");
+  }
+  validateFields(info, true);
   if (detail::UsesV5Codec(info)) {
     detail::BuildV5Decoders(info, decoders_, min_encoded_point_bytes_);
   } else {
diff --git a/cloudini_lib/src/v5_codec.cpp b/cloudini_lib/src/v5_codec.cpp
index bbbb58b..59fac21 100644
--- a/cloudini_lib/src/v5_codec.cpp
+++ b/cloudini_lib/src/v5_codec.cpp
@@ -182,6 +182,9 @@ uint64_t readUVarint(ConstBufferView& input) {
     }
     const uint8_t byte = input.data()[0];
     input.trim_front(1);
+    if (shift == 63 && (byte & 0x7Fu) > 1u) {
+      throw std::runtime_error("V5 adaptive int: unsigned varint overflow");
+    }
     value |= (static_cast<uint64_t>(byte & 0x7Fu) << shift);
     if ((byte & 0x80u) == 0) {
       return value;
@@ -837,7 +840,7 @@ void decodeV5AdaptiveIntSection(
         const uint64_t value = readRawBits(input.data(), field.bytes_per_value);
         input.trim_front(field.bytes_per_value);
         const uint64_t run_len = readUVarint(input);
-        if (out_index + run_len > expected_points) {
+        if (run_len > expected_points - out_index) {
           throw std::runtime_error("V5 adaptive int: RLE run exceeds point count");
         }
         for (uint64_t k = 0; k < run_len; ++k) {
@@ -860,7 +863,7 @@ void decodeV5AdaptiveIntSection(
         const auto consumed = decodeIntVarint(input.data(), input.size(), diff);
         input.trim_front(consumed);
         const uint64_t run_len = readUVarint(input);
-        if (out_index + run_len > expected_points) {
+        if (run_len > expected_points - out_index) {
           throw std::runtime_error("V5 adaptive int: Delta-RLE run exceeds point count");
         }
         for (uint64_t k = 0; k < run_len; ++k) {
-- 
2.43.0


From 3582fd656f54bb54351b6d19a5c30cf3d7e1980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 11/64] fix: refuse to encode fields that lie outside the point

Their values were read past the end of the cloud's data.
---
 cloudini_lib/src/cloudini.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 8266771..11ae24b 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -563,6 +563,7 @@ size_t PointcloudEncoder::encode(ConstBufferView cloud_data, BufferView& output,
   if (cloud_data.size() % info_.point_step != 0) {
     throw std::runtime_error("Input cloud_data size is not a multiple of point_step");
   }
+  validateFields(info_, false);
   const size_t points_count = cloud_data.size() / info_.point_step;
   // Use header_.size() directly to avoid redundant YAML serialization inside MaxCompressedSize
   const size_t required_capacity = MaxCompressedSize(info_, points_count, false) + (write_header ? header_.size() : 0);
-- 
2.43.0


From 583e7a9f162ca1d7790346051527e17524a87dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 12/64] fix: wait for the compression worker when encoding
 throws

If encode() left by an exception (e.g. out of memory) while a chunk was being
compressed, the worker went on writing to the caller's buffer and the next call
reset the shared state under it.
---
 cloudini_lib/src/cloudini.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 11ae24b..057139e 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -600,6 +600,15 @@ size_t PointcloudEncoder::encode(ConstBufferView cloud_data, BufferView& output,
   }
   output_view_ = output;
 
+  // Never leave while the worker still writes to the caller's buffer, not even by an exception.
+  struct WaitForWorker {
+    PointcloudEncoder& self;
+    ~WaitForWorker() {
+      std::unique_lock<std::mutex> lock(self.mutex_);
+      self.cv_done_compressing_.wait(lock, [this] { return self.compression_done_ || self.worker_failed_; });
+    }
+  } wait_for_worker{*this};
+
   // Copy the header at the beginning of the output
   if (write_header) {
     memcpy(output_view_.data(), header_.data(), header_.size());
-- 
2.43.0


From a63b4b9c16768bf673374e0332dd20183f60a006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 13/64] fix: survive a failure to restart the compression
 worker

worker_failed_ was cleared before the thread was created, so after a failed
creation the next encode() waited forever for a worker that did not exist.
---
 cloudini_lib/src/cloudini.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 057139e..01e9334 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -581,12 +581,13 @@ size_t PointcloudEncoder::encode(ConstBufferView cloud_data, BufferView& output,
       if (compressing_thread_.joinable()) {
         compressing_thread_.join();
       }
+      // If the thread cannot be created, the failure stays pending and the next call retries.
+      compressing_thread_ = std::thread(&PointcloudEncoder::compressionWorker, this);
       {
         std::lock_guard<std::mutex> lock(mutex_);
         worker_failed_ = false;
         worker_exception_ = nullptr;
       }
-      compressing_thread_ = std::thread(&PointcloudEncoder::compressionWorker, this);
     }
   }
 
-- 
2.43.0


From 8543617138bbc74bc6f85c0d8580b22bcb1e575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 14/64] fix: reject CDR buffers shorter than their header and
 lengths beyond their end

---
 .../include/cloudini_lib/contrib/nanocdr.hpp         | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp b/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
index e73b72a..9ef700e 100644
--- a/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
+++ b/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
@@ -249,8 +249,12 @@ inline void swapEndianness(T& val) {
   }
 }
 
-inline Decoder::Decoder(ConstBuffer buffer, CdrVersion default_cdr) : buffer_(buffer), origin_(buffer.data() + 4) {
+inline Decoder::Decoder(ConstBuffer buffer, CdrVersion default_cdr) : buffer_(buffer) {
+  if (buffer_.size() < 4) {
+    throw std::runtime_error("Invalid CDR header: less than 4 bytes");
+  }
   const auto* ptr = buffer_.data();
+  origin_ = ptr + 4;
   uint8_t dummy = ptr[0];
   if (dummy != 0) {
     throw std::runtime_error("Invalid CDR header: expected first byte to be 0");
@@ -296,6 +300,12 @@ template <typename T, typename Allocator>
 inline void Decoder::decode(std::vector<T, Allocator>& out) {
   uint32_t len = 0;
   decode(len);
+  if constexpr (is_arithmetic<T>()) {
+    // check before allocating: the length may be corrupted
+    if (buffer_.size() / sizeof(T) < len) {
+      throw std::runtime_error("Decode: not enough data to decode (vector). Size: " + std::to_string(len));
+    }
+  }
   out.resize(len);
   for (uint32_t i = 0; i < len; i++) {
     decode(out[i]);
-- 
2.43.0


From 8a1b3961747de80f1b1b71269ee82ec43950eeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:41 +0000
Subject: [PATCH 15/64] fix: reject compressed messages announcing clouds
 larger than 4 GiB

---
 cloudini_lib/src/ros_msg_utils.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index 2978571..b0f984d 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -134,7 +134,12 @@ Cloudini::EncodingInfo toEncodingInfo(const RosPointCloud2& pc_info) {
 
 void convertCompressedCloudToPointCloud2(const RosPointCloud2& pc_info, std::vector<uint8_t>& pc2_dds_msg) {
   // We need to reserve enough space in the output buffer
-  const size_t cloud_data_size = pc_info.width * pc_info.height * pc_info.point_step;
+  // each product is checked, to make sure that neither it nor the length of the data field overflows
+  const uint64_t points_count = static_cast<uint64_t>(pc_info.width) * pc_info.height;
+  if (pc_info.point_step != 0 && points_count > std::numeric_limits<uint32_t>::max() / pc_info.point_step) {
+    throw std::runtime_error("convertCompressedCloudToPointCloud2: the point cloud is larger than 4 GiB");
+  }
+  const size_t cloud_data_size = points_count * pc_info.point_step;
 
   pc2_dds_msg.clear();
   nanocdr::Encoder cdr_encoder(pc_info.cdr_header, pc2_dds_msg);
-- 
2.43.0


From 516e527a77e9e41abc4ec75359dc851e2ca83219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:03 +0000
Subject: [PATCH 16/64] fix: do not encode the padding between rows of a
 PointCloud2 as points

---
 cloudini_lib/src/ros_msg_utils.cpp | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index b0f984d..91be498 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -48,6 +48,22 @@ inline uint64_t packVoxelKey21(int32_t qx, int32_t qy, int32_t qz) {
   return ux | (uy << 21) | (uz << 42);
 }
 
+// The rows of a PointCloud2 can be followed by padding (row_step > width * point_step), that the
+// encoder doesn't expect. Return the points alone, using "storage" only when there is something to remove.
+Cloudini::ConstBufferView removeRowPadding(const RosPointCloud2& pc_info, std::vector<uint8_t>& storage) {
+  const size_t row_size = static_cast<size_t>(pc_info.width) * pc_info.point_step;
+  if (row_size == 0 || pc_info.row_step <= row_size ||
+      pc_info.data.size() != static_cast<size_t>(pc_info.row_step) * pc_info.height) {
+    return pc_info.data;
+  }
+  storage.reserve(row_size * pc_info.height);
+  for (size_t row = 0; row < pc_info.height; ++row) {
+    const uint8_t* row_ptr = pc_info.data.data() + row * pc_info.row_step;
+    storage.insert(storage.end(), row_ptr, row_ptr + row_size);
+  }
+  return Cloudini::ConstBufferView(storage.data(), storage.size());
+}
+
 }  // namespace
 
 
@@ -194,9 +210,11 @@ void convertPointCloud2ToCompressedCloud(
   if (encoding_info.point_step == 0) {
     throw std::runtime_error("convertPointCloud2ToCompressedCloud: point_step cannot be 0");
   }
+  std::vector<uint8_t> packed_rows;
+  const Cloudini::ConstBufferView points = removeRowPadding(pc_info, packed_rows);
   // Derive point count from actual data size rather than trusting metadata width*height,
   // which could be maliciously large and cause excessive allocation.
-  const size_t points_count = pc_info.data.size() / encoding_info.point_step;
+  const size_t points_count = points.size() / encoding_info.point_step;
   const size_t max_compressed_size = Cloudini::MaxCompressedSize(encoding_info, points_count, true);
   // reserve enough memory for the compressed data. we will resize later to the actual size used
   compressed_dds_msg.resize(prev_size + max_compressed_size);
@@ -204,7 +222,7 @@ void convertPointCloud2ToCompressedCloud(
   Cloudini::BufferView compressed_data_view(
       compressed_dds_msg.data() + prev_size, compressed_dds_msg.size() - prev_size);
   Cloudini::PointcloudEncoder cloud_encoder(encoding_info);
-  const size_t compressed_size = cloud_encoder.encode(pc_info.data, compressed_data_view, true);
+  const size_t compressed_size = cloud_encoder.encode(points, compressed_data_view, true);
 
   // we can finally write the actual size of the compressed data
   memcpy(compressed_dds_msg.data() + cloud_size_memory_offset, &compressed_size, sizeof(uint32_t));
@@ -277,7 +295,9 @@ void applyVizLossyPreprocessing(RosPointCloud2& pc_info) {
   const float inv_res = 1.0f / xyz_res;
   const uint32_t xyz_off[3] = {f0.offset, f1.offset, f2.offset};
 
-  const size_t n_in = (pc_info.data.size() == 0) ? 0 : (pc_info.data.size() / pc_info.point_step);
+  std::vector<uint8_t> packed_rows;
+  const Cloudini::ConstBufferView points = removeRowPadding(pc_info, packed_rows);
+  const size_t n_in = (points.size() == 0) ? 0 : (points.size() / pc_info.point_step);
   if (n_in == 0) {
     return;
   }
@@ -303,12 +323,12 @@ void applyVizLossyPreprocessing(RosPointCloud2& pc_info) {
   seen.reserve(n_in);
 
   std::vector<uint8_t> out;
-  out.reserve(pc_info.data.size());
+  out.reserve(points.size());
 
   // Single pass: NaN-drop + quantize xyz + hash-dedup + copy survivor bytes.
   uint64_t kept = 0;
   for (size_t i = 0; i < n_in; ++i) {
-    const uint8_t* p = pc_info.data.data() + i * pc_info.point_step;
+    const uint8_t* p = points.data() + i * pc_info.point_step;
     float fx = 0.0f, fy = 0.0f, fz = 0.0f;
     std::memcpy(&fx, p + xyz_off[0], 4);
     std::memcpy(&fy, p + xyz_off[1], 4);
-- 
2.43.0


From d269a39b92b8ddc062ff14b313be1b9764317a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:55 +0000
Subject: [PATCH 17/64] fix: do not merge distant voxels, nor read beyond the
 point, in applyVizLossyPreprocessing

---
 cloudini_lib/src/ros_msg_utils.cpp | 38 +++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index 91be498..e33830b 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -17,10 +17,12 @@
 #include "cloudini_lib/ros_msg_utils.hpp"
 
 #include <algorithm>
+#include <array>
 #include <cmath>
 #include <cstdint>
 #include <cstring>
 #include <limits>
+#include <set>
 #include <vector>
 
 #include "cloudini_lib/contrib/ankerl/unordered_dense.h"
@@ -34,11 +36,8 @@ namespace {
 // Layout: bits[0..20] = qx + bias, bits[21..41] = qy + bias, bits[42..62] = qz + bias.
 // Bias = 2^20 makes nonneg, so each axis fits in 21 bits and represents
 // signed values in [-2^20, 2^20-1] ≈ [-1.04M, 1.04M] ticks. At 1mm resolution
-// that's ±1km per axis; at 1cm it's ±10km. Any realistic LIDAR fits.
-//
-// Out-of-range coords silently truncate (would cause false dedup positives).
-// For our DATA corpus (200m max range × 1mm) this is well within the safe
-// region; if encountered, bumping resolution to 1cm gives 10× headroom.
+// that's ±1km per axis; at 1cm it's ±10km. Any realistic LIDAR fits: points
+// outside this range don't fit the key, see fitsVoxelKey21.
 inline uint64_t packVoxelKey21(int32_t qx, int32_t qy, int32_t qz) {
   constexpr int64_t kBias = int64_t{1} << 20;
   constexpr uint64_t kAxisMask = (uint64_t{1} << 21) - 1;
@@ -48,6 +47,12 @@ inline uint64_t packVoxelKey21(int32_t qx, int32_t qy, int32_t qz) {
   return ux | (uy << 21) | (uz << 42);
 }
 
+// True if the rounded voxel coordinate can be packed by packVoxelKey21 without truncation.
+inline bool fitsVoxelKey21(float q) {
+  constexpr float kLimit = 1 << 20;
+  return q >= -kLimit && q < kLimit;
+}
+
 // The rows of a PointCloud2 can be followed by padding (row_step > width * point_step), that the
 // encoder doesn't expect. Return the points alone, using "storage" only when there is something to remove.
 Cloudini::ConstBufferView removeRowPadding(const RosPointCloud2& pc_info, std::vector<uint8_t>& storage) {
@@ -283,7 +288,8 @@ void applyVizLossyPreprocessing(RosPointCloud2& pc_info) {
       f1.resolution.has_value() && f2.resolution.has_value() &&
       f0.resolution.value() == f1.resolution.value() &&
       f0.resolution.value() == f2.resolution.value() &&
-      f1.offset == f0.offset + 4u && f2.offset == f0.offset + 8u;
+      f1.offset == f0.offset + 4u && f2.offset == f0.offset + 8u &&
+      static_cast<uint64_t>(f0.offset) + 12u <= pc_info.point_step;
   if (!has_triple) {
     return;
   }
@@ -321,6 +327,11 @@ void applyVizLossyPreprocessing(RosPointCloud2& pc_info) {
   thread_local ankerl::unordered_dense::set<uint64_t> seen;
   seen.clear();
   seen.reserve(n_in);
+  // Voxels that don't fit the packed key, with double precision because there floats can't tell them apart.
+  std::set<std::array<double, 3>> seen_far;
+  const auto farVoxel = [xyz_res](float value) {
+    return std::round(static_cast<double>(value) / static_cast<double>(xyz_res));
+  };
 
   std::vector<uint8_t> out;
   out.reserve(points.size());
@@ -336,11 +347,16 @@ void applyVizLossyPreprocessing(RosPointCloud2& pc_info) {
     if (!std::isfinite(fx) || !std::isfinite(fy) || !std::isfinite(fz)) {
       continue;  // drop NaN/inf
     }
-    const uint64_t key = packVoxelKey21(
-        static_cast<int32_t>(std::lround(fx * inv_res)),
-        static_cast<int32_t>(std::lround(fy * inv_res)),
-        static_cast<int32_t>(std::lround(fz * inv_res)));
-    if (!seen.insert(key).second) {
+    const float qx = std::round(fx * inv_res);
+    const float qy = std::round(fy * inv_res);
+    const float qz = std::round(fz * inv_res);
+    const bool inserted =
+        (fitsVoxelKey21(qx) && fitsVoxelKey21(qy) && fitsVoxelKey21(qz))
+            ? seen.insert(packVoxelKey21(
+                              static_cast<int32_t>(qx), static_cast<int32_t>(qy), static_cast<int32_t>(qz)))
+                  .second
+            : seen_far.insert({farVoxel(fx), farVoxel(fy), farVoxel(fz)}).second;
+    if (!inserted) {
       continue;  // voxel duplicate
     }
     const size_t before = out.size();
-- 
2.43.0


From e8bc57a96504d6fc3c6ce5b9c4f6f08d0d1330fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:00 +0000
Subject: [PATCH 18/64] fix: leave an empty view behind when a RosPointCloud2
 is moved

---
 cloudini_lib/include/cloudini_lib/ros_msg_utils.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudini_lib/include/cloudini_lib/ros_msg_utils.hpp b/cloudini_lib/include/cloudini_lib/ros_msg_utils.hpp
index 1b83ba7..91f7ce5 100644
--- a/cloudini_lib/include/cloudini_lib/ros_msg_utils.hpp
+++ b/cloudini_lib/include/cloudini_lib/ros_msg_utils.hpp
@@ -87,6 +87,7 @@ struct RosPointCloud2 {
     owned_data = std::move(other.owned_data);
     if (owned_data_view) {
       data = Cloudini::ConstBufferView(owned_data.data(), owned_data.size());
+      other.data = Cloudini::ConstBufferView();  // the storage it was viewing moved away
     }
   }
 
@@ -127,6 +128,7 @@ struct RosPointCloud2 {
     owned_data = std::move(other.owned_data);
     if (owned_data_view) {
       data = Cloudini::ConstBufferView(owned_data.data(), owned_data.size());
+      other.data = Cloudini::ConstBufferView();  // the storage it was viewing moved away
     }
     return *this;
   }
-- 
2.43.0


From 0f2b9ef493ca38e3183b4710c4d2480b2f33cd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 19/64] fix: encode 8-byte integers and doubles of PCL clouds
 and PCD files

---
 cloudini_lib/src/pcl_conversion.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index da61953..206f5e1 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -76,7 +76,7 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
     const std::string name = std::string(fields_name[i]);
     const int bytes = std::stoi(std::string(fields_size[i]));
     FieldType type = FieldType::UNKNOWN;
-    if (fields_type[i] == "F" && bytes == 4) {
+    if (fields_type[i] == "F") {
       if (bytes == 4) {
         type = FieldType::FLOAT32;
       } else if (bytes == 8) {
@@ -89,6 +89,8 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
         type = FieldType::INT16;
       } else if (bytes == 4) {
         type = FieldType::INT32;
+      } else if (bytes == 8) {
+        type = FieldType::INT64;
       }
     } else if (fields_type[i] == "U") {
       if (bytes == 1) {
@@ -162,6 +164,13 @@ EncodingInfo ConvertToEncodingInfo(const pcl::PCLPointCloud2& cloud, double reso
       case pcl::PCLPointField::UINT32:
         point_field.type = FieldType::UINT32;
         break;
+      // older versions of PCL don't define PCLPointField::INT64 and UINT64
+      case static_cast<uint8_t>(FieldType::INT64):
+        point_field.type = FieldType::INT64;
+        break;
+      case static_cast<uint8_t>(FieldType::UINT64):
+        point_field.type = FieldType::UINT64;
+        break;
       default:
         point_field.type = FieldType::UNKNOWN;
         break;
-- 
2.43.0


From 8e3db084e7f3491ca1484c99a9dcc6fd35b644d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 20/64] fix: decode PCL points with the stride of the
 destination type

---
 cloudini_lib/include/cloudini_lib/pcl_conversion.hpp | 4 +++-
 cloudini_lib/src/pcl_conversion.cpp                  | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
index d46e2fd..504d45d 100644
--- a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
+++ b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
@@ -128,7 +128,7 @@ inline void PointcloudDecode(ConstBufferView serialized_data, pcl::PointCloud<Po
   // decode the header
   EncodingInfo header_info = DecodeHeader(serialized_data);
   // resize the cloud to the decoded size
-  cloud.points.resize(header_info.width * header_info.height);
+  cloud.points.resize(static_cast<size_t>(header_info.width) * header_info.height);
   cloud.width = header_info.width;
   cloud.height = header_info.height;
 
@@ -154,6 +154,8 @@ inline void PointcloudDecode(ConstBufferView serialized_data, pcl::PointCloud<Po
       field.offset = Cloudini::kDecodeButSkipStore;
     }
   }
+  // the points written are those of cloud, that can be larger or smaller than the encoded ones
+  header_info.point_step = cloud_info.point_step;
 
   // decode the data
   BufferView output_view(reinterpret_cast<uint8_t*>(cloud.points.data()), cloud.points.size() * sizeof(PointT));
diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index 206f5e1..409c2de 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -261,7 +261,7 @@ void PCLPointCloudDecode(ConstBufferView serialized_data, pcl::PCLPointCloud2& c
   cloud.is_bigendian = false;
 
   // Resize data
-  cloud.data.resize(cloud.width * cloud.height * cloud.point_step);
+  cloud.data.resize(static_cast<size_t>(cloud.width) * cloud.height * cloud.point_step);
 
   // Convert fields
   cloud.fields.clear();
-- 
2.43.0


From 0bba796c6abbc996fea7ba8bf18c0b0766a7090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:46 +0000
Subject: [PATCH 21/64] fix: make the C interface return 0 for inconsistent or
 oversized clouds

---
 cloudini_lib/src/wasm_functions.cpp | 54 +++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/cloudini_lib/src/wasm_functions.cpp b/cloudini_lib/src/wasm_functions.cpp
index 78079b3..5d25c76 100644
--- a/cloudini_lib/src/wasm_functions.cpp
+++ b/cloudini_lib/src/wasm_functions.cpp
@@ -22,6 +22,17 @@
 #include "cloudini_lib/ros_message_definitions.hpp"
 #include "cloudini_lib/ros_msg_utils.hpp"
 
+namespace {
+// Size of the raw points. Computed with 64 bits, since the dimensions of a corrupted message can overflow 32 bits.
+uint64_t rawPointsSize(uint32_t width, uint32_t height, uint32_t point_step) {
+  const uint64_t points_count = static_cast<uint64_t>(width) * height;
+  if (point_step != 0 && points_count > UINT32_MAX / point_step) {
+    return UINT64_MAX;  // can't be the size of any buffer
+  }
+  return points_count * point_step;
+}
+}  // namespace
+
 uint32_t cldn_GetHeaderAsYAML(uintptr_t encoded_data_ptr, uint32_t encoded_data_size, uintptr_t output_yaml_ptr) {
   try {
     const uint8_t* encoded_data = reinterpret_cast<const uint8_t*>(encoded_data_ptr);
@@ -73,13 +84,10 @@ uint32_t cldn_ComputeCompressedSize(uintptr_t dds_msg_ptr, uint32_t dds_msg_size
     Cloudini::PointcloudEncoder pc_encoder(encoding_info);
 
     // Verify data size matches expected size
-    const size_t expected_size = pc_info.width * pc_info.height * pc_info.point_step;
+    const uint64_t expected_size = rawPointsSize(pc_info.width, pc_info.height, pc_info.point_step);
 
     if (pc_info.data.size() != expected_size) {
-      // Check if dimensions are valid
-      if (pc_info.width == 0 || pc_info.height == 0) {
-        return 0;
-      }
+      return 0;
     }
     const auto compressed_size = pc_encoder.encode(pc_info.data, compressed_cloud);
     return compressed_size;
@@ -94,7 +102,9 @@ uint32_t cldn_GetDecompressedSize(uintptr_t encoded_dds_ptr, uint32_t encoded_dd
     const uint8_t* compressed_data = reinterpret_cast<const uint8_t*>(encoded_dds_ptr);
     Cloudini::ConstBufferView raw_dds_msg(compressed_data, encoded_dds_size);
     auto compressed_cloud = cloudini_ros::getDeserializedPointCloudMessage(raw_dds_msg);
-    return compressed_cloud.height * compressed_cloud.width * compressed_cloud.point_step;
+    const uint64_t decompressed_size =
+        rawPointsSize(compressed_cloud.width, compressed_cloud.height, compressed_cloud.point_step);
+    return decompressed_size <= UINT32_MAX ? static_cast<uint32_t>(decompressed_size) : 0;
   } catch (const std::exception& e) {
     EM_ASM({ console.error('Exception in cldn_GetDecompressedSize:', UTF8ToString($0)); }, e.what());
     return 0;
@@ -122,10 +132,19 @@ uint32_t cldn_ConvertCompressedMsgToPointCloud2Msg(
 uint32_t cldn_DecodeCompressedMessage(uintptr_t encoded_dds_ptr, uint32_t encoded_dds_size, uintptr_t output_data) {
   const uint8_t* dds_data = reinterpret_cast<const uint8_t*>(encoded_dds_ptr);
 
-  Cloudini::ConstBufferView dds_data_view(dds_data, encoded_dds_size);
-  const auto pcl_msg = cloudini_ros::getDeserializedPointCloudMessage(dds_data_view);
-
   try {
+    Cloudini::ConstBufferView dds_data_view(dds_data, encoded_dds_size);
+    const auto pcl_msg = cloudini_ros::getDeserializedPointCloudMessage(dds_data_view);
+
+    // The caller allocated the output using the size in the message: the payload must not need more than that.
+    Cloudini::ConstBufferView payload = pcl_msg.data;
+    const auto payload_info = Cloudini::DecodeHeader(payload);
+    if (rawPointsSize(payload_info.width, payload_info.height, payload_info.point_step) >
+        rawPointsSize(pcl_msg.width, pcl_msg.height, pcl_msg.point_step)) {
+      EM_ASM({ console.error('The compressed data does not match the size in the message.'); });
+      return 0;
+    }
+
     uintptr_t compressed_data_ptr = reinterpret_cast<uintptr_t>(pcl_msg.data.data());
     uint32_t decoded_size = cldn_DecodeCompressedData(compressed_data_ptr, pcl_msg.data.size(), output_data);
 
@@ -152,7 +171,11 @@ uint32_t cldn_DecodeCompressedData(uintptr_t encoded_data_ptr, uint32_t encoded_
     return 0;
   }
 
-  size_t decoded_size = info.width * info.height * info.point_step;
+  const uint64_t decoded_size = rawPointsSize(info.width, info.height, info.point_step);
+  if (decoded_size > UINT32_MAX) {
+    EM_ASM({ console.error('Invalid point cloud size in the header.'); });
+    return 0;
+  }
   uint8_t* decoded_data = reinterpret_cast<uint8_t*>(output_data);
   Cloudini::BufferView decoded_view(decoded_data, decoded_size);
 
@@ -183,9 +206,9 @@ uint32_t cldn_EncodePointcloudMessage(
     }
 
     // Verify data size matches expected size
-    const size_t expected_size = pc_info.width * pc_info.height * pc_info.point_step;
+    const uint64_t expected_size = rawPointsSize(pc_info.width, pc_info.height, pc_info.point_step);
 
-    if (pc_info.data.size() != expected_size) {
+    if (pc_info.point_step == 0 || pc_info.data.size() != expected_size) {
       return 0;
     }
     Cloudini::PointcloudEncoder pc_encoder(encoding_info);
@@ -220,10 +243,13 @@ uint32_t cldn_EncodePointcloudData(
     const Cloudini::EncodingInfo encoding_info = Cloudini::EncodingInfoFromYAML(header_as_yaml);
 
     // Verify data size matches expected size
-    uint32_t expected_size = encoding_info.width * encoding_info.height * encoding_info.point_step;
+    const uint64_t expected_size =
+        rawPointsSize(encoding_info.width, encoding_info.height, encoding_info.point_step);
 
     if (pc_data_size != expected_size) {
-      EM_ASM({ console.error('Data size mismatch: expected', $0, 'but got', $1); }, expected_size, pc_data_size);
+      EM_ASM(
+          { console.error('Data size mismatch: expected', $0, 'but got', $1); }, static_cast<double>(expected_size),
+          pc_data_size);
       return 0;
     }
 
-- 
2.43.0


From 37c6ac6720aef88e7428bf3633bb342efb1709f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 22/64] fix: compute the size of decoded clouds with 64 bits

---
 cloudini_lib/include/cloudini_lib/cloudini.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudini_lib/include/cloudini_lib/cloudini.hpp b/cloudini_lib/include/cloudini_lib/cloudini.hpp
index a2beac8..1ba7f79 100644
--- a/cloudini_lib/include/cloudini_lib/cloudini.hpp
+++ b/cloudini_lib/include/cloudini_lib/cloudini.hpp
@@ -227,7 +227,7 @@ class PointcloudDecoder {
   void decode(const EncodingInfo& info, ConstBufferView compressed_data, BufferView output);
 
   void decode(const EncodingInfo& info, ConstBufferView compressed_data, std::vector<uint8_t>& output) {
-    output.resize(info.width * info.height * info.point_step);
+    output.resize(static_cast<size_t>(info.width) * info.height * info.point_step);
     BufferView output_view(output.data(), output.size());
     decode(info, compressed_data, output_view);
   }
-- 
2.43.0


From d4dbed65bb6e29bdd215e6a2d68869cab429da2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:36 +0000
Subject: [PATCH 23/64] fix: accept comments and blank lines in the header of
 PCD files

---
 cloudini_lib/src/pcl_conversion.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index 409c2de..cb763b1 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -42,8 +42,8 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
   std::vector<std::string> fields_size;
   std::vector<std::string> fields_type;
 
-  do {
-    std::getline(stream, line);
+  // comments and blank lines are allowed before and between the entries of the header
+  while (std::getline(stream, line)) {
     line = line.substr(0, line.find('#'));   // Remove comments
     line = line.substr(0, line.find('\r'));  // Remove carriage return if present
     line = line.substr(0, line.find('\n'));  // Remove newline if present
@@ -62,7 +62,7 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
     } else if (line_key == "DATA") {
       break;
     }
-  } while (!line.empty());
+  }
 
   const size_t num_fields = fields_name.size();
 
-- 
2.43.0


From 975602659ab979471f69e111ace810b602667ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:53 +0000
Subject: [PATCH 24/64] fix: make cldn_DecodeCompressedMessage reject payloads
 of another size than announced

---
 cloudini_lib/src/wasm_functions.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/src/wasm_functions.cpp b/cloudini_lib/src/wasm_functions.cpp
index 5d25c76..aa0b6c0 100644
--- a/cloudini_lib/src/wasm_functions.cpp
+++ b/cloudini_lib/src/wasm_functions.cpp
@@ -136,11 +136,12 @@ uint32_t cldn_DecodeCompressedMessage(uintptr_t encoded_dds_ptr, uint32_t encode
     Cloudini::ConstBufferView dds_data_view(dds_data, encoded_dds_size);
     const auto pcl_msg = cloudini_ros::getDeserializedPointCloudMessage(dds_data_view);
 
-    // The caller allocated the output using the size in the message: the payload must not need more than that.
+    // The caller allocated the output using the size in the message: the payload must have exactly that size.
     Cloudini::ConstBufferView payload = pcl_msg.data;
     const auto payload_info = Cloudini::DecodeHeader(payload);
-    if (rawPointsSize(payload_info.width, payload_info.height, payload_info.point_step) >
-        rawPointsSize(pcl_msg.width, pcl_msg.height, pcl_msg.point_step)) {
+    const uint64_t announced_size = rawPointsSize(pcl_msg.width, pcl_msg.height, pcl_msg.point_step);
+    if (announced_size > UINT32_MAX ||
+        rawPointsSize(payload_info.width, payload_info.height, payload_info.point_step) != announced_size) {
       EM_ASM({ console.error('The compressed data does not match the size in the message.'); });
       return 0;
     }
-- 
2.43.0


From 0220164b276ff1d93492c1dd7bd223a75e9fca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 25/64] fix: keep the metadata of the channels when converting
 bags

---
 cloudini_lib/tools/src/mcap_converter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index 22432d6..f441845 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -100,7 +100,8 @@ void McapConverter::duplicateSchemasAndChannels(
   for (const auto& channel_id : ordered_channels_id) {
     const auto channel_ptr = old_channels.at(channel_id);
     auto new_schema_id = old_to_new_schema_id_.at(channel_ptr->schemaId);
-    mcap::Channel new_channel(channel_ptr->topic, channel_ptr->messageEncoding, new_schema_id);
+    mcap::Channel new_channel(
+        channel_ptr->topic, channel_ptr->messageEncoding, new_schema_id, channel_ptr->metadata);
     writer.addChannel(new_channel);
     old_to_new_channel_id_.insert({channel_ptr->id, new_channel.id});
   }
-- 
2.43.0


From a105af3fc1552805b46488fd868131a0950be234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 26/64] fix: convert bags containing channels without schema

---
 cloudini_lib/tools/src/mcap_converter.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index f441845..beec879 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -45,7 +45,10 @@ McapConverter::TopicsMap McapConverter::open(std::filesystem::path file_in) {
   }
 
   for (const auto& [channel_id, channel_ptr] : reader_->channels()) {
-    const auto& schema_ptr = reader_->schema(channel_ptr->schemaId);
+    const auto schema_ptr = reader_->schema(channel_ptr->schemaId);
+    if (!schema_ptr) {
+      continue;  // channel without schema
+    }
     if (schema_ptr->name == pointcloud_schema_name || schema_ptr->name == compressed_schema_name) {
       topics[channel_ptr->topic] = schema_ptr->name;
     }
@@ -99,7 +102,9 @@ void McapConverter::duplicateSchemasAndChannels(
 
   for (const auto& channel_id : ordered_channels_id) {
     const auto channel_ptr = old_channels.at(channel_id);
-    auto new_schema_id = old_to_new_schema_id_.at(channel_ptr->schemaId);
+    // the schema id 0 means that the channel has no schema
+    const mcap::SchemaId new_schema_id =
+        (channel_ptr->schemaId == 0) ? 0 : old_to_new_schema_id_.at(channel_ptr->schemaId);
     mcap::Channel new_channel(
         channel_ptr->topic, channel_ptr->messageEncoding, new_schema_id, channel_ptr->metadata);
     writer.addChannel(new_channel);
@@ -172,7 +177,7 @@ void McapConverter::encodePointClouds(
     mcap::Message new_msg = msg.message;
     new_msg.channelId = old_to_new_channel_id_.at(msg.channel->id);
     // default case (not a point cloud)
-    if (msg.schema->name != pointcloud_schema_name) {
+    if (!msg.schema || msg.schema->name != pointcloud_schema_name) {
       auto status = writer.write(new_msg);
       if (!status.ok()) {
         throw std::runtime_error("Error writing message to MCAP file: " + status.message);
@@ -269,7 +274,7 @@ void McapConverter::decodePointClouds(
     mcap::Message new_msg = msg.message;
     new_msg.channelId = old_to_new_channel_id_.at(msg.channel->id);
     // default case (not a point cloud)
-    if (msg.schema->name != compressed_schema_name) {
+    if (!msg.schema || msg.schema->name != compressed_schema_name) {
       auto status = writer.write(new_msg);
       if (!status.ok()) {
         throw std::runtime_error("Error writing message to MCAP file: " + status.message);
-- 
2.43.0


From a82a6ff67db56d6bc9faf2fe625ebd076884f373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 27/64] fix: reject resolutions of a profile that are not
 numbers or negative

---
 cloudini_lib/tools/src/mcap_converter.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index beec879..267baf6 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -16,6 +16,7 @@
 
 #include "mcap_converter.hpp"
 
+#include <cmath>
 #include <set>
 #include <stdexcept>
 
@@ -342,11 +343,18 @@ void McapConverter::addProfile(const std::string& profile) {
       resolution = 0.0f;
     } else {
       // check if resolution_str can be converted to float
+      size_t parsed_chars = 0;
       try {
-        resolution = std::stof(resolution_str);
-      } catch (const std::invalid_argument& e) {
+        resolution = std::stof(resolution_str, &parsed_chars);
+      } catch (const std::logic_error& e) {
         throw std::runtime_error("Invalid profile (failed conversion to float): " + profile);
       }
+      if (parsed_chars != resolution_str.size()) {
+        throw std::runtime_error("Invalid profile (failed conversion to float): " + profile);
+      }
+      if (!std::isfinite(resolution) || resolution < 0) {
+        throw std::runtime_error("Invalid profile (the resolution must be a positive number): " + profile);
+      }
     }
     if (field_str == "xyz") {
       profile_resolutions_["x"] = resolution;
-- 
2.43.0


From a733857daa902251e8c054eb14a096713f2ae456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:11 +0000
Subject: [PATCH 28/64] fix: let a bag converter open more than one bag

---
 cloudini_lib/tools/src/mcap_converter.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index 267baf6..cea44b8 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -29,7 +29,12 @@
 #include <mcap/writer.hpp>
 
 McapConverter::TopicsMap McapConverter::open(std::filesystem::path file_in) {
-  input_stream_.open(file_in);
+  // allow the same instance to open multiple files, one after the other
+  reader_.reset();
+  data_source_.reset();
+  input_stream_.close();
+  input_stream_.clear();
+  input_stream_.open(file_in, std::ios::binary);
   data_source_ = std::make_shared<mcap::FileStreamReader>(input_stream_);
   reader_ = std::make_shared<mcap::McapReader>();
   auto res = reader_->open(*data_source_);
-- 
2.43.0


From 9686a59d0c1253b9e804fd626f1425d5d1ad9b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:30 +0000
Subject: [PATCH 29/64] fix: refuse to encode big-endian point clouds

---
 cloudini_lib/src/ros_msg_utils.cpp             | 4 ++++
 cloudini_ros/src/cloudini_publisher_plugin.cpp | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index e33830b..38d1ebe 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -215,6 +215,10 @@ void convertPointCloud2ToCompressedCloud(
   if (encoding_info.point_step == 0) {
     throw std::runtime_error("convertPointCloud2ToCompressedCloud: point_step cannot be 0");
   }
+  // the values would be encoded with the wrong byte order, and restored as something else
+  if (pc_info.is_bigendian) {
+    throw std::runtime_error("convertPointCloud2ToCompressedCloud: big-endian point clouds are not supported");
+  }
   std::vector<uint8_t> packed_rows;
   const Cloudini::ConstBufferView points = removeRowPadding(pc_info, packed_rows);
   // Derive point count from actual data size rather than trusting metadata width*height,
diff --git a/cloudini_ros/src/cloudini_publisher_plugin.cpp b/cloudini_ros/src/cloudini_publisher_plugin.cpp
index 36db50c..9fdb314 100644
--- a/cloudini_ros/src/cloudini_publisher_plugin.cpp
+++ b/cloudini_ros/src/cloudini_publisher_plugin.cpp
@@ -16,6 +16,7 @@
 
 #include "cloudini_plugin/cloudini_publisher_plugin.hpp"
 
+#include <stdexcept>
 #include <string>
 
 #include "cloudini_ros/conversion_utils.hpp"
@@ -51,6 +52,10 @@ void CloudiniPublisher::declareParameters(const std::string& base_topic) {
 }
 
 CloudiniPublisher::TypedEncodeResult CloudiniPublisher::encodeTyped(const sensor_msgs::msg::PointCloud2& raw) const {
+  // the values would be encoded with the wrong byte order, and decoded as something else
+  if (raw.is_bigendian) {
+    throw std::runtime_error("CloudiniPublisher: big-endian point clouds are not supported");
+  }
   auto info = Cloudini::ConvertToEncodingInfo(raw, resolution_);
   Cloudini::PointcloudEncoder encoder(info);
 
-- 
2.43.0


From 2fdc33c96c88d733585a26dc5b61e28817ea39f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:30 +0000
Subject: [PATCH 30/64] fix: announce the format in the messages of the
 publisher plugin

---
 cloudini_ros/src/cloudini_publisher_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cloudini_ros/src/cloudini_publisher_plugin.cpp b/cloudini_ros/src/cloudini_publisher_plugin.cpp
index 9fdb314..2c976d9 100644
--- a/cloudini_ros/src/cloudini_publisher_plugin.cpp
+++ b/cloudini_ros/src/cloudini_publisher_plugin.cpp
@@ -70,6 +70,7 @@ CloudiniPublisher::TypedEncodeResult CloudiniPublisher::encodeTyped(const sensor
   result.point_step = raw.point_step;
   result.row_step = raw.row_step;
   result.is_dense = raw.is_dense;
+  result.format = "cloudini";
 
   // reserve memory for the compressed data
   result.compressed_data.resize(raw.data.size());
-- 
2.43.0


From d188fe03d951821aae454ffd175eedc170cb270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:30 +0000
Subject: [PATCH 31/64] fix: do not encode the padding between rows in the
 publisher plugin

---
 cloudini_ros/src/cloudini_publisher_plugin.cpp  | 15 ++++++++++++++-
 cloudini_ros/src/cloudini_subscriber_plugin.cpp |  2 +-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/cloudini_ros/src/cloudini_publisher_plugin.cpp b/cloudini_ros/src/cloudini_publisher_plugin.cpp
index 2c976d9..1f3b0dc 100644
--- a/cloudini_ros/src/cloudini_publisher_plugin.cpp
+++ b/cloudini_ros/src/cloudini_publisher_plugin.cpp
@@ -18,6 +18,7 @@
 
 #include <stdexcept>
 #include <string>
+#include <vector>
 
 #include "cloudini_ros/conversion_utils.hpp"
 
@@ -68,7 +69,7 @@ CloudiniPublisher::TypedEncodeResult CloudiniPublisher::encodeTyped(const sensor
   result.fields = raw.fields;
   result.is_bigendian = false;
   result.point_step = raw.point_step;
-  result.row_step = raw.row_step;
+  result.row_step = raw.width * raw.point_step;
   result.is_dense = raw.is_dense;
   result.format = "cloudini";
 
@@ -77,6 +78,18 @@ CloudiniPublisher::TypedEncodeResult CloudiniPublisher::encodeTyped(const sensor
 
   // prepare buffer for compression
   Cloudini::ConstBufferView input(raw.data.data(), raw.data.size());
+
+  // the rows can be followed by padding, that the encoder doesn't expect
+  std::vector<uint8_t> packed_rows;
+  const size_t row_size = static_cast<size_t>(raw.width) * raw.point_step;
+  if (raw.row_step > row_size && raw.data.size() == static_cast<size_t>(raw.row_step) * raw.height) {
+    packed_rows.reserve(row_size * raw.height);
+    for (size_t row = 0; row < raw.height; ++row) {
+      const auto row_begin = raw.data.begin() + row * raw.row_step;
+      packed_rows.insert(packed_rows.end(), row_begin, row_begin + row_size);
+    }
+    input = Cloudini::ConstBufferView(packed_rows.data(), packed_rows.size());
+  }
   auto new_size = encoder.encode(input, result.compressed_data);
 
   // resize the compressed data to the actual size
diff --git a/cloudini_ros/src/cloudini_subscriber_plugin.cpp b/cloudini_ros/src/cloudini_subscriber_plugin.cpp
index c8d8675..20825b1 100644
--- a/cloudini_ros/src/cloudini_subscriber_plugin.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_plugin.cpp
@@ -66,7 +66,7 @@ CloudiniSubscriber::DecodeResult CloudiniSubscriber::decodeTyped(
   result->fields = msg.fields;
   result->is_bigendian = false;
   result->point_step = msg.point_step;
-  result->row_step = msg.row_step;
+  result->row_step = msg.width * msg.point_step;
   result->is_dense = msg.is_dense;
 
   // prepare buffer for decompression
-- 
2.43.0


From 0aeb7c256dad900f0f85a587f4d8c70133bcb160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 32/64] fix: let the subscriber plugin deliver clouds without
 points

---
 cloudini_ros/src/cloudini_subscriber_plugin.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cloudini_ros/src/cloudini_subscriber_plugin.cpp b/cloudini_ros/src/cloudini_subscriber_plugin.cpp
index 20825b1..d4859ce 100644
--- a/cloudini_ros/src/cloudini_subscriber_plugin.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_plugin.cpp
@@ -28,6 +28,20 @@ CloudiniSubscriber::CloudiniSubscriber() : decoder_(std::make_shared<Cloudini::P
 
 CloudiniSubscriber::DecodeResult CloudiniSubscriber::decodeTyped(
     const point_cloud_interfaces::msg::CompressedPointCloud2& msg) const {
+  // Clouds without points are serialized without payload (see convertPointCloud2ToCompressedCloud)
+  if (msg.compressed_data.empty() && (msg.width == 0 || msg.height == 0)) {
+    auto empty_cloud = std::make_shared<sensor_msgs::msg::PointCloud2>();
+    empty_cloud->header = msg.header;
+    empty_cloud->height = msg.height;
+    empty_cloud->width = msg.width;
+    empty_cloud->fields = msg.fields;
+    empty_cloud->is_bigendian = false;
+    empty_cloud->point_step = msg.point_step;
+    empty_cloud->row_step = msg.width * msg.point_step;
+    empty_cloud->is_dense = msg.is_dense;
+    return empty_cloud;
+  }
+
   Cloudini::ConstBufferView input(msg.compressed_data.data(), msg.compressed_data.size());
   auto info = Cloudini::DecodeHeader(input);
 
-- 
2.43.0


From f16fc06018ec0d36c299e82a9b2bb4bc97481ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 33/64] fix: keep the pool of PCL clouds alive as long as the
 clouds given to the user

---
 .../cloudini_ros/cloudini_subscriber_pcl.hpp  | 16 +++++++++++--
 cloudini_ros/src/cloudini_subscriber_pcl.cpp  | 24 ++++++++++---------
 2 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp b/cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp
index 7f8e5a5..67f27a3 100644
--- a/cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp
+++ b/cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp
@@ -22,6 +22,7 @@
 #include <deque>
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <rclcpp/generic_subscription.hpp>
 #include <rclcpp/rclcpp.hpp>
 #include <rclcpp/serialization.hpp>
@@ -111,9 +112,20 @@ class CloudiniSubscriberPCL {
   rclcpp::Node* node_;
 
   // Object pool for PCL clouds (avoids repeated allocations)
-  std::deque<pcl::PCLPointCloud2*> cloud_pool_;
+  struct CloudPool {
+    std::deque<pcl::PCLPointCloud2*> clouds;
 
-  std::mutex pool_mutex_;
+    std::mutex mutex;
+
+    ~CloudPool() {
+      for (auto* ptr : clouds) {
+        delete ptr;
+      }
+    }
+  };
+
+  // Shared with the clouds given to the user, because these can outlive the subscriber
+  std::shared_ptr<CloudPool> cloud_pool_ = std::make_shared<CloudPool>();
 
   // Maximum pool size to prevent unbounded growth
   static constexpr size_t MAX_POOL_SIZE = 4;
diff --git a/cloudini_ros/src/cloudini_subscriber_pcl.cpp b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
index cc0752b..a6d619c 100644
--- a/cloudini_ros/src/cloudini_subscriber_pcl.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
@@ -54,11 +54,11 @@ CloudiniSubscriberPCL::CloudiniSubscriberPCL(
 
 CloudiniSubscriberPCL::~CloudiniSubscriberPCL() {
   // Clean up all objects in the pool
-  std::lock_guard<std::mutex> lock(pool_mutex_);
-  for (auto* ptr : cloud_pool_) {
+  std::lock_guard<std::mutex> lock(cloud_pool_->mutex);
+  for (auto* ptr : cloud_pool_->clouds) {
     delete ptr;
   }
-  cloud_pool_.clear();
+  cloud_pool_->clouds.clear();
 }
 
 std::string CloudiniSubscriberPCL::getTopicName() const {
@@ -69,24 +69,26 @@ pcl::PCLPointCloud2::Ptr CloudiniSubscriberPCL::acquireCloudFromPool() {
   pcl::PCLPointCloud2* raw_ptr = nullptr;
 
   // Try to get from pool
-  std::lock_guard<std::mutex> lock(pool_mutex_);
-  if (!cloud_pool_.empty()) {
-    raw_ptr = cloud_pool_.back();
-    cloud_pool_.pop_back();
+  std::unique_lock<std::mutex> lock(cloud_pool_->mutex);
+  if (!cloud_pool_->clouds.empty()) {
+    raw_ptr = cloud_pool_->clouds.back();
+    cloud_pool_->clouds.pop_back();
   } else {
     // Pool is empty, allocate new
     raw_ptr = new pcl::PCLPointCloud2();
   }
+  // the deleter takes the lock, also when the creation of the shared_ptr fails
+  lock.unlock();
 
   // Create shared_ptr with custom deleter that returns to pool
-  return pcl::PCLPointCloud2::Ptr(raw_ptr, [this](pcl::PCLPointCloud2* ptr) {
-    std::lock_guard<std::mutex> lock(pool_mutex_);
+  return pcl::PCLPointCloud2::Ptr(raw_ptr, [pool = cloud_pool_](pcl::PCLPointCloud2* ptr) {
+    std::lock_guard<std::mutex> lock(pool->mutex);
     // Return to pool if not full, otherwise delete
-    if (cloud_pool_.size() < MAX_POOL_SIZE) {
+    if (pool->clouds.size() < MAX_POOL_SIZE) {
       // Clear the data but keep allocated memory for reuse
       ptr->data.clear();
       ptr->fields.clear();
-      cloud_pool_.push_back(ptr);
+      pool->clouds.push_back(ptr);
     } else {
       delete ptr;
     }
-- 
2.43.0


From 1c74d1135f2b2b3ff05a1fdd67a441f4ebd3e9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 34/64] fix: give the header and the density of the message to
 the clouds of the PCL subscriber

---
 cloudini_ros/src/cloudini_subscriber_pcl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cloudini_ros/src/cloudini_subscriber_pcl.cpp b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
index a6d619c..02acef2 100644
--- a/cloudini_ros/src/cloudini_subscriber_pcl.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
@@ -112,6 +112,13 @@ void CloudiniSubscriberPCL::messageCallback(std::shared_ptr<rclcpp::SerializedMe
     // pc_info.data contains the compressed cloudini data
     PCLPointCloudDecode(pc_info.data, *pcl_cloud);
 
+    // The encoded data doesn't contain the header and the density of the message
+    pcl_cloud->header.seq = 0;
+    pcl_cloud->header.stamp = static_cast<int64_t>(pc_info.ros_header.stamp_sec) * 1000000 +
+                              pc_info.ros_header.stamp_nsec / 1000;  // microseconds
+    pcl_cloud->header.frame_id = pc_info.ros_header.frame_id;
+    pcl_cloud->is_dense = pc_info.is_dense;
+
     // STEP 5: Invoke user callback with the decoded PCL cloud
     user_callback_(pcl_cloud);
 
-- 
2.43.0


From 6caa60e2d16b98e1d3671ca0c02ff774cef032fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 35/64] fix: let the PCL subscriber deliver clouds without
 points

---
 cloudini_ros/src/cloudini_subscriber_pcl.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/cloudini_ros/src/cloudini_subscriber_pcl.cpp b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
index 02acef2..2d4542a 100644
--- a/cloudini_ros/src/cloudini_subscriber_pcl.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
@@ -110,7 +110,24 @@ void CloudiniSubscriberPCL::messageCallback(std::shared_ptr<rclcpp::SerializedMe
 
     // STEP 4: Decode directly to PCL format
     // pc_info.data contains the compressed cloudini data
-    PCLPointCloudDecode(pc_info.data, *pcl_cloud);
+    if (pc_info.data.size() == 0 && (pc_info.width == 0 || pc_info.height == 0)) {
+      // Clouds without points are serialized without payload (see convertPointCloud2ToCompressedCloud)
+      pcl_cloud->height = pc_info.height;
+      pcl_cloud->width = pc_info.width;
+      pcl_cloud->point_step = pc_info.point_step;
+      pcl_cloud->row_step = pc_info.width * pc_info.point_step;
+      pcl_cloud->is_bigendian = false;
+      for (const auto& field : pc_info.fields) {
+        pcl::PCLPointField pcl_field;
+        pcl_field.name = field.name;
+        pcl_field.offset = field.offset;
+        pcl_field.datatype = static_cast<uint8_t>(field.type);
+        pcl_field.count = 1;
+        pcl_cloud->fields.push_back(pcl_field);
+      }
+    } else {
+      PCLPointCloudDecode(pc_info.data, *pcl_cloud);
+    }
 
     // The encoded data doesn't contain the header and the density of the message
     pcl_cloud->header.seq = 0;
-- 
2.43.0


From 575efaea5d48f2a7707909f1bca4a6f3b9f9908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:11 +0000
Subject: [PATCH 36/64] fix: read the endianness of PointCloud2 messages, to
 refuse big-endian ones

---
 cloudini_lib/src/ros_msg_utils.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index 38d1ebe..02d7fb7 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -101,8 +101,7 @@ void readPointCloud2MessageCommon(nanocdr::Decoder& cdr, RosPointCloud2& result)
     result.fields.push_back(std::move(field));
   }
 
-  bool is_bigendian = false;  // not used
-  cdr.decode(is_bigendian);
+  cdr.decode(result.is_bigendian);
 
   cdr.decode(result.point_step);
   cdr.decode(result.row_step);
-- 
2.43.0


From 3eb45c59e6992ea611635fd76c5ad10f4b51a851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 37/64] fix: keep the topic converter alive when a message can
 not be converted

---
 cloudini_ros/src/topic_converter.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/cloudini_ros/src/topic_converter.cpp b/cloudini_ros/src/topic_converter.cpp
index a1bec21..7872b57 100644
--- a/cloudini_ros/src/topic_converter.cpp
+++ b/cloudini_ros/src/topic_converter.cpp
@@ -163,15 +163,21 @@ void CloudiniPointcloudConverter::callback(std::shared_ptr<rclcpp::SerializedMes
   const auto& input_msg = msg->get_rcl_serialized_message();
   const Cloudini::ConstBufferView raw_dds_msg(input_msg.buffer, input_msg.buffer_length);
 
-  // STEP 2: extract information from the raw DDS message
-  auto pc_info = cloudini_ros::getDeserializedPointCloudMessage(raw_dds_msg);
-
-  if (compressing_) {
-    cloudini_ros::applyResolutionProfile(cloudini_ros::ResolutionProfile{}, pc_info.fields, resolution_);
-    const auto encoding_info = cloudini_ros::toEncodingInfo(pc_info);
-    cloudini_ros::convertPointCloud2ToCompressedCloud(pc_info, encoding_info, output_raw_message_);
-  } else {
-    cloudini_ros::convertCompressedCloudToPointCloud2(pc_info, output_raw_message_);
+  try {
+    // STEP 2: extract information from the raw DDS message
+    auto pc_info = cloudini_ros::getDeserializedPointCloudMessage(raw_dds_msg);
+
+    if (compressing_) {
+      cloudini_ros::applyResolutionProfile(cloudini_ros::ResolutionProfile{}, pc_info.fields, resolution_);
+      const auto encoding_info = cloudini_ros::toEncodingInfo(pc_info);
+      cloudini_ros::convertPointCloud2ToCompressedCloud(pc_info, encoding_info, output_raw_message_);
+    } else {
+      cloudini_ros::convertCompressedCloudToPointCloud2(pc_info, output_raw_message_);
+    }
+  } catch (const std::exception& e) {
+    // a message that can not be converted must not stop the node
+    RCLCPP_ERROR(this->get_logger(), "Failed to convert a point cloud: %s", e.what());
+    return;
   }
 
   // STEP 3: publish the output message
-- 
2.43.0


From 3e7f0d9347e8315fffbc5b3dad1f0960a11f3591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:06 +0000
Subject: [PATCH 38/64] fix: 64-bit integer fields in the Python decoder

---
 cloudini_py/cloudini_decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudini_py/cloudini_decoder.py b/cloudini_py/cloudini_decoder.py
index de6a7af..1ee9698 100644
--- a/cloudini_py/cloudini_decoder.py
+++ b/cloudini_py/cloudini_decoder.py
@@ -346,6 +346,8 @@ class CloudiniDecoder:
             'INT8': np.int8,
             'INT16': np.int16,
             'INT32': np.int32,
+            'INT64': np.int64,
+            'UINT64': np.uint64,
         }
 
         # Create structured dtype from fields
-- 
2.43.0


From ccee3ce2a3c6ebb1c3d02ea6e8c76a63c0bfcbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:06 +0000
Subject: [PATCH 39/64] fix: the Python decoder writes outside its output
 buffer when the cloud is larger than 32 MB

---
 cloudini_py/cloudini_decoder.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cloudini_py/cloudini_decoder.py b/cloudini_py/cloudini_decoder.py
index 1ee9698..57d1740 100644
--- a/cloudini_py/cloudini_decoder.py
+++ b/cloudini_py/cloudini_decoder.py
@@ -108,8 +108,9 @@ class CloudiniDecoder:
         # Get the cloudini functions
         self.decode_compressed_msg = exports.get('cldn_DecodeCompressedMessage')
         self.get_header_as_yaml = exports.get('cldn_GetHeaderAsYAMLFromDDS')
+        self.get_decompressed_size = exports.get('cldn_GetDecompressedSize')
 
-        if not all([self.decode_compressed_msg, self.get_header_as_yaml]):
+        if not all([self.decode_compressed_msg, self.get_header_as_yaml, self.get_decompressed_size]):
             raise RuntimeError("Could not find required Cloudini functions in WASM module")
 
         # Initialize WASM module (call constructors)
@@ -120,7 +121,9 @@ class CloudiniDecoder:
         # Simple allocator offset (start at 2MB to avoid stack/heap)
         self.alloc_offset = 2 * 1024 * 1024
 
-        self.output_ptr = self.allocate(32 * 1024 * 1024) # allocate 32 megabytes as worst case scenario
+        # Output buffer, replaced by a larger one when a message needs it
+        self.output_size = 32 * 1024 * 1024
+        self.output_ptr = self.allocate(self.output_size)
 
         print("WASM module loaded successfully!")
 
@@ -167,6 +170,15 @@ class CloudiniDecoder:
             # Write compressed message to WASM memory
             self.write_bytes(input_ptr, compressed_msg)
 
+            # The result is a uint32_t, but wasmtime returns signed values
+            required_size = self.get_decompressed_size(self.store, input_ptr, len(compressed_msg)) & 0xFFFFFFFF
+            if required_size > self.output_size:
+                larger_ptr = self.allocate(required_size)
+                if larger_ptr == 0:
+                    raise RuntimeError("Failed to allocate memory for output message")
+                self.deallocate(self.output_ptr)
+                self.output_ptr = larger_ptr
+                self.output_size = required_size
 
             # Convert compressed message to PointCloud2 message
             actual_size = self.decode_compressed_msg(self.store, input_ptr, len(compressed_msg), self.output_ptr)
-- 
2.43.0


From b48f3799854b0fe44059f4d4739e8ff509b5dea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:06 +0000
Subject: [PATCH 40/64] fix: the Python decoder writes outside its buffer when
 the header has many fields, or no memory is left

---
 cloudini_py/cloudini_decoder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cloudini_py/cloudini_decoder.py b/cloudini_py/cloudini_decoder.py
index 57d1740..2379b04 100644
--- a/cloudini_py/cloudini_decoder.py
+++ b/cloudini_py/cloudini_decoder.py
@@ -233,10 +233,11 @@ class CloudiniDecoder:
         Returns:
             Dictionary with header info including 'fields' list
         """
-        # Allocate memory for input and output
+        # Allocate memory for input. The YAML can be as long as the header of the message requires, use the output buffer
         input_ptr = self.allocate(len(compressed_msg))
-        yaml_buffer_size = 4096  # Should be enough for YAML header
-        yaml_ptr = self.allocate(yaml_buffer_size)
+        if input_ptr == 0:
+            raise RuntimeError("Failed to allocate memory for input message")
+        yaml_ptr = self.output_ptr
 
         try:
             self.write_bytes(input_ptr, compressed_msg)
@@ -296,7 +297,6 @@ class CloudiniDecoder:
 
         finally:
             self.deallocate(input_ptr)
-            self.deallocate(yaml_ptr)
 
     def extract_data_from_pc2_msg(self, pc2_msg: bytes, header_info: dict) -> np.ndarray:
         """
-- 
2.43.0


From e6c4335d7248fe188b8f15338512963430efbd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:51 +0000
Subject: [PATCH 41/64] fix: the Foxglove converter writes outside its buffer,
 or returns a wrong cloud, when the payload contradicts the message

The output buffer was sized from the width, height and point_step of the
message, while the decoder writes what the header of the payload announces.
Ask for the header first and refuse messages that do not match it.
---
 cloudini_foxglove/src/PointCloudConverter.tsx | 25 ++++++++++++++++++-
 .../src/cloudini_wasm_single.d.ts             |  1 +
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/cloudini_foxglove/src/PointCloudConverter.tsx b/cloudini_foxglove/src/PointCloudConverter.tsx
index 0f848cd..ae25fdf 100644
--- a/cloudini_foxglove/src/PointCloudConverter.tsx
+++ b/cloudini_foxglove/src/PointCloudConverter.tsx
@@ -14,6 +14,25 @@ export const loadCloudiniWasm = async () => {
   return wasmLoadingPromise;
 };
 
+// The decoder writes as many bytes as the header of the compressed data announces: get that size in advance.
+// It is NaN if the header is not valid.
+const getDecodedSize = (module: CloudiniWasmModule, dataPtr: number, dataSize: number): number => {
+  const headerSize = Math.min(dataSize, 64 * 1024);
+  // the description in YAML is less than 8 times larger than the header
+  const yamlPtr = module._malloc(8 * headerSize + 1024);
+  if (!yamlPtr) {
+    throw new Error('Failed to allocate memory for the header');
+  }
+  try {
+    const yamlSize = module._cldn_GetHeaderAsYAML(dataPtr, headerSize, yamlPtr);
+    const yaml = new TextDecoder().decode(new Uint8Array(module.HEAPU8.buffer, yamlPtr, yamlSize));
+    const value = (key: string) => Number(new RegExp(`^${key}: (\\d+)$`, 'm').exec(yaml)?.[1]);
+    return value('width') * value('height') * value('point_step');
+  } finally {
+    module._free(yamlPtr);
+  }
+};
+
 export const convertPointCloudWasm = (cloud: CompressedPointCloud): PointCloud => {
   if (!wasmModule) {
     loadCloudiniWasm();
@@ -69,6 +88,10 @@ export const convertPointCloudWasm = (cloud: CompressedPointCloud): PointCloud =
 
     const decompressedSize = cloud.height * cloud.width * cloud.point_step;
 
+    if (getDecodedSize(wasmModule, inputDataPtr, bufferSize) !== decompressedSize) {
+      throw new Error('The compressed data does not match the size of the point cloud');
+    }
+
     outputDataPtr = wasmModule._malloc(decompressedSize);
     if (!outputDataPtr) {
       throw new Error('Failed to allocate memory for output data');
@@ -80,7 +103,7 @@ export const convertPointCloudWasm = (cloud: CompressedPointCloud): PointCloud =
     }
 
     if (actualSize !== decompressedSize) {
-      console.warn(`Decompressed size mismatch: expected ${decompressedSize}, got ${actualSize}`);
+      throw new Error(`Decompressed size mismatch: expected ${decompressedSize}, got ${actualSize}`);
     }
 
     // Copy the result to a JavaScript array
diff --git a/cloudini_foxglove/src/cloudini_wasm_single.d.ts b/cloudini_foxglove/src/cloudini_wasm_single.d.ts
index 45dd873..72a4fed 100644
--- a/cloudini_foxglove/src/cloudini_wasm_single.d.ts
+++ b/cloudini_foxglove/src/cloudini_wasm_single.d.ts
@@ -23,6 +23,7 @@ export interface CloudiniWasmModule extends EmscriptenModule {
   _cldn_ComputeCompressedSize(inputPtr: number, inputSize: number, resolution: number): number;
   _cldn_DecodeCompressedData(inputPtr: number, inputSize: number, outputPtr: number): number;
   _cldn_DecodeCompressedMessage(inputPtr: number, inputSize: number, outputPtr: number): number;
+  _cldn_GetHeaderAsYAML(inputPtr: number, inputSize: number, outputPtr: number): number;
   _cldn_GetDecompressedSize(inputPtr: number, inputSize: number): number;
 }
 
-- 
2.43.0


From 9a2456a57f98284adfa5a4202c66f15e6142f27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:11 +0000
Subject: [PATCH 42/64] fix: read the whole profile file, not only its first
 word

---
 cloudini_lib/tools/src/cloudini_rosbag_converter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
index 66428ba..86a0615 100644
--- a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
+++ b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
@@ -312,8 +312,7 @@ int main(int argc, char** argv) {
         // check if it is a file or a string
         if (std::filesystem::exists(profile_str)) {
           std::ifstream file(profile_str);
-          std::string profile;
-          file >> profile;
+          std::string profile((std::istreambuf_iterator<char>(file)), std::istreambuf_iterator<char>());
           converter.addProfile(profile);
         } else {
           converter.addProfile(profile_str);
-- 
2.43.0


From 7ca49f832602e00d7dd72679463e473aac8b58c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:11 +0000
Subject: [PATCH 43/64] fix: accept profile strings that are too long to be a
 file name

---
 cloudini_lib/tools/src/cloudini_rosbag_converter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
index 86a0615..2a504ab 100644
--- a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
+++ b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
@@ -310,7 +310,8 @@ int main(int argc, char** argv) {
       if (parse_result.count("profile")) {
         std::string profile_str = parse_result["profile"].as<std::string>();
         // check if it is a file or a string
-        if (std::filesystem::exists(profile_str)) {
+        std::error_code not_a_path;  // a profile string can be too long to be a path
+        if (std::filesystem::exists(profile_str, not_a_path)) {
           std::ifstream file(profile_str);
           std::string profile((std::istreambuf_iterator<char>(file)), std::istreambuf_iterator<char>());
           converter.addProfile(profile);
-- 
2.43.0


From 56b12731ef8313af5ec60011719713fd391335c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:11 +0000
Subject: [PATCH 44/64] fix: convert a bag given as a bare file name from
 inside its directory

---
 cloudini_lib/tools/src/cloudini_rosbag_converter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
index 2a504ab..6077d73 100644
--- a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
+++ b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
@@ -201,7 +201,7 @@ int main(int argc, char** argv) {
     output_filename = parse_result["output"].as<std::string>();
   } else if (!input_metadata.empty()) {
     // When input has metadata.yaml, default output goes to a new sibling directory
-    auto input_dir = std::filesystem::canonical(input_metadata.parent_path());
+    auto input_dir = std::filesystem::canonical(std::filesystem::absolute(input_metadata).parent_path());
     auto suffix = encode ? "_encoded" : "_decoded";
     auto output_dir = input_dir.parent_path() / (input_dir.filename().string() + suffix);
     output_filename = (output_dir / (mcap_file.stem().string() + suffix + ".mcap")).string();
@@ -220,7 +220,7 @@ int main(int argc, char** argv) {
     if (output_dir.empty()) {
       output_dir = std::filesystem::current_path();
     }
-    auto input_dir = std::filesystem::canonical(input_metadata.parent_path());
+    auto input_dir = std::filesystem::canonical(std::filesystem::absolute(input_metadata).parent_path());
     // Canonicalize output_dir only if it already exists
     if (std::filesystem::exists(output_dir)) {
       output_dir = std::filesystem::canonical(output_dir);
-- 
2.43.0


From 7ed47ad48ea1aa0a592b1cd5e28cd936ef8274f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:11 +0000
Subject: [PATCH 45/64] fix: refuse to write the converted bag over its own
 input

---
 cloudini_lib/tools/src/cloudini_rosbag_converter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
index 6077d73..4e34885 100644
--- a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
+++ b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
@@ -233,6 +233,13 @@ int main(int argc, char** argv) {
     }
   }
 
+  // Safety check: the input is read while the output is written
+  std::error_code no_such_file;
+  if (std::filesystem::equivalent(mcap_file, output_filename, no_such_file)) {
+    std::cerr << "Error: The output would overwrite the input: " << mcap_file << std::endl;
+    return 1;
+  }
+
   // Create output directory if it doesn't exist
   auto output_parent = std::filesystem::path(output_filename).parent_path();
   if (!output_parent.empty() && !std::filesystem::exists(output_parent)) {
-- 
2.43.0


From 8cc81222a32d1ccfc00a6272602bacd483a31f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:14 +0000
Subject: [PATCH 46/64] fix: the PCD converter ignored its encoding,
 compression and intensity resolution options

---
 cloudini_lib/include/cloudini_lib/pcl_conversion.hpp | 7 +++++--
 cloudini_lib/src/pcl_conversion.cpp                  | 8 +++++++-
 cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp | 3 ++-
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
index 504d45d..b006d6c 100644
--- a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
+++ b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
@@ -23,6 +23,7 @@
 #include <cloudini_lib/cloudini.hpp>
 #include <filesystem>
 #include <map>
+#include <optional>
 #include <string>
 #include <vector>
 
@@ -75,9 +76,11 @@ size_t PCLPointCloudEncode(
     const pcl::PointCloud<PointT>& cloud, std::vector<uint8_t>& serialized_cloud, double resolution_XYZ);
 
 // Use this function to convert a PCD file directly. This is particularly recommended when the pointcloud contains
-// UINT64 or INT64 fields
+// UINT64 or INT64 fields. If resolution_intensity is given, it is used for the field "intensity".
 size_t PCLPointCloudEncode(
-    const std::filesystem::path& input_pcd_file, std::vector<uint8_t>& serialized_cloud, double resolution_XYZ);
+    const std::filesystem::path& input_pcd_file, std::vector<uint8_t>& serialized_cloud, double resolution_XYZ,
+    EncodingOptions encoding_opt = EncodingOptions::LOSSY, CompressionOption compression_opt = CompressionOption::ZSTD,
+    std::optional<double> resolution_intensity = std::nullopt);
 
 /**
  * @brief Decodes a serialized point cloud into a pcl::PCLPointCloud2 object.
diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index cb763b1..5e62cdb 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -228,7 +228,8 @@ size_t PCLPointCloudEncode(
 }
 
 size_t PCLPointCloudEncode(
-    const std::filesystem::path& input_pcd_file, std::vector<uint8_t>& serialized_cloud, double resolution_XYZ) {
+    const std::filesystem::path& input_pcd_file, std::vector<uint8_t>& serialized_cloud, double resolution_XYZ,
+    EncodingOptions encoding_opt, CompressionOption compression_opt, std::optional<double> resolution_intensity) {
   pcl::PCLPointCloud2 cloud;
   if (pcl::io::loadPCDFile(input_pcd_file.string(), cloud) == -1) {
     throw std::runtime_error("Error: Failed to load PCD file: " + input_pcd_file.string());
@@ -237,11 +238,16 @@ size_t PCLPointCloudEncode(
   const auto pcd_fields_map = ReadEncodingInfoFromPCD(pcd_file_stream);
 
   EncodingInfo info = ConvertToEncodingInfo(cloud, resolution_XYZ);
+  info.encoding_opt = encoding_opt;
+  info.compression_opt = compression_opt;
   // fix the field types if necessary
   for (auto& field : info.fields) {
     if (field.type == FieldType::UNKNOWN) {
       field.type = pcd_fields_map.at(field.name);
     }
+    if (resolution_intensity && field.name == "intensity" && field.type == FieldType::FLOAT32) {
+      field.resolution = *resolution_intensity > 0.0 ? std::optional<float>(*resolution_intensity) : std::nullopt;
+    }
   }
   PointcloudEncoder encoder(info);
   ConstBufferView data_view(cloud.data.data(), cloud.data.size());
diff --git a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
index 8f67512..01e377f 100644
--- a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
+++ b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
@@ -131,7 +131,8 @@ int main(int argc, char** argv) {
     try {
       // Encode the point cloud
       std::vector<uint8_t> serialized_cloud;
-      const size_t encoded_size = Cloudini::PCLPointCloudEncode(input_file, serialized_cloud, resolution_xyz);
+      Cloudini::PCLPointCloudEncode(
+          input_file, serialized_cloud, resolution_xyz, encoding_opt, compression_opt, resolution_intensity);
       // Write to output file
       std::ofstream output_stream(output_file, std::ios::binary);
       if (!output_stream) {
-- 
2.43.0


From 2627f80df030565727aa7ac78356fe069b5b2ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 47/64] fix: the mcap cutter and the header inspector crashed
 on channels without a schema

---
 cloudini_lib/tools/src/mcap_cutter.cpp           | 3 ++-
 cloudini_lib/tools/src/mcap_header_inspector.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/tools/src/mcap_cutter.cpp b/cloudini_lib/tools/src/mcap_cutter.cpp
index ab730b0..3878e5c 100644
--- a/cloudini_lib/tools/src/mcap_cutter.cpp
+++ b/cloudini_lib/tools/src/mcap_cutter.cpp
@@ -61,7 +61,8 @@ void McapCutter::cut(
 
   for (const auto& [channel_id, channel_ptr] : reader->channels()) {
     const auto& schema_ptr = reader->schema(channel_ptr->schemaId);
-    if (schema_ptr->name == pointcloud_schema_name) {
+    // channels without a schema have a null schema pointer
+    if (schema_ptr && schema_ptr->name == pointcloud_schema_name) {
       pointcloud_channels.push_back({channel_id, channel_ptr->topic});
       std::cout << "Found PointCloud2 topic: " << channel_ptr->topic << std::endl;
     }
diff --git a/cloudini_lib/tools/src/mcap_header_inspector.cpp b/cloudini_lib/tools/src/mcap_header_inspector.cpp
index 9d89959..9b62e75 100644
--- a/cloudini_lib/tools/src/mcap_header_inspector.cpp
+++ b/cloudini_lib/tools/src/mcap_header_inspector.cpp
@@ -81,7 +81,8 @@ int main(int argc, char** argv) {
     std::vector<mcap::ChannelId> compressed_channels;
     for (const auto& [channel_id, channel_ptr] : reader->channels()) {
       const auto& schema_ptr = reader->schema(channel_ptr->schemaId);
-      if (schema_ptr->name == compressed_schema_name) {
+      // channels without a schema have a null schema pointer
+      if (schema_ptr && schema_ptr->name == compressed_schema_name) {
         compressed_channels.push_back(channel_id);
         std::cout << "Found CompressedPointCloud2 topic: " << channel_ptr->topic << std::endl;
       }
-- 
2.43.0


From 2abcfd7f4c1e8569cb9973e89ea514b2569ff41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 48/64] fix: the mcap cutter dropped the metadata of the
 channels

---
 cloudini_lib/tools/src/mcap_cutter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/mcap_cutter.cpp b/cloudini_lib/tools/src/mcap_cutter.cpp
index 3878e5c..dc23a79 100644
--- a/cloudini_lib/tools/src/mcap_cutter.cpp
+++ b/cloudini_lib/tools/src/mcap_cutter.cpp
@@ -93,7 +93,9 @@ void McapCutter::cut(
   // Create channels for each topic
   std::map<mcap::ChannelId, mcap::ChannelId> old_to_new_channel_id;
   for (const auto& [old_channel_id, topic_name] : pointcloud_channels) {
-    mcap::Channel new_channel(topic_name, "cdr", pointcloud_schema.id);
+    // keep the metadata of the channel (such as the offered QoS profiles)
+    const auto old_channel = reader->channel(old_channel_id);
+    mcap::Channel new_channel(topic_name, "cdr", pointcloud_schema.id, old_channel->metadata);
     writer.addChannel(new_channel);
     old_to_new_channel_id[old_channel_id] = new_channel.id;
   }
-- 
2.43.0


From 8839c458a9c048890309c0aa0a62a48c7d7c4d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:08 +0000
Subject: [PATCH 49/64] fix: refuse to cut a mcap file into itself

---
 cloudini_lib/tools/src/mcap_cutter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cloudini_lib/tools/src/mcap_cutter.cpp b/cloudini_lib/tools/src/mcap_cutter.cpp
index dc23a79..b44e2d7 100644
--- a/cloudini_lib/tools/src/mcap_cutter.cpp
+++ b/cloudini_lib/tools/src/mcap_cutter.cpp
@@ -193,6 +193,13 @@ int main(int argc, char** argv) {
     output_filename += ".mcap";
   }
 
+  // the input is read while the output is written
+  std::error_code no_such_file;
+  if (std::filesystem::equivalent(input_file, output_filename, no_such_file)) {
+    std::cerr << "Error: The output would overwrite the input: " << input_file << std::endl;
+    return 1;
+  }
+
   int max_messages = parse_result["max-messages"].as<int>();
   if (max_messages <= 0) {
     std::cerr << "Error: max-messages must be positive." << std::endl;
-- 
2.43.0


From f03769e394262459d9e8525de97d0bf6ad9484fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:49 +0000
Subject: [PATCH 50/64] fix: the web page counted the messages of all the
 channels that share a topic for each of them

---
 cloudini_web/main.js | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cloudini_web/main.js b/cloudini_web/main.js
index 7003faf..f15cc71 100644
--- a/cloudini_web/main.js
+++ b/cloudini_web/main.js
@@ -155,7 +155,10 @@ async function analyzeFile(reader, file) {
                 endTime: reader.end,
                 topics: [channel.topic]
             })) {
-                // We already know this channel has the target schema
+                // Other channels may publish on the same topic
+                if (message.channelId !== channel.channelId) {
+                    continue;
+                }
                 messageCount++;
                 const dataSize = message.data.length;
                 totalSize += dataSize;
-- 
2.43.0


From a2e7c58005c3d6f637d704f09f459df9c52ca472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:49 +0000
Subject: [PATCH 51/64] fix: messages the web page could not compress counted
 as compressed to nothing, and module memory was lost or overwritten

---
 cloudini_web/main.js | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/cloudini_web/main.js b/cloudini_web/main.js
index f15cc71..b3a38a9 100644
--- a/cloudini_web/main.js
+++ b/cloudini_web/main.js
@@ -161,7 +161,6 @@ async function analyzeFile(reader, file) {
                 }
                 messageCount++;
                 const dataSize = message.data.length;
-                totalSize += dataSize;
 
                 // Call WASM function
                 try {
@@ -184,12 +183,18 @@ async function analyzeFile(reader, file) {
                     if (wasmModule._malloc && wasmModule._free && wasmModule.HEAPU8) {
                         // Direct memory approach (Option 1)
                         const dataPtr = wasmModule._malloc(dataSize);
-                        const wasmView = new Uint8Array(wasmModule.HEAPU8.buffer, dataPtr, dataSize);
-                        wasmView.set(dataView);
-
-                        // Use the correct WASM function name with resolution parameter (1mm = 0.001)
-                        compressedSize = wasmModule._cldn_ComputeCompressedSize(dataPtr, dataSize, 0.001);
-                        wasmModule._free(dataPtr);
+                        if (!dataPtr) {
+                            throw new Error('Out of WASM memory');
+                        }
+                        try {
+                            const wasmView = new Uint8Array(wasmModule.HEAPU8.buffer, dataPtr, dataSize);
+                            wasmView.set(dataView);
+
+                            // Use the correct WASM function name with resolution parameter (1mm = 0.001)
+                            compressedSize = wasmModule._cldn_ComputeCompressedSize(dataPtr, dataSize, 0.001);
+                        } finally {
+                            wasmModule._free(dataPtr);
+                        }
                     } else {
                         // Fallback to ccall approach with resolution parameter
                         compressedSize = wasmModule.ccall(
@@ -200,6 +205,11 @@ async function analyzeFile(reader, file) {
                         );
                     }
 
+                    if (!compressedSize) {
+                        throw new Error('The message can not be compressed');
+                    }
+                    // Only messages with both sizes known contribute to the compression ratio
+                    totalSize += dataSize;
                     totalCompressedSize += compressedSize;
                 } catch (error) {
                     console.error('Error calling WASM function:', error);
-- 
2.43.0


From 94fe0ea34a4881977ed78feeff0e0c5263970889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:49 +0000
Subject: [PATCH 52/64] fix: the web page took names found in a file as markup

---
 cloudini_web/main.js | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/cloudini_web/main.js b/cloudini_web/main.js
index b3a38a9..f7176a7 100644
--- a/cloudini_web/main.js
+++ b/cloudini_web/main.js
@@ -41,6 +41,11 @@ fileInput.addEventListener('change', (e) => {
     }
 });
 
+// Names found in a file are text, never markup
+function escapeHtml(text) {
+    return String(text).replace(/[&<>"']/g, (c) => `&#${c.charCodeAt(0)};`);
+}
+
 function disableDropZone() {
     dropZone.classList.add('disabled');
     dropZone.innerHTML = '⏳ Processing file... Please wait';
@@ -77,7 +82,7 @@ async function handleFile(file) {
 
     } catch (error) {
         console.error('Error:', error);
-        status.innerHTML = 'Error reading MCAP file: ' + error.message;
+        status.innerHTML = 'Error reading MCAP file: ' + escapeHtml(error.message);
     } finally {
         enableDropZone();
     }
@@ -116,7 +121,7 @@ async function analyzeFile(reader, file) {
 
     } catch (error) {
         console.error('Failed to load WASM module:', error);
-        status.innerHTML = 'Error loading WASM module: ' + error.message;
+        status.innerHTML = 'Error loading WASM module: ' + escapeHtml(error.message);
         return;
     }
 
@@ -228,7 +233,7 @@ async function analyzeFile(reader, file) {
             });
         }
 
-        status.innerHTML = `File: ${file.name} | Channels: ${totalChannels} | Schemas: ${allSchemas.size}`;
+        status.innerHTML = `File: ${escapeHtml(file.name)} | Channels: ${totalChannels} | Schemas: ${allSchemas.size}`;
 
         // Calculate totals across all channels
         const grandTotalSize = channelResults.reduce((sum, ch) => sum + ch.totalSize, 0);
@@ -245,10 +250,10 @@ async function analyzeFile(reader, file) {
                         `<div class="channel-card">
                             <div class="channel-content">
                                 <div>
-                                    <div class="channel-topic">${ch.topic}</div>
+                                    <div class="channel-topic">${escapeHtml(ch.topic)}</div>
                                     <div class="channel-details">
-                                        <div><strong>Schema:</strong> ${ch.schema}</div>
-                                        <div><strong>Encoding:</strong> ${ch.encoding}</div>
+                                        <div><strong>Schema:</strong> ${escapeHtml(ch.schema)}</div>
+                                        <div><strong>Encoding:</strong> ${escapeHtml(ch.encoding)}</div>
                                         <div><strong>Channel ID:</strong> ${ch.channelId}</div>
                                         <div><strong>Messages:</strong> <span class="message-count">${ch.messageCount.toLocaleString()}</span></div>
                                     </div>
@@ -282,7 +287,7 @@ async function analyzeFile(reader, file) {
             </div>
             `;
     } else {
-        status.innerHTML = `File: ${file.name} | Channels: ${totalChannels} | Schemas: ${allSchemas.size}`;
+        status.innerHTML = `File: ${escapeHtml(file.name)} | Channels: ${totalChannels} | Schemas: ${allSchemas.size}`;
         results.innerHTML = `
             <div class="no-results">
                 <div class="no-results-card">
@@ -295,7 +300,7 @@ async function analyzeFile(reader, file) {
                     <h4 class="schemas-title">📋 Available Schemas in this file:</h4>
                     <div class="schemas-list">
                         ${Array.from(allSchemas).sort().map(schema =>
-                            `<span class="schema-tag">${schema}</span>`
+                            `<span class="schema-tag">${escapeHtml(schema)}</span>`
                         ).join('')}
                     </div>
                 </div>
-- 
2.43.0


From 19ad6d928d1b8ee94c1148f49eac5fb30bcdfa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:49 +0000
Subject: [PATCH 53/64] fix: the web page could analyse two files at once and
 show either

---
 cloudini_web/main.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudini_web/main.js b/cloudini_web/main.js
index f7176a7..7bebc25 100644
--- a/cloudini_web/main.js
+++ b/cloudini_web/main.js
@@ -64,6 +64,10 @@ function enableDropZone() {
 }
 
 async function handleFile(file) {
+    // One file at a time: a file dialog opened earlier can still deliver another one
+    if (dropZone.classList.contains('disabled')) {
+        return;
+    }
     if (!file.name.endsWith('.mcap')) {
         status.innerHTML = 'Error: Please select an MCAP file';
         return;
-- 
2.43.0


From 23a6b5c96bf570e9a564ed3bd9cdef15bcf6fbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:04 +0000
Subject: [PATCH 54/64] fix: the web page ignored a file that was selected a
 second time

---
 cloudini_web/main.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudini_web/main.js b/cloudini_web/main.js
index 7bebc25..99ed266 100644
--- a/cloudini_web/main.js
+++ b/cloudini_web/main.js
@@ -31,7 +31,8 @@ dropZone.addEventListener('drop', (e) => {
 
 dropZone.addEventListener('click', () => {
     if (!dropZone.classList.contains('disabled')) {
-        fileInput.click();
+        // The input is a new one after each file (the old one would ignore the same file)
+        document.getElementById('fileInput').click();
     }
 });
 
-- 
2.43.0


From d2904e8aaad11532c79e5af702b1f36a363bc35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:59 +0000
Subject: [PATCH 55/64] fix: a damaged count of strings or structures made the
 CDR reader allocate gigabytes

---
 .../include/cloudini_lib/contrib/nanocdr.hpp      | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp b/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
index 9ef700e..36189b0 100644
--- a/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
+++ b/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
@@ -305,10 +305,17 @@ inline void Decoder::decode(std::vector<T, Allocator>& out) {
     if (buffer_.size() / sizeof(T) < len) {
       throw std::runtime_error("Decode: not enough data to decode (vector). Size: " + std::to_string(len));
     }
-  }
-  out.resize(len);
-  for (uint32_t i = 0; i < len; i++) {
-    decode(out[i]);
+    out.resize(len);
+    for (uint32_t i = 0; i < len; i++) {
+      decode(out[i]);
+    }
+  } else {
+    // the size of the elements is not known in advance: allocate only what is actually there
+    out.clear();
+    for (uint32_t i = 0; i < len; i++) {
+      out.emplace_back();
+      decode(out.back());
+    }
   }
 }
 
-- 
2.43.0


From 394c989fd515f5ed8a9dbe99cc5057bad1d36367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:59 +0000
Subject: [PATCH 56/64] fix: decode_mcap.py could not read MCAP files without
 summary or statistics

---
 cloudini_py/decode_mcap.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cloudini_py/decode_mcap.py b/cloudini_py/decode_mcap.py
index 63a2c1c..3e44bed 100644
--- a/cloudini_py/decode_mcap.py
+++ b/cloudini_py/decode_mcap.py
@@ -29,14 +29,17 @@ def decode_mcap_file(mcap_path: str, wasm_path: str, max_messages: int = None):
         reader = make_reader(f)
 
         # Print summary
+        # The summary and its statistics are optional parts of an MCAP file
         summary = reader.get_summary()
-        print(f"\nMCAP Summary:")
-        print(f"  Duration: {summary.statistics.message_start_time / 1e9:.2f}s to {summary.statistics.message_end_time / 1e9:.2f}s")
-        print(f"  Message count: {summary.statistics.message_count}")
-        print(f"  Channels: {len(summary.channels)}")
-
-        for channel_id, channel in summary.channels.items():
-            print(f"    Channel {channel_id}: {channel.topic} ({channel.message_encoding})")
+        if summary is not None:
+            print(f"\nMCAP Summary:")
+            if summary.statistics is not None:
+                print(f"  Duration: {summary.statistics.message_start_time / 1e9:.2f}s to {summary.statistics.message_end_time / 1e9:.2f}s")
+                print(f"  Message count: {summary.statistics.message_count}")
+            print(f"  Channels: {len(summary.channels)}")
+
+            for channel_id, channel in summary.channels.items():
+                print(f"    Channel {channel_id}: {channel.topic} ({channel.message_encoding})")
 
         # Process messages
         msg_count = 0
-- 
2.43.0


From 1a26cfceff2d9bf4b30bbe16b414defb415771ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:59 +0000
Subject: [PATCH 57/64] fix: decode_mcap.py --max-messages 0 decoded all
 messages

---
 cloudini_py/decode_mcap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cloudini_py/decode_mcap.py b/cloudini_py/decode_mcap.py
index 3e44bed..2c742a5 100644
--- a/cloudini_py/decode_mcap.py
+++ b/cloudini_py/decode_mcap.py
@@ -45,6 +45,10 @@ def decode_mcap_file(mcap_path: str, wasm_path: str, max_messages: int = None):
         msg_count = 0
 
         for schema, channel, message in reader.iter_messages():
+            if max_messages is not None and msg_count >= max_messages:
+                print(f"\nReached max messages limit ({max_messages})")
+                break
+
             # Look for CompressedPointCloud2 messages
             # Check if this is a compressed point cloud message by schema name
             is_compressed = (schema and 'CompressedPointCloud2' in schema.name)
@@ -79,10 +83,6 @@ def decode_mcap_file(mcap_path: str, wasm_path: str, max_messages: int = None):
                     import traceback
                     traceback.print_exc()
 
-                if max_messages and msg_count >= max_messages:
-                    print(f"\nReached max messages limit ({max_messages})")
-                    break
-
         print(f"\n=== Summary ===")
         print(f"Messages parsed: {msg_count}")
 
-- 
2.43.0


From e3fe276845d2768b402497643ec8640bb5d570cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:03 +0000
Subject: [PATCH 58/64] fix: mcap_codec_benchmark computed ratios over bytes
 that a mode had not encoded

---
 cloudini_lib/tools/src/mcap_codec_benchmark.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/mcap_codec_benchmark.cpp b/cloudini_lib/tools/src/mcap_codec_benchmark.cpp
index bac1371..100928e 100644
--- a/cloudini_lib/tools/src/mcap_codec_benchmark.cpp
+++ b/cloudini_lib/tools/src/mcap_codec_benchmark.cpp
@@ -165,7 +165,7 @@ void printTable(const std::string& title, const TopicStats& st, bool show_zstd)
   for (int m = 0; m < kModeCount; ++m) {
     const auto& ms = st.per_mode[m];
     std::cout << "  " << std::left << std::setw(10) << kModeNames[m] << std::right << std::setw(12)
-              << fmtMiB(ms.out_bytes) << std::setw(10) << fmtRatio(ms.out_bytes, st.in_bytes)
+              << fmtMiB(ms.out_bytes) << std::setw(10) << fmtRatio(ms.out_bytes, ms.enc_input_bytes)
               << std::setw(12) << fmtMBps(ms.enc_input_bytes, ms.enc_ns) << std::setw(12)
               << fmtMBps(ms.dec_input_bytes, ms.dec_ns) << "\n";
   }
-- 
2.43.0


From 0facec1853641cda94974b82087e4644d1180fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:03 +0000
Subject: [PATCH 59/64] fix: mcap_codec_benchmark --explain divided by a
 point_step of zero

---
 cloudini_lib/tools/src/mcap_codec_benchmark.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/mcap_codec_benchmark.cpp b/cloudini_lib/tools/src/mcap_codec_benchmark.cpp
index 100928e..f72c3a2 100644
--- a/cloudini_lib/tools/src/mcap_codec_benchmark.cpp
+++ b/cloudini_lib/tools/src/mcap_codec_benchmark.cpp
@@ -181,7 +181,7 @@ void explainOneMessage(
   using namespace Cloudini;
   std::cout << "\n========================================================================\n";
   std::cout << "Topic: " << topic << "\n";
-  const size_t n_in = base_pc_info.data.size() / base_info.point_step;
+  const size_t n_in = base_pc_info.data.size() / std::max<uint32_t>(1u, base_info.point_step);
   std::cout << "  point_step=" << base_info.point_step << "  n_points=" << n_in
             << "  raw=" << fmtMiB(base_pc_info.data.size()) << " MiB\n";
 
-- 
2.43.0


From fcf3e130fcf811da6a73042a9d802b51612a9c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:03 +0000
Subject: [PATCH 60/64] fix: mcap_codec_benchmark took the padding of rows for
 points and crashed on contradictory messages

---
 .../tools/src/mcap_codec_benchmark.cpp        | 35 +++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/cloudini_lib/tools/src/mcap_codec_benchmark.cpp b/cloudini_lib/tools/src/mcap_codec_benchmark.cpp
index f72c3a2..df8a75e 100644
--- a/cloudini_lib/tools/src/mcap_codec_benchmark.cpp
+++ b/cloudini_lib/tools/src/mcap_codec_benchmark.cpp
@@ -171,6 +171,32 @@ void printTable(const std::string& title, const TopicStats& st, bool show_zstd)
   }
 }
 
+// The codec expects the points without the padding that can follow each row (row_step > width * point_step).
+// Return false if the size of the data doesn't match width, height and point_step: the number of points
+// declared by the message would be used to allocate the output of the decoder.
+bool removeRowPadding(cloudini_ros::RosPointCloud2& pc_info) {
+  const uint64_t row_size = static_cast<uint64_t>(pc_info.width) * pc_info.point_step;
+  const uint64_t height = pc_info.height;
+  const uint64_t data_size = pc_info.data.size();
+  if (row_size != 0 && height != 0 && pc_info.row_step > row_size && data_size / height == pc_info.row_step &&
+      data_size % height == 0) {
+    std::vector<uint8_t> packed;
+    packed.reserve(row_size * height);
+    for (uint64_t row = 0; row < height; ++row) {
+      const uint8_t* row_ptr = pc_info.data.data() + row * pc_info.row_step;
+      packed.insert(packed.end(), row_ptr, row_ptr + row_size);
+    }
+    pc_info.owned_data = std::move(packed);
+    pc_info.data = Cloudini::ConstBufferView(pc_info.owned_data.data(), pc_info.owned_data.size());
+    pc_info.row_step = static_cast<uint32_t>(row_size);
+    return true;
+  }
+  if (row_size == 0 || height == 0) {
+    return data_size == 0;
+  }
+  return data_size % row_size == 0 && data_size / row_size == height;
+}
+
 // --explain mode: print the field schema for the first message of each topic,
 // the NaN count, and the dedup count after viz preprocessing. Helpful for
 // understanding what --viz will do on a given bag without running the full
@@ -361,6 +387,10 @@ int main(int argc, char** argv) {
         std::cerr << "  [warn] " << topic << " parse failed: " << e.what() << "\n";
         continue;
       }
+      if (!removeRowPadding(pc_info)) {
+        std::cerr << "  [warn] " << topic << " the size of the data doesn't match the number of points\n";
+        continue;
+      }
       cloudini_ros::applyResolutionProfile({}, pc_info.fields, default_resolution);
       Cloudini::EncodingInfo base = cloudini_ros::toEncodingInfo(pc_info);
       explainOneMessage(topic, pc_info, base);
@@ -402,6 +432,11 @@ int main(int argc, char** argv) {
                 << "), skipping\n";
       continue;
     }
+    if (!removeRowPadding(pc_info_orig)) {
+      std::cerr << "  [warn] " << topic << " msg #" << this_seen
+                << ": the size of the data doesn't match the number of points, skipping\n";
+      continue;
+    }
     cloudini_ros::applyResolutionProfile({}, pc_info_orig.fields, default_resolution);
     Cloudini::EncodingInfo base = cloudini_ros::toEncodingInfo(pc_info_orig);
 
-- 
2.43.0


From 875a558b5541e932189c6c161f03ec55d5e00ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:03 +0000
Subject: [PATCH 61/64] fix: lists indented by less than two blanks were
 dropped from text headers

---
 .../include/cloudini_lib/yaml_parser.hpp        | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/include/cloudini_lib/yaml_parser.hpp b/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
index e46d309..534c31a 100644
--- a/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
+++ b/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
@@ -356,7 +356,7 @@ class Parser {
 
       if (value_str.empty()) {
         // Value is on next line(s)
-        map.emplace_back(key, parseNode(indent + 2));  // Zero-copy key
+        map.emplace_back(key, parseNestedValue(indent));  // Zero-copy key
       } else {
         // Inline value
         map.emplace_back(key, Node(value_str));  // Zero-copy key
@@ -366,6 +366,21 @@ class Parser {
     return map;
   }
 
+  // The value of a key whose line ends with the colon: anything more indented than the key,
+  // or a sequence that starts at the same column as the key.
+  Node parseNestedValue(int key_indent) {
+    skipEmptyLines();
+    if (current_line_ >= lines_.size()) {
+      return Node();
+    }
+    const std::string_view line = lines_[current_line_];
+    const int indent = getIndentation(line);
+    if (indent > key_indent || (indent == key_indent && trim(line).starts_with("- "))) {
+      return parseNode(indent);
+    }
+    return Node();
+  }
+
   void skipEmptyLines() {
     while (current_line_ < lines_.size()) {
       std::string_view line = trim(lines_[current_line_]);
-- 
2.43.0


From 1a325b3abe167919c1c13a69170c835848624d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:03 +0000
Subject: [PATCH 62/64] fix: numbers of text headers were read although
 something followed them or they were negative

---
 .../include/cloudini_lib/yaml_parser.hpp      |  6 ++++-
 cloudini_lib/src/cloudini.cpp                 | 23 +++++++++++++++----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/yaml_parser.hpp b/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
index 534c31a..c5f1976 100644
--- a/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
+++ b/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
@@ -7,6 +7,7 @@
 #include <stdexcept>
 #include <string>
 #include <string_view>
+#include <type_traits>
 #include <variant>
 #include <vector>
 
@@ -99,10 +100,13 @@ class Node {
 
   template <typename T>
   static T parseScalar(const std::string& str) {
+    // istream would silently wrap a negative number around
+    const bool wraps_around = std::is_unsigned_v<T> && str.starts_with('-');
     std::istringstream iss(str);
     T value;
     iss >> value;
-    if (iss.fail()) {
+    // the whole scalar must be the number: "3.7" or "5x" are no integers
+    if (wraps_around || iss.fail() || iss.peek() != std::istringstream::traits_type::eof()) {
       throw std::runtime_error("Failed to convert scalar: " + str);
     }
     return value;
diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 01e9334..c8fee6b 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -132,6 +132,17 @@ const char* ToString(const CompressionOption& opt) {
   }
 }
 
+// std::stoi, but without ignoring what follows the number
+static int WholeNumber(std::string_view str) {
+  const std::string text(str);
+  size_t parsed_chars = 0;
+  const int value = std::stoi(text, &parsed_chars);
+  if (parsed_chars != text.size()) {
+    throw std::runtime_error("Invalid number: " + text);
+  }
+  return value;
+}
+
 EncodingOptions EncodingOptionsFromString(std::string_view str) {
   if (str == "NONE") {
     return EncodingOptions::NONE;
@@ -140,7 +151,7 @@ EncodingOptions EncodingOptionsFromString(std::string_view str) {
   } else if (str == "LOSSLESS") {
     return EncodingOptions::LOSSLESS;
   } else {
-    int val = std::stoi(std::string(str));
+    const int val = WholeNumber(str);
     if (val >= static_cast<int>(EncodingOptions::NONE) && val <= static_cast<int>(EncodingOptions::LOSSLESS)) {
       return static_cast<EncodingOptions>(val);
     }
@@ -170,7 +181,7 @@ FieldType FieldTypeFromString(std::string_view str) {
   } else if (str == "UINT64") {
     return FieldType::UINT64;
   } else {
-    int val = std::stoi(std::string(str));
+    const int val = WholeNumber(str);
     if (val >= static_cast<int>(FieldType::UNKNOWN) && val <= static_cast<int>(FieldType::UINT64)) {
       return static_cast<FieldType>(val);
     }
@@ -186,7 +197,7 @@ CompressionOption CompressionOptionFromString(std::string_view str) {
   } else if (str == "ZSTD") {
     return CompressionOption::ZSTD;
   } else {
-    int val = std::stoi(std::string(str));
+    const int val = WholeNumber(str);
     if (val >= static_cast<int>(CompressionOption::NONE) && val <= static_cast<int>(CompressionOption::ZSTD)) {
       return static_cast<CompressionOption>(val);
     }
@@ -256,7 +267,11 @@ EncodingInfo EncodingInfoFromYAML(std::string_view yaml) {
 
       std::string res_str = field_node["resolution"].as<std::string>();
       if (res_str != "null") {
-        field.resolution = std::stof(res_str);
+        size_t parsed_chars = 0;
+        field.resolution = std::stof(res_str, &parsed_chars);
+        if (parsed_chars != res_str.size()) {
+          throw std::runtime_error("Invalid resolution in YAML: " + res_str);
+        }
       }
       info.fields.push_back(field);
     }
-- 
2.43.0


From b913b47e6834ec4be6992c3c0a76133680590591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:13 +0000
Subject: [PATCH 63/64] fix: text headers with a denormal resolution could not
 be read

---
 cloudini_lib/src/cloudini.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index c8fee6b..6864e4e 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -17,6 +17,8 @@
 #include "cloudini_lib/cloudini.hpp"
 
 #include <algorithm>
+#include <cerrno>
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
 #include <iomanip>
@@ -267,11 +269,15 @@ EncodingInfo EncodingInfoFromYAML(std::string_view yaml) {
 
       std::string res_str = field_node["resolution"].as<std::string>();
       if (res_str != "null") {
-        size_t parsed_chars = 0;
-        field.resolution = std::stof(res_str, &parsed_chars);
-        if (parsed_chars != res_str.size()) {
+        // not std::stof: it throws when the number is denormal
+        char* parsed_end = nullptr;
+        errno = 0;
+        const float resolution = std::strtof(res_str.c_str(), &parsed_end);
+        const bool too_large = errno == ERANGE && std::isinf(resolution);
+        if (res_str.empty() || parsed_end != res_str.c_str() + res_str.size() || too_large) {
           throw std::runtime_error("Invalid resolution in YAML: " + res_str);
         }
+        field.resolution = resolution;
       }
       info.fields.push_back(field);
     }
-- 
2.43.0


From 3ad01add6121da57edf8df9a3dc4f968f6a44797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:13 +0000
Subject: [PATCH 64/64] fix: binary headers were truncated silently with too
 many fields or too long names

---
 cloudini_lib/src/cloudini.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 6864e4e..28a673d 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -374,6 +374,15 @@ void EncodeHeader(const EncodingInfo& header, std::vector<uint8_t>& output, Head
     encode('\0', output_buffer);  // null terminator
   } else {
     // Binary encoding
+    constexpr size_t max_count = std::numeric_limits<uint16_t>::max();
+    if (header.fields.size() > max_count) {
+      throw std::runtime_error("EncodeHeader: too many fields for a binary header");
+    }
+    for (const auto& field : header.fields) {
+      if (field.name.size() > max_count) {
+        throw std::runtime_error("EncodeHeader: field name too long for a binary header");
+      }
+    }
     output.resize(ComputeHeaderSize(header.fields));
     BufferView output_buffer(output.data(), output.size());
     write_magic(output_buffer);
-- 
2.43.0

