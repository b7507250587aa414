// Stand-in for the mcap library: the part of its interface that the converters use, over a
// trivial file format of its own ("BAG1", then records: kind, size, payload).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>
namespace mcap {
using SchemaId = uint16_t;
using ChannelId = uint16_t;
using Timestamp = uint64_t;
using ByteOffset = uint64_t;
using KeyValueMap = std::unordered_map<std::string, std::string>;
using ByteArray = std::vector<std::byte>;
constexpr Timestamp MaxTime = std::numeric_limits<Timestamp>::max();
enum struct StatusCode { Success = 0, NotOpen, InvalidSchemaId, InvalidChannelId, FileTooSmall, ReadFailed, MagicMismatch, InvalidFile, InvalidRecord, InvalidOpCode, OpenFailed, MissingStatistics };
struct Status {
  StatusCode code;
  std::string message;
  Status() : code(StatusCode::Success) {}
  Status(StatusCode c) : code(c), message("status") {}
  Status(StatusCode c, const std::string& m) : code(c), message(m) {}
  bool ok() const { return code == StatusCode::Success; }
};
using ProblemCallback = std::function<void(const Status&)>;
enum struct Compression { None, Lz4, Zstd };
enum struct CompressionLevel { Fastest, Fast, Default, Slow, Slowest };
enum struct OpCode : uint8_t { Header = 1, Footer = 2, Schema = 3, Channel = 4, Message = 5, Attachment = 9, Metadata = 12 };
struct Header { std::string profile, library; };
struct Schema {
  SchemaId id = 0;
  std::string name, encoding;
  ByteArray data;
  Schema() = default;
  Schema(const std::string_view n, const std::string_view e, const std::string_view d)
      : name(n), encoding(e), data((const std::byte*)d.data(), (const std::byte*)d.data() + d.size()) {}
  Schema(const std::string_view n, const std::string_view e, const ByteArray& d) : name(n), encoding(e), data(d) {}
};
struct Channel {
  ChannelId id = 0;
  std::string topic, messageEncoding;
  SchemaId schemaId = 0;
  KeyValueMap metadata;
  Channel() = default;
  Channel(const std::string_view t, const std::string_view m, SchemaId s, const KeyValueMap& md = {}) : topic(t), messageEncoding(m), schemaId(s), metadata(md) {}
};
using SchemaPtr = std::shared_ptr<Schema>;
using ChannelPtr = std::shared_ptr<Channel>;
struct Message {
  ChannelId channelId = 0;
  uint32_t sequence = 0;
  Timestamp logTime = 0, publishTime = 0;
  uint64_t dataSize = 0;
  const std::byte* data = nullptr;
};
struct Metadata { std::string name; KeyValueMap metadata; };
struct Record {
  OpCode opcode = OpCode::Header;
  uint64_t dataSize = 0;
  std::byte* data = nullptr;
};
struct RecordOffset {
  ByteOffset offset = 0;
  std::optional<ByteOffset> chunkOffset;
  RecordOffset() = default;
  explicit RecordOffset(ByteOffset o) : offset(o) {}
};
struct Statistics {
  uint64_t messageCount = 0;
  uint16_t schemaCount = 0;
  uint32_t channelCount = 0, attachmentCount = 0, metadataCount = 0, chunkCount = 1;
  Timestamp messageStartTime = 0, messageEndTime = 0;
  std::unordered_map<ChannelId, uint64_t> channelMessageCounts;
};
struct MetadataIndex { ByteOffset offset = 0, length = 0; std::string name; };
struct MessageView {
  const Message& message;
  const ChannelPtr channel;
  const SchemaPtr schema;
  const RecordOffset messageOffset;
  MessageView(const Message& m, const ChannelPtr c, const SchemaPtr s, RecordOffset o) : message(m), channel(c), schema(s), messageOffset(o) {}
};
namespace stub {
struct Out {
  std::string b;
  void num(uint64_t x, int n) { for (int i = 0; i < n; i++) b += char(x >> (8 * i)); }
  void str(std::string_view s) { num(s.size(), 4); b.append(s); }
  void map(const KeyValueMap& m) { num(m.size(), 4); for (auto& [k, v] : std::map<std::string, std::string>(m.begin(), m.end())) { str(k); str(v); } }
};
struct In {
  const char* p; size_t n; bool bad = false;
  uint64_t num(int k) { if (n < (size_t)k) { bad = true; return 0; } uint64_t x = 0; for (int i = 0; i < k; i++) x |= uint64_t((uint8_t)p[i]) << (8 * i); p += k; n -= k; return x; }
  std::string str() { size_t l = num(4); if (n < l) { bad = true; return ""; } std::string s(p, l); p += l; n -= l; return s; }
  KeyValueMap map() { KeyValueMap m; for (size_t k = num(4); k > 0 && !bad; k--) { auto a = str(); m[a] = str(); } return m; }
};
}  // namespace stub
}  // namespace mcap
