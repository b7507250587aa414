#pragma once
#include "types.hpp"
namespace mcap {
namespace stub {
inline long& writesLeft() { static long n = -1; return n; }  // >= 0: that many records can be written, the next one fails
}
struct McapWriterOptions {
  bool noCRC = false, noChunking = false, noMessageIndex = false, noSummary = false, enableDataCRC = false;
  uint64_t chunkSize = 768 * 1024;
  Compression compression = Compression::Zstd;
  CompressionLevel compressionLevel = CompressionLevel::Default;
  bool forceCompression = false;
  std::string profile, library = "stub";
  McapWriterOptions(const std::string_view p) : profile(p) {}
};
class McapWriter final {
 public:
  ~McapWriter() { close(); }
  Status open(std::string_view filename, const McapWriterOptions& o) {
    close();
    f_.open(std::string(filename), std::ios::binary | std::ios::trunc);
    if (!f_.is_open()) return Status(StatusCode::OpenFailed, "failed to open");
    open_ = true;
    f_ << "BAG1";
    stub::Out b;
    b.str(o.profile); b.str(std::string(o.compression == Compression::None ? "none" : o.compression == Compression::Lz4 ? "lz4" : "zstd"));
    put('H', b.b);
    return Status();
  }
  void close() { if (open_) f_.close(); open_ = false; schemas_ = channels_ = 0; }
  void terminate() { close(); }
  void closeLastChunk() {}
  void addSchema(Schema& s) {
    s.id = (SchemaId)++schemas_;
    stub::Out b;
    b.num(s.id, 2); b.str(s.name); b.str(s.encoding); b.str(std::string_view((const char*)s.data.data(), s.data.size()));
    put('S', b.b);
  }
  void addChannel(Channel& c) {
    c.id = (ChannelId)++channels_;
    stub::Out b;
    b.num(c.id, 2); b.str(c.topic); b.str(c.messageEncoding); b.num(c.schemaId, 2); b.map(c.metadata);
    put('C', b.b);
    schema_of_[c.id] = c.schemaId;
  }
  Status write(const Message& m) {
    if (!open_) return Status(StatusCode::NotOpen, "not open");
    if (m.channelId == 0 || m.channelId > channels_) return Status(StatusCode::InvalidChannelId, "invalid channel id");
    if (schema_of_[m.channelId] > schemas_) return Status(StatusCode::InvalidSchemaId, "invalid schema id");
    if (stub::writesLeft() == 0) return Status(StatusCode::NotOpen, "disk full");
    if (stub::writesLeft() > 0) stub::writesLeft()--;
    stub::Out b;
    b.num(m.channelId, 2); b.num(m.sequence, 4); b.num(m.logTime, 8); b.num(m.publishTime, 8); b.str(std::string_view((const char*)m.data, m.dataSize));
    put('M', b.b);
    return Status();
  }
  Status write(const Metadata& m) {
    if (!open_) return Status(StatusCode::NotOpen, "not open");
    if (stub::writesLeft() == 0) return Status(StatusCode::NotOpen, "disk full");
    if (stub::writesLeft() > 0) stub::writesLeft()--;
    stub::Out b;
    b.str(m.name); b.map(m.metadata);
    put('D', b.b);
    return Status();
  }
 private:
  void put(char kind, const std::string& body) { if (!open_) return; stub::Out l; l.num(kind, 1); l.str(body); f_ << l.b; }
  std::ofstream f_;
  bool open_ = false;
  uint64_t schemas_ = 0, channels_ = 0;
  std::map<ChannelId, SchemaId> schema_of_;
};
}  // namespace mcap
