#pragma once
#include "types.hpp"
namespace mcap {
enum struct ReadSummaryMethod { NoFallbackScan, AllowFallbackScan, ForceScan };
struct IReadable {
  virtual ~IReadable() = default;
  virtual uint64_t size() const = 0;
  virtual uint64_t read(std::byte** output, uint64_t offset, uint64_t size) = 0;
};
class FileStreamReader final : public IReadable {
 public:
  FileStreamReader(std::ifstream& s) : s_(s) { s_.seekg(0, std::ios::end); auto e = s_.tellg(); size_ = e < 0 ? 0 : (uint64_t)e; }
  uint64_t size() const override { return size_; }
  uint64_t read(std::byte** output, uint64_t offset, uint64_t size) override {
    if (offset >= size_) return 0;
    auto fresh = std::make_unique<std::vector<char>>(std::min(size, size_ - offset));  // what was read before becomes invalid
    s_.seekg((std::streamoff)offset);
    s_.read(fresh->data(), (std::streamsize)fresh->size());
    auto got = s_.gcount();
    buf_ = std::move(fresh);
    *output = (std::byte*)buf_->data();
    return got < 0 ? 0 : (uint64_t)got;
  }
 private:
  std::ifstream& s_;
  std::unique_ptr<std::vector<char>> buf_;
  uint64_t size_;
};
class FileReader final : public IReadable {
 public:
  FileReader(std::FILE* f) : f_(f) { std::fseek(f_, 0, SEEK_END); auto e = std::ftell(f_); size_ = e < 0 ? 0 : (uint64_t)e; }
  uint64_t size() const override { return size_; }
  uint64_t read(std::byte** output, uint64_t offset, uint64_t size) override {
    if (offset >= size_) return 0;
    auto fresh = std::make_unique<std::vector<char>>(std::min(size, size_ - offset));
    std::fseek(f_, (long)offset, SEEK_SET);
    auto got = std::fread(fresh->data(), 1, fresh->size(), f_);
    buf_ = std::move(fresh);
    *output = (std::byte*)buf_->data();
    return got;
  }
 private:
  std::FILE* f_;
  std::unique_ptr<std::vector<char>> buf_;
  uint64_t size_;
};
class BufferReader final : public IReadable {
 public:
  void reset(const std::byte* d, uint64_t n, uint64_t) { d_ = d; n_ = n; }
  uint64_t size() const override { return n_; }
  uint64_t read(std::byte** output, uint64_t offset, uint64_t size) override {
    if (offset >= n_) return 0;
    *output = const_cast<std::byte*>(d_) + offset;
    return std::min(size, n_ - offset);
  }
 private:
  const std::byte* d_ = nullptr;
  uint64_t n_ = 0;
};
struct ReadMessageOptions {
  Timestamp startTime = 0, endTime = MaxTime;
  std::function<bool(std::string_view)> topicFilter;
  enum struct ReadOrder { FileOrder, LogTimeOrder, ReverseLogTimeOrder };
  ReadOrder readOrder = ReadOrder::LogTimeOrder;
  ReadMessageOptions() = default;
  ReadMessageOptions(Timestamp s, Timestamp e) : startTime(s), endTime(e) {}
};
class McapReader;
class LinearMessageView {
 public:
  struct Iterator {
    using iterator_category = std::input_iterator_tag;
    using difference_type = int64_t;
    using value_type = MessageView;
    using pointer = const MessageView*;
    using reference = const MessageView&;
    reference operator*() const { return *cur_->view; }
    pointer operator->() const { return cur_->view.get(); }
    Iterator& operator++() { load(i_ + 1); return *this; }
    void operator++(int) { ++*this; }
    friend bool operator==(const Iterator& a, const Iterator& b) { return a.i_ == b.i_; }
    friend bool operator!=(const Iterator& a, const Iterator& b) { return a.i_ != b.i_; }
   private:
    friend class LinearMessageView;
    struct Cur { Message m; std::vector<std::byte> data; std::unique_ptr<MessageView> view; };
    inline void load(size_t i);
    Iterator(LinearMessageView* v, size_t i) : v_(v) { load(i); }
    LinearMessageView* v_;
    size_t i_ = 0;
    std::shared_ptr<Cur> cur_;
  };
  inline LinearMessageView(McapReader& r, const ProblemCallback& p, const ReadMessageOptions& o);
  Iterator begin() { return Iterator(this, 0); }
  Iterator end() { return Iterator(this, order_.size()); }
 private:
  McapReader& r_;
  std::vector<size_t> order_;
};
class McapReader final {
 public:
  ~McapReader() = default;
  Status open(std::string_view filename) {
    close();
    file_ = std::make_unique<std::ifstream>(std::string(filename), std::ios::binary);
    if (!file_->is_open()) return Status(StatusCode::OpenFailed, "failed to open");
    return open(*file_);
  }
  Status open(std::ifstream& s) {
    own_ = std::make_unique<FileStreamReader>(s);
    return open(*own_);
  }
  Status open(IReadable& r) {
    close();
    src_ = &r;
    std::byte* p = nullptr;
    uint64_t n = r.size() ? r.read(&p, 0, r.size()) : 0;
    all_.assign((char*)p, n);
    if (n < 4) return Status(StatusCode::FileTooSmall, "file too small");
    if (all_.compare(0, 4, "BAG1")) return Status(StatusCode::MagicMismatch, "no magic");
    size_t at = 4;
    bool header = false;
    while (at < all_.size()) {
      if (all_.size() - at < 5) return Status(StatusCode::InvalidFile, "cut");
      stub::In l{all_.data() + at, all_.size() - at};
      char kind = (char)l.num(1);
      std::string body = l.str();
      if (l.bad) return Status(StatusCode::InvalidFile, "cut");
      stub::In in{body.data(), body.size()};
      if (kind == 'H') { header_.profile = in.str(); header_.library = in.str(); header = true; }
      else if (kind == 'S') { auto s = std::make_shared<Schema>(); s->id = (SchemaId)in.num(2); s->name = in.str(); s->encoding = in.str(); auto d = in.str(); s->data.assign((std::byte*)d.data(), (std::byte*)d.data() + d.size()); schemas_[s->id] = s; }
      else if (kind == 'C') { auto c = std::make_shared<Channel>(); c->id = (ChannelId)in.num(2); c->topic = in.str(); c->messageEncoding = in.str(); c->schemaId = (SchemaId)in.num(2); c->metadata = in.map(); channels_[c->id] = c; }
      else if (kind == 'M') { Message m; m.channelId = (ChannelId)in.num(2); m.sequence = (uint32_t)in.num(4); m.logTime = in.num(8); m.publishTime = in.num(8); auto d = in.str(); msgs_.push_back({m, d, at}); }
      else if (kind == 'D') { MetadataIndex x; x.offset = at; x.length = 5 + body.size(); x.name = in.str(); meta_.emplace(x.name, x); }
      if (in.bad) return Status(StatusCode::InvalidRecord, "record");
      at = l.p - all_.data();
    }
    return header ? Status() : Status(StatusCode::InvalidFile, "no header");
  }
  void close() { all_.clear(); schemas_.clear(); channels_.clear(); msgs_.clear(); meta_.clear(); summary_ = false; src_ = nullptr; }
  Status readSummary(ReadSummaryMethod, const ProblemCallback& = [](const Status&) {}) { if (!src_) return StatusCode::NotOpen; summary_ = true; return StatusCode::Success; }
  LinearMessageView readMessages(Timestamp s = 0, Timestamp e = MaxTime) { return LinearMessageView(*this, [](const Status&) {}, ReadMessageOptions(s, e)); }
  LinearMessageView readMessages(const ProblemCallback& p, Timestamp s = 0, Timestamp e = MaxTime) { return LinearMessageView(*this, p, ReadMessageOptions(s, e)); }
  LinearMessageView readMessages(const ProblemCallback& p, const ReadMessageOptions& o) { return LinearMessageView(*this, p, o); }
  std::optional<Statistics> statistics() const {
    if (!summary_) return std::nullopt;
    Statistics st;
    st.messageCount = msgs_.size();
    st.schemaCount = (uint16_t)schemas_.size();
    st.channelCount = (uint32_t)channels_.size();
    st.metadataCount = (uint32_t)meta_.size();
    for (auto& x : msgs_) {
      st.messageStartTime = st.channelMessageCounts.empty() ? x.m.logTime : std::min(st.messageStartTime, x.m.logTime);
      st.messageEndTime = std::max(st.messageEndTime, x.m.logTime);
      st.channelMessageCounts[x.m.channelId]++;
    }
    return st;
  }
  IReadable* dataSource() { return src_; }
  const std::optional<Header>& header() const { static thread_local std::optional<Header> h; h = header_; return h; }
  const std::unordered_map<ChannelId, ChannelPtr> channels() const { return summary_ ? channels_ : std::unordered_map<ChannelId, ChannelPtr>(); }
  const std::unordered_map<SchemaId, SchemaPtr> schemas() const { return summary_ ? schemas_ : std::unordered_map<SchemaId, SchemaPtr>(); }
  ChannelPtr channel(ChannelId i) const { auto it = channels_.find(i); return it == channels_.end() ? nullptr : it->second; }
  SchemaPtr schema(SchemaId i) const { auto it = schemas_.find(i); return it == schemas_.end() ? nullptr : it->second; }
  const std::multimap<std::string, MetadataIndex>& metadataIndexes() const { static const std::multimap<std::string, MetadataIndex> none; return summary_ ? meta_ : none; }
  static Status ReadRecord(IReadable& r, uint64_t offset, Record* rec) {
    std::byte* p = nullptr;
    if (r.read(&p, offset, 5) != 5) return Status(StatusCode::InvalidFile, "cut");
    char kind = (char)p[0];
    stub::In l{(char*)p + 1, 4};
    uint64_t n = l.num(4);
    if (r.read(&p, offset + 5, n) != n) return Status(StatusCode::InvalidRecord, "cut");
    rec->opcode = kind == 'D' ? OpCode::Metadata : kind == 'M' ? OpCode::Message : kind == 'S' ? OpCode::Schema : kind == 'C' ? OpCode::Channel : OpCode::Header;
    rec->dataSize = n;
    rec->data = p;
    return Status();
  }
  static Status ParseMetadata(const Record& r, Metadata* m) {
    if (r.opcode != OpCode::Metadata) return Status(StatusCode::InvalidOpCode, "not metadata");
    stub::In in{(const char*)r.data, r.dataSize};
    m->name = in.str();
    m->metadata = in.map();
    return in.bad ? Status(StatusCode::InvalidRecord, "metadata") : Status();
  }
 private:
  friend class LinearMessageView;
  friend struct LinearMessageView::Iterator;
  struct Stored { Message m; std::string data; size_t at; };
  IReadable* src_ = nullptr;
  std::unique_ptr<std::ifstream> file_;
  std::unique_ptr<FileStreamReader> own_;
  bool summary_ = false;
  std::string all_;
  Header header_;
  std::unordered_map<SchemaId, SchemaPtr> schemas_;
  std::unordered_map<ChannelId, ChannelPtr> channels_;
  std::vector<Stored> msgs_;
  std::multimap<std::string, MetadataIndex> meta_;
};
inline LinearMessageView::LinearMessageView(McapReader& r, const ProblemCallback& problem, const ReadMessageOptions& o) : r_(r) {
  for (size_t i = 0; i < r.msgs_.size(); i++) {
    auto& m = r.msgs_[i].m;
    if (m.logTime < o.startTime || m.logTime >= o.endTime) continue;
    auto c = r.channel(m.channelId);
    if (!c) { problem(Status(StatusCode::InvalidChannelId)); continue; }
    if (c->schemaId != 0 && !r.schema(c->schemaId)) { problem(Status(StatusCode::InvalidSchemaId)); continue; }
    if (o.topicFilter && !o.topicFilter(c->topic)) continue;
    order_.push_back(i);
  }
  using O = ReadMessageOptions::ReadOrder;
  if (o.readOrder == O::LogTimeOrder) std::stable_sort(order_.begin(), order_.end(), [&](size_t a, size_t b) { return r.msgs_[a].m.logTime < r.msgs_[b].m.logTime; });
  if (o.readOrder == O::ReverseLogTimeOrder) {
    std::stable_sort(order_.begin(), order_.end(), [&](size_t a, size_t b) { return r.msgs_[a].m.logTime < r.msgs_[b].m.logTime; });
    std::reverse(order_.begin(), order_.end());
  }
}
inline void LinearMessageView::Iterator::load(size_t i) {
  i_ = i;
  cur_.reset();
  if (i >= v_->order_.size()) return;
  auto& s = v_->r_.msgs_[v_->order_[i]];
  cur_ = std::make_shared<Cur>();
  cur_->m = s.m;
  cur_->data.assign((const std::byte*)s.data.data(), (const std::byte*)s.data.data() + s.data.size());
  cur_->m.data = cur_->data.data();
  cur_->m.dataSize = cur_->data.size();
  auto c = v_->r_.channel(s.m.channelId);
  cur_->view = std::make_unique<MessageView>(cur_->m, c, c->schemaId ? v_->r_.schema(c->schemaId) : nullptr, RecordOffset(s.at));
}
}  // namespace mcap
