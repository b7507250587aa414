// Command driver with the operations on CDR buffers, ROS messages and cloud messages added.
#define HAVE_EXTRA
#include "cldrv.cpp"
#include <array>
#include <cstddef>
#include <functional>
#include <map>
#include <optional>
#include "cloudini_lib/contrib/nanocdr.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"

using namespace cloudini_ros;
struct Rec { uint8_t a; uint32_t b; std::string s; double d; };
namespace nanocdr {
template <> struct TypeDefinition<Rec> {
  template <class Op> void operator()(Rec& o, Op& op) { op(o.a); op(o.b); op(o.s); op(o.d); }
};
}

extern size_t g_alloc_limit;
template <typename T> static T fromLE(const std::string& h) { auto b = unhex(h); T t; memcpy((void*)&t, b.data(), sizeof(T)); return t; }
template <typename T> static std::string le(const T& t) { return hex((const uint8_t*)&t, sizeof(T)); }
static std::string sh(const std::string& s) { return hex((const uint8_t*)s.data(), s.size()); }

struct Codec {
  std::function<void(nanocdr::Encoder&, const std::string&)> enc;
  std::function<std::string(nanocdr::Decoder&)> dec;
};
template <typename T> static Codec prim() {
  return {[](nanocdr::Encoder& e, const std::string& p) { e.encode(fromLE<T>(p)); }, [](nanocdr::Decoder& d) { T t{}; d.decode(t); return le(t); }};
}
template <typename T> static Codec vecOf() {
  return {[](nanocdr::Encoder& e, const std::string& p) {
            auto t = split(p, '.'); std::vector<T> v;
            for (size_t i = 1; i < t.size(); i++) v.push_back(fromLE<T>(t[i]));
            e.encode(v);
          },
          [](nanocdr::Decoder& d) {
            std::vector<T> v; d.decode(v);
            std::string r = std::to_string(v.size());
            for (auto& x : v) r += "." + le(x);
            return r;
          }};
}
template <typename T, size_t N> static Codec arrOf() {
  return {[](nanocdr::Encoder& e, const std::string& p) {
            auto t = split(p, '.'); std::array<T, N> v;
            for (size_t i = 0; i < N; i++) v[i] = fromLE<T>(t[i + 1]);
            e.encode(v);
          },
          [](nanocdr::Decoder& d) {
            std::array<T, N> v; d.decode(v);
            std::string r = std::to_string(N);
            for (auto& x : v) r += "." + le(x);
            return r;
          }};
}
static Rec recOf(const std::vector<std::string>& t, size_t at) { return Rec{fromLE<uint8_t>(t[at]), fromLE<uint32_t>(t[at + 1]), strOf(t[at + 2]), fromLE<double>(t[at + 3])}; }
static std::string recStr(const Rec& r) { return le(r.a) + "." + le(r.b) + "." + sh(r.s) + "." + le(r.d); }

static const std::map<std::string, Codec>& codecs() {
  static std::map<std::string, Codec> m;
  if (!m.empty()) return m;
#define P(n, T) m[#n] = prim<T>(); m["v" #n] = vecOf<T>(); m["a2" #n] = arrOf<T, 2>(); m["a3" #n] = arrOf<T, 3>();
  P(u8, uint8_t) P(i8, int8_t) P(u16, uint16_t) P(i16, int16_t) P(u32, uint32_t) P(i32, int32_t) P(u64, uint64_t) P(i64, int64_t) P(f32, float) P(f64, double) P(chr, char) P(byt, std::byte)
#undef P
  m["bool"] = {[](nanocdr::Encoder& e, const std::string& p) { e.encode(p == "01"); }, [](nanocdr::Decoder& d) { bool b = false; d.decode(b); return std::string(b ? "01" : "00"); }};
  m["s"] = {[](nanocdr::Encoder& e, const std::string& p) { e.encode(strOf(p)); }, [](nanocdr::Decoder& d) { std::string s = "dirty"; d.decode(s); return sh(s); }};
  m["b"] = {[](nanocdr::Encoder& e, const std::string& p) { auto v = unhex(p); e.encode(nanocdr::ConstBuffer(v.data(), v.size())); },
            [](nanocdr::Decoder& d) { nanocdr::ConstBuffer b; d.decode(b); return hex(b.data(), b.size()); }};
  m["vs"] = {[](nanocdr::Encoder& e, const std::string& p) {
               auto t = split(p, '.'); std::vector<std::string> v;
               for (size_t i = 1; i < t.size(); i++) v.push_back(strOf(t[i]));
               e.encode(v);
             },
             [](nanocdr::Decoder& d) { std::vector<std::string> v{"dirty"}; d.decode(v); std::string r = std::to_string(v.size()); for (auto& x : v) r += "." + sh(x); return r; }};
  m["r"] = {[](nanocdr::Encoder& e, const std::string& p) { e.encode(recOf(split(p, '.'), 0)); }, [](nanocdr::Decoder& d) { Rec r{}; d.decode(r); return recStr(r); }};
  m["vr"] = {[](nanocdr::Encoder& e, const std::string& p) {
               auto t = split(p, '.'); std::vector<Rec> v;
               for (size_t i = 1; i + 3 < t.size(); i += 4) v.push_back(recOf(t, i));
               e.encode(v);
             },
             [](nanocdr::Decoder& d) { std::vector<Rec> v; d.decode(v); std::string r = std::to_string(v.size()); for (auto& x : v) r += "." + recStr(x); return r; }};
  return m;
}

static std::string decodeAll(const uint8_t* p, size_t n, nanocdr::CdrVersion def, const std::vector<std::string>& items, size_t& left) {
  nanocdr::Decoder d(nanocdr::ConstBuffer(p, n), def);
  std::string r;
  for (auto& it : items) { auto k = it.substr(0, it.find(':')); r += (r.empty() ? "" : ";") + k + ":" + codecs().at(k).dec(d); }
  left = d.currentBuffer().size();
  return r;
}

// message metadata: sec,nsec,frame,h,w,step,row,dense,datalen,be|fields
static std::string msgStr(const RosPointCloud2& m) {
  std::ostringstream o;
  o << m.ros_header.stamp_sec << ',' << m.ros_header.stamp_nsec << ',' << sh(m.ros_header.frame_id) << ',' << m.height << ',' << m.width << ',' << m.point_step << ',' << m.row_step << ',' << (m.is_dense ? 1 : 0) << ',' << m.data.size() << ','
    << (m.cdr_header.endianness == nanocdr::Endianness::CDR_BIG_ENDIAN ? 1 : 0) << '|' << fieldsStr(m.fields);
  return o.str();
}
static float bitsF(const std::string& h) { uint32_t b = (uint32_t)std::stoul(h, nullptr, 16); float f; memcpy(&f, &b, 4); return f; }
static ResolutionProfile parseProfile(const std::string& s) {
  ResolutionProfile p;
  if (s.empty()) return p;
  for (auto& e : split(s, ';')) { auto t = split(e, ':'); p[strOf(t[0])] = bitsF(t[1]); }
  return p;
}

#include "ownops.hpp"

#ifdef HAVE_MORE
std::string runMore(const std::string& op, const Args& a, bool& known);
#else
static std::string runMore(const std::string&, const Args&, bool& known) { known = false; return ""; }
#endif
std::string runExtra(const std::string& op, const Args& a, bool& known) {
  known = true;
  auto G = [&](const char* k) -> std::string { auto it = a.find(k); return it == a.end() ? "" : it->second; };
  auto N = [&](const char* k, size_t d) -> size_t { auto it = a.find(k); return it == a.end() ? d : std::stoull(it->second); };
  if (op == "cdr") {
    nanocdr::CdrHeader h;
    h.version = (nanocdr::CdrVersion)N("ver", 1); h.encoding = (nanocdr::EncodingFlag)N("enc", 0);
    h.endianness = N("big", 0) ? nanocdr::Endianness::CDR_BIG_ENDIAN : nanocdr::Endianness::CDR_LITTLE_ENDIAN;
    auto def = (nanocdr::CdrVersion)N("def", 1);
    std::vector<std::string> items = G("items").empty() ? std::vector<std::string>{} : split(G("items"), ';');
    std::vector<uint8_t> storage(N("pre", 0), 0xA5);
    std::vector<uint8_t> bytes;
    if (N("own", 0)) {
      nanocdr::Encoder e(h);
      for (auto& it : items) codecs().at(it.substr(0, it.find(':'))).enc(e, it.substr(it.find(':') + 1));
      bytes.assign(e.encodedBuffer().data(), e.encodedBuffer().data() + e.encodedBuffer().size());
    } else {
      nanocdr::Encoder e(h, storage);
      for (auto& it : items) codecs().at(it.substr(0, it.find(':'))).enc(e, it.substr(it.find(':') + 1));
      bytes = storage;
    }
    std::string res = "\"ok\":true,\"bytes\":\"" + hex(bytes.data(), bytes.size()) + "\"";
    size_t left = 0;
    try { Exact in(bytes); auto s = decodeAll(in.p, in.n, def, items, left); res += ",\"dec\":\"ok\",\"back\":\"" + s + "\",\"left\":" + std::to_string(left); }
    catch (const std::exception& e) { res += ",\"dec\":" + jstr(e.what()) + ",\"back\":\"\",\"left\":0"; }
    std::string cuts;
    size_t stride = std::max<size_t>(1, bytes.size() / N("maxcuts", 400));
    for (size_t k = 0; k < bytes.size(); k += stride) {
      Exact in(std::vector<uint8_t>(bytes.begin(), bytes.begin() + k));
      char r = 'o';
      try { decodeAll(in.p, in.n, def, items, left); } catch (const std::exception&) { r = 't'; } catch (...) { r = 'x'; }
      cuts += r;
    }
    res += ",\"dmg\":[";  // every aligned word replaced by a number: what becomes of it
    auto nums = G("nums").empty() ? std::vector<std::string>{} : split(G("nums"), '.');
    for (size_t q = 0; q < nums.size(); q++) {
      uint32_t v = (uint32_t)std::stoul(nums[q]);
      if (N("big", 0)) v = __builtin_bswap32(v);
      std::string outc = "h";
      for (size_t k = 4; k + 4 <= bytes.size(); k += 4) {
        std::vector<uint8_t> b2 = bytes;
        memcpy(b2.data() + k, &v, 4);
        Exact in(b2);
        char r = 'o';
        size_t was = g_alloc_limit;
        g_alloc_limit = 64 * bytes.size() + 65536;  // what there is to read takes no more, in one piece
        try { decodeAll(in.p, in.n, def, items, left); } catch (const std::bad_alloc&) { r = 'a'; } catch (const std::length_error&) { r = 'a'; } catch (const std::exception&) { r = 't'; } catch (...) { r = 'x'; }
        g_alloc_limit = was;
        outc += r;
      }
      res += std::string(q ? "," : "") + "[" + nums[q] + ",\"" + outc + "\"]";
    }
    res += "]";
    return res + ",\"cuts\":\"" + cuts + "\",\"stride\":" + std::to_string(stride);
  }
  if (op == "cdrhdr") {
    Exact in(unhex(G("d")));
    nanocdr::Decoder d(nanocdr::ConstBuffer(in.p, in.n), (nanocdr::CdrVersion)N("def", 1));
    return "\"ok\":true,\"ver\":" + std::to_string((int)d.header().version) + ",\"big\":" + (d.header().endianness == nanocdr::Endianness::CDR_BIG_ENDIAN ? "1" : "0");
  }
  if (op == "msgparse") {
    Exact in(unhex(G("d")));
    auto m = getDeserializedPointCloudMessage(ConstBufferView(in.p, in.n));
    std::string at = m.data.size() ? std::to_string(m.data.data() - in.p) : "-1";
    return "\"ok\":true,\"msg\":\"" + msgStr(m) + "\",\"at\":" + at;
  }
  if (op == "msgcuts") {  // outcome of parsing (and, for r=1, restoring) every cut of the message up to n bytes
    auto all = unhex(G("d"));
    std::string cuts;
    for (auto& ks : split(G("at"), ',')) {
      size_t k = std::stoull(ks);
      Exact in(std::vector<uint8_t>(all.begin(), all.begin() + k));
      char r = 'o';
      try {
        auto m = getDeserializedPointCloudMessage(ConstBufferView(in.p, in.n));
        if (N("r", 0)) { std::vector<uint8_t> o; convertCompressedCloudToPointCloud2(m, o); }
      } catch (const std::exception&) { r = 't'; } catch (...) { r = 'x'; }
      cuts += r;
    }
    return "\"ok\":true,\"cuts\":\"" + cuts + "\"";
  }
  if (op == "compress") {  // as the converters do: parse, profile, [viz], encoding info, convert
    Exact in(unhex(G("d")));
    auto m = getDeserializedPointCloudMessage(ConstBufferView(in.p, in.n));
    std::optional<float> def;
    if (!G("def").empty()) def = bitsF(G("def"));
    applyResolutionProfile(parseProfile(G("prof")), m.fields, def);
    if (N("viz", 0)) applyVizLossyPreprocessing(m);
    auto info = toEncodingInfo(m);
    std::string def_info = infoStr(info);
    if (a.count("enc")) info.encoding_opt = (EncodingOptions)N("enc", 1);
    if (a.count("comp")) info.compression_opt = (CompressionOption)N("comp", 2);
    if (a.count("ver")) info.version = (uint8_t)N("ver", 5);
    if (a.count("thr")) info.use_threads = N("thr", 0) != 0;
    std::vector<uint8_t> out(N("pre", 0), 0xA5);
    convertPointCloud2ToCompressedCloud(m, info, out);
    return "\"ok\":true,\"out\":\"" + hex(out.data(), out.size()) + "\",\"msg\":\"" + msgStr(m) + "\",\"info\":\"" + infoStr(info) + "\",\"definfo\":\"" + def_info + "\"";
  }
  if (op == "modes") {  // sizes and decoded points of a cloud, version 4 and 5, without and with preprocessing
    std::string o;
    size_t n = 0, raw = 0;
    bool fits = false;
    for (int k = 0; k < 4; k++) {
      Exact in(unhex(G("d")));
      auto m = getDeserializedPointCloudMessage(ConstBufferView(in.p, in.n));
      // the points alone, without what follows the rows
      const unsigned __int128 row = (unsigned __int128)m.width * m.point_step, all = row * m.height;
      if (row && m.row_step > row && (unsigned __int128)m.row_step * m.height == m.data.size()) {
        std::vector<uint8_t> pts;
        for (size_t y = 0; y < m.height; y++) pts.insert(pts.end(), m.data.data() + y * m.row_step, m.data.data() + y * m.row_step + (size_t)row);
        m.owned_data = std::move(pts);
        m.data = ConstBufferView(m.owned_data.data(), m.owned_data.size());
        m.row_step = (uint32_t)row;
      }
      fits = all == m.data.size();
      if (!fits) return "\"ok\":true,\"fits\":0";
      n = (size_t)m.width * m.height;
      raw = m.data.size();
      applyResolutionProfile({}, m.fields, bitsF(G("def")));
      o += ";";
      if (!raw || !m.point_step) continue;
      if (k > 1) applyVizLossyPreprocessing(m);
      auto info = toEncodingInfo(m);
      info.version = (k & 1) ? 5 : 4;
      info.encoding_opt = EncodingOptions::LOSSY;
      info.compression_opt = N("zstd", 0) ? CompressionOption::ZSTD : CompressionOption::NONE;
      std::vector<uint8_t> e;
      try {
        PointcloudEncoder(info).encode(m.data, e);
      } catch (const std::exception&) { o += "-1,0,0,"; continue; }
      ConstBufferView v(e.data(), e.size());
      auto h = DecodeHeader(v);
      std::vector<uint8_t> d((size_t)h.width * h.height * h.point_step);
      try {
        PointcloudDecoder().decode(h, v, BufferView(d.data(), d.size()));
      } catch (const std::exception& x) { return std::string("\"ok\":true,\"lost\":\"") + x.what() + "\""; }
      std::string f64;
      for (auto& f : m.fields) if (f.type == FieldType::FLOAT64 && f.resolution) f64 += (f64.empty() ? "" : "+") + hex((const uint8_t*)f.name.data(), f.name.size());
      o += std::to_string(e.size()) + "," + std::to_string(m.data.size() / m.point_step) + "," + f64 + "," + hex(d.data(), d.size());
    }
    return "\"ok\":true,\"fits\":1,\"n\":" + std::to_string(n) + ",\"raw\":" + std::to_string(raw) + ",\"modes\":\"" + o.substr(1) + "\"";
  }
  if (op == "restore") {
    Exact in(unhex(G("d")));
    auto m = getDeserializedPointCloudMessage(ConstBufferView(in.p, in.n));
    std::vector<uint8_t> out(N("pre", 0), 0xA5);
    convertCompressedCloudToPointCloud2(m, out);
    return "\"ok\":true,\"out\":\"" + hex(out.data(), out.size()) + "\",\"msg\":\"" + msgStr(m) + "\"";
  }
  if (op == "profile") {
    auto fs = parseFields(G("fields"));
    std::optional<float> def;
    if (!G("def").empty()) def = bitsF(G("def"));
    applyResolutionProfile(parseProfile(G("prof")), fs, def);
    return "\"ok\":true,\"fields\":\"" + fieldsStr(fs) + "\"";
  }
  if (op == "viz") {  // w,h,step,row given; data viewed from an exact block
    Exact in(unhex(G("d")));
    RosPointCloud2 m;
    m.width = (uint32_t)N("w", 0); m.height = (uint32_t)N("h", 1); m.point_step = (uint32_t)N("step", 0); m.row_step = (uint32_t)N("row", 0);
    m.fields = parseFields(G("fields"));
    m.ros_header.frame_id = "frame"; m.ros_header.stamp_sec = 7; m.is_dense = N("dense", 1);
    m.data = ConstBufferView(in.p, in.n);
    for (size_t k = 0; k < N("times", 1); k++) applyVizLossyPreprocessing(m);
    bool same = m.data.data() == in.p;
    bool inplace = m.data.size() == 0 || m.data.data() == m.owned_data.data();
    return "\"ok\":true,\"out\":\"" + hex(m.data.data(), m.data.size()) + "\",\"same\":" + (same ? "1" : "0") + ",\"own\":" + (inplace ? "1" : "0") + ",\"msg\":\"" + msgStr(m) + "\"";
  }
  if (op == "own") return runOwn(G("ops"));
  return runMore(op, a, known);
}
