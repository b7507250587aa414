// Command driver with the C interface of the WebAssembly build added; every call is
// accompanied by the library calls it stands for.
#define HAVE_EXTRA
#include "cldrv.cpp"
#include <algorithm>
#include "cloudini_lib/wasm_functions.h"

using namespace cloudini_ros;
static uint64_t rawSize(uint64_t w, uint64_t h, uint64_t s) {
  unsigned __int128 x = (unsigned __int128)w * h * s;
  return x > 0xFFFFFFFFull ? UINT64_MAX : (uint64_t)x;
}
static std::string num(uint64_t x) { return x == UINT64_MAX ? "big" : std::to_string(x); }
struct Lib {  // outcome of the corresponding library calls
  bool ok = false;
  std::vector<uint8_t> out;
};
template <typename F> static Lib attempt(F f) {
  Lib l;
  try { f(l.out); l.ok = true; } catch (const std::exception&) { l.out.clear(); }
  return l;
}
std::string runExtra(const std::string& op, const Args& a, bool& known) {
  known = true;
  auto G = [&](const char* k) -> std::string { auto it = a.find(k); return it == a.end() ? "" : it->second; };
  if (op != "capi") { known = false; return ""; }
  std::string f = G("f");
  Exact in(unhex(G("d")));
  ConstBufferView view(in.p, in.n);
  auto ptr = [](const void* p) { return reinterpret_cast<uintptr_t>(p); };
  // what the bytes are
  bool msg_ok = false, hdr_ok = false;
  RosPointCloud2 m;
  EncodingInfo hi;
  std::string raw = "0", praw = "0", data = "0", step = "0";
  try { m = getDeserializedPointCloudMessage(view); msg_ok = true; raw = num(rawSize(m.width, m.height, m.point_step)); data = std::to_string(m.data.size()); step = std::to_string(m.point_step); } catch (const std::exception&) {}
  ConstBufferView payload = (f == "DecodeCompressedData" || f == "GetHeaderAsYAML") ? view : (msg_ok ? m.data : ConstBufferView());
  ConstBufferView after = payload;
  if (payload.size() || f == "DecodeCompressedData" || f == "GetHeaderAsYAML") {
    try { hi = DecodeHeader(after); hdr_ok = true; praw = num(rawSize(hi.width, hi.height, hi.point_step)); } catch (const std::exception&) {}
  }
  float res; { uint32_t b = G("res").empty() ? 0x3a83126f : (uint32_t)std::stoul(G("res"), nullptr, 16); memcpy(&res, &b, 4); }
  auto withRes = [&](EncodingInfo i) { for (auto& x : i.fields) if (x.type == FieldType::FLOAT32) x.resolution = res; return i; };
  Lib lib;
  size_t cap = 0;
  std::string yaml = strOf(G("yaml"));
  size_t limit = size_t(1) << 26;
  bool huge = false;
  auto asCap = [&](const std::string& s) -> size_t { if (s == "big") return 0; size_t n = std::stoull(s); if (n > limit) { huge = true; return 0; } return n; };
  if (f == "GetHeaderAsYAML" || f == "GetHeaderAsYAMLFromDDS") {
    lib = attempt([&](std::vector<uint8_t>& o) { if (!hdr_ok) throw std::runtime_error(""); auto s = EncodingInfoToYAML(hi); o.assign(s.begin(), s.end()); });
    cap = lib.ok ? lib.out.size() : 0;
  } else if (f == "ComputeCompressedSize" || f == "EncodePointcloudMessage") {
    lib = attempt([&](std::vector<uint8_t>& o) { if (!msg_ok) throw std::runtime_error(""); if (std::to_string(m.data.size()) != raw) throw std::runtime_error(""); PointcloudEncoder e(withRes(toEncodingInfo(m))); e.encode(m.data, o); });
    cap = f[0] == 'E' ? in.n : 0;
  } else if (f == "GetDecompressedSize") {
    lib.ok = msg_ok && raw != "big";
  } else if (f == "ConvertCompressedMsgToPointCloud2Msg") {
    lib = attempt([&](std::vector<uint8_t>& o) { if (!msg_ok) throw std::runtime_error(""); convertCompressedCloudToPointCloud2(m, o); });
    cap = lib.out.size();
  } else if (f == "DecodeCompressedData" || f == "DecodeCompressedMessage") {
    lib = attempt([&](std::vector<uint8_t>& o) {
      if (!hdr_ok || asCap(praw) == 0) { if (!hdr_ok || praw != "0") throw std::runtime_error(""); }
      o.assign(asCap(praw), 0x5A);
      PointcloudDecoder d;
      d.decode(hi, after, BufferView(o.data(), o.size()));
    });
    huge = false;
    cap = asCap(f == "DecodeCompressedData" ? praw : raw);
  } else if (f == "EncodePointcloudData") {
    lib = attempt([&](std::vector<uint8_t>& o) {
      auto i = EncodingInfoFromYAML(yaml);
      raw = num(rawSize(i.width, i.height, i.point_step));
      if (std::to_string(in.n) != raw) throw std::runtime_error("");
      PointcloudEncoder e(i); e.encode(view, o);
    });
    cap = in.n;
  }
  if (huge) return "\"ok\":true,\"huge\":1";
  Exact out(cap, 0x5A);
  uint32_t r = 0;
  bool thrown = false;
  try {
    if (f == "GetHeaderAsYAML") r = cldn_GetHeaderAsYAML(ptr(in.p), in.n, ptr(out.p));
    else if (f == "GetHeaderAsYAMLFromDDS") r = cldn_GetHeaderAsYAMLFromDDS(ptr(in.p), in.n, ptr(out.p));
    else if (f == "ComputeCompressedSize") r = cldn_ComputeCompressedSize(ptr(in.p), in.n, res);
    else if (f == "GetDecompressedSize") r = cldn_GetDecompressedSize(ptr(in.p), in.n);
    else if (f == "ConvertCompressedMsgToPointCloud2Msg") r = cldn_ConvertCompressedMsgToPointCloud2Msg(ptr(in.p), in.n, ptr(out.p));
    else if (f == "DecodeCompressedData") r = cldn_DecodeCompressedData(ptr(in.p), in.n, ptr(out.p));
    else if (f == "DecodeCompressedMessage") r = cldn_DecodeCompressedMessage(ptr(in.p), in.n, ptr(out.p));
    else if (f == "EncodePointcloudMessage") r = cldn_EncodePointcloudMessage(ptr(in.p), in.n, res, ptr(out.p));
    else if (f == "EncodePointcloudData") { Exact y(std::vector<uint8_t>(yaml.c_str(), yaml.c_str() + yaml.size() + 1)); r = cldn_EncodePointcloudData((const char*)y.p, ptr(in.p), in.n, ptr(out.p)); }
    else { fprintf(stderr, "unknown function %s\n", f.c_str()); exit(97); }
  } catch (...) { thrown = true; }
  bool same = lib.ok && r == lib.out.size() && r <= cap && (r == 0 || memcmp(out.p, lib.out.data(), r) == 0);
  return std::string("\"ok\":true,\"huge\":0,\"ret\":\"") + std::to_string(r) + "\",\"thrown\":" + (thrown ? "1" : "0") + ",\"msg\":" + (msg_ok ? "1" : "0") + ",\"hdr\":" + (hdr_ok ? "1" : "0") + ",\"raw\":\"" + raw + "\",\"praw\":\"" + praw +
         "\",\"data\":\"" + data + "\",\"step\":\"" + step + "\",\"lib\":" + (lib.ok ? "1" : "0") + ",\"libn\":" + std::to_string(lib.out.size()) + ",\"same\":" + (same ? "1" : "0") + ",\"cap\":" + std::to_string(cap) + ",\"yamlok\":" + (yaml.size() ? "1" : "0");
}
