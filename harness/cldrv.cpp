// Command driver: executes the library's public API on cases read from stdin (one per
// line, "<id> <op> key=value ...") and prints one JSON line per case. Every buffer handed
// to the library is an exact-size heap block, so AddressSanitizer sees any overrun.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <malloc.h>
#include <sys/mman.h>
#include <new>
#include <sstream>
#include <string>
#include <vector>
#include "cloudini_lib/cloudini.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"
#include "lz4.h"
#include "lz4hc.h"
#include "zstd.h"

size_t g_alloc_limit = size_t(1) << 28;  // constant: libraries allocate before this file is initialized
static const bool g_roomy = [] { if (getenv("CLDRV_ROOMY")) g_alloc_limit = size_t(1) << 34; return true; }();
static size_t g_blocks = 0, g_bytes = 0;  // allocated and not released
static void* counting(void* p) { if (p) { __atomic_add_fetch(&g_blocks, 1, __ATOMIC_RELAXED); __atomic_add_fetch(&g_bytes, malloc_usable_size(p), __ATOMIC_RELAXED); } return p; }
static void counted(void* p) noexcept { if (p) { __atomic_sub_fetch(&g_blocks, 1, __ATOMIC_RELAXED); __atomic_sub_fetch(&g_bytes, malloc_usable_size(p), __ATOMIC_RELAXED); free(p); } }
void* operator new(size_t n) {
  if (n > g_alloc_limit) throw std::bad_alloc();
  void* p = counting(malloc(n ? n : 1));
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { counted(p); }
void operator delete[](void* p) noexcept { counted(p); }
void operator delete(void* p, size_t) noexcept { counted(p); }
void operator delete[](void* p, size_t) noexcept { counted(p); }
static void* countedAligned(size_t a, size_t n) { return counting(aligned_alloc(a, n)); }
#define free(p) counted(p)
#define aligned_alloc(a, n) countedAligned(a, n)
#include "opnew.hpp"
#undef free
#undef aligned_alloc

using namespace Cloudini;
using Args = std::map<std::string, std::string>;

struct Exact {  // exact-size heap block
  uint8_t* p; size_t n;
  explicit Exact(size_t n_, uint8_t fill = 0) : p((uint8_t*)malloc(n_ ? n_ : 1)), n(n_) { memset(p, fill, n_); if (!n_) { free(p); p = (uint8_t*)malloc(1); } }
  Exact(const std::vector<uint8_t>& v) : Exact(v.size()) { if (n) memcpy(p, v.data(), n); }
  Exact(const Exact&) = delete;
  ~Exact() { free(p); }
};

static int hv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static std::vector<uint8_t> unhex(const std::string& s) {
  std::vector<uint8_t> r(s.size() / 2);
  for (size_t i = 0; i < r.size(); i++) r[i] = hv(s[2 * i]) * 16 + hv(s[2 * i + 1]);
  return r;
}
static std::string hex(const uint8_t* p, size_t n) {
  static const char* d = "0123456789abcdef";
  std::string s(2 * n, 0);
  for (size_t i = 0; i < n; i++) { s[2 * i] = d[p[i] >> 4]; s[2 * i + 1] = d[p[i] & 15]; }
  return s;
}
static std::string strOf(const std::string& h) { auto v = unhex(h); return std::string(v.begin(), v.end()); }
static std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> r; std::string cur; 
  for (char x : s) { if (x == c) { r.push_back(cur); cur.clear(); } else cur += x; }
  r.push_back(cur);
  return r;
}

static std::vector<PointField> parseFields(const std::string& s) {
  std::vector<PointField> out;
  if (s.empty()) return out;
  for (auto& f : split(s, ';')) {
    auto p = split(f, ':');
    PointField pf;
    pf.name = strOf(p[0]);
    pf.offset = (uint32_t)std::stoull(p[1]);
    pf.type = (FieldType)std::stoi(p[2]);
    if (p[3] != "-") { uint32_t b = (uint32_t)std::stoul(p[3], nullptr, 16); float r; memcpy(&r, &b, 4); pf.resolution = r; }
    out.push_back(pf);
  }
  return out;
}
// v,w,h,step,enc,comp,thr,cfghex|fields
static EncodingInfo parseInfo(const std::string& s) {
  auto bar = s.find('|');
  auto a = split(s.substr(0, bar), ',');
  EncodingInfo i;
  i.version = (uint8_t)std::stoi(a[0]);
  i.width = (uint32_t)std::stoull(a[1]); i.height = (uint32_t)std::stoull(a[2]); i.point_step = (uint32_t)std::stoull(a[3]);
  i.encoding_opt = (EncodingOptions)std::stoi(a[4]); i.compression_opt = (CompressionOption)std::stoi(a[5]);
  i.use_threads = a[6] == "1";
  i.encoding_config = strOf(a[7]);
  i.fields = parseFields(s.substr(bar + 1));
  return i;
}
static std::string fieldsStr(const std::vector<PointField>& fs) {
  std::ostringstream o;
  for (size_t k = 0; k < fs.size(); k++) {
    auto& f = fs[k];
    if (k) o << ';';
    o << hex((const uint8_t*)f.name.data(), f.name.size()) << ':' << f.offset << ':' << (int)f.type << ':';
    if (f.resolution) { uint32_t b; float r = *f.resolution; memcpy(&b, &r, 4); char t[16]; snprintf(t, 16, "%08x", b); o << t; } else o << '-';
  }
  return o.str();
}
static std::string infoStr(const EncodingInfo& i) {
  std::ostringstream o;
  o << (int)i.version << ',' << i.width << ',' << i.height << ',' << i.point_step << ',' << (int)i.encoding_opt << ',' << (int)i.compression_opt << ',' << (i.use_threads ? 1 : 0) << ','
    << hex((const uint8_t*)i.encoding_config.data(), i.encoding_config.size()) << '|' << fieldsStr(i.fields);
  return o.str();
}
static std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char t[8]; snprintf(t, 8, "\\u%04x", c); r += t; } else r += c; }
  return r + "\"";
}

std::map<std::string, std::unique_ptr<PointcloudEncoder>> encs;
std::map<std::string, std::unique_ptr<PointcloudDecoder>> decs;
std::map<std::string, std::vector<uint8_t>> vecs;  // named, persistent vectors

extern std::string runExtra(const std::string& op, const Args& a, bool& known);

static std::string run(const std::string& op, const Args& a) {
  auto G = [&](const char* k) -> std::string { auto it = a.find(k); return it == a.end() ? "" : it->second; };
  auto N = [&](const char* k, size_t d) -> size_t { auto it = a.find(k); return it == a.end() ? d : std::stoull(it->second); };
  if (op == "newenc") { encs[G("o")] = std::make_unique<PointcloudEncoder>(parseInfo(G("info"))); return "\"ok\":true"; }
  if (op == "delenc") { encs.erase(G("o")); return "\"ok\":true"; }
  if (op == "newdec") { decs[G("o")] = std::make_unique<PointcloudDecoder>(); return "\"ok\":true"; }
  if (op == "deldec") { decs.erase(G("o")); return "\"ok\":true"; }
  if (op == "setvec") { vecs[G("v")] = unhex(G("d")); return "\"ok\":true"; }
  if (op == "encv") {  // vector overload; v= names a persistent output vector
    Exact in(unhex(G("d")));
    std::vector<uint8_t> local;
    std::vector<uint8_t>& out = G("v").empty() ? local : vecs[G("v")];
    if (a.count("pre")) out.assign(N("pre", 0), 0xA5);
    auto& e = *encs.at(G("o"));
    size_t n = e.encode(ConstBufferView(in.p, in.n), out);
    return "\"ok\":true,\"n\":" + std::to_string(n) + ",\"size\":" + std::to_string(out.size()) + ",\"out\":\"" + hex(out.data(), out.size()) + "\"";
  }
  if (op == "encb") {  // buffer overload with exact capacity
    Exact in(unhex(G("d")));
    uint8_t fill = (uint8_t)N("fill", 0x5A);
    Exact out(N("cap", 0), fill);
    BufferView view(out.p, out.n);
    auto& e = *encs.at(G("o"));
    size_t n = e.encode(ConstBufferView(in.p, in.n), view, N("hdr", 0) != 0);
    bool clean = true;
    // bytes beyond the result that still hold the fill pattern
    size_t keep = 0;
    for (size_t i = n; i < out.n; i++) if (out.p[i] == fill) keep++; else clean = false;
    size_t shown = std::min(n, out.n);
    return "\"ok\":true,\"n\":" + std::to_string(n) + ",\"cap\":" + std::to_string(out.n) + ",\"tail\":" + (clean ? "true" : "false") + ",\"out\":\"" + hex(out.p, shown) + "\"";
  }
  if (op == "once") {  // fresh encoder, vector overload
    Exact in(unhex(G("d")));
    std::vector<uint8_t> out;
    PointcloudEncoder e(parseInfo(G("info")));
    size_t n = e.encode(ConstBufferView(in.p, in.n), out);
    return "\"ok\":true,\"n\":" + std::to_string(n) + ",\"size\":" + std::to_string(out.size()) + ",\"out\":\"" + hex(out.data(), out.size()) + "\"";
  }
  if (op == "wide") {
    struct Roomy { size_t was = g_alloc_limit; Roomy() { g_alloc_limit = size_t(1) << 34; } ~Roomy() { g_alloc_limit = was; } } roomy;
  // points spread out over a huge, mostly untouched address range: d holds n records of k bytes, each at `at` in its point
    EncodingInfo info = parseInfo(G("info"));
    const size_t n = size_t(info.width) * info.height, step = info.point_step, k = N("k", 0), at = N("at", 0);
    auto rec = unhex(G("d"));
    struct Map { uint8_t* p; size_t n; explicit Map(size_t n_) : n(n_) { void* q = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (q == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); exit(96); } p = (uint8_t*)q; } ~Map() { munmap(p, n); } };
    std::vector<uint8_t> got(n * k);
    std::vector<uint8_t> out;
    {
      Map in(n * step);
      for (size_t i = 0; i < n; i++) memcpy(in.p + i * step + at, &rec[i * k], k);
      PointcloudEncoder e(info);
      if (N("buf", 0)) {
        out.resize(MaxCompressedSize(info, n, true));
        BufferView v(out.data(), out.size());
        out.resize(e.encode(ConstBufferView(in.p, in.n), v, true));
      } else e.encode(ConstBufferView(in.p, in.n), out);
    }
    ConstBufferView v(out.data(), out.size());
    EncodingInfo back = DecodeHeader(v);
    Map res(n * step);
    PointcloudDecoder().decode(back, v, BufferView(res.p, res.n));
    for (size_t i = 0; i < n; i++) memcpy(&got[i * k], res.p + i * step + at, k);
    return "\"ok\":true,\"info\":\"" + infoStr(back) + "\",\"out\":\"" + hex(got.data(), got.size()) + "\"";
  }
  if (op == "maxsize") {
    size_t n = MaxCompressedSize(parseInfo(G("info")), N("n", 0), N("hdr", 0) != 0);
    return "\"ok\":true,\"n\":" + std::to_string(n);
  }
  if (op == "dec") {  // payload only, description given
    Exact in(unhex(G("d")));
    Exact out(N("osz", 0), (uint8_t)N("fill", 0));
    EncodingInfo info = parseInfo(G("info"));
    std::unique_ptr<PointcloudDecoder> tmp;
    PointcloudDecoder* d;
    if (G("o").empty()) { tmp = std::make_unique<PointcloudDecoder>(); d = tmp.get(); } else d = decs.at(G("o")).get();
    std::string res;
    try {
      d->decode(info, ConstBufferView(in.p, in.n), BufferView(out.p, out.n));
      res = "\"ok\":true";
    } catch (const std::exception& e) { res = "\"ok\":false,\"ex\":\"std\",\"what\":" + jstr(e.what()); }
    return res + ",\"out\":\"" + hex(out.p, out.n) + "\"";
  }
  if (op == "decv") {  // vector overload (library sizes the output)
    Exact in(unhex(G("d")));
    EncodingInfo info = parseInfo(G("info"));
    std::vector<uint8_t> local;
    std::vector<uint8_t>& out = G("v").empty() ? local : vecs[G("v")];
    if (a.count("pre")) out.assign(N("pre", 0), 0xA5);
    std::unique_ptr<PointcloudDecoder> tmp;
    PointcloudDecoder* d;
    if (G("o").empty()) { tmp = std::make_unique<PointcloudDecoder>(); d = tmp.get(); } else d = decs.at(G("o")).get();
    out.resize(N("osz", 0));
    d->decode(info, ConstBufferView(in.p, in.n), BufferView(out.data(), out.size()));
    return "\"ok\":true,\"out\":\"" + hex(out.data(), out.size()) + "\"";
  }
  if (op == "full") {  // header + payload in one buffer, as a reader would do it
    Exact in(unhex(G("d")));
    ConstBufferView v(in.p, in.n);
    EncodingInfo info = DecodeHeader(v);
    if (v.data() < in.p || v.data() + v.size() != in.p + in.n) return "\"ok\":true,\"badview\":true";
    size_t need = size_t(info.width) * info.height * info.point_step;
    size_t osz = a.count("osz") ? N("osz", 0) : need;
    if (osz > (size_t(64) << 20)) return "\"ok\":true,\"huge\":true,\"info\":\"" + infoStr(info) + "\"";
    Exact out(osz, (uint8_t)N("fill", 0));
    std::string hd = ",\"info\":\"" + infoStr(info) + "\",\"hdrlen\":" + std::to_string(in.n - v.size());
    std::string res;
    try {
      PointcloudDecoder d;
      d.decode(info, v, BufferView(out.p, out.n));
      res = "\"ok\":true";
    } catch (const std::exception& e) { res = "\"ok\":false,\"ex\":\"std\",\"what\":" + jstr(e.what()); }
    return res + hd + ",\"out\":\"" + hex(out.p, out.n) + "\"";
  }
  if (op == "enchdr") {
    std::vector<uint8_t> out(N("pre", 0), 0xA5);
    EncodeHeader(parseInfo(G("info")), out, N("yaml", 1) ? HeaderEncoding::YAML : HeaderEncoding::BINARY);
    return "\"ok\":true,\"out\":\"" + hex(out.data(), out.size()) + "\"";
  }
  if (op == "dechdr") {
    Exact in(unhex(G("d")));
    ConstBufferView v(in.p, in.n);
    EncodingInfo info = DecodeHeader(v);
    return "\"ok\":true,\"info\":\"" + infoStr(info) + "\",\"left\":" + std::to_string(v.size()) + ",\"at\":" + std::to_string(v.size() ? (long)(v.data() - in.p) : (long)in.n);
  }
  if (op == "toyaml") { auto s = EncodingInfoToYAML(parseInfo(G("info"))); return "\"ok\":true,\"out\":\"" + hex((const uint8_t*)s.data(), s.size()) + "\""; }
  if (op == "fromyaml") { auto s = strOf(G("d")); auto i = EncodingInfoFromYAML(s); return "\"ok\":true,\"info\":\"" + infoStr(i) + "\""; }
  if (op == "inflate") {  // what the stage-2 decompressor alone makes of a chunk (comp: 1 LZ4, 2 ZSTD)
    auto in = unhex(G("d"));
    size_t cap = N("cap", 0);
    std::vector<uint8_t> out(cap ? cap : 1);
    if (N("comp", 0) == 1) {
      int r = LZ4_decompress_safe((const char*)in.data(), (char*)out.data(), (int)in.size(), (int)cap);
      if (r < 0) return "\"ok\":false,\"ex\":\"lz4\"";
      return "\"ok\":true,\"out\":\"" + hex(out.data(), r) + "\"";
    }
    size_t r = ZSTD_decompress(out.data(), cap, in.data(), in.size());
    if (ZSTD_isError(r)) return "\"ok\":false,\"ex\":\"zstd\"";
    return "\"ok\":true,\"out\":\"" + hex(out.data(), r) + "\"";
  }
  if (op == "deflate") {
    auto in = unhex(G("d"));
    std::vector<uint8_t> out(ZSTD_compressBound(in.size()) + LZ4_compressBound((int)in.size()) + 64);
    size_t r;
    const size_t form = N("form", 0);  // which of the many legal compressed forms of the same bytes
    if (N("comp", 0) == 1) {
      if (form == 0) r = LZ4_compress_default((const char*)in.data(), (char*)out.data(), (int)in.size(), (int)out.size());
      else if (form % 4 == 1) {  // one run of literals, nothing matched
        out.clear();
        size_t k = in.size();
        out.push_back((uint8_t)((k < 15 ? k : 15) << 4));
        if (k >= 15) { for (k -= 15; k >= 255; k -= 255) out.push_back(255); out.push_back((uint8_t)k); }
        out.insert(out.end(), in.begin(), in.end());
        r = out.size();
      }
      else if (form % 4 == 2) r = LZ4_compress_HC((const char*)in.data(), (char*)out.data(), (int)in.size(), (int)out.size(), 9);
      else r = LZ4_compress_fast((const char*)in.data(), (char*)out.data(), (int)in.size(), (int)out.size(), 40);
    } else if (form == 0) r = ZSTD_compress(out.data(), out.size(), in.data(), in.size(), 1);
    else {
      ZSTD_CCtx* c = ZSTD_createCCtx();
      static const int levels[] = {1, -5, 3, 19};
      ZSTD_CCtx_setParameter(c, ZSTD_c_compressionLevel, levels[form / 8 % 4]);
      ZSTD_CCtx_setParameter(c, ZSTD_c_contentSizeFlag, form & 1 ? 0 : 1);
      ZSTD_CCtx_setParameter(c, ZSTD_c_checksumFlag, form & 2 ? 1 : 0);
      if (form & 4) {  // written piece by piece: several blocks, length not known in front
        ZSTD_outBuffer o{out.data(), out.size(), 0};
        out.resize(out.size() + 65536); o = {out.data(), out.size(), 0};
        size_t step = in.size() / 3 + 1;
        for (size_t at = 0; at < in.size(); at += step) {
          ZSTD_inBuffer ib{in.data() + at, std::min(step, in.size() - at), 0};
          while (ib.pos < ib.size) ZSTD_compressStream2(c, &o, &ib, ZSTD_e_flush);
        }
        ZSTD_inBuffer ib{nullptr, 0, 0};
        while (ZSTD_compressStream2(c, &o, &ib, ZSTD_e_end) != 0) {}
        r = o.pos;
      } else r = ZSTD_compress2(c, out.data(), out.size(), in.data(), in.size());
      ZSTD_freeCCtx(c);
    }
    return "\"ok\":true,\"out\":\"" + hex(out.data(), r) + "\"";
  }
  bool known = false;
  std::string r = runExtra(op, a, known);
  if (!known) { fprintf(stderr, "unknown op %s\n", op.c_str()); exit(97); }
  return r;
}

#ifndef HAVE_EXTRA
std::string runExtra(const std::string&, const Args&, bool& known) { known = false; return ""; }
#endif

int main() {
  std::ios::sync_with_stdio(false);
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    size_t p1 = line.find(' ');
    std::string id = line.substr(0, p1);
    size_t p2 = line.find(' ', p1 + 1);
    std::string op = line.substr(p1 + 1, p2 == std::string::npos ? std::string::npos : p2 - p1 - 1);
    Args a;
    while (p2 != std::string::npos) {
      size_t q = line.find(' ', p2 + 1);
      std::string kv = line.substr(p2 + 1, q == std::string::npos ? std::string::npos : q - p2 - 1);
      size_t e = kv.find('=');
      if (e != std::string::npos) a[kv.substr(0, e)] = kv.substr(e + 1);
      p2 = q;
    }
    std::string r;
    try { r = run(op, a); }
    catch (const std::exception& e) { r = "\"ok\":false,\"ex\":\"std\",\"what\":" + jstr(e.what()); }
    catch (...) { r = "\"ok\":false,\"ex\":\"other\""; }
    printf("{\"id\":\"%s\",%s}\n", id.c_str(), r.c_str());
    fflush(stdout);
  }
  return 0;
}
