// Controlled scheduler for PointcloudEncoder: the thread primitives the library uses are
// simulated here (one thread runs at a time, the next one is chosen at every primitive and
// around every compressor call), so that interleavings are enumerated, not hoped for.
// Compressor failures, allocation failures and thread creation failures are injected.
// Output: the distinct histories of externally visible events, for EncoderTrace.tla.
#include "tsanrt.hpp"
#include "cloudini_lib/cloudini.hpp"
#include "lz4.h"
#include "zstd.h"

using namespace Cloudini;

// ------------------------------------------------------------------ injected failures
static int compN = 0;
static std::set<int> compFail;
static bool learning = false;
static vector<uint64_t> learned;
static std::map<uint64_t, int> expectSrc;  // of the current call
static int active = 0;
static uint64_t fnv(const void* p, size_t n) {
  const uint8_t* b = (const uint8_t*)p; uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i < n; i += 8) { uint64_t w = 0; memcpy(&w, b + i, std::min<size_t>(8, n - i)); h = (h ^ w) * 1099511628211ull; h ^= h >> 29; }
  return h ^ n;
}
template <class F, class E> static auto compressCall(const void* src, size_t n, F real, E errv) -> decltype(real()) {
  if (learning) { learned.push_back(fnv(src, n)); return real(); }
  Hook hook;
  point();
  int k = __sync_add_and_fetch(&compN, 1);
  uint64_t h = fnv(src, n);
  int idx = expectSrc.count(h) ? expectSrc[h] : 0;
  evt("[\"b\"," + std::to_string(idx) + "]");
  __sync_add_and_fetch(&active, 1);
  if (g_free) usleep(rand() % 3000);
  point();
  bool fail = compFail.count(k);
  auto r = fail ? errv : real();
  point();
  bool same = fnv(src, n) == h;
  __sync_sub_and_fetch(&active, 1);
  evt("[\"e\"," + std::to_string(idx) + "," + (fail ? "0" : "1") + "," + (same ? "1" : "0") + "]");
  point();
  return r;
}
extern "C" {
size_t __real_ZSTD_compress(void*, size_t, const void*, size_t, int);
size_t __wrap_ZSTD_compress(void* d, size_t dn, const void* s, size_t n, int l) { return compressCall(s, n, [&] { return __real_ZSTD_compress(d, dn, s, n, l); }, (size_t)-70); }
size_t __real_ZSTD_compressCCtx(ZSTD_CCtx*, void*, size_t, const void*, size_t, int);
size_t __wrap_ZSTD_compressCCtx(ZSTD_CCtx* c, void* d, size_t dn, const void* s, size_t n, int l) { return compressCall(s, n, [&] { return __real_ZSTD_compressCCtx(c, d, dn, s, n, l); }, (size_t)-70); }
size_t __real_ZSTD_compress2(ZSTD_CCtx*, void*, size_t, const void*, size_t);
size_t __wrap_ZSTD_compress2(ZSTD_CCtx* c, void* d, size_t dn, const void* s, size_t n) { return compressCall(s, n, [&] { return __real_ZSTD_compress2(c, d, dn, s, n); }, (size_t)-70); }
int __real_LZ4_compress_default(const char*, char*, int, int);
int __wrap_LZ4_compress_default(const char* s, char* d, int n, int dn) { return compressCall(s, n, [&] { return __real_LZ4_compress_default(s, d, n, dn); }, 0); }
int __real_LZ4_compress_fast(const char*, char*, int, int, int);
int __wrap_LZ4_compress_fast(const char* s, char* d, int n, int dn, int a) { return compressCall(s, n, [&] { return __real_LZ4_compress_fast(s, d, n, dn, a); }, 0); }
}
static bool inCall = false;
static int allocN = 0, allocFail = 0;
void* operator new(size_t n) {
  if (inCall && !inHook && g_on && self && self->id == 0 && allocFail && ++allocN == allocFail) { Hook hook; evt("[\"fault\"]"); throw std::bad_alloc(); }
  return trackedNew(n);
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { trackedDelete(p); }
void operator delete[](void* p) noexcept { trackedDelete(p); }
void operator delete(void* p, size_t) noexcept { trackedDelete(p); }
void operator delete[](void* p, size_t) noexcept { trackedDelete(p); }
#define free(p) trackedDelete(p)
#include "opnew.hpp"
#undef free

// ------------------------------------------------------------------ scenarios
struct Call { int cloud; int kind; int alloc; };  // kind 0 vector, 1 buffer without header, 2 buffer with header
struct Scn { int layout, comp, ver, thr; vector<vector<Call>> life; bool quiesce; };
static EncodingInfo layoutInfo(const Scn& s) {
  EncodingInfo i;
  i.version = s.ver;
  i.compression_opt = (CompressionOption)s.comp;
  i.use_threads = s.thr;
  i.encoding_opt = EncodingOptions::LOSSY;
  auto add = [&](const char* n, FieldType t, uint32_t off, std::optional<float> r = {}) { PointField f; f.name = n; f.type = t; f.offset = off; f.resolution = r; i.fields.push_back(f); };
  if (s.layout == 0) { add("b", FieldType::UINT8, 0); i.point_step = 1; }
  if (s.layout == 1) { add("i", FieldType::INT16, 0); i.point_step = 2; }
  if (s.layout == 2) { add("x", FieldType::FLOAT32, 0, 0.01f); add("y", FieldType::FLOAT32, 4, 0.01f); add("z", FieldType::FLOAT32, 8, 0.01f); add("r", FieldType::UINT16, 12); i.point_step = 14; }
  return i;
}
static vector<uint8_t> cloudData(int layout, int cloud, size_t step) {
  static const int npts[] = {0, 1, 32768, 32769, 65536 + 5, 3 * 32768, 4 * 32768 + 1, 5 * 32768 + 77, 100};
  int n = npts[cloud % 9];
  vector<uint8_t> d(n * step);
  uint64_t s = 88172645463325252ull + 77 * cloud + layout;
  auto r = [&] { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; };
  for (int i = 0; i < n; i++) {
    uint64_t k = r();
    int chunk = i / 32768;
    uint8_t* p = &d[i * step];
    if (layout == 0) p[0] = (chunk * 16 + cloud + (k % 7 == 0)) & 0xff;
    if (layout == 1) { int16_t v = int16_t(chunk * 1000 + cloud * 10 + (k % 3)); memcpy(p, &v, 2); }
    if (layout == 2) { for (int j = 0; j < 3; j++) { float f = chunk * 10 + cloud + 0.01f * (k >> (8 * j) & 15); memcpy(p + 4 * j, &f, 4); } uint16_t v = k % 3 + chunk; memcpy(p + 12, &v, 2); }
  }
  return d;
}
struct Ref { vector<uint8_t> data, bytes; vector<uint64_t> src; size_t hdr; bool seen; };
static std::map<string, Ref> refs;
static Ref& ref(const Scn& s, int cloud) {
  string key = std::to_string(s.layout) + "/" + std::to_string(s.comp) + "/" + std::to_string(s.ver) + "/" + std::to_string(cloud);
  auto it = refs.find(key);
  if (it != refs.end()) return it->second;
  Ref r;
  Scn u = s;
  u.thr = 0;
  EncodingInfo i = layoutInfo(u);
  r.data = cloudData(s.layout, cloud, i.point_step);
  i.width = 1; i.height = 1;  // the header is the same for all clouds of a scenario
  bool on = g_on;
  SIM(false);
  learning = true;
  learned.clear();
  { PointcloudEncoder e(i); r.hdr = e.getHeader().size(); e.encode(ConstBufferView(r.data.data(), r.data.size()), r.bytes); }
  learning = false;
  SIM(on);
  r.src = learned;
  size_t n = (r.data.size() / i.point_step + 32767) / 32768;
  r.seen = learned.size() == n;
  return refs[key] = r;
}

static void runOnce(const Scn& s) {
  resetSched();
  resetMemory();
  compN = 0; active = 0;
  EncodingInfo info = layoutInfo(s);
  info.width = 1; info.height = 1;
  struct Held { vector<uint8_t> now, then; size_t idx; };
  vector<Held> held;
  size_t total = 0;
  for (auto& l : s.life) total += l.size();
  held.reserve(total);
  for (auto& l : s.life) for (auto& c : l) ref(s, c.cloud);
  vector<uint8_t> wsize;
  for (auto& life : s.life) {
    PointcloudEncoder* e = nullptr;
    SIM(true);
    evt("[\"new\"]");
    try { e = new PointcloudEncoder(info); evt("[\"new_ok\"]"); } catch (const std::exception&) { evt("[\"new_throw\"]"); }
    SIM(false);
    if (!e) continue;
    for (auto& c : life) {
      Ref& r = ref(s, c.cloud);
      expectSrc.clear();
      for (size_t i = 0; i < r.src.size(); i++) expectSrc[r.src[i]] = i + 1;
      size_t n = (r.data.size() / info.point_step + 32767) / 32768;
      held.emplace_back();
      Held& h = held.back();
      if (c.kind) { h.now.assign(MaxCompressedSize(info, r.data.size() / info.point_step, true) + 100, 0x5a); }
      // all distinct chunks? otherwise a chunk cannot be told from its content
      bool seen = r.seen && expectSrc.size() == n;
      evt("[\"call\"," + std::to_string(n) + "," + (seen ? "1" : "0") + "]");
      bool ok = false, right = false;
      size_t ret = 0;
      allocN = 0; allocFail = c.alloc; 
      ConstBufferView in(r.data.data(), r.data.size());
      BufferView ob(h.now.data(), h.now.size());
      SIM(true); inCall = true;
      try { ret = c.kind ? e->encode(in, ob, c.kind == 2) : e->encode(in, h.now); ok = true; } catch (const std::exception&) {} catch (...) { evt("[\"odd\"]"); }
      inCall = false;
      bool busy = active > 0;
      SIM(false);
      allocFail = 0;
      h.then = h.now;
      if (ok) {
        if (c.kind == 0) right = h.now == r.bytes && ret == h.now.size();
        else {
          size_t from = c.kind == 2 ? 0 : r.hdr;
          right = ret == r.bytes.size() - from && !memcmp(h.now.data(), r.bytes.data() + from, ret);
        }
      }

      evt(string(ok ? "[\"ret\"," : "[\"thr\",") + (right ? "1" : "0") + "," + (busy ? "1" : "0") + "]");
      SIM(true);
      if (g_free) { for (int k = 0; k < 40 && active; k++) usleep(1000); }
      else if (s.quiesce) { self->st = IDLE; cur = nullptr; Thr* t = pick(); switchTo(t); } else point();
      SIM(false);
      if (h.now != h.then) { evt("[\"late\"]"); h.then = h.now; }
    }
    expectSrc.clear();
    evt("[\"del\"]");
    SIM(true);
    delete e;
    SIM(false);
    evt("[\"deld\"]");
    // nothing of the encoder may be left running
    SIM(true);
    for (int k = 0; k < 50; k++) { bool left = false; for (auto* t : thr) if (t->id && t->st != DONE) left = true; if (!left) break; if (k == 49) hangReport("thread left behind"); self->st = IDLE; cur = nullptr; Thr* t = pick(); switchTo(t); }
    SIM(false);
    for (auto& h : held) if (h.now != h.then) { evt("[\"late\"]"); h.then = h.now; }
  }
  recordRun();
}

static void child(std::map<string, string>& a) {
  Scn s;
  auto p = split(a["cfg"], ',');
  s.layout = std::stoi(p[0]); s.comp = std::stoi(p[1]); s.ver = std::stoi(p[2]); s.thr = std::stoi(p[3]); s.quiesce = p.size() > 4 && p[4] == "1";
  for (auto& l : split(a["life"], '/')) {
    vector<Call> v;
    if (!l.empty()) for (auto& c : split(l, ';')) { auto q = split(c, ':'); v.push_back({std::stoi(q[0]), std::stoi(q[1]), q.size() > 2 ? std::stoi(q[2]) : 0}); }
    s.life.push_back(v);
  }
  auto ints = [&](const string& k) { std::set<int> r; if (!a[k].empty()) for (auto& x : split(a[k], ',')) r.insert(std::stoi(x)); return r; };
  compFail = ints("cf");
  createFail = ints("tf");
  explore(a, [&] { runOnce(s); });
}

int main() { mainLoop(child); }
