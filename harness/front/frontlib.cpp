// The C interface as a shared object: what the WebAssembly module does when one of its functions is
// called. The functions run on copies; the caller is told what they read and how much they write.
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "cloudini_lib/cloudini.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"
#include "cloudini_lib/wasm_functions.h"

namespace {
constexpr uint64_t LIMIT = uint64_t(1) << 29;
uint64_t points(uint64_t w, uint64_t h, uint64_t s) {
  unsigned __int128 x = (unsigned __int128)w * h * s;
  return x > 0xFFFFFFFFull ? 0 : (uint64_t)x;
}
uint64_t needed(const std::string& f, const uint8_t* in, uint32_t n) {
  using namespace Cloudini;
  ConstBufferView view(in, n);
  try {
    if (f == "cldn_DecodeCompressedData") { auto i = DecodeHeader(view); return points(i.width, i.height, i.point_step); }
    if (f == "cldn_GetHeaderAsYAML") return EncodingInfoToYAML(DecodeHeader(view)).size();
    if (f == "cldn_EncodePointcloudMessage") return n;
    auto m = cloudini_ros::getDeserializedPointCloudMessage(view);
    ConstBufferView p = m.data;
    if (f == "cldn_GetHeaderAsYAMLFromDDS") return EncodingInfoToYAML(DecodeHeader(p)).size();
    if (f == "cldn_DecodeCompressedMessage") {
      auto i = DecodeHeader(p);
      uint64_t a = points(m.width, m.height, m.point_step);
      return a == points(i.width, i.height, i.point_step) ? a : 0;
    }
    if (f == "cldn_ConvertCompressedMsgToPointCloud2Msg") { std::vector<uint8_t> o; cloudini_ros::convertCompressedCloudToPointCloud2(m, o); return o.size(); }
  } catch (const std::exception&) {}
  return 0;
}
}  // namespace

extern "C" {
// 0: called; 1: unknown function; 2: too large for this machine; 3: an exception came out
int front_call(const char* fn, const uint8_t* data, uint32_t n, float res, uint32_t* ret, uint64_t* need, uint8_t** out) {
  std::string f = fn;
  std::vector<uint8_t> in(data, data + n);
  in.reserve(n + 1);
  *need = needed(f, in.data(), n);
  *ret = 0;
  *out = nullptr;
  if (*need > LIMIT) return 2;
  uint8_t* o = (uint8_t*)calloc(*need + 1, 1);
  auto ip = reinterpret_cast<uintptr_t>(in.data());
  auto op = reinterpret_cast<uintptr_t>(o);
  int rc = 0;
  try {
    if (f == "cldn_GetHeaderAsYAML") *ret = cldn_GetHeaderAsYAML(ip, n, op);
    else if (f == "cldn_GetHeaderAsYAMLFromDDS") *ret = cldn_GetHeaderAsYAMLFromDDS(ip, n, op);
    else if (f == "cldn_ComputeCompressedSize") *ret = cldn_ComputeCompressedSize(ip, n, res);
    else if (f == "cldn_GetDecompressedSize") *ret = cldn_GetDecompressedSize(ip, n);
    else if (f == "cldn_ConvertCompressedMsgToPointCloud2Msg") *ret = cldn_ConvertCompressedMsgToPointCloud2Msg(ip, n, op);
    else if (f == "cldn_DecodeCompressedData") *ret = cldn_DecodeCompressedData(ip, n, op);
    else if (f == "cldn_DecodeCompressedMessage") *ret = cldn_DecodeCompressedMessage(ip, n, op);
    else if (f == "cldn_EncodePointcloudMessage") *ret = cldn_EncodePointcloudMessage(ip, n, res, op);
    else rc = 1;
  } catch (...) { rc = 3; }
  *out = o;
  return rc;
}
void front_free(uint8_t* p) { free(p); }
}
