// Command driver with the PCL conversions added.
#define HAVE_EXTRA
#include "cldrv.cpp"
#include <algorithm>
#include <fstream>
#include <pcl/point_types.h>
#include "cloudini_lib/pcl_conversion.hpp"

// point types beyond the two supported out of the box, added the way the header tells users to
namespace Cloudini {
template <> EncodingInfo ConvertToEncodingInfo<pcl::PointXYZL>(const pcl::PointCloud<pcl::PointXYZL>& c, double r) {
  EncodingInfo i; i.width = c.width; i.height = c.height; i.point_step = sizeof(pcl::PointXYZL);
  i.fields = {{"x", 0, FieldType::FLOAT32, (float)r}, {"y", 4, FieldType::FLOAT32, (float)r}, {"z", 8, FieldType::FLOAT32, (float)r}, {"label", offsetof(pcl::PointXYZL, label), FieldType::UINT32, std::nullopt}};
  return i;
}
template <> EncodingInfo ConvertToEncodingInfo<pcl::PointXY>(const pcl::PointCloud<pcl::PointXY>& c, double r) {
  EncodingInfo i; i.width = c.width; i.height = c.height; i.point_step = sizeof(pcl::PointXY);
  i.fields = {{"y", 4, FieldType::FLOAT32, (float)r}, {"x", 0, FieldType::FLOAT32, (float)r}};
  return i;
}
}
static std::string sh(const std::string& s) { return hex((const uint8_t*)s.data(), s.size()); }

// name:offset:datatype:count
static std::string pclFields(const std::vector<pcl::PCLPointField>& fs) {
  std::string o;
  for (auto& f : fs) o += (o.empty() ? "" : ";") + sh(f.name) + ":" + std::to_string(f.offset) + ":" + std::to_string((int)f.datatype) + ":" + std::to_string(f.count);
  return o;
}
static std::string pclStr(const pcl::PCLPointCloud2& c) {
  return std::to_string(c.width) + "," + std::to_string(c.height) + "," + std::to_string(c.point_step) + "," + std::to_string(c.row_step) + "," + std::to_string((int)c.is_bigendian) + "," + std::to_string(c.data.size()) + "|" + pclFields(c.fields);
}
static pcl::PCLPointCloud2 dirtyCloud(size_t k) {
  pcl::PCLPointCloud2 c;
  if (k) {
    c.width = 3; c.height = 9; c.point_step = 5; c.row_step = 1; c.is_bigendian = true; c.data.assign(k, 0xA5);
    pcl::PCLPointField f; f.name = "old"; f.offset = 1; f.datatype = 2; f.count = 7; c.fields = {f, f};
  }
  return c;
}
static std::string encoded(const std::vector<uint8_t>& out, size_t n) {
  ConstBufferView v(out.data(), out.size());
  auto info = DecodeHeader(v);
  return "\"n\":" + std::to_string(n) + ",\"size\":" + std::to_string(out.size()) + ",\"out\":\"" + hex(out.data(), out.size()) + "\",\"info\":\"" + infoStr(info) + "\"";
}
template <typename P> static std::string typedEnc(const std::vector<uint8_t>& pts, uint32_t w, uint32_t h, double res, size_t pre) {
  pcl::PointCloud<P> c;
  c.points.resize(pts.size() / sizeof(P));
  if (pts.size()) memcpy((void*)c.points.data(), pts.data(), pts.size());
  c.width = w; c.height = h;
  std::vector<uint8_t> out(pre, 0xA5);
  size_t n = PointcloudEncode(c, out, res);
  return "\"ok\":true," + encoded(out, n);
}
template <typename P> static std::string typedDec(const std::vector<uint8_t>& ser, const std::vector<uint8_t>& before) {
  Exact in(ser);
  pcl::PointCloud<P> c;
  c.points.resize(before.size() / sizeof(P));
  if (before.size()) memcpy((void*)c.points.data(), before.data(), c.points.size() * sizeof(P));
  c.width = (uint32_t)c.points.size(); c.height = 1;
  pcl::PointCloud<P> b = c;
  std::string res;
  try { PointcloudDecode(ConstBufferView(in.p, in.n), c); res = "\"ok\":true"; }
  catch (const std::exception& e) { res = "\"ok\":false,\"ex\":\"std\",\"what\":" + jstr(e.what()); }
  b.points.resize(c.points.size());
  return res + ",\"w\":" + std::to_string(c.width) + ",\"h\":" + std::to_string(c.height) + ",\"sz\":" + std::to_string(sizeof(P)) + ",\"before\":\"" + hex((const uint8_t*)b.points.data(), b.points.size() * sizeof(P)) + "\",\"after\":\"" +
         hex((const uint8_t*)c.points.data(), c.points.size() * sizeof(P)) + "\"";
}

std::string runExtra(const std::string& op, const Args& a, bool& known) {
  known = true;
  auto G = [&](const char* k) -> std::string { auto it = a.find(k); return it == a.end() ? "" : it->second; };
  auto N = [&](const char* k, size_t d) -> size_t { auto it = a.find(k); return it == a.end() ? d : std::stoull(it->second); };
  if (op == "pclenc") {
    pcl::PCLPointCloud2 c;
    c.width = (uint32_t)N("w", 0); c.height = (uint32_t)N("h", 1); c.point_step = (uint32_t)N("step", 0); c.row_step = c.width * c.point_step;
    auto d = unhex(G("d"));
    c.data.assign(d.begin(), d.end());
    c.data.shrink_to_fit();
    if (!G("fields").empty())
      for (auto& s : split(G("fields"), ';')) {
        auto t = split(s, ':');
        pcl::PCLPointField f; f.name = strOf(t[0]); f.offset = (uint32_t)std::stoul(t[1]); f.datatype = (uint8_t)std::stoi(t[2]); f.count = (uint32_t)std::stoul(t[3]);
        c.fields.push_back(f);
      }
    std::vector<uint8_t> out(N("pre", 0), 0xA5);
    size_t n = PCLPointCloudEncode(c, out, std::stod(G("res")));
    return "\"ok\":true," + encoded(out, n);
  }
  if (op == "pcldec") {
    Exact in(unhex(G("d")));
    auto c = dirtyCloud(N("dirty", 0));
    PCLPointCloudDecode(ConstBufferView(in.p, in.n), c);
    return "\"ok\":true,\"cloud\":\"" + pclStr(c) + "\",\"data\":\"" + hex(c.data.data(), c.data.size()) + "\"";
  }
  if (op == "typenc") {
    auto p = unhex(G("d")); double r = std::stod(G("res")); uint32_t w = (uint32_t)N("w", 0), h = (uint32_t)N("h", 1);
    if (G("t") == "xyz") return typedEnc<pcl::PointXYZ>(p, w, h, r, N("pre", 0));
    if (G("t") == "xyzi") return typedEnc<pcl::PointXYZI>(p, w, h, r, N("pre", 0));
    if (G("t") == "xyzl") return typedEnc<pcl::PointXYZL>(p, w, h, r, N("pre", 0));
    return typedEnc<pcl::PointXY>(p, w, h, r, N("pre", 0));
  }
  if (op == "typdec") {
    auto s = unhex(G("d")), b = unhex(G("b"));
    if (G("t") == "xyz") return typedDec<pcl::PointXYZ>(s, b);
    if (G("t") == "xyzi") return typedDec<pcl::PointXYZI>(s, b);
    if (G("t") == "xyzl") return typedDec<pcl::PointXYZL>(s, b);
    return typedDec<pcl::PointXY>(s, b);
  }
  if (op == "pcdenc") {  // path= names a file in the scratch directory of the check
    std::vector<uint8_t> out(N("pre", 0), 0xA5);
    size_t n = PCLPointCloudEncode(std::filesystem::path(strOf(G("path"))), out, std::stod(G("res")));
    return "\"ok\":true," + encoded(out, n);
  }
  if (op == "pcdhdr") {
    std::istringstream s(strOf(G("d")));
    auto m = ReadEncodingInfoFromPCD(s);
    std::string o;
    for (auto& [k, v] : m) o += (o.empty() ? "" : ";") + sh(k) + ":" + std::to_string((int)v);
    return "\"ok\":true,\"map\":\"" + o + "\"";
  }
  if (op == "sameinfo") return std::string("\"ok\":true,\"same\":") + (isSameEncodingInfo(parseInfo(G("a")), parseInfo(G("b"))) ? "1" : "0");
  known = false;
  return "";
}
