// Command driver with the ROS plugins and the topic converter added (built against stand-ins for the ROS libraries).
#include <chrono>
#include <limits>
#include <memory>
#define HAVE_MORE
#include "rosops.cpp"
#include "cloudini_plugin/cloudini_publisher_plugin.hpp"
#include "cloudini_plugin/cloudini_subscriber_plugin.hpp"
#include "cloudini_ros/conversion_utils.hpp"

using RawMsg = sensor_msgs::msg::PointCloud2;
using CompMsg = point_cloud_interfaces::msg::CompressedPointCloud2;
std::shared_ptr<rclcpp::Node> stubMakeNode(const rclcpp::NodeOptions& o);

// ---- plain CDR, little endian, written down independently of the library
struct Ser {
  std::string o = std::string("\0\1\0\0", 4);
  void align(size_t n) { while ((o.size() - 4) % n) o += '\0'; }
  template <class T> void num(T v) { align(sizeof v); o.append((const char*)&v, sizeof v); }
  void str(const std::string& s) { num<uint32_t>(s.size() + 1); o += s; o += '\0'; }
  void bytes(const std::vector<uint8_t>& b) { num<uint32_t>(b.size()); o.append((const char*)b.data(), b.size()); }
};
template <class M> static void serCommon(Ser& s, const M& m) {
  s.num(m.header.stamp.sec); s.num(m.header.stamp.nanosec); s.str(m.header.frame_id); s.num(m.height); s.num(m.width);
  s.num<uint32_t>(m.fields.size());
  for (auto& f : m.fields) { s.str(f.name); s.num(f.offset); s.num(f.datatype); s.num(f.count); }
  s.num<uint8_t>(m.is_bigendian); s.num(m.point_step); s.num(m.row_step);
}
static std::string ser(const RawMsg& m) { Ser s; serCommon(s, m); s.bytes(m.data); s.num<uint8_t>(m.is_dense); return s.o; }
static std::string ser(const CompMsg& m) { Ser s; serCommon(s, m); s.bytes(m.compressed_data); s.num<uint8_t>(m.is_dense); s.str(m.format); return s.o; }
struct Des {
  const std::string& b;
  size_t at = 4;
  template <class T> T num() { at += (sizeof(T) - (at - 4) % sizeof(T)) % sizeof(T); T v; if (at + sizeof v > b.size()) throw std::runtime_error("glue: short message"); memcpy(&v, b.data() + at, sizeof v); at += sizeof v; return v; }
  std::string raw(size_t n) { if (at + n > b.size()) throw std::runtime_error("glue: short message"); auto s = b.substr(at, n); at += n; return s; }
  std::string str() { auto n = num<uint32_t>(); auto s = raw(n); if (s.empty() || s.back()) throw std::runtime_error("glue: string"); s.pop_back(); return s; }
  std::vector<uint8_t> bytes() { auto n = num<uint32_t>(); auto s = raw(n); return std::vector<uint8_t>(s.begin(), s.end()); }
};
template <class M> static void desCommon(Des& s, M& m) {
  m.header.stamp.sec = s.num<int32_t>(); m.header.stamp.nanosec = s.num<uint32_t>(); m.header.frame_id = s.str(); m.height = s.num<uint32_t>(); m.width = s.num<uint32_t>();
  m.fields.resize(s.num<uint32_t>());
  for (auto& f : m.fields) { f.name = s.str(); f.offset = s.num<uint32_t>(); f.datatype = s.num<uint8_t>(); f.count = s.num<uint32_t>(); }
  m.is_bigendian = s.num<uint8_t>(); m.point_step = s.num<uint32_t>(); m.row_step = s.num<uint32_t>();
}
static RawMsg rawOf(const std::string& b) { Des s{b}; RawMsg m; desCommon(s, m); m.data = s.bytes(); m.is_dense = s.num<uint8_t>(); return m; }
static CompMsg compOf(const std::string& b) { Des s{b}; CompMsg m; desCommon(s, m); m.compressed_data = s.bytes(); m.is_dense = s.num<uint8_t>(); m.format = s.str(); return m; }

// w=3;h=4;step=8;row=1;big=1;dense=0;frame=hex;sec=5;fmt=hex;fdel=j;fadd;fswap=j.k;fname=j.hex;foff=j.v;ftyp=j.v;fcnt=j.v;cut=n;pay=hex
static void change(CompMsg& m, const std::string& t) {
  if (t.empty()) return;
  for (auto& e : split(t, ';')) {
    auto at = e.find('=');
    std::string k = e.substr(0, at), v = at == std::string::npos ? "" : e.substr(at + 1);
    auto u = [&] { return (uint32_t)std::stoul(v); };
    auto j = [&]() -> sensor_msgs::msg::PointField& { auto& f = m.fields.at(std::stoul(v)); v = v.substr(v.find('.') + 1); return f; };
    if (k == "w") m.width = u(); else if (k == "h") m.height = u(); else if (k == "step") m.point_step = u(); else if (k == "row") m.row_step = u();
    else if (k == "big") m.is_bigendian = u(); else if (k == "dense") m.is_dense = u(); else if (k == "frame") m.header.frame_id = strOf(v); else if (k == "sec") m.header.stamp.sec = u();
    else if (k == "fmt") m.format = strOf(v); else if (k == "fdel") m.fields.erase(m.fields.begin() + u());
    else if (k == "fadd") { auto f = m.fields.back(); f.name += "2"; m.fields.push_back(f); }
    else if (k == "fswap") { auto p = split(v, '.'); std::swap(m.fields.at(std::stoul(p[0])), m.fields.at(std::stoul(p[1]))); }
    else if (k == "fname") { auto& f = j(); f.name = strOf(v); } else if (k == "foff") { auto& f = j(); f.offset = u(); }
    else if (k == "ftyp") { auto& f = j(); f.datatype = u(); } else if (k == "fcnt") { auto& f = j(); f.count = u(); }
    else if (k == "cut") m.compressed_data.resize(std::min<size_t>(u(), m.compressed_data.size()));
    else { fprintf(stderr, "unknown change %s\n", k.c_str()); exit(97); }
  }
}
static double dbl(const std::string& h) { uint64_t b = std::stoull(h, nullptr, 16); double d; memcpy(&d, &b, 8); return d; }
static std::string meta(const CompMsg& m) {
  std::string r = std::to_string(m.width) + "," + std::to_string(m.height) + "," + std::to_string(m.point_step);
  for (auto& f : m.fields) r += ";" + sh(f.name) + ":" + std::to_string(f.offset) + ":" + std::to_string(f.datatype);
  return r;
}
static std::string payloadInfo(const CompMsg& m) {
  if (m.compressed_data.empty()) return "-";
  try {
    Cloudini::ConstBufferView v(m.compressed_data.data(), m.compressed_data.size());
    return infoStr(Cloudini::DecodeHeader(v));
  } catch (const std::exception& e) { return "-"; }
}

// each step answers "ok,..." or "threw,.."
static std::string plugOp(const std::string& steps) {
  using namespace cloudini_point_cloud_transport;
  auto pub = std::make_unique<CloudiniPublisher>();
  auto sub = std::make_unique<CloudiniSubscriber>();
  sub->declareParameters();
  std::vector<CompMsg> msgs;
  std::string res;
  for (auto& step : split(steps, '|')) {
    auto at = step.find(':');
    std::string kind = step.substr(0, at), arg = at == std::string::npos ? "" : step.substr(at + 1), r;
    try {
      if (kind == "newpub") { pub = std::make_unique<CloudiniPublisher>(); r = "ok"; }
      else if (kind == "newsub") { sub = std::make_unique<CloudiniSubscriber>(); r = "ok"; }
      else if (kind == "decl") {
        if (arg != "-") pub->stub.over["cloudini_resolution"] = rclcpp::Parameter("o", dbl(arg));
        pub->declareParameters("base");
        auto it = pub->stub.values.find("cloudini_resolution");
        double d = it == pub->stub.values.end() ? -1 : it->second.as_double();
        float f = d;
        uint32_t b; memcpy(&b, &f, 4);
        char t[16]; snprintf(t, 16, "%08x", b);
        r = std::string("ok,") + t + "," + pub->getTransportName() + "/" + sub->getTransportName() + "," + pub->getDataType() + "," + sub->getDataType();
      } else if (kind == "set") {
        std::vector<rclcpp::Parameter> ps;
        for (auto& e : split(arg, ';')) { auto p = split(e, ','); ps.emplace_back("base.cloudini." + strOf(p[0]), dbl(p[1])); }
        r = pub->stub.callback && pub->stub.callback(ps).successful ? "ok" : "threw,refused";
      } else if (kind == "pub" || kind == "ser") {
        auto p = split(arg, ',');
        RawMsg m = rawOf(strOf(p[0]));
        const RawMsg before = m;
        CompMsg c;
        if (kind == "pub") {
          auto e = pub->encodeTyped(m);
          if (!e.has_value()) throw std::runtime_error("refused: " + e.error());
          if (!e.value().has_value()) throw std::runtime_error("refused");
          c = *e.value();
        } else {
          std::vector<uint8_t> out(std::stoul(p[2]), 0x7e);
          Cloudini::SerializeCompressedPointCloud2(m, bitsF(p[1]), out);
          c = compOf(std::string(out.begin(), out.end()));
          if (ser(c) != std::string(out.begin(), out.end())) throw std::runtime_error("not the serialization of a message");
        }
        msgs.push_back(c);
        r = "ok," + sh(ser(c)) + "," + (m == before ? "1" : "0") + "," + meta(c) + "," + sh(payloadInfo(c)) + "," + sh(infoStr(Cloudini::ConvertToEncodingInfo(m, bitsF(p[1]))));
      } else if (kind == "ext") {  // a message from elsewhere
        CompMsg c = compOf(strOf(arg));
        msgs.push_back(c);
        r = "ok," + sh(ser(c)) + ",1," + meta(c) + "," + sh(payloadInfo(c)) + "," + sh(payloadInfo(c));
      } else if (kind == "recv") {
        auto q = arg.find(',');
        CompMsg c = msgs.at(std::stoul(arg.substr(0, q)));
        change(c, arg.substr(q + 1));
        std::string o;
        try {
          auto d = sub->decodeTyped(c);
          if (!d.has_value() || !d.value().has_value() || !*d.value()) o = "threw,";
          else o = "ok," + sh(ser(**d.value()));
        } catch (const std::exception& e) { o = "threw,"; }
        r = o + "," + sh(meta(c)) + "," + std::to_string(c.compressed_data.size());
      } else if (kind == "rei") {
        auto q = arg.find(',');
        CompMsg c = msgs.at(std::stoul(arg.substr(0, q)));
        change(c, arg.substr(q + 1));
        r = "ok," + sh(infoStr(Cloudini::ReadEncodingInfo(c)));
      } else if (kind == "conv") {
        RawMsg m = rawOf(strOf(arg));
        auto p = Cloudini::ConvertToRosPointCloud2(m);
        bool same = p.data.size() == m.data.size() && (m.data.empty() || !memcmp(p.data.data(), m.data.data(), m.data.size()));
        r = "ok," + sh(msgStr(p)) + "," + std::to_string(p.is_bigendian) + "," + (same ? "1" : "0");
      } else { fprintf(stderr, "unknown step %s\n", kind.c_str()); exit(97); }
    } catch (const std::exception& e) {
      if (!strncmp(e.what(), "glue", 4)) { fprintf(stderr, "%s\n", e.what()); exit(97); }
      r = std::string("threw,") + sh(e.what());
      if (kind == "pub" || kind == "ser") msgs.emplace_back();
    }
    res += (res.empty() ? "" : "|") + r;
  }
  return "\"ok\":true,\"steps\":\"" + res + "\"";
}

// cfg: "param=value" list; endpoints "r1t0,..."; steps
static std::string nodeOp(const std::function<std::string(const char*)>& G) {
  rclcpp::stub::endpoints().clear();
  if (!G("eps").empty())
    for (auto& e : split(G("eps"), ',')) {
      rclcpp::QoS q(7);
      if (e[0] == 'r') q.reliable(); else q.best_effort();
      if (e[1] == 't') q.transient_local(); else q.durability_volatile();
      rclcpp::stub::endpoints().push_back(q);
    }
  rclcpp::NodeOptions o;
  std::vector<rclcpp::Parameter> ps;
  if (G("compressing") != "-") ps.emplace_back("compressing", G("compressing") == "1");
  if (G("in") != "-") ps.emplace_back("topic_input", strOf(G("in")));
  if (G("outt") != "-") ps.emplace_back("topic_output", strOf(G("outt")));
  if (G("res") != "-") ps.emplace_back("resolution", dbl(G("res")));
  if (G("stats") != "-") ps.emplace_back("log_compression_stats", G("stats") == "1");
  o.parameter_overrides(ps);
  std::string res;
  std::shared_ptr<rclcpp::Node> node;
  std::vector<std::shared_ptr<rclcpp::SerializedMessage>> kept;
  try {
    node = stubMakeNode(o);
  } catch (const std::exception& e) { return "\"ok\":true,\"made\":\"threw\""; }
  auto sub = node->subs.empty() ? nullptr : node->subs[0].lock();
  auto qos = [](const rclcpp::QoS& q) { auto& p = q.get_rmw_qos_profile(); return std::to_string(p.depth) + (p.reliability == RMW_QOS_POLICY_RELIABILITY_RELIABLE ? "r" : "b") + (p.durability == RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL ? "t" : "v"); };
  std::string made = "none";
  if (sub && node->pubs.size() == 1 && node->subs.size() == 1)
    made = sh(sub->topic) + "," + sub->type + "," + qos(sub->qos) + "," + sh(node->pubs[0]->topic) + "," + node->pubs[0]->type + "," + qos(node->pubs[0]->qos);
  if (made != "none" && !G("steps").empty())
    for (auto& step : split(G("steps"), '|')) {
      auto at = step.find(':');
      std::string kind = step.substr(0, at), arg = at == std::string::npos ? "" : step.substr(at + 1), r = "ok";
      if (kind == "listeners") rclcpp::stub::listeners() = std::stoul(arg);
      else if (kind == "stats") node->stub_set(rclcpp::Parameter("log_compression_stats", arg == "1"));
      else if (kind == "msg") {
        auto b = unhex(arg);
        auto m = std::make_shared<rclcpp::SerializedMessage>(b.size());
        if (!b.empty()) memcpy(m->get_rcl_serialized_message().buffer, b.data(), b.size());
        m->get_rcl_serialized_message().buffer_length = b.size();
        size_t before = node->pubs[0]->sent.size();
        int said = rclcpp::stub::complaints();
        try { sub->callback(m); } catch (const std::exception& e) { r = "threw"; }
        auto& s = node->pubs[0]->sent;
        bool same = m->size() == b.size() && (b.empty() || !memcmp(m->get_rcl_serialized_message().buffer, b.data(), b.size()));
        r += "," + std::to_string(s.size() - before) + "," + (rclcpp::stub::complaints() > said ? "1" : "0") + "," + (same ? "1" : "0") + "," + (s.size() > before ? sh(s.back()) : "");
      } else { fprintf(stderr, "unknown step %s\n", kind.c_str()); exit(97); }
      res += (res.empty() ? "" : "|") + r;
    }
  rclcpp::stub::listeners() = 1;
  sub.reset();
  node.reset();
  return "\"ok\":true,\"made\":\"" + made + "\",\"steps\":\"" + res + "\"";
}

std::string runMore(const std::string& op, const Args& a, bool& known) {
  known = true;
  auto G = [&](const char* k) -> std::string { auto it = a.find(k); return it == a.end() ? "" : it->second; };
  if (op == "plug") return plugOp(G("steps"));
  if (op == "node") return nodeOp(G);
  known = false;
  return "";
}
