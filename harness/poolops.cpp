// Command driver with CloudiniSubscriberPCL added (built against stand-ins for the ROS libraries).
#define HAVE_MORE
#include "rosops.cpp"
#include <algorithm>
#include "cloudini_ros/cloudini_subscriber_pcl.hpp"

typedef pcl::PCLPointCloud2::Ptr Ptr;
static std::string contentOf(const pcl::PCLPointCloud2& c) {
  std::string f;
  for (auto& x : c.fields) f += (f.empty() ? "" : ";") + sh(x.name) + ":" + std::to_string(x.offset) + ":" + std::to_string((int)x.datatype) + ":" + std::to_string(x.count);
  return std::to_string(c.width) + "," + std::to_string(c.height) + "," + std::to_string(c.point_step) + "," + std::to_string(c.row_step) + "," + std::to_string((int)c.is_bigendian) + "," + std::to_string((int)c.is_dense) + "," +
         std::to_string(c.header.stamp) + "," + std::to_string(c.header.seq) + "," + sh(c.header.frame_id) + "," + f + "," + hex(c.data.data(), c.data.size());
}
static std::function<void(const Ptr&)> g_cb;
struct CallbackFailure : std::runtime_error { using runtime_error::runtime_error; };

// steps: N construct (n: from a raw pointer), K<slot>.<msg> deliver and keep, L<msg> deliver and drop, T<slot>.<msg> keep and throw, U<msg> drop and throw,
// D<slot> drop, C<slot>.<to> copy, S<slot> scribble over the cloud, X destroy
// each step: delivered,complained,escaped,bytes,slot.object.content;...
static std::string poolOp(const std::vector<std::string>& msgs, const std::string& steps, int times) {
  std::string res, contents, last;
  auto node = std::make_shared<rclcpp::Node>("n");
  std::vector<std::string> bytes;
  for (auto& m : msgs) bytes.push_back(strOf(m));
  std::map<std::string, int> table;
  auto list = split(steps, '|');
  std::vector<size_t> live;
  live.reserve(times);
  for (int round = 0; round < times; round++) {
    // what the harness itself needs is allocated elsewhere in time: only the difference between rounds counts
    bool tellIt = round == times - 1;
    {
      std::unique_ptr<cloudini_ros::CloudiniSubscriberPCL> sub;
      std::vector<std::pair<int, Ptr>> held;
      size_t base = g_bytes;
      std::map<const void*, int> ids;
      if (tellIt) res.clear();
      size_t mine = 0;  // the harness's own storage at a step
      for (auto& s : list) {
        int got = 0, arg = s.size() > 1 ? std::atoi(s.c_str() + 1) : 0, arg2 = s.find('.') != std::string::npos ? std::atoi(s.c_str() + s.find('.') + 1) : 0;
        char k = s[0];
        bool esc = false;
        int said = rclcpp::stub::complaints();
        std::string odd;
        auto find = [&](int slot) { return std::find_if(held.begin(), held.end(), [&](auto& h) { return h.first == slot; }); };
        if (k == 'N' || k == 'n') {
          auto call = [](const Ptr& p) { if (g_cb) g_cb(p); };
          if (k == 'N') sub = std::make_unique<cloudini_ros::CloudiniSubscriberPCL>(node, "topic", call, rclcpp::QoS(5).best_effort());
          else sub = std::make_unique<cloudini_ros::CloudiniSubscriberPCL>(node.get(), "topic", call);
          auto g = std::dynamic_pointer_cast<rclcpp::GenericSubscription>(sub->getSubscription());
          if (!g || sub->getTopicName() != "topic" || g->topic != "topic" || g->type != "point_cloud_interfaces/msg/CompressedPointCloud2" || node->subs.back().lock() != g ||
              (k == 'N') != (g->qos.get_rmw_qos_profile().reliability == RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT)) odd = "topic";
        } else if (k == 'X') sub.reset();
        else if (strchr("KLTU", k)) {
          int msg = (k == 'K' || k == 'T') ? arg2 : arg;
          auto g = node->subs.empty() ? nullptr : node->subs.back().lock();
          if (g) {
            g_cb = [&](const Ptr& p) {
              got++;
              if (k == 'K' || k == 'T') held.emplace_back(arg, p);
              if (k == 'T' || k == 'U') throw CallbackFailure("callback");
              if (k == 'L' && p.use_count() < 1) odd = "count";
            };
            auto b = bytes[msg];
            auto m = std::make_shared<rclcpp::SerializedMessage>(b.size());
            if (!b.empty()) memcpy(m->get_rcl_serialized_message().buffer, b.data(), b.size());
            m->get_rcl_serialized_message().buffer_length = b.size();
            try { g->callback(m); } catch (const std::exception&) { esc = true; }
            if (m->size() != b.size() || (!b.empty() && memcmp(m->get_rcl_serialized_message().buffer, b.data(), b.size()))) odd = "touched";
            g_cb = nullptr;
          } else got = -1;
        } else if (k == 'D') held.erase(find(arg));
        else if (k == 'C') held.emplace_back(arg2, find(arg)->second);
        else if (k == 'S') {
          auto& c = *find(arg)->second;
          c.width = 7; c.height = 77; c.point_step = 3; c.row_step = 9; c.is_bigendian = 1; c.is_dense = !c.is_dense; c.header.seq = 5; c.header.stamp += 1; c.header.frame_id += "scribble";
          pcl::PCLPointField f; f.name = "old"; f.offset = 1; f.datatype = 2; f.count = 7;
          c.fields.push_back(f);
          c.data.insert(c.data.end(), 13, 0xA5);
        } else { fprintf(stderr, "unknown step %s\n", s.c_str()); exit(97); }
        if (!tellIt) continue;
        size_t here = g_bytes;
        res += (res.empty() ? "" : "|") + std::to_string(got) + "," + (rclcpp::stub::complaints() > said ? "1" : "0") + "," + (esc ? "1" : "0") + "," + std::to_string((long long)(here - base - mine)) + "," + odd + ",";
        bool first = true;
        for (auto& h : held) {
          auto c = contentOf(*h.second);
          auto it = table.find(c);
          if (it == table.end()) { it = table.emplace(c, (int)table.size()).first; contents += (contents.empty() ? "" : "|") + c; }
          int id = ids.emplace(h.second.get(), (int)ids.size() + 1).first->second;
          res += (first ? "" : ";") + std::to_string(h.first) + "." + std::to_string(id) + "." + std::to_string(it->second);
          first = false;
        }
        mine += g_bytes - here;
      }
      sub.reset();
      held.clear();
    }
    node->subs.clear();
    node->subs.shrink_to_fit();
    if (tellIt) break;
    live.push_back(g_blocks);
  }
  std::string ls;
  for (auto x : live) ls += (ls.empty() ? "" : ",") + std::to_string(x);
  return "\"ok\":true,\"steps\":\"" + res + "\",\"contents\":\"" + contents + "\",\"live\":\"" + ls + "\"";
}
std::string runMore(const std::string& op, const Args& a, bool& known) {
  known = true;
  auto G = [&](const char* k) -> std::string { auto it = a.find(k); return it == a.end() ? "" : it->second; };
  if (op == "pool") return poolOp(split(G("msgs"), ','), G("steps"), std::stoi(G("times")));
  known = false;
  return "";
}
