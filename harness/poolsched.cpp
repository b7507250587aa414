// CloudiniSubscriberPCL under the controlled scheduler: the executor's thread delivers messages, other threads
// release the clouds they were given, the subscriber is destroyed at any point.  Everything here is compiled with
// -fsanitize=thread and linked against harness/tsanrt.cpp.
#include "schedapi.hpp"
#include <condition_variable>
#include <cstring>
#include <deque>
#include <mutex>
#include <thread>
#include "cloudini_ros/cloudini_subscriber_pcl.hpp"
using std::string;
using std::vector;
using sched::Quiet;
typedef pcl::PCLPointCloud2::Ptr Ptr;
struct Step { char k; int msg = 0; char to = '-'; };  // m msg > to ('-' dropped, '0' kept by the executor's thread, '1'.. thread)   d: drop the oldest kept   X: destroy
struct Scn { vector<string> msgs; vector<Step> steps; int threads; bool late; };

__attribute__((no_sanitize("thread"))) static uint64_t digest(const pcl::PCLPointCloud2& c) {
  uint64_t h = 1469598103934665603ull;
  auto mix = [&](uint64_t v) __attribute__((no_sanitize("thread"))) { h = (h ^ v) * 1099511628211ull; h ^= h >> 31; };
  mix(c.width); mix(c.height); mix(c.point_step); mix(c.row_step); mix(c.is_bigendian); mix(c.is_dense); mix(c.header.stamp); mix(c.header.seq);
  for (unsigned char x : c.header.frame_id) mix(x);
  mix(c.fields.size());
  for (auto& f : c.fields) { mix(f.offset); mix(f.datatype); mix(f.count); mix(f.name.size()); for (unsigned char x : f.name) mix(x); }
  mix(c.data.size());
  for (auto x : c.data) mix(x);
  return h;
}
static std::map<int, uint64_t> g_want;  // message -> digest (0: nothing is delivered)
static std::map<const void*, int> g_ids;
static int idOf(const void* p) { auto it = g_ids.find(p); if (it == g_ids.end()) it = g_ids.emplace(p, (int)g_ids.size() + 1).first; return it->second; }

struct Queue {  // clouds given to one thread
  std::mutex m; std::condition_variable c; std::deque<std::pair<Ptr, uint64_t>> q; bool end = false;
};
static std::shared_ptr<rclcpp::SerializedMessage> serialized(const string& b) {
  auto m = std::make_shared<rclcpp::SerializedMessage>(b.size());
  memcpy(m->get_rcl_serialized_message().buffer, b.data(), b.size());
  m->get_rcl_serialized_message().buffer_length = b.size();
  return m;
}
static void learn(const Scn& s) {
  for (size_t i = 0; i < s.msgs.size(); i++) {
    rclcpp::Node n("n");
    uint64_t d = 0;
    cloudini_ros::CloudiniSubscriberPCL sub(&n, "t", [&](const Ptr& p) { d = digest(*p); });
    n.subs[0].lock()->callback(serialized(s.msgs[i]));
    g_want[i] = d;
  }
}
#define NOTE(x) do { Quiet h_; sched::event(x); } while (0)
static string gone(const void* p, bool same) { return "[\"r\"," + std::to_string(idOf(p)) + "," + (same ? "1" : "0") + "]"; }
static void releaseOne(std::pair<Ptr, uint64_t>& x) {
  { Quiet h; sched::event(gone(x.first.get(), digest(*x.first) == x.second)); }
  x.first.reset();
}
static void runOnce(const Scn& s) {
  sched::reset();
  g_ids.clear();
  sched::simulate(true);
  {
    auto node = std::make_unique<rclcpp::Node>("n");
    std::vector<std::unique_ptr<Queue>> qs;
    std::vector<std::thread> ts;
    for (int i = 0; i < s.threads; i++) qs.push_back(std::make_unique<Queue>());
    for (int i = 0; i < s.threads; i++)
      ts.emplace_back([q = qs[i].get()] {
        while (true) {
          std::pair<Ptr, uint64_t> x;
          {
            std::unique_lock<std::mutex> l(q->m);
            q->c.wait(l, [&] { return q->end || !q->q.empty(); });
            if (q->q.empty()) break;
            x = std::move(q->q.front());
            q->q.pop_front();
          }
          releaseOne(x);
        }
      });
    std::deque<std::pair<Ptr, uint64_t>> mine;
    int now = 0, got = 0;
    char to = '-';
    auto sub = std::make_unique<cloudini_ros::CloudiniSubscriberPCL>(node.get(), "t", [&](const Ptr& p) {
      uint64_t d = digest(*p);
      got++;
      { Quiet h; sched::event("[\"d\"," + std::to_string(idOf(p.get())) + "," + std::to_string(now + 1) + "," + (d == g_want[now] ? "1" : "0") + "," + (to == '-' ? "0" : "1") + "]"); }
      if (to == '0') mine.emplace_back(p, d);
      else if (to != '-') { Queue& q = *qs[to - '1']; { std::lock_guard<std::mutex> l(q.m); q.q.emplace_back(p, d); } q.c.notify_one(); }
    });
    for (auto& st : s.steps) {
      if (st.k == 'm') {
        now = st.msg; to = st.to; got = 0;
        auto cb = sub ? node->subs[0].lock() : nullptr;
        if (!cb) continue;
        int said = rclcpp::stub::complaints();
        bool esc = false;
        try { cb->callback(serialized(s.msgs[now])); } catch (const std::exception&) { esc = true; }
        NOTE("[\"m\"," + std::to_string(now + 1) + "," + std::to_string(got) + "," + (rclcpp::stub::complaints() > said ? "1" : "0") + "," + (esc ? "1" : "0") + "]");
      } else if (st.k == 'd') {
        if (!mine.empty()) { releaseOne(mine.front()); mine.pop_front(); }
      } else if (st.k == 'X') {
        NOTE("[\"x\"]");
        sub.reset();
        NOTE("[\"X\"]");
      }
    }
    auto rest = [&] { for (auto& x : mine) releaseOne(x); mine.clear(); };
    if (s.late) { sub.reset(); rest(); }
    for (auto& q : qs) { { std::lock_guard<std::mutex> l(q->m); q->end = true; } q->c.notify_one(); }
    for (auto& t : ts) t.join();
    rest();
    sub.reset();
  }
  sched::simulate(false);
  sched::event("[\"end\"," + std::to_string(sched::living()) + "]");
  sched::record();
}
static vector<string> split(const string& s, char c) { vector<string> r; string cur; for (char x : s) { if (x == c) { r.push_back(cur); cur.clear(); } else cur += x; } r.push_back(cur); return r; }
static int nib(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static void child(std::map<string, string>& a) {
  Scn s;
  for (auto& h : split(a["msgs"], ',')) { string b; for (size_t i = 0; i + 1 < h.size(); i += 2) b += char(nib(h[i]) * 16 + nib(h[i + 1])); s.msgs.push_back(b); }
  for (auto& t : split(a["steps"], ',')) { Step x; x.k = t[0]; if (t[0] == 'm') { auto p = split(t.substr(1), '>'); x.msg = std::stoi(p[0]); x.to = p[1][0]; } s.steps.push_back(x); }
  s.threads = std::stoi(a["threads"]);
  s.late = a["late"] == "1";
  learn(s);
  if (a["mode"] == "learn") {  // which messages deliver something
    string o; for (auto& w : g_want) o += w.second ? '1' : '0';
    sched::event("[\"want\",\"" + o + "\"]"); sched::record(); sched::finish();
  }
  sched::explore(a, [&] { runOnce(s); });
}
int main() { sched::mainLoop(child); }
