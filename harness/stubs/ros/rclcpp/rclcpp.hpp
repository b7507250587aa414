// Stand-in for rclcpp: one process, no middleware.  Subscriptions keep their callback and are fed by the
// harness, publishers hand what is published to the harness, parameters are a map.
#pragma once
#include <chrono>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <variant>
#include <vector>

namespace rcl_interfaces::msg {
#define STUB_SET(T, m) auto& set__##m(T v) { m = v; return *this; }
struct IntegerRange {
  int64_t from_value = 0, to_value = 0;
  uint64_t step = 0;
  STUB_SET(int64_t, from_value) STUB_SET(int64_t, to_value) STUB_SET(uint64_t, step)
};
struct FloatingPointRange {
  double from_value = 0, to_value = 0, step = 0;
  STUB_SET(double, from_value) STUB_SET(double, to_value) STUB_SET(double, step)
};
struct ParameterType {
  static constexpr uint8_t PARAMETER_NOT_SET = 0, PARAMETER_BOOL = 1, PARAMETER_INTEGER = 2, PARAMETER_DOUBLE = 3, PARAMETER_STRING = 4;
};
struct ParameterDescriptor {
  std::string name;
  uint8_t type = 0;
  std::string description, additional_constraints;
  bool read_only = false, dynamic_typing = false;
  std::vector<FloatingPointRange> floating_point_range;
  std::vector<IntegerRange> integer_range;
  STUB_SET(std::string, name) STUB_SET(uint8_t, type) STUB_SET(std::string, description) STUB_SET(std::string, additional_constraints)
  STUB_SET(bool, read_only) STUB_SET(bool, dynamic_typing)
  STUB_SET(std::vector<FloatingPointRange>, floating_point_range) STUB_SET(std::vector<IntegerRange>, integer_range)
};
struct SetParametersResult { bool successful = false; std::string reason; };
#undef STUB_SET
}  // namespace rcl_interfaces::msg

enum rmw_qos_reliability_policy_t { RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT, RMW_QOS_POLICY_RELIABILITY_RELIABLE, RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT, RMW_QOS_POLICY_RELIABILITY_UNKNOWN };
enum rmw_qos_durability_policy_t { RMW_QOS_POLICY_DURABILITY_SYSTEM_DEFAULT, RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL, RMW_QOS_POLICY_DURABILITY_VOLATILE, RMW_QOS_POLICY_DURABILITY_UNKNOWN };
struct rmw_qos_profile_t { size_t depth = 10; rmw_qos_reliability_policy_t reliability = RMW_QOS_POLICY_RELIABILITY_RELIABLE; rmw_qos_durability_policy_t durability = RMW_QOS_POLICY_DURABILITY_VOLATILE; };
inline const rmw_qos_profile_t rmw_qos_profile_default{};
inline const rmw_qos_profile_t rmw_qos_profile_sensor_data{5, RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT, RMW_QOS_POLICY_DURABILITY_VOLATILE};

struct rcutils_allocator_t { void* state = nullptr; };
struct rcl_serialized_message_t { uint8_t* buffer = nullptr; size_t buffer_length = 0, buffer_capacity = 0; rcutils_allocator_t allocator; };

namespace rclcpp {

enum class ReliabilityPolicy { Reliable, BestEffort, SystemDefault };
enum class DurabilityPolicy { TransientLocal, Volatile, SystemDefault };
enum class HistoryPolicy { KeepLast, KeepAll };
struct KeepLast { size_t depth; explicit KeepLast(size_t d) : depth(d) {} };
class QoS {
 public:
  QoS(size_t depth) { p_.depth = depth; }
  QoS(KeepLast k) { p_.depth = k.depth; }
  QoS& reliable() { p_.reliability = RMW_QOS_POLICY_RELIABILITY_RELIABLE; return *this; }
  QoS& best_effort() { p_.reliability = RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT; return *this; }
  QoS& transient_local() { p_.durability = RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL; return *this; }
  QoS& durability_volatile() { p_.durability = RMW_QOS_POLICY_DURABILITY_VOLATILE; return *this; }
  QoS& reliability(ReliabilityPolicy r) { return r == ReliabilityPolicy::Reliable ? reliable() : best_effort(); }
  QoS& durability(DurabilityPolicy r) { return r == DurabilityPolicy::TransientLocal ? transient_local() : durability_volatile(); }
  QoS& keep_last(size_t d) { p_.depth = d; return *this; }
  ReliabilityPolicy reliability() const { return p_.reliability == RMW_QOS_POLICY_RELIABILITY_RELIABLE ? ReliabilityPolicy::Reliable : ReliabilityPolicy::BestEffort; }
  DurabilityPolicy durability() const { return p_.durability == RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL ? DurabilityPolicy::TransientLocal : DurabilityPolicy::Volatile; }
  size_t depth() const { return p_.depth; }
  rmw_qos_profile_t& get_rmw_qos_profile() { return p_; }
  const rmw_qos_profile_t& get_rmw_qos_profile() const { return p_; }
 private:
  rmw_qos_profile_t p_;
};
struct SensorDataQoS : QoS { SensorDataQoS() : QoS(5) { best_effort(); } };
struct SystemDefaultsQoS : QoS { SystemDefaultsQoS() : QoS(10) {} };

class TopicEndpointInfo {
 public:
  TopicEndpointInfo(QoS q) : q_(q) {}
  QoS& qos_profile() { return q_; }
  const QoS& qos_profile() const { return q_; }
 private:
  QoS q_;
};

namespace exceptions {
struct InvalidParameterTypeException : std::runtime_error { using runtime_error::runtime_error; };
struct ParameterNotDeclaredException : std::runtime_error { using runtime_error::runtime_error; };
}  // namespace exceptions
using ParameterTypeException = exceptions::InvalidParameterTypeException;
enum ParameterType : uint8_t { PARAMETER_NOT_SET, PARAMETER_BOOL, PARAMETER_INTEGER, PARAMETER_DOUBLE, PARAMETER_STRING };

class Parameter {
 public:
  using Value = std::variant<std::monostate, bool, int64_t, double, std::string>;
  Parameter() = default;
  Parameter(std::string n, bool v) : n_(n), v_(v) {}
  Parameter(std::string n, int v) : n_(n), v_(int64_t(v)) {}
  Parameter(std::string n, int64_t v) : n_(n), v_(v) {}
  Parameter(std::string n, double v) : n_(n), v_(v) {}
  Parameter(std::string n, std::string v) : n_(n), v_(v) {}
  Parameter(std::string n, const char* v) : n_(n), v_(std::string(v)) {}
  Parameter(std::string n, Value v, int) : n_(n), v_(v) {}
  const std::string& get_name() const { return n_; }
  ParameterType get_type() const { return ParameterType(v_.index()); }
  bool as_bool() const { return get<bool>(); }
  int64_t as_int() const { return get<int64_t>(); }
  double as_double() const { return get<double>(); }
  std::string as_string() const { return get<std::string>(); }
  template <class T> T get_value() const { return get<T>(); }
  const Value& raw() const { return v_; }
 private:
  template <class T> T get() const {
    if (auto* p = std::get_if<T>(&v_)) return *p;
    throw ParameterTypeException("expected another type");
  }
  std::string n_;
  Value v_;
};

class Logger {};
inline Logger get_logger(const std::string&) { return {}; }
class Time {};
class Clock { public: using SharedPtr = std::shared_ptr<Clock>; Time now() { return {}; } };

namespace stub {
inline std::mutex& m() { static std::mutex x; return x; }
inline int& complaints() { static int n = 0; return n; }   // warnings and errors logged
inline std::vector<QoS>& endpoints() { static std::vector<QoS> v; return v; }
inline size_t& listeners() { static size_t n = 1; return n; }
inline void said(int level) { if (level > 0) { std::lock_guard<std::mutex> l(m()); complaints()++; } }
template <class L, class... A> void log(int level, const L&, const A&...) { said(level); }
}  // namespace stub

class SerializedMessage {
 public:
  SerializedMessage() = default;
  explicit SerializedMessage(size_t capacity) { reserve(capacity); }
  SerializedMessage(const SerializedMessage& o) { copy(o); }
  SerializedMessage(SerializedMessage&& o) noexcept : s_(o.s_) { o.s_ = {}; }
  SerializedMessage& operator=(const SerializedMessage& o) { if (this != &o) { fini(); copy(o); } return *this; }
  SerializedMessage& operator=(SerializedMessage&& o) noexcept { if (this != &o) { fini(); s_ = o.s_; o.s_ = {}; } return *this; }
  ~SerializedMessage() { fini(); }
  rcl_serialized_message_t& get_rcl_serialized_message() { return s_; }
  const rcl_serialized_message_t& get_rcl_serialized_message() const { return s_; }
  size_t size() const { return s_.buffer_length; }
  size_t capacity() const { return s_.buffer_capacity; }
  void reserve(size_t n) { s_.buffer = (uint8_t*)realloc(s_.buffer, n ? n : 1); s_.buffer_capacity = n; }
  rcl_serialized_message_t release_rcl_serialized_message() { auto r = s_; s_ = {}; return r; }
 private:
  void fini() { if (s_.buffer) free(s_.buffer); s_ = {}; }
  void copy(const SerializedMessage& o) {
    if (o.s_.buffer) { reserve(o.s_.buffer_length); memcpy(s_.buffer, o.s_.buffer, o.s_.buffer_length); s_.buffer_length = o.s_.buffer_length; }
  }
  rcl_serialized_message_t s_;
};

class SubscriptionBase {
 public:
  using SharedPtr = std::shared_ptr<SubscriptionBase>;
  virtual ~SubscriptionBase() = default;
  SubscriptionBase(std::string t, std::string ty, QoS q) : topic(t), type(ty), qos(q) {}
  const char* get_topic_name() const { return topic.c_str(); }
  QoS get_actual_qos() const { return qos; }
  std::string topic, type;
  QoS qos;
};
class GenericSubscription : public SubscriptionBase {
 public:
  using SharedPtr = std::shared_ptr<GenericSubscription>;
  using SubscriptionBase::SubscriptionBase;
  std::function<void(std::shared_ptr<SerializedMessage>)> callback;
};
class GenericPublisher {
 public:
  using SharedPtr = std::shared_ptr<GenericPublisher>;
  std::string topic, type;
  QoS qos{10};
  std::vector<std::string> sent;
  size_t get_subscription_count() const { return stub::listeners(); }
  size_t get_intra_process_subscription_count() const { return 0; }
  const char* get_topic_name() const { return topic.c_str(); }
  void publish(const SerializedMessage& m) { auto& s = m.get_rcl_serialized_message(); sent.emplace_back((const char*)s.buffer, s.buffer_length); }
};

class NodeOptions {
 public:
  NodeOptions() = default;
  NodeOptions& use_intra_process_comms(bool b) { intra_ = b; return *this; }
  bool use_intra_process_comms() const { return intra_; }
  NodeOptions& parameter_overrides(std::vector<Parameter> p) { over_ = std::move(p); return *this; }
  const std::vector<Parameter>& parameter_overrides() const { return over_; }
  NodeOptions& append_parameter_override(const std::string& n, const Parameter& p) { over_.push_back(p); return *this; }
 private:
  bool intra_ = false;
  std::vector<Parameter> over_;
};

class Node : public std::enable_shared_from_this<Node> {
 public:
  using SharedPtr = std::shared_ptr<Node>;
  explicit Node(const std::string& name, const NodeOptions& o = NodeOptions()) : name_(name), opt_(o) {}
  virtual ~Node() = default;
  Logger get_logger() const { return {}; }
  const char* get_name() const { return name_.c_str(); }
  Clock::SharedPtr get_clock() const { return std::make_shared<Clock>(); }
  Time now() const { return {}; }
  template <class T> T declare_parameter(const std::string& n, const T& def, const rcl_interfaces::msg::ParameterDescriptor& = {}, bool = false) {
    Parameter p(n, def);
    for (auto& o : opt_.parameter_overrides()) if (o.get_name() == n) p = o;
    T v = p.template get_value<T>();
    params_[n] = p;
    return v;
  }
  bool has_parameter(const std::string& n) const { return params_.count(n); }
  Parameter get_parameter(const std::string& n) const {
    auto it = params_.find(n);
    if (it == params_.end()) throw exceptions::ParameterNotDeclaredException(n);
    return it->second;
  }
  template <class T> bool get_parameter(const std::string& n, T& v) const {
    auto it = params_.find(n);
    if (it == params_.end()) return false;
    v = it->second.template get_value<T>();
    return true;
  }
  void stub_set(const Parameter& p) { params_[p.get_name()] = p; }
  std::vector<TopicEndpointInfo> get_publishers_info_by_topic(const std::string&, bool = false) const {
    std::vector<TopicEndpointInfo> r;
    for (auto& q : stub::endpoints()) r.emplace_back(q);
    return r;
  }
  template <class F> GenericSubscription::SharedPtr create_generic_subscription(const std::string& t, const std::string& ty, const QoS& q, F&& cb) {
    auto s = std::make_shared<GenericSubscription>(t, ty, q);
    s->callback = std::forward<F>(cb);
    subs.push_back(s);
    return s;
  }
  GenericPublisher::SharedPtr create_generic_publisher(const std::string& t, const std::string& ty, const QoS& q) {
    auto p = std::make_shared<GenericPublisher>();
    p->topic = t; p->type = ty; p->qos = q;
    pubs.push_back(p);
    return p;
  }
  std::vector<std::weak_ptr<GenericSubscription>> subs;  // as in rclcpp, the node doesn't keep them alive
  std::vector<GenericPublisher::SharedPtr> pubs;
 private:
  std::string name_;
  NodeOptions opt_;
  std::map<std::string, Parameter> params_;
};
inline bool ok() { return true; }
}  // namespace rclcpp

#define RCLCPP_DEBUG(...) ::rclcpp::stub::log(0, __VA_ARGS__)
#define RCLCPP_INFO(...) ::rclcpp::stub::log(0, __VA_ARGS__)
#define RCLCPP_INFO_ONCE(...) ::rclcpp::stub::log(0, __VA_ARGS__)
#define RCLCPP_INFO_STREAM(l, ...) do { std::ostringstream o_; o_ << __VA_ARGS__; ::rclcpp::stub::log(0, l); } while (0)
#define RCLCPP_WARN(...) ::rclcpp::stub::log(0, __VA_ARGS__)
#define RCLCPP_WARN_ONCE(...) ::rclcpp::stub::log(0, __VA_ARGS__)
#define RCLCPP_WARN_STREAM(l, ...) do { std::ostringstream o_; o_ << __VA_ARGS__; ::rclcpp::stub::log(0, l); } while (0)
#define RCLCPP_ERROR(...) ::rclcpp::stub::log(1, __VA_ARGS__)
#define RCLCPP_ERROR_ONCE(...) ::rclcpp::stub::log(1, __VA_ARGS__)
#define RCLCPP_ERROR_STREAM(l, ...) do { std::ostringstream o_; o_ << __VA_ARGS__; ::rclcpp::stub::log(1, l); } while (0)
#define RCLCPP_FATAL(...) ::rclcpp::stub::log(1, __VA_ARGS__)
#define RCLCPP_WARN_THROTTLE(l, c, ms, ...) ::rclcpp::stub::log(1, l, __VA_ARGS__)
#define RCLCPP_ERROR_THROTTLE(l, c, ms, ...) ::rclcpp::stub::log(1, l, __VA_ARGS__)
