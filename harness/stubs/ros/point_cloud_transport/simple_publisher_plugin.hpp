// Stand-in for the base class of publisher plugins: parameters are a map with overrides set by the harness.
#pragma once
#include <point_cloud_transport/expected.hpp>
#include <rclcpp/rclcpp.hpp>
#include <sensor_msgs/msg/point_cloud2.hpp>
namespace point_cloud_transport {
struct StubParams {
  std::map<std::string, rclcpp::Parameter> over, values;
  std::function<rcl_interfaces::msg::SetParametersResult(const std::vector<rclcpp::Parameter>&)> callback;
};
class PublisherPlugin {
 public:
  virtual ~PublisherPlugin() = default;
  virtual std::string getTransportName() const = 0;
  virtual void declareParameters(const std::string& base_topic) = 0;
  virtual std::string getDataType() const = 0;
  StubParams stub;
 protected:
  std::string full(const std::string& n) const { return "topic." + getTransportName() + "." + n; }
  template <class T> bool declareParam(const std::string& n, T def, const rcl_interfaces::msg::ParameterDescriptor& = {}) {
    auto o = stub.over.find(n);
    rclcpp::Parameter p(full(n), def);
    if (o != stub.over.end()) p = rclcpp::Parameter(full(n), o->second.raw(), 0);
    stub.values[n] = p;
    return true;
  }
  template <class T> bool getParam(const std::string& n, T& v) const {
    auto it = stub.values.find(n);
    if (it == stub.values.end()) return false;
    v = it->second.template get_value<T>();
    return true;
  }
  template <class T> bool setParam(const std::string& n, T v) { stub.values[n] = rclcpp::Parameter(full(n), v); return true; }
  template <class F> void setParamCallback(F f) { stub.callback = f; }
  template <class F> void declareParamDummy(F) {}
};
template <class M> class SimplePublisherPlugin : public PublisherPlugin {
 public:
  using TypedEncodeResult = cras::expected<std::optional<const M>>;
  virtual TypedEncodeResult encodeTyped(const sensor_msgs::msg::PointCloud2& raw) const = 0;
};
}  // namespace point_cloud_transport
