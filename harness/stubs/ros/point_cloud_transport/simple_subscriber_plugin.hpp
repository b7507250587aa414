#pragma once
#include <point_cloud_transport/expected.hpp>
#include <rclcpp/rclcpp.hpp>
#include <sensor_msgs/msg/point_cloud2.hpp>
namespace point_cloud_transport {
class SubscriberPlugin {
 public:
  virtual ~SubscriberPlugin() = default;
  using DecodeResult = cras::expected<std::optional<sensor_msgs::msg::PointCloud2::ConstSharedPtr>>;
  virtual std::string getTransportName() const = 0;
  virtual void declareParameters() = 0;
  virtual std::string getDataType() const = 0;
};
template <class M> class SimpleSubscriberPlugin : public SubscriberPlugin {
 public:
  virtual DecodeResult decodeTyped(const M& compressed) const = 0;
};
}  // namespace point_cloud_transport
