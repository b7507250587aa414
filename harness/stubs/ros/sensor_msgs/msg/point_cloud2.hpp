// Stand-in for the generated ROS messages: plain structures with the members of the real ones.
#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace builtin_interfaces::msg {
struct Time { int32_t sec = 0; uint32_t nanosec = 0; bool operator==(const Time&) const = default; };
}
namespace std_msgs::msg {
struct Header { builtin_interfaces::msg::Time stamp; std::string frame_id; bool operator==(const Header&) const = default; };
}
namespace sensor_msgs::msg {
struct PointField {
  static constexpr uint8_t INT8 = 1, UINT8 = 2, INT16 = 3, UINT16 = 4, INT32 = 5, UINT32 = 6, FLOAT32 = 7, FLOAT64 = 8;
  std::string name;
  uint32_t offset = 0;
  uint8_t datatype = 0;
  uint32_t count = 0;
  bool operator==(const PointField&) const = default;
};
struct PointCloud2 {
  using SharedPtr = std::shared_ptr<PointCloud2>;
  using ConstSharedPtr = std::shared_ptr<const PointCloud2>;
  using UniquePtr = std::unique_ptr<PointCloud2>;
  std_msgs::msg::Header header;
  uint32_t height = 0, width = 0;
  std::vector<PointField> fields;
  bool is_bigendian = false;
  uint32_t point_step = 0, row_step = 0;
  std::vector<uint8_t> data;
  bool is_dense = false;
  bool operator==(const PointCloud2&) const = default;
};
}  // namespace sensor_msgs::msg
