#pragma once
#include <sensor_msgs/msg/point_cloud2.hpp>
namespace point_cloud_interfaces::msg {
struct CompressedPointCloud2 {
  using SharedPtr = std::shared_ptr<CompressedPointCloud2>;
  using ConstSharedPtr = std::shared_ptr<const CompressedPointCloud2>;
  std_msgs::msg::Header header;
  uint32_t height = 0, width = 0;
  std::vector<sensor_msgs::msg::PointField> fields;
  bool is_bigendian = false;
  uint32_t point_step = 0, row_step = 0;
  std::vector<uint8_t> compressed_data;
  bool is_dense = false;
  std::string format;
  bool operator==(const CompressedPointCloud2&) const = default;
};
}
