#pragma once
#include <rclcpp/rclcpp.hpp>
#define RCLCPP_COMPONENTS_REGISTER_NODE(X) \
  std::shared_ptr<rclcpp::Node> stubMakeNode(const rclcpp::NodeOptions& o) { return std::make_shared<X>(o); }
