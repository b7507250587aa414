// The little of tl::expected that point_cloud_transport exposes.
#pragma once
#include <optional>
#include <stdexcept>
#include <string>
#include <utility>
#include <variant>
namespace tl {
template <class E> struct unexpected { E e; explicit unexpected(E x) : e(std::move(x)) {} };
template <class E> unexpected<std::decay_t<E>> make_unexpected(E&& e) { return unexpected<std::decay_t<E>>(std::forward<E>(e)); }
struct bad_expected_access : std::runtime_error { using runtime_error::runtime_error; };
template <class T, class E> class expected {
 public:
  template <class U, class = std::enable_if_t<std::is_constructible_v<T, U&&> && !std::is_same_v<std::decay_t<U>, expected>>>
  expected(U&& u) : v_(std::in_place_index<0>, std::forward<U>(u)) {}
  template <class G> expected(const unexpected<G>& u) : v_(std::in_place_index<1>, u.e) {}
  bool has_value() const { return v_.index() == 0; }
  explicit operator bool() const { return has_value(); }
  const T& value() const { if (!has_value()) throw bad_expected_access("no value"); return std::get<0>(v_); }
  const T& operator*() const { return std::get<0>(v_); }
  const E& error() const { return std::get<1>(v_); }
 private:
  std::variant<T, E> v_;
};
}  // namespace tl
namespace cras {
template <class T> using expected = tl::expected<T, std::string>;
template <class E> auto make_unexpected(E&& e) { return tl::make_unexpected(std::string(e)); }
}
