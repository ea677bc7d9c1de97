// Stand-in for Boost.System and small shared pieces.
#pragma once
#include <optional>
#include <system_error>

namespace boost {
struct none_t {
  explicit constexpr none_t(int) { }
};
inline constexpr none_t none { 0 };
namespace system {
using error_code = std::error_code;
using error_category = std::error_category;
using error_condition = std::error_condition;
using system_error = std::system_error;
using std::generic_category;
using std::system_category;
namespace errc = std;
// the result type of Boost.System
template <typename T>
class result {
  std::optional<T> v_;
  error_code e_;

public:
  using value_type = T;
  using error_type = error_code;
  result(T v)
      : v_(std::move(v))
  {
  }
  result(error_code e)
      : e_(e)
  {
  }
  bool has_value() const noexcept
  {
    return v_.has_value();
  }
  bool has_error() const noexcept
  {
    return !v_.has_value();
  }
  explicit operator bool() const noexcept
  {
    return v_.has_value();
  }
  T& value() &
  {
    if (!v_) {
      throw system_error(e_);
    }
    return *v_;
  }
  const T& value() const&
  {
    if (!v_) {
      throw system_error(e_);
    }
    return *v_;
  }
  T&& value() &&
  {
    if (!v_) {
      throw system_error(e_);
    }
    return std::move(*v_);
  }
  T& operator*() & noexcept
  {
    return *v_;
  }
  const T& operator*() const& noexcept
  {
    return *v_;
  }
  T&& operator*() && noexcept
  {
    return std::move(*v_);
  }
  T* operator->() noexcept
  {
    return &*v_;
  }
  const T* operator->() const noexcept
  {
    return &*v_;
  }
  error_code error() const noexcept
  {
    return e_;
  }
};
}
}
