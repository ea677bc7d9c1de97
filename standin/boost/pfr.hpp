// Stand-in for Boost.PFR: field count, access and names of simple aggregates
// of up to eight fields.
#pragma once
#include <algorithm>
#include <cstddef>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>

namespace boost::pfr {
namespace detail {
struct any_field {
  template <typename U>
  constexpr operator U() const noexcept;
};
template <typename T, std::size_t... I>
consteval bool brace(std::index_sequence<I...>)
{
  return requires { T { (static_cast<void>(I), any_field {})... }; };
}
template <typename T, std::size_t N = 8>
consteval std::size_t count()
{
  if constexpr (brace<T>(std::make_index_sequence<N> {})) {
    return N;
  } else {
    static_assert(N > 0, "not an aggregate this stand-in knows");
    return count<T, N - 1>();
  }
}
template <typename T>
constexpr auto tie(T& t)
{
  constexpr auto n = count<std::remove_const_t<T>>();
  if constexpr (n == 0) {
    return std::tie();
  } else if constexpr (n == 1) {
    auto& [a] = t;
    return std::tie(a);
  } else if constexpr (n == 2) {
    auto& [a, b] = t;
    return std::tie(a, b);
  } else if constexpr (n == 3) {
    auto& [a, b, c] = t;
    return std::tie(a, b, c);
  } else if constexpr (n == 4) {
    auto& [a, b, c, d] = t;
    return std::tie(a, b, c, d);
  } else if constexpr (n == 5) {
    auto& [a, b, c, d, e] = t;
    return std::tie(a, b, c, d, e);
  } else if constexpr (n == 6) {
    auto& [a, b, c, d, e, f] = t;
    return std::tie(a, b, c, d, e, f);
  } else if constexpr (n == 7) {
    auto& [a, b, c, d, e, f, g] = t;
    return std::tie(a, b, c, d, e, f, g);
  } else {
    auto& [a, b, c, d, e, f, g, h] = t;
    return std::tie(a, b, c, d, e, f, g, h);
  }
}
template <typename T>
struct wrapper {
  T value;
};
template <typename T>
extern const wrapper<T> fake;
template <typename T>
struct pointer {
  const T* p;
};
template <typename M, auto P>
consteval auto spelled() noexcept -> std::string_view
{
  // gcc: "... auto P = (& ... A::name)]", clang: "... P = &fake.value.name]"
  auto s = std::string_view(__PRETTY_FUNCTION__);
  s = s.substr(s.find("P = ") + 4);
  auto end = std::min({ s.find(");"), s.find(")]"), s.find(']') });
  auto b = s.find_last_of(":.", end) + 1;
  return s.substr(b, end - b);
}
}
template <typename T>
inline constexpr std::size_t tuple_size_v = detail::count<std::remove_cv_t<T>>();
template <std::size_t I, typename T>
constexpr auto& get(T& t) noexcept
{
  return std::get<I>(detail::tie(t));
}
template <std::size_t I, typename T>
constexpr auto get_name() noexcept -> std::string_view
{
  return detail::spelled<
      T,
      &std::get<I>(detail::tie(detail::fake<std::remove_cv_t<T>>.value))>();
}
}
