// Stand-in for the part of Boost.Core that fitoria uses (see standin/README.md).
#pragma once
#include <cstddef>
#include <functional>
#include <iosfwd>
#include <iterator>
#include <ostream>
#include <string>
#include <string_view>

namespace boost {
namespace core {
template <typename Ch>
class basic_string_view {
  std::basic_string_view<Ch> v_;

public:
  using value_type = Ch;
  using traits_type = std::char_traits<Ch>;
  using pointer = Ch*;
  using const_pointer = const Ch*;
  using reference = Ch&;
  using const_reference = const Ch&;
  using const_iterator = const Ch*;
  using iterator = const Ch*;
  using reverse_iterator = std::reverse_iterator<const Ch*>;
  using const_reverse_iterator = reverse_iterator;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  static constexpr size_type npos = static_cast<size_type>(-1);

  constexpr basic_string_view() noexcept = default;
  constexpr basic_string_view(const Ch* s) noexcept
      : v_(s)
  {
  }
  constexpr basic_string_view(const Ch* s, size_type n) noexcept
      : v_(s, n)
  {
  }
  template <typename End>
    requires std::same_as<End, const Ch*>
  constexpr basic_string_view(const Ch* b, End e) noexcept
      : v_(b, static_cast<size_type>(e - b))
  {
  }
  template <typename A>
  basic_string_view(const std::basic_string<Ch, std::char_traits<Ch>, A>& s)
      noexcept
      : v_(s)
  {
  }
  constexpr basic_string_view(std::basic_string_view<Ch> s) noexcept
      : v_(s)
  {
  }
  template <typename A>
  operator std::basic_string<Ch, std::char_traits<Ch>, A>() const
  {
    return std::basic_string<Ch, std::char_traits<Ch>, A>(v_);
  }
  constexpr operator std::basic_string_view<Ch>() const noexcept
  {
    return v_;
  }
  constexpr const Ch* begin() const noexcept
  {
    return v_.data();
  }
  constexpr const Ch* end() const noexcept
  {
    return v_.data() + v_.size();
  }
  constexpr const Ch* cbegin() const noexcept
  {
    return begin();
  }
  constexpr const Ch* cend() const noexcept
  {
    return end();
  }
  constexpr reverse_iterator rbegin() const noexcept
  {
    return reverse_iterator(end());
  }
  constexpr reverse_iterator rend() const noexcept
  {
    return reverse_iterator(begin());
  }
  constexpr size_type size() const noexcept
  {
    return v_.size();
  }
  constexpr size_type length() const noexcept
  {
    return v_.size();
  }
  constexpr bool empty() const noexcept
  {
    return v_.empty();
  }
  constexpr const Ch& operator[](size_type i) const noexcept
  {
    return v_[i];
  }
  constexpr const Ch& at(size_type i) const
  {
    return v_.at(i);
  }
  constexpr const Ch& front() const noexcept
  {
    return v_.front();
  }
  constexpr const Ch& back() const noexcept
  {
    return v_.back();
  }
  constexpr const Ch* data() const noexcept
  {
    return v_.data();
  }
  constexpr void remove_prefix(size_type n) noexcept
  {
    v_.remove_prefix(n);
  }
  constexpr void remove_suffix(size_type n) noexcept
  {
    v_.remove_suffix(n);
  }
  constexpr basic_string_view substr(size_type p = 0, size_type n = npos) const
  {
    return v_.substr(p, n);
  }
  constexpr int compare(basic_string_view o) const noexcept
  {
    return v_.compare(o.v_);
  }
  constexpr bool starts_with(basic_string_view o) const noexcept
  {
    return v_.starts_with(o.v_);
  }
  constexpr bool starts_with(Ch o) const noexcept
  {
    return v_.starts_with(o);
  }
  constexpr bool ends_with(basic_string_view o) const noexcept
  {
    return v_.ends_with(o.v_);
  }
  constexpr bool ends_with(Ch o) const noexcept
  {
    return v_.ends_with(o);
  }
  template <typename A>
  constexpr size_type find(A a, size_type p = 0) const noexcept
  {
    return v_.find(conv(a), p);
  }
  template <typename A>
  constexpr size_type rfind(A a, size_type p = npos) const noexcept
  {
    return v_.rfind(conv(a), p);
  }
  template <typename A>
  constexpr size_type find_first_of(A a, size_type p = 0) const noexcept
  {
    return v_.find_first_of(conv(a), p);
  }
  template <typename A>
  constexpr size_type find_last_of(A a, size_type p = npos) const noexcept
  {
    return v_.find_last_of(conv(a), p);
  }
  template <typename A>
  constexpr size_type find_first_not_of(A a, size_type p = 0) const noexcept
  {
    return v_.find_first_not_of(conv(a), p);
  }
  template <typename A>
  constexpr size_type find_last_not_of(A a, size_type p = npos) const noexcept
  {
    return v_.find_last_not_of(conv(a), p);
  }
  template <typename A>
  constexpr bool contains(A a) const noexcept
  {
    return find(a) != npos;
  }

  friend constexpr bool operator==(basic_string_view a, basic_string_view b)
      noexcept
  {
    return a.v_ == b.v_;
  }
  friend constexpr auto operator<=>(basic_string_view a, basic_string_view b)
      noexcept
  {
    return a.v_ <=> b.v_;
  }
  friend std::basic_ostream<Ch>& operator<<(std::basic_ostream<Ch>& os,
                                            basic_string_view s)
  {
    return os << s.v_;
  }
  template <typename A>
  friend std::basic_string<Ch, std::char_traits<Ch>, A>&
  operator+=(std::basic_string<Ch, std::char_traits<Ch>, A>& l,
             basic_string_view r)
  {
    return l += r.v_;
  }

private:
  static constexpr Ch conv(Ch c)
  {
    return c;
  }
  template <typename A>
  static constexpr std::basic_string_view<Ch> conv(const A& a)
  {
    return std::basic_string_view<Ch>(basic_string_view(a));
  }
};
using string_view = basic_string_view<char>;
}
}
template <typename Ch>
struct std::hash<boost::core::basic_string_view<Ch>> {
  std::size_t operator()(boost::core::basic_string_view<Ch> s) const noexcept
  {
    return std::hash<std::basic_string_view<Ch>> {}(s);
  }
};
