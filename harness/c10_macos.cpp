// C10, the conversions that are compiled on macOS: plain decimal notation only.
// (The names live in a namespace of their own beside those of this platform.)
#define FITORIA_TARGET_MACOS
#define v0 v0_macos
#include "pbt.hpp"
#include <cerrno>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <fitoria/core/from_string.hpp>
#include <limits>
#include <memory>
#include <string>

namespace fi = fitoria;
namespace {
template <typename T>
T parsed(const std::string& s)
{
  if constexpr (std::is_same_v<T, float>) {
    return std::strtof(s.c_str(), nullptr);
  } else if constexpr (std::is_same_v<T, double>) {
    return std::strtod(s.c_str(), nullptr);
  } else {
    return std::strtold(s.c_str(), nullptr);
  }
}

template <typename T>
void one(pbt::Case& c)
{
  std::string t;
  switch (c.below(4)) {
  case 0: { // digits around a point
    t = c.chance(1, 3) ? "-" : "";
    auto before = c.below(c.chance(1, 20) ? 6000 : 25), after = c.below(25);
    for (pbt::u64 i = 0; i < before; ++i) {
      t += static_cast<char>('0' + (i < 30 ? c.below(10) : i % 10));
    }
    if (c.chance(2, 3)) {
      t += '.';
      for (pbt::u64 i = 0; i < after; ++i) {
        t += static_cast<char>('0' + c.below(10));
      }
    }
    break;
  }
  case 1: // not a number, or not in this notation
    t = c.str("0123456789.-+eE infax", 0, 6);
    break;
  case 2:
    t = c.bytes(0, 5);
    break;
  default:
    t = std::to_string(static_cast<long long>(c.raw()));
    t.insert(c.below(t.size() + 1), 1, c.pick({ '.', '5', '-', ' ', 'e', '\0' }));
  }
  // by the grammar
  std::size_t i = t.starts_with('-'), digits = 0, dots = 0;
  bool plain = true;
  for (; i < t.size(); ++i) {
    digits += t[i] >= '0' && t[i] <= '9';
    dots += t[i] == '.';
    plain &= (t[i] >= '0' && t[i] <= '9') || t[i] == '.';
  }
  plain &= digits > 0 && dots <= 1;
  c.in("text", t);

  // in a block of its own, or in the middle of more digits
  bool inside = c.chance(1, 2);
  auto all = inside ? "7-" + t + "31e5" : t;
  auto mem = std::make_unique<char[]>(all.size());
  std::memcpy(mem.get(), all.data(), all.size());
  std::string_view s(mem.get() + (inside ? 2 : 0), t.size());
  // whatever errno was left at
  bool stale = c.chance(1, 3);
  c.in("stale errno", stale);
  errno = stale ? ERANGE : c.chance(1, 2) ? EINTR : 0;
  auto got = fi::from_string<T>(s);

  c.nontrivial(plain);
  if (!plain) {
    c.label("not plain decimal");
    REQM(!got, "accepted");
    REQM(got.error() == std::errc::invalid_argument, got.error().message());
    return;
  }
  auto want = parsed<T>(t);
  if (std::isinf(want)) {
    c.label("too large");
    REQM(!got, "accepted");
    REQM(got.error() == std::errc::result_out_of_range, got.error().message());
  } else if (std::fabs(want) < std::numeric_limits<T>::min() && !got) {
    c.label("too small"); // either, where precision is lost
    REQM(got.error() == std::errc::result_out_of_range, got.error().message());
  } else {
    c.label("accepted");
    REQM(got, "refused: " + got.error().message());
    REQ(*got == want && std::signbit(*got) == std::signbit(want));
  }
}
}
SECTION("plain decimals as compiled on macOS", 200000, 2000000)
{
  switch (c.below(3)) {
  case 0:
    return one<float>(c);
  case 1:
    return one<double>(c);
  default:
    return one<long double>(c);
  }
}
