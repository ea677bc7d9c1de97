// C11, the comparison that is compiled on macOS.
#define FITORIA_TARGET_MACOS
#define v0 v0_macos
#include "pbt.hpp"
#include <fitoria/core/strings.hpp>
#include <memory>
#include <cstring>
#include <string>

namespace fi = fitoria;
SECTION("order as compiled on macOS", 100000, 1000000)
{
  auto text = [&](const char* alphabet) { return c.str(alphabet, 0, 6); };
  auto a = text("abzAZB@[`{ 0"), b = c.chance(1, 2) ? text("abzAZB@[`{ 0") : a;
  if (c.chance(1, 2)) {
    b += text("aA");
  }
  for (auto& ch : b) {
    if (((ch | 32) >= 'a' && (ch | 32) <= 'z') && c.chance(1, 2)) {
      ch = static_cast<char>(ch ^ 32);
    }
  }
  if (c.chance(1, 2)) {
    std::swap(a, b);
  }
  c.in("a", a);
  c.in("b", b);
  auto lower = [](std::string s) {
    for (auto& ch : s) {
      if (ch >= 'A' && ch <= 'Z') {
        ch = static_cast<char>(ch + 32);
      }
    }
    return s;
  };
  auto m = std::make_unique<char[]>(a.size()), n = std::make_unique<char[]>(b.size());
  std::memcpy(m.get(), a.data(), a.size());
  std::memcpy(n.get(), b.data(), b.size());
  auto got = fi::cmp_tw_ci({ m.get(), a.size() }, { n.get(), b.size() });
  auto want = lower(a).compare(lower(b));
  c.nontrivial(!a.empty() && !b.empty());
  REQ((got < 0) == (want < 0));
  REQ((got == 0) == (want == 0));
  REQ((got > 0) == (want > 0));
}
