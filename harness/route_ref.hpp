// Reference for matching a path against a route pattern.
#pragma once
#include "path_ref.hpp"

namespace ref {
using captures = std::vector<std::pair<std::string, std::string>>;
// literal text stands for itself; a parameter for one non-empty segment (up to
// the next slash or the end); a wildcard for everything that is left
inline std::optional<captures> match(const std::vector<tok>& ts,
                                     std::string_view path)
{
  captures out;
  for (auto& t : ts) {
    if (t.kind == 's') {
      if (!path.starts_with(t.value)) {
        return {};
      }
      path.remove_prefix(t.value.size());
    } else if (t.kind == 'p') {
      auto n = std::min(path.find('/'), path.size());
      if (n == 0) {
        return {};
      }
      out.emplace_back(t.value, std::string(path.substr(0, n)));
      path.remove_prefix(n);
    } else {
      out.emplace_back(t.value, std::string(path));
      path = {};
    }
  }
  if (!path.empty()) {
    return {};
  }
  return out;
}
// the text of a path segment, as it is after percent decoding
inline std::string gen_segment(pbt::Case& c, bool nonempty)
{
  std::string s;
  while ((nonempty && s.empty()) || c.more(s.size(), 8, 3)) {
    char ch = c.chance(3, 4) ? "abc"[c.below(3)]
        : c.chance(3, 4)
        ? "{}#.+*?()[]^$|\\<>!=:-~%&'@ ,;019AZ"[c.below(35)]
        : static_cast<char>(c.below(256));
    s += ch == '/' ? '-' : ch;
  }
  return s;
}
// a path near the pattern
inline std::string gen_path(pbt::Case& c, const std::vector<tok>& ts)
{
  std::string s;
  for (auto& t : ts) {
    if (t.kind == 's') {
      auto v = t.value;
      if (c.chance(1, 12)) {
        v = text::mutate(c, v, "abc/.x{}");
      } else if (c.chance(1, 12)) {
        v = text::flip(c, v);
      }
      s += v;
    } else if (t.kind == 'p') {
      s += c.chance(1, 15) ? "" : gen_segment(c, true);
    } else {
      for (std::size_t i = 0; c.more(i, 6, 2); ++i) {
        s += c.chance(1, 2) ? std::string("/") : gen_segment(c, false);
      }
    }
  }
  if (c.chance(1, 10)) {
    s = text::mutate(c, s, "abc/.x{}");
  }
  return s;
}
}
