// Reference for entity tags and lists of them (RFC 9110, 8.8.3 and 5.6.1).
#pragma once
#include "text.hpp"
#include <optional>
#include <vector>

namespace ref {
struct etag {
  bool strong;
  std::string value;
  bool operator==(const etag&) const = default;
  std::string text() const
  {
    return std::string(strong ? "" : "W/") + '"' + value + '"';
  }
};
inline bool etagc(char ch)
{
  auto u = static_cast<unsigned char>(ch);
  return u == 0x21 || (u >= 0x23 && u <= 0x7E) || u >= 0x80;
}
// consumes one tag at `i`
inline std::optional<etag> scan_etag(const std::string& s, std::size_t& i)
{
  etag e { true, "" };
  if (s.compare(i, 2, "W/") == 0) {
    e.strong = false;
    i += 2;
  }
  if (i >= s.size() || s[i] != '"') {
    return {};
  }
  ++i;
  while (i < s.size() && etagc(s[i])) {
    e.value += s[i++];
  }
  if (i >= s.size() || s[i] != '"') {
    return {};
  }
  ++i;
  return e;
}
inline std::optional<etag> parse_etag(const std::string& s)
{
  std::size_t i = 0;
  auto e = scan_etag(s, i);
  return e && i == s.size() ? e : std::nullopt;
}
// the tags; an empty list stands for '*'
inline std::optional<std::vector<etag>> parse_list(std::string s)
{
  s = text::trim(s);
  if (s == "*") {
    return std::vector<etag>();
  }
  std::vector<etag> out;
  std::size_t i = 0;
  auto skip = [&] {
    while (i < s.size() && text::white(s[i])) {
      ++i;
    }
  };
  for (;;) {
    skip();
    auto e = scan_etag(s, i);
    if (!e) {
      return {};
    }
    out.push_back(*e);
    skip();
    if (i == s.size()) {
      return out;
    }
    if (s[i] != ',') {
      return {};
    }
    ++i;
  }
}
inline std::string gen_opaque(pbt::Case& c, std::size_t max = 24)
{
  std::string v;
  while (c.more(v.size(), max, 4)) {
    char ch = c.chance(1, 4) ? static_cast<char>(c.below(256))
                             : "abW/,*!~#\x7e\x80\xff"[c.below(12)];
    v += etagc(ch) ? ch : 'x';
  }
  return v;
}
inline etag gen_etag(pbt::Case& c, std::size_t max = 24)
{
  return { !c.chance(1, 2), gen_opaque(c, max) };
}
}
