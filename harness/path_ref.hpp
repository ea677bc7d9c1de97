// Reference for route patterns: recursive descent over segments.
#pragma once
#include "text.hpp"
#include <optional>
#include <set>
#include <vector>

namespace ref {
struct tok {
  char kind; // 's'tatic, 'p'arameter, 'w'ildcard
  std::string value;
  bool operator==(const tok&) const = default;
};
inline bool hex(char ch)
{
  return (ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'f')
      || (ch >= 'A' && ch <= 'F');
}
// length of the path character at i, 0 if there is none
inline std::size_t pchar(const std::string& s, std::size_t i)
{
  char ch = s[i];
  bool plain = (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z')
      || (ch >= '0' && ch <= '9')
      || (ch != 0
          && std::string_view("-._~!$&'()*+,;=:@").find(ch)
              != std::string_view::npos);
  if (plain) {
    return 1;
  }
  if (ch == '%' && i + 2 < s.size() && hex(s[i + 1]) && hex(s[i + 2])) {
    return 3;
  }
  return 0;
}
inline bool pchars(const std::string& s)
{
  for (std::size_t i = 0; i < s.size();) {
    auto n = pchar(s, i);
    if (!n) {
      return false;
    }
    i += n;
  }
  return true;
}
inline std::optional<std::vector<tok>> parse_pattern(std::string s, bool wild)
{
  std::vector<tok> out;
  std::optional<std::string> tail;
  if (auto h = s.find('#'); h != s.npos) {
    tail = s.substr(h + 1);
    s.erase(h);
    if (!wild || tail->empty() || !pchars(*tail)) {
      return {};
    }
  }
  std::set<std::string> names;
  std::string lit;
  // segments, each with the slash before it
  std::size_t i = 0;
  bool first = true;
  while (i < s.size() || first) {
    bool slash = i < s.size() && s[i] == '/';
    auto e = s.find('/', i + (slash ? 1 : 0));
    if (e == s.npos) {
      e = s.size();
    }
    auto seg = s.substr(i + slash, e - i - slash);
    if (slash) {
      lit += '/';
    }
    if (slash && seg.size() >= 2 && seg.front() == '{' && seg.back() == '}') {
      auto name = seg.substr(1, seg.size() - 2);
      if (name.empty() || !pchars(name) || !names.insert(name).second) {
        return {};
      }
      // a wildcard may not continue the parameter's segment
      if (tail && e == s.size()) {
        return {};
      }
      out.push_back({ 's', lit });
      out.push_back({ 'p', name });
      lit.clear();
    } else {
      if (!pchars(seg)) {
        return {};
      }
      lit += seg;
    }
    i = e;
    first = false;
  }
  if (!lit.empty()) {
    out.push_back({ 's', lit });
  }
  if (tail) {
    if (!names.insert(*tail).second) {
      return {};
    }
    out.push_back({ 'w', *tail });
  }
  return out;
}
inline std::string spell(const std::vector<tok>& ts)
{
  std::string s;
  for (auto& t : ts) {
    s += t.kind == 'p' ? "{" + t.value + "}"
        : t.kind == 'w' ? "#" + t.value
                        : t.value;
  }
  return s;
}
inline std::string gen_pchars(pbt::Case& c, std::size_t max, bool nonempty)
{
  std::string s;
  while ((nonempty && s.empty()) || c.more(s.size(), max, 2)) {
    if (c.chance(1, 10)) {
      s += '%';
      s += "0189aAfF"[c.below(8)];
      s += "0189aAfF"[c.below(8)];
    } else {
      s += "abcxyzABZ019-._~!$&'()*+,;=:@"[c.chance(3, 4) ? c.below(3)
                                                         : c.below(29)];
    }
  }
  return s;
}
inline std::string gen_pattern(pbt::Case& c, bool wild)
{
  std::string s = c.chance(1, 8) ? gen_pchars(c, 4, false) : "";
  for (int i = 0; c.more(i, 8, 3); ++i) {
    s += "/";
    if (c.chance(2, 5)) {
      s += "{" + gen_pchars(c, 4, true) + "}";
    } else {
      s += gen_pchars(c, 6, false);
    }
  }
  if (wild && c.chance(1, 3)) {
    if (s.empty() || s.back() == '}' || c.chance(2, 3)) {
      s += "/";
    }
    s += "#" + gen_pchars(c, 5, true);
  }
  return s;
}
}
