// Reference for media types: a scanner over the text, no splitting.
#pragma once
#include "text.hpp"
#include <map>
#include <optional>

namespace ref {
inline bool alnum(char ch)
{
  return (ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'z')
      || (ch >= 'A' && ch <= 'Z');
}
inline bool name_char(char ch)
{
  return alnum(ch)
      || (ch != '\0' && std::string_view("!#$&-^_.").find(ch) != std::string_view::npos);
}
struct mime {
  std::string source, essence, type, subtype;
  std::optional<std::string> suffix;
  std::map<std::string, std::string> params; // key lower-cased
};
struct scanner {
  const std::string& s;
  std::size_t i = 0;
  void ws()
  {
    while (i < s.size() && text::white(s[i])) {
      ++i;
    }
  }
  bool name(std::string& out)
  {
    ws();
    auto b = i;
    if (i >= s.size() || !alnum(s[i])) {
      return false;
    }
    while (i < s.size() && name_char(s[i])) {
      ++i;
    }
    out = s.substr(b, i - b);
    ws();
    return true;
  }
  bool eat(char ch)
  {
    if (i < s.size() && s[i] == ch) {
      ++i;
      return true;
    }
    return false;
  }
};
inline std::optional<mime> parse_mime(const std::string& s)
{
  mime m;
  m.source = s;
  scanner k { s };
  if (!k.name(m.type) || !k.eat('/') || !k.name(m.subtype)) {
    return {};
  }
  if (k.eat('+')) {
    m.suffix.emplace();
    if (!k.name(*m.suffix)) {
      return {};
    }
  }
  m.essence = text::trim(s.substr(0, k.i));
  while (k.eat(';')) {
    std::string n, v;
    if (!k.name(n) || !k.eat('=') || !k.name(v)) {
      return {};
    }
    m.params[text::lower(n)] = v;
  }
  if (k.i != s.size()) {
    return {};
  }
  return m;
}
inline std::string gen_ws(pbt::Case& c, unsigned num)
{
  std::string s;
  if (c.chance(num, 8)) {
    do {
      s += c.chance(1, 4) ? "\t\r\n\v\f"[c.below(5)] : ' ';
    } while (c.more(s.size(), 3, 1));
  }
  return s;
}
inline std::string gen_name(pbt::Case& c)
{
  if (c.chance(1, 4)) {
    return c.pick({ "text", "plain", "charset", "utf-8", "svg", "xml", "a", "0" });
  }
  static const std::string all = [] {
    std::string r;
    for (int ch = 0; ch < 256; ++ch) {
      if (name_char(static_cast<char>(ch))) {
        r += static_cast<char>(ch);
      }
    }
    return r;
  }();
  std::string s(1, "abzAZ019mxKq"[c.below(12)]);
  while (c.more(s.size(), 12, 3)) {
    s += all[c.below(all.size())];
  }
  return s;
}
inline std::string gen_mime(pbt::Case& c, unsigned spacing)
{
  auto w = [&] { return gen_ws(c, spacing); };
  std::string s = w() + gen_name(c) + w() + "/" + w() + gen_name(c) + w();
  if (c.chance(1, 3)) {
    s += "+" + w() + gen_name(c) + w();
  }
  std::string last;
  for (std::size_t n = 0; c.more(n, 5, 1); ++n) {
    auto name = !last.empty() && c.chance(1, 4) ? text::flip(c, last)
                                                : gen_name(c);
    last = name;
    s += ";" + w() + name + w() + "=" + w() + gen_name(c) + w();
  }
  return s;
}
}
