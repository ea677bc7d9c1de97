// Placement and mutation of input texts.
#pragma once
#include "pbt.hpp"
#include <memory>
#include <string>
#include <string_view>

namespace text {
// A copy of `t` in a heap block of exactly its size, so that a read past either
// end is caught by AddressSanitizer; or, when surrounded, inside `pre` and
// `post`, so that a read past the end changes the result.
struct placed {
  std::unique_ptr<char[]> mem;
  std::string_view sv;
  placed(pbt::Case& c,
         const std::string& t,
         const std::string& pre,
         const std::string& post)
  {
    bool s = c.chance(1, 2);
    c.note(s ? "inside other text" : "exact block");
    std::string all = s ? pre + t + post : t;
    mem = std::make_unique<char[]>(all.size());
    std::memcpy(mem.get(), all.data(), all.size());
    sv = std::string_view(mem.get() + (s ? pre.size() : 0), t.size());
  }
  operator std::string_view() const
  {
    return sv;
  }
  bool owns(std::string_view v) const
  {
    std::less_equal<const char*> le;
    return v.empty()
        || (le(sv.data(), v.data())
            && le(v.data() + v.size(), sv.data() + sv.size()));
  }
};

inline std::string
mutate(pbt::Case& c, std::string s, std::string_view alphabet)
{
  auto n = 1 + c.below(3);
  for (pbt::u64 i = 0; i < n; ++i) {
    char ch = c.chance(1, 4) ? static_cast<char>(c.below(256))
                             : alphabet[c.below(alphabet.size())];
    switch (s.empty() ? 1 : c.below(5)) {
    case 0: // drop a character
      s.erase(c.below(s.size()), 1);
      break;
    case 1: // insert one
      s.insert(c.below(s.size() + 1), 1, ch);
      break;
    case 2: // replace one
      s[c.below(s.size())] = ch;
      break;
    case 3: { // swap neighbours
      auto k = c.below(s.size());
      if (k + 1 < s.size()) {
        std::swap(s[k], s[k + 1]);
      }
      break;
    }
    default: { // repeat a piece
      auto a = c.below(s.size());
      auto l = 1 + c.below(s.size() - a);
      s.insert(a, s.substr(a, l));
    }
    }
  }
  return s;
}

inline bool white(char ch)
{
  return ch == ' ' || (ch >= '\t' && ch <= '\r');
}
inline std::string trim(std::string s)
{
  while (!s.empty() && white(s.back())) {
    s.pop_back();
  }
  while (!s.empty() && white(s.front())) {
    s.erase(s.begin());
  }
  return s;
}
inline std::string lower(std::string s)
{
  for (auto& ch : s) {
    if (ch >= 'A' && ch <= 'Z') {
      ch = static_cast<char>(ch + 32);
    }
  }
  return s;
}
inline std::string flip(pbt::Case& c, std::string s)
{
  for (auto& ch : s) {
    bool letter = (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z');
    if (letter && c.chance(1, 3)) {
      ch = static_cast<char>(ch ^ 0x20);
    }
  }
  return s;
}
}
