// C11: case-insensitive comparison, trimming and splitting are lawful.
#include "pbt.hpp"
#include <compare>
#include <fitoria/core/strings.hpp>
#include <memory>
#include <string>
#include <vector>

static pbt::Rule rule(
    "pairs and triples of texts that share folded prefixes, texts with leading "
    "and trailing whitespace of every kind, and texts with random delimiter "
    "sets; non-trivial: equal or same-prefix pairs, text with something to trim, "
    "text containing a delimiter");

namespace fi = fitoria;
namespace {
std::string lower(std::string s)
{
  for (auto& ch : s) {
    if (ch >= 'A' && ch <= 'Z') {
      ch = static_cast<char>(ch + 32);
    }
  }
  return s;
}
bool white(char ch)
{
  return ch == ' ' || (ch >= '\t' && ch <= '\r');
}
std::string ref_trim(std::string s, bool l, bool r)
{
  while (r && !s.empty() && white(s.back())) {
    s.pop_back();
  }
  while (l && !s.empty() && white(s.front())) {
    s.erase(s.begin());
  }
  return s;
}
int sign(std::strong_ordering o)
{
  return o < 0 ? -1 : o > 0 ? 1 : 0;
}
int ref_cmp(const std::string& a, const std::string& b)
{
  int r = lower(a).compare(lower(b));
  return r < 0 ? -1 : r > 0 ? 1 : 0;
}
std::string ascii7(pbt::Case& c, std::size_t max, unsigned avg)
{
  std::string s;
  for (std::size_t i = 0; c.more(i, max, avg); ++i) {
    s += static_cast<char>(c.chance(1, 3)
                               ? c.below(128)
                               : "abzAZB@[`{_019 "[c.below(15)]);
  }
  return s;
}
std::string flip(pbt::Case& c, std::string s)
{
  for (auto& ch : s) {
    bool letter = (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z');
    if (letter && c.chance(1, 2)) {
      ch = static_cast<char>(ch ^ 32);
    } else if (c.chance(1, 12)) {
      ch = static_cast<char>(ch ^ 32); // not a letter any more, or never was
    }
  }
  return s;
}
// exactly sized heap memory
struct exact {
  std::unique_ptr<char[]> m;
  std::size_t n;
  explicit exact(const std::string& s)
      : m(new char[s.size()])
      , n(s.size())
  {
    std::copy(s.begin(), s.end(), m.get());
  }
  std::string_view sv() const
  {
    return { m.get(), n };
  }
};
std::string spaced(pbt::Case& c)
{
  auto sp = [&] {
    std::string s;
    for (std::size_t i = 0; c.more(i, 5, 1); ++i) {
      s += static_cast<char>(c.pick({ ' ', '\t', '\n', '\v', '\f', '\r' }));
    }
    return s;
  };
  std::string mid;
  for (std::size_t i = 0; c.more(i, 6, 3); ++i) {
    mid += c.chance(1, 5) ? sp()
                          : std::string(1, static_cast<char>(c.below(256)));
  }
  return sp() + mid + sp();
}
}

SECTION("comparison", 400000, 3000000)
{
  std::string a = ascii7(c, 12, 4), b;
  switch (c.below(4)) {
  case 0:
    b = flip(c, a);
    break;
  case 1:
    b = flip(c, a) + ascii7(c, 3, 1);
    break;
  case 2:
    b = flip(c, a.substr(0, c.below(a.size() + 1))) + ascii7(c, 4, 2);
    break;
  default:
    b = ascii7(c, 12, 4);
  }
  c.in("a", a);
  c.in("b", b);
  exact ea(a), eb(b);
  int want = ref_cmp(a, b);
  c.nontrivial(want == 0 || (!a.empty() && !b.empty() && lower(a)[0] == lower(b)[0]));
  c.label(want == 0 ? "equal" : "different");
  REQ_EQ(fi::cmp_eq_ci(ea.sv(), eb.sv()), want == 0);
  REQ_EQ(fi::cmp_eq_ci(eb.sv(), ea.sv()), want == 0);
  REQ_EQ(sign(fi::cmp_tw_ci(ea.sv(), eb.sv())), want);
  REQ_EQ(sign(fi::cmp_tw_ci(eb.sv(), ea.sv())), -want);
  REQ(fi::cmp_eq_ci(ea.sv(), lower(a)));
  REQ_EQ(sign(fi::cmp_tw_ci(ea.sv(), lower(a))), 0);
}

SECTION("comparison of arbitrary bytes is lawful", 200000, 1500000)
{
  std::vector<std::string> v;
  std::string base = c.bytes(5, 3);
  for (int i = 0; i < 3; ++i) {
    auto s = c.chance(1, 2) ? flip(c, base) : base.substr(0, c.below(6)) + c.bytes(3, 1);
    c.in("text", s);
    v.push_back(s);
  }
  c.nontrivial(!base.empty());
  for (auto& x : v) {
    REQ(fi::cmp_eq_ci(x, x) && fi::cmp_tw_ci(x, x) == 0);
    for (auto& y : v) {
      REQ_EQ(fi::cmp_eq_ci(x, y), fi::cmp_tw_ci(x, y) == 0);
      REQ_EQ(fi::cmp_eq_ci(x, y), fi::cmp_eq_ci(y, x));
      REQ_EQ(sign(fi::cmp_tw_ci(x, y)), -sign(fi::cmp_tw_ci(y, x)));
      for (auto& z : v) {
        if (fi::cmp_tw_ci(x, y) <= 0 && fi::cmp_tw_ci(y, z) <= 0) {
          REQM(fi::cmp_tw_ci(x, z) <= 0, "transitivity");
        }
      }
    }
  }
}

SECTION("every pair of single characters", 128, 128)
{


  auto x = static_cast<char>(c.below(128));
  c.in("first", std::string(1, x));
  c.nontrivial();
  for (int q = 0; q < 128; ++q) {
    std::string a(1, x), b(1, static_cast<char>(q));
    REQ_EQ(fi::cmp_eq_ci(a, b), lower(a) == lower(b));
    REQ_EQ(sign(fi::cmp_tw_ci(a, b)), ref_cmp(a, b));
  }
}

SECTION("trimming", 300000, 2000000)
{
  auto s = spaced(c);
  c.in("text", s);
  exact e(s);
  auto both = ref_trim(s, true, true);
  c.nontrivial(both != s);
  c.label(both.empty() ? "nothing left" : both != s ? "trimmed" : "unchanged");
  REQ_EQ(fi::trim(e.sv()), both);
  REQ_EQ(fi::ltrim(e.sv()), ref_trim(s, true, false));
  REQ_EQ(fi::rtrim(e.sv()), ref_trim(s, false, true));
  auto t = fi::trim(e.sv());
  REQM(t.empty() || (t.data() >= e.m.get() && t.data() + t.size() <= e.m.get() + e.n),
       "a view into the text");
  // own predicate
  auto set = c.str("abcxyz \t01", 3, 1);
  c.in("set", set);
  auto pred = [&](char ch) { return set.find(ch) != std::string::npos; };
  std::string l = s, r;
  while (!l.empty() && pred(l.front())) {
    l.erase(0, 1);
  }
  REQ_EQ(fi::ltrim(e.sv(), pred), l);
  r = s;
  while (!r.empty() && pred(r.back())) {
    r.pop_back();
  }
  REQ_EQ(fi::rtrim(e.sv(), pred), r);
  while (!r.empty() && pred(r.front())) {
    r.erase(0, 1);
  }
  REQ_EQ(fi::trim(e.sv(), pred), r);
}

SECTION("white space is the six ASCII ones", 256, 256)
{

  auto v = c.below(256);

  c.in("byte", v);
  c.nontrivial();
  for (int q = 0; q < 256; ++q) {
    char ch = static_cast<char>(q);
    REQ_EQ(fi::is_space(ch), white(ch));
    std::string s(1, ch);
    REQ_EQ(fi::trim(s), white(ch) ? std::string() : s);
  }
}

SECTION("splitting", 300000, 2000000)
{
  auto delims = c.str(",;/+=. \t&ab", 3, 1);
  std::string s;
  for (std::size_t i = 0; c.more(i, 24, 8); ++i) {
    if (!delims.empty() && c.chance(1, 4)) {
      s += delims[c.below(delims.size())];
    } else if (c.chance(1, 4)) {
      s += c.chance(1, 2) ? ' ' : '\t';
    } else {
      s += static_cast<char>(c.chance(1, 8) ? c.below(256)
                                            : "abc,;=x/"[c.below(8)]);
    }
  }
  c.in("text", s);
  c.in("delimiters", delims);
  std::vector<std::string> want { "" };
  for (char ch : s) {
    if (delims.find(ch) != std::string::npos) {
      want.push_back("");
    } else {
      want.back() += ch;
    }
  }
  for (auto& w : want) {
    w = ref_trim(w, true, true);
  }
  exact e(s);
  c.nontrivial(want.size() > 1);
  c.label(want.size() > 1 ? "several pieces" : "one piece");
  auto got = fi::split_of(e.sv(), delims);
  REQ_EQ(got.size(), want.size());
  for (std::size_t i = 0; i < want.size(); ++i) {
    REQM(got[i] == want[i],
         "piece " + std::to_string(i) + " is " + pbt::quote(got[i]) + ", want "
             + pbt::quote(want[i]));
  }
}
