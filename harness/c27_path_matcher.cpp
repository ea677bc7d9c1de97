// C27: a path matches a pattern exactly, and captures are exact.
#include "route_ref.hpp"
#include <fitoria/web/path_matcher.hpp>

static pbt::Rule rule(
    "route patterns (literal text over every path character, escapes, "
    "parameters, wildcards) against paths made from them by filling parameters "
    "and wildcards with arbitrary text, edits of those, paths of other patterns "
    "and arbitrary text; non-trivial: the pattern has a parameter or wildcard "
    "or a character that regular expressions treat specially");

namespace fi = fitoria;
using fi::web::path_matcher;
namespace {
std::vector<ref::tok> pattern(pbt::Case& c, std::string& text)
{
  for (;;) {
    text = ref::gen_pattern(c, true);
    if (auto p = ref::parse_pattern(text, true); p) {
      return *p;
    }
    // repeated parameter names
    text = "/{y}/" + ref::gen_pchars(c, 5, true) + "/#w";
    if (auto p = ref::parse_pattern(text, true); p) {
      return *p;
    }
  }
}
void judge(pbt::Case& c, const path_matcher& m, const std::vector<ref::tok>& ts, const std::string& path)
{
  auto want = ref::match(ts, path);
  auto got = m.match(path);
  c.label(want ? "matches" : "does not match");
  REQ_EQ(got.has_value(), want.has_value());
  if (got) {
    REQ_EQ(got->size(), want->size());
    for (std::size_t i = 0; i < got->size(); ++i) {
      REQ_EQ((*got)[i].first, (*want)[i].first);
      REQ_EQ((*got)[i].second, (*want)[i].second);
    }
  }
}
}

SECTION("patterns and paths", 20000, 500000)
{
  std::string text;
  auto ts = pattern(c, text);
  c.in("pattern", text);
  c.nontrivial(text.find_first_of("{#.+*?()^$") != text.npos);
  auto spelled = std::make_unique<std::string>(text);
  path_matcher m(*spelled);
  spelled.reset();
  REQ_EQ(std::string(m.pattern()), text);
  for (std::size_t i = 0; i < 1 || c.more(i, 6, 3); ++i) {
    std::string path;
    switch (c.weighted({ 6, 1, 1, 1 })) {
    case 0:
      path = ref::gen_path(c, ts);
      break;
    case 1:
      path = text;
      break;
    case 2: {
      std::string other;
      path = ref::gen_path(c, pattern(c, other));
      break;
    }
    default:
      path = c.bytes(12);
    }
    c.in("path", path);
    judge(c, m, ts, path);
    if (c.chance(1, 6)) {
      // copies and moved-to matchers behave alike
      path_matcher n(m);
      judge(c, n, ts, path);
      path_matcher o(std::move(n));
      judge(c, o, ts, path);
      REQ_EQ(std::string(o.pattern()), text);
    }
  }
}

SECTION("literal patterns", 10000, 200000)
{
  // a pattern of literal text matches itself and nothing else
  auto a = "/" + ref::gen_pchars(c, 6, true);
  auto b = c.chance(1, 2) ? text::mutate(c, a, "ab./+*") : text::flip(c, a);
  c.in("pattern", a);
  c.in("path", b);
  c.nontrivial(a.find_first_of(".+*?()^$") != a.npos);
  path_matcher m(a);
  REQM(m.match(a) && m.match(a)->empty(), "does not match itself");
  REQ_EQ(m.match(b).has_value(), a == b);
}

SECTION("malformed patterns", 3000, 50000)
{
  auto s = text::mutate(c, ref::gen_pattern(c, true), "{}#/%ab");
  if (ref::parse_pattern(s, true)) {
    return;
  }
  c.in("pattern", s);
  c.nontrivial();
  bool thrown = false;
  try {
    path_matcher m(s);
  } catch (const std::exception&) {
    thrown = true;
  }
  REQM(thrown, "a matcher was made from a malformed pattern");
}
