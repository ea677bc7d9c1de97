// C20: route patterns are accepted and tokenised exactly by the grammar.
#include "path_ref.hpp"
#include "c20_table.hpp"
#include <fitoria/web/path_parser.hpp>

static pbt::Rule rule(
    "patterns built from literal text with escapes, parameters and wildcards, "
    "mutations of them, short arbitrary text, parsers reused for several "
    "patterns, and a generated table of literals parsed by the compiler; "
    "non-trivial: a text with a parameter, wildcard or escape, or an edit away "
    "from a well-formed pattern");

namespace fi = fitoria;
using namespace fi::web;
namespace {
std::vector<ref::tok> convert(const path_tokens_t& ts)
{
  std::vector<ref::tok> out;
  for (auto& t : ts) {
    char k = t.kind == path_token_kind::static_ ? 's'
        : t.kind == path_token_kind::param      ? 'p'
                                                : 'w';
    // whether empty literal text gets a token of its own is left open
    if (k != 's' || !t.value.empty()) {
      out.push_back({ k, t.value });
    }
  }
  return out;
}
template <bool W>
void judge_with(pbt::Case& c, path_parser<W>& parser, const std::string& s)
{
  auto want = ref::parse_pattern(s, W);
  text::placed p(c, s, "/{", "}a");
  bool ok = parser.parse(p);
  REQ_EQ(ok, want.has_value());
  c.label(want ? "accepted" : "refused");
  if (!ok) {
    return;
  }
  p.mem.reset(); // the tokens own their text
  auto got = convert(parser.get());
  REQ_EQ(ref::spell(got), s);
  REQ_EQ(got.size(), want->size());
  for (std::size_t i = 0; i < got.size(); ++i) {
    REQ_EQ(got[i].kind, (*want)[i].kind);
    REQ_EQ(got[i].value, (*want)[i].value);
  }
}
void judge(pbt::Case& c, const std::string& s)
{
  c.in("pattern", s);
  if (c.chance(1, 2)) {
    c.note("no wildcards");
    path_parser<false> p;
    judge_with(c, p, s);
  } else {
    c.note("wildcards");
    path_parser<true> p;
    judge_with(c, p, s);
  }
}
bool interesting(const std::string& s)
{
  return s.find_first_of("{}#%") != s.npos;
}
}

SECTION("well-formed patterns", 250000, 5000000)
{
  auto s = ref::gen_pattern(c, c.chance(1, 2));
  c.nontrivial(interesting(s));
  judge(c, s);
}

SECTION("every character in every place", 100000, 1000000)
{
  std::string s = c.pick({ "/ab/{cd}/ef", "/ab/{cd}", "/ab/#cd", "/a%41b/c",
                           "/{ab}/{cd}/#ef" });
  s.insert(c.below(s.size() + 1), 1, static_cast<char>(c.below(256)));
  c.nontrivial();
  judge(c, s);
}

SECTION("mutated patterns", 400000, 8000000)
{
  auto s = text::mutate(c, ref::gen_pattern(c, c.chance(1, 2)), "/{}#%a0\"?[]");
  c.nontrivial();
  judge(c, s);
}

SECTION("short arbitrary text", 400000, 8000000)
{
  std::string s;
  while (c.more(s.size(), 14, 7)) {
    s += c.chance(1, 20) ? static_cast<char>(c.below(256))
                         : "//{{}}#ab%4F.~"[c.below(14)];
  }
  c.nontrivial(interesting(s));
  judge(c, s);
}

SECTION("one parser, several patterns", 80000, 1500000)
{
  path_parser<true> p;
  for (int i = 0; i < 1 || c.more(i, 6, 3); ++i) {
    auto s = ref::gen_pattern(c, true);
    if (c.chance(1, 3)) {
      s = text::mutate(c, s, "/{}#%a0");
    }
    c.op("parse", s);
    c.nontrivial(i > 0);
    judge_with(c, p, s);
  }
}

SECTION("parsed by the compiler", 20000, 100000)
{
  auto& e = c20::table()[c.below(c20::table().size())];
  std::string s(e.text, e.size);
  c.in("pattern", s);
  c.in("wildcards", e.wildcards);
  c.nontrivial();
  REQM(e.constant, "the compiler cannot evaluate the parse");
  auto want = ref::parse_pattern(s, e.wildcards);
  REQ_EQ(e.ok, want.has_value());
  path_parser<true> pw;
  path_parser<false> pn;
  REQ_EQ(e.wildcards ? pw.parse(s) : pn.parse(s), e.ok);
  if (want) {
    std::string all;
    for (auto& t : *want) {
      all += t.kind + t.value + '\x01';
    }
    REQ_EQ(std::string(e.tokens, e.ntokens), all);
    std::string run;
    for (auto& t : convert(e.wildcards ? pw.get() : pn.get())) {
      run += t.kind + t.value + '\x01';
    }
    REQ_EQ(run, all);
  }
}
