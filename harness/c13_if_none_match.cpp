// C13: If-None-Match parses to exactly the listed entity tags.
#include "etag_ref.hpp"
#include <fitoria/http/header/if_none_match.hpp>

static pbt::Rule rule(
    "lists of tags (opaque text may contain commas, asterisks and obs-text) "
    "with whitespace of every kind around the items, mutations of such lists, "
    "and short arbitrary text; non-trivial: a list with two or more tags, a "
    "comma inside a tag, the asterisk, or a text a few edits away from a list");

namespace fi = fitoria;
using header = fi::http::header::if_none_match;
namespace {
void judge(pbt::Case& c, const std::string& s)
{
  c.in("text", s);
  text::placed p(c, s, "\"a\",", ",\"b\"");
  auto got = header::parse(p);
  auto want = ref::parse_list(s);
  REQ_EQ(got.has_value(), want.has_value());
  c.label(!want ? "refused" : want->empty() ? "any" : "tags");
  if (!want) {
    return;
  }
  p.mem.reset();
  REQ_EQ(got->is_any(), want->empty());
  REQ_EQ(got->etags().size(), want->size());
  for (std::size_t i = 0; i < want->size(); ++i) {
    REQ_EQ(got->etags()[i].strong(), (*want)[i].strong);
    REQ_EQ(got->etags()[i].value(), (*want)[i].value);
  }
  std::size_t n = 0;
  for (auto& e : *got) {
    REQ(&e == &got->etags()[n]);
    ++n;
  }
  REQ_EQ(n, want->size());
  const auto& k = *got;
  REQ(static_cast<std::size_t>(k.end() - k.begin()) == n);
  REQ(k.cbegin() == k.begin() && k.cend() == k.end());
}
std::string ows(pbt::Case& c, bool wide = false)
{
  std::string s;
  while (c.more(s.size(), 4, 1)) {
    s += wide ? " \t\v\f\r\n"[c.below(6)] : " \t"[c.below(2)];
  }
  return s;
}
std::string gen_list(pbt::Case& c,
                     std::size_t max,
                     unsigned avg,
                     bool wide,
                     std::size_t* count = nullptr)
{
  std::string s;
  std::size_t n = 0;
  do {
    if (n) {
      s += ",";
    }
    s += ows(c, wide) + ref::gen_etag(c, 6).text() + ows(c, wide);
    ++n;
  } while (c.more(n, max, avg));
  if (count) {
    *count = n;
  }
  return s;
}
}

SECTION("serialised lists", 250000, 4000000)
{
  std::size_t n;
  auto s = gen_list(c, c.chance(1, 20) ? 200 : 6, 3, c.chance(1, 4), &n);
  c.nontrivial(n > 1);
  judge(c, s);
}

SECTION("list of the library's own tags", 60000, 1000000)
{
  std::vector<fi::http::header::entity_tag> tags;
  std::string s;
  do {
    auto e = ref::gen_etag(c, 8);
    c.in("tag", e.text());
    tags.emplace_back(e.strong, e.value);
    s += (s.empty() ? "" : ", ") + tags.back().to_string();
  } while (c.more(tags.size(), 8, 3));
  c.nontrivial(tags.size() > 1);
  auto got = header::parse(s);
  REQ(got.has_value());
  REQ(!got->is_any());
  REQ(got->etags() == tags);
}

SECTION("asterisk", 60000, 600000)
{
  std::string s = ows(c, true) + "*" + ows(c, true);
  if (c.chance(1, 2)) {
    s = text::mutate(c, s, " *,\"W/");
  }
  c.nontrivial();
  judge(c, s);
}

SECTION("mutated lists", 400000, 8000000)
{
  auto s = text::mutate(c, gen_list(c, 4, 2, false), "\"\",, \tW/*");
  c.nontrivial();
  judge(c, s);
}

SECTION("short arbitrary text", 400000, 8000000)
{
  std::string s;
  while (c.more(s.size(), 16, 7)) {
    s += c.chance(1, 10) ? static_cast<char>(c.below(256))
                         : "\"\"W/a ,\t*"[c.below(9)];
  }
  c.nontrivial(s.find('"') != s.npos || s.find('*') != s.npos);
  judge(c, s);
}
