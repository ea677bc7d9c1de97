// C12: entity tags round-trip and compare as prescribed.
#include "etag_ref.hpp"
#include <fitoria/http/header/entity_tag.hpp>

static pbt::Rule rule(
    "well-formed tags over every entity-tag character, mutations of them, "
    "arbitrary byte strings, and histories of the setters with pairwise "
    "comparison; non-trivial: a well-formed tag, a text one to three edits away "
    "from one, or a pair of tags agreeing in text or strength");

namespace fi = fitoria;
using tag = fi::http::header::entity_tag;
namespace {
void judge(pbt::Case& c, const std::string& s)
{
  c.in("text", s);
  text::placed p(c, s, "W/\"", "\"\"");
  auto got = tag::parse(p);
  auto want = ref::parse_etag(s);
  REQ_EQ(got.has_value(), want.has_value());
  c.label(want ? "accepted" : "refused");
  if (!want) {
    return;
  }
  p.mem.reset(); // the tag keeps its own text
  REQ_EQ(got->strong(), want->strong);
  REQ_EQ(got->value(), want->value);
  REQ_EQ(got->to_string(), s);
  auto again = tag::parse(got->to_string());
  REQ(again.has_value());
  REQ(*again == *got);
}
}

SECTION("well-formed tags", 300000, 6000000)
{
  auto e = ref::gen_etag(c, 60);
  c.nontrivial();
  judge(c, e.text());
}

SECTION("every single character", 40000, 200000)
{
  std::string s = "\"ab\"";
  auto at = c.below(3);
  s.insert(1 + at, 1, static_cast<char>(c.below(256)));
  if (c.chance(1, 2)) {
    s = "W/" + s;
  }
  c.nontrivial();
  judge(c, s);
}

SECTION("mutated tags", 400000, 8000000)
{
  auto s = text::mutate(c, ref::gen_etag(c, 8).text(), "\"\"W/w \t,\x7f");
  c.nontrivial();
  judge(c, s);
}

SECTION("short arbitrary text", 400000, 8000000)
{
  std::string s;
  while (c.more(s.size(), 12, 5)) {
    s += c.chance(1, 8) ? static_cast<char>(c.below(256))
                        : "\"W/wa \x80\x7f,"[c.below(9)];
  }
  c.nontrivial(s.size() >= 2 && s.find('"') != s.npos);
  judge(c, s);
}

SECTION("comparison", 200000, 4000000)
{
  auto a = ref::gen_etag(c, 4);
  auto b = c.chance(1, 2) ? a : ref::gen_etag(c, 4);
  if (c.chance(1, 3)) {
    b.strong = !b.strong;
  }
  if (c.chance(1, 4)) {
    b.value = text::mutate(c, b.value, "ab");
  }
  if (c.chance(1, 8)) {
    b.value = text::flip(c, b.value);
  }
  c.in("a strong", a.strong);
  c.in("a", a.value);
  c.in("b strong", b.strong);
  c.in("b", b.value);
  c.nontrivial(a.value == b.value || a.strong == b.strong);
  tag x(a.strong, a.value), y(b.strong, b.value);
  REQ_EQ(x == y, a == b);
  REQ_EQ(y == x, a == b);
  REQ_EQ(x != y, !(a == b));
  REQ_EQ(x.weakly_equal_to(y), a.value == b.value);
  REQ_EQ(y.weakly_equal_to(x), a.value == b.value);
  REQ(x == x);
  REQ(x.weakly_equal_to(x));
  // the tags' texts agree exactly when the tags do
  REQ_EQ(x.to_string() == y.to_string(), a == b);
}

SECTION("setters", 150000, 3000000)
{
  auto m = ref::gen_etag(c, 6);
  c.in("strong", m.strong);
  c.in("value", m.value);
  auto t = c.chance(1, 2) ? tag(m.strong, m.value)
      : m.strong          ? tag::make_strong(m.value)
                          : tag::make_weak(m.value);
  for (int i = 0; c.more(i, 8, 4); ++i) {
    switch (c.below(6)) {
    case 0:
      m.strong = c.chance(1, 2);
      c.op("set_strong&", m.strong);
      REQ(&t.set_strong(m.strong) == &t);
      break;
    case 1:
      m.value = ref::gen_opaque(c, 6);
      c.op("set_value&", m.value);
      REQ(&t.set_value(m.value) == &t);
      break;
    case 2: {
      m.strong = c.chance(1, 2);
      c.op("set_strong&&", m.strong);
      tag u = std::move(t).set_strong(m.strong);
      t = std::move(u);
      break;
    }
    case 3: {
      m.value = ref::gen_opaque(c, 6);
      c.op("set_value&&", m.value);
      tag u = std::move(t).set_value(m.value);
      t = std::move(u);
      break;
    }
    case 4: {
      c.op("copy");
      tag u = t;
      REQ(u == t);
      u.set_value("other").set_strong(!m.strong);
      break;
    }
    default: {
      c.op("reparse");
      auto u = tag::parse(t.to_string());
      REQ(u.has_value());
      t = *u;
    }
    }
    c.nontrivial();
    REQ_EQ(t.strong(), m.strong);
    REQ_EQ(t.value(), m.value);
    REQ_EQ(t.to_string(), m.text());
  }
}
