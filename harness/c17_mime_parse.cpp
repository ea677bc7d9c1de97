// C17: media types parse into the parts their text spells out.
#include "mime_ref.hpp"
#include <fitoria/mime/mime_view.hpp>

static pbt::Rule rule(
    "media types over every name character with suffixes, parameters, repeated "
    "parameter names and whitespace around every piece, mutations of them, short "
    "arbitrary text, and pairs for comparison; non-trivial: a well-formed type, "
    "a text a few edits away from one, or a pair equal up to case");

namespace fi = fitoria;
using fi::mime::mime_view;
using fi::mime::name_view;
namespace {
std::string str(name_view v)
{
  return std::string(static_cast<std::string_view>(v));
}
void judge(pbt::Case& c, const std::string& s)
{
  c.in("text", s);
  text::placed p(c, s, "x/", "+y");
  auto got = mime_view::parse(p);
  auto want = ref::parse_mime(s);
  REQ_EQ(got.has_value(), want.has_value());
  c.label(want ? "accepted" : "refused");
  if (!want) {
    return;
  }
  REQ_EQ(str(got->type()), want->type);
  REQ_EQ(str(got->subtype()), want->subtype);
  REQ_EQ(got->suffix().has_value(), want->suffix.has_value());
  if (want->suffix) {
    c.label("suffix");
    REQ_EQ(str(*got->suffix()), *want->suffix);
  }
  REQ_EQ(str(got->essence()), want->essence);
  REQ_EQ(str(got->source()), s);
  REQ_EQ(std::string(static_cast<std::string_view>(*got)), s);
  REQ_EQ(fmt::format("{}", *got), s);
  auto& params = got->params();
  REQ_EQ(params.size(), want->params.size());
  REQ_EQ(params.empty(), want->params.empty());
  for (auto& [k, v] : want->params) {
    c.label("parameter");
    REQ(params.contains(k.c_str()));
    REQ_EQ(str(*params.get(k.c_str())), v);
  }
  // copies are the same type
  auto copy = *got;
  REQ(copy == *got);
  // reparsing the reported source gives the same pieces
  auto again = mime_view::parse(static_cast<std::string_view>(*got));
  REQ(again.has_value());
  REQ(*again == *got);
  REQ(again->params() == got->params());
}
}

SECTION("well-formed types", 250000, 4000000)
{
  auto s = ref::gen_mime(c, static_cast<unsigned>(c.below(4)));
  c.nontrivial();
  judge(c, s);
}

SECTION("every character in every place", 150000, 1000000)
{
  std::string s = c.pick({ "te/pl", "te/pl+xm", "te/pl;ch=ut", "te/pl+xm; ch=ut",
                           "te/pl;ch=ut;ab=cd" });
  s.insert(c.below(s.size() + 1), 1, static_cast<char>(c.below(256)));
  c.nontrivial();
  judge(c, s);
}

SECTION("mutated types", 400000, 6000000)
{
  auto s = text::mutate(c, ref::gen_mime(c, 1), "/+;= \t-._a");
  c.nontrivial();
  judge(c, s);
}

SECTION("short arbitrary text", 300000, 6000000)
{
  std::string s;
  while (c.more(s.size(), 14, 7)) {
    s += c.chance(1, 16) ? static_cast<char>(c.below(256))
                         : "a//b+;=a0 -_."[c.below(13)];
  }
  c.nontrivial(s.find('/') != s.npos);
  judge(c, s);
}

SECTION("equality and ordering", 200000, 4000000)
{
  auto a = ref::gen_mime(c, 0);
  auto b = c.chance(3, 4) ? text::flip(c, a) : ref::gen_mime(c, 0);
  if (c.chance(1, 4)) {
    b = text::mutate(c, b, "/+;= ab");
  }
  c.in("a", a);
  c.in("b", b);
  auto x = mime_view::parse(a), y = mime_view::parse(b);
  REQ(x.has_value());
  if (!y) {
    REQ_EQ(*x == std::string_view(b), text::lower(a) == text::lower(b));
    return;
  }
  int o = text::lower(a).compare(text::lower(b));
  bool eq = o == 0;
  c.nontrivial(eq || a.substr(0, 3) == b.substr(0, 3));
  REQ_EQ(*x == *y, eq);
  REQ_EQ(*y == *x, eq);
  REQ_EQ(*x != *y, !eq);
  REQ_EQ(*x == std::string_view(b), eq);
  REQ_EQ(*x != std::string_view(b), !eq);
  REQ_EQ(*x < *y, o < 0);
  REQ_EQ(*x > *y, o > 0);
  REQ_EQ(*x <= *y, o <= 0);
  REQ_EQ(*x >= *y, o >= 0);
  REQ_EQ(*x < std::string_view(b), o < 0);
  REQ_EQ(*x > std::string_view(b), o > 0);
  REQ_EQ((*y <=> *x) < 0, o > 0);
  if (eq) {
    REQ(x->type() == y->type());
    REQ(x->subtype() == y->subtype());
    REQ(x->essence() == y->essence());
    REQ(x->suffix() == y->suffix());
    REQ(x->params() == y->params());
  }
}
