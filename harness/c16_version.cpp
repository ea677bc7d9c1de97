// C16: HTTP versions convert consistently between all representations.
#include "text.hpp"
#include <fitoria/http/version.hpp>
#include <fmt/xchar.h>

static pbt::Rule rule(
    "every enumerator, every value of the underlying type, integers uniform, "
    "small and around the known numbers, and format strings that place several "
    "versions among other text; non-trivial: all");

namespace fi = fitoria;
using fi::http::version;
namespace {
struct row {
  version v;
  unsigned n;
  const char* text;
};
const row rows[] = {
  { version::v0_9, 9, "0.9" },  { version::v1_0, 10, "1.0" },
  { version::v1_1, 11, "1.1" }, { version::v2_0, 20, "2.0" },
  { version::v3_0, 30, "3.0" },
};
const row* by_number(unsigned n)
{
  for (auto& r : rows) {
    if (r.n == n) {
      return &r;
    }
  }
  return nullptr;
}
const row* by_version(version v)
{
  for (auto& r : rows) {
    if (r.v == v) {
      return &r;
    }
  }
  return nullptr;
}
std::string text_of(version v)
{
  auto r = by_version(v);
  return r ? r->text : "unknown";
}
version any_version(pbt::Case& c)
{
  return c.chance(3, 4) ? static_cast<version>(c.below(6))
                        : static_cast<version>(c.below(256));
}
}

SECTION("numbers", 300000, 5000000)
{
  unsigned n;
  switch (c.below(4)) {
  case 0:
    n = static_cast<unsigned>(c.below(300));
    break;
  case 1:
    n = rows[c.below(5)].n + (static_cast<unsigned>(c.below(32)) << c.below(28));
    break;
  case 2:
    n = ~0u - static_cast<unsigned>(c.below(64));
    break;
  default:
    n = static_cast<unsigned>(c.raw());
  }
  c.in("number", n);
  c.nontrivial();
  auto r = by_number(n);
  auto v = fi::http::detail::from_impl_version(n);
  REQ_EQ(v, r ? r->v : version::unknown);
  if (r) {
    REQ_EQ(fi::http::detail::to_impl_version(v), n);
    REQ_EQ(to_string(v), std::string(r->text));
  }
}

SECTION("enumerators", 20000, 100000)
{
  auto v = any_version(c);
  c.in("version", static_cast<unsigned>(v));
  c.nontrivial();
  auto r = by_version(v);
  auto n = fi::http::detail::to_impl_version(v);
  REQ_EQ(n, r ? r->n : 11u);
  REQ_EQ(to_string(v), text_of(v));
  if (r) {
    REQ_EQ(fi::http::detail::from_impl_version(n), v);
  }
  for (auto& o : rows) {
    REQ_EQ(to_string(o.v) == to_string(v), o.v == v);
  }
}

SECTION("formatting", 100000, 2000000)
{
  auto a = any_version(c), b = any_version(c);
  c.in("a", static_cast<unsigned>(a));
  c.in("b", static_cast<unsigned>(b));
  c.nontrivial();
  std::string f, want;
  for (int i = 0; c.more(i, 10, 5); ++i) {
    switch (c.below(5)) {
    case 0:
      f += "{0}";
      want += text_of(a);
      break;
    case 1:
      f += "{1}";
      want += text_of(b);
      break;
    case 2:
      f += "{v}";
      want += text_of(a);
      break;
    case 3:
      f += c.chance(1, 2) ? "{{" : "}}";
      want += f.back();
      break;
    default: {
      auto s = c.str("abHTP/. :", 6, 3);
      f += s;
      want += s;
    }
    }
  }
  c.in("format", f);
  REQ_EQ(fmt::format(fmt::runtime(f), a, b, fmt::arg("v", a)), want);
  REQ_EQ(fmt::format("{}{}", a, b), text_of(a) + text_of(b));
  std::string out;
  fmt::format_to(std::back_inserter(out), "<{}>", b);
  REQ_EQ(out, "<" + text_of(b) + ">");
  auto w = fmt::format(L"{}", a);
  REQ(w == std::wstring(w.begin(), w.end()));
  REQ_EQ(std::string(w.begin(), w.end()), text_of(a));
}

SECTION("format specifications are refused", 20000, 200000)
{
  auto v = any_version(c);
  std::string spec;
  do {
    spec += "<>^0123456789sdx#+- ."[c.below(21)];
  } while (c.more(spec.size(), 6, 2));
  c.in("version", static_cast<unsigned>(v));
  c.in("spec", spec);
  c.nontrivial();
  bool refused = false;
  std::string got;
  try {
    got = fmt::format(fmt::runtime("{:" + spec + "}"), v);
  } catch (const fmt::format_error&) {
    refused = true;
  }
  // never half-applied or wrong text
  REQM(refused || text::trim(got).find(text_of(v)) != std::string::npos, got);
  REQ(refused);
}
