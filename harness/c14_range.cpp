// C14: a parsed byte range is the one its text denotes, without wrap-around.
#include "text.hpp"
#include <fitoria/http/header/range.hpp>
#include <limits>
#include <optional>
#include <vector>

static pbt::Rule rule(
    "units and lists of ranges whose numbers sit around the resource size, "
    "around 0, 2^32, 2^63 and 2^64, for resource sizes over the whole 64-bit "
    "range, mutations of such texts, and short arbitrary text; non-trivial: a "
    "text that is a range of some kind or a few edits away from one");

namespace fi = fitoria;
using header = fi::http::header::range;
using u64 = std::uint64_t;
namespace {
constexpr u64 max64 = std::numeric_limits<u64>::max();
struct sub {
  u64 off, len;
};
// What a text denotes.  `must_refuse`/`must_accept` are both false where the
// property leaves it open (an empty unit or one that is not a token,
// whitespace between the parts of one range, an empty result, an end that only
// just fits); an accepted text must always yield `subs`.
struct verdict {
  bool must_refuse = false, must_accept = true;
  std::string unit;
  std::vector<sub> subs;
};
bool number(const std::string& s, u64& v)
{
  if (s.empty()) {
    return false;
  }
  unsigned __int128 r = 0;
  for (char ch : s) {
    if (ch < '0' || ch > '9') {
      return false;
    }
    r = r * 10 + static_cast<unsigned>(ch - '0');
    if (r > max64) {
      return false;
    }
  }
  v = static_cast<u64>(r);
  return true;
}
std::vector<std::string> cut(const std::string& s, char d)
{
  std::vector<std::string> out(1);
  for (char ch : s) {
    if (ch == d) {
      out.emplace_back();
    } else {
      out.back() += ch;
    }
  }
  return out;
}
verdict refuse()
{
  verdict v;
  v.must_refuse = true;
  v.must_accept = false;
  return v;
}
bool token(const std::string& s)
{
  for (char ch : s) {
    bool ok = (ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'z')
        || (ch >= 'A' && ch <= 'Z')
        || std::string_view("!#$%&'*+-.^_`|~").find(ch) != std::string_view::npos;
    if (!ok) {
      return false;
    }
  }
  return !s.empty();
}
verdict denote(const std::string& s, u64 total)
{
  verdict v;
  auto parts = cut(s, '=');
  if (parts.size() != 2) {
    return refuse();
  }
  v.unit = text::trim(parts[0]);
  if (!token(v.unit)) {
    v.must_accept = false;
  }
  if (v.unit != parts[0] || text::trim(parts[1]) != parts[1]) {
    v.must_accept = false; // whitespace around the header's parts
  }
  auto body = text::trim(parts[1]);
  if (!body.empty() && body[0] == '-') {
    auto num = body.substr(1);
    u64 n;
    if (!number(num, n)) {
      if (number(text::trim(num), n)) {
        v.must_accept = false;
      } else {
        return refuse();
      }
    }
    if (n == 0 || total == 0) {
      v.must_accept = false;
    }
    n = std::min(n, total);
    v.subs.push_back({ total - n, n });
    return v;
  }
  for (auto& raw : cut(body, ',')) {
    auto item = text::trim(raw);
    auto ends = cut(item, '-');
    if (ends.size() != 2) {
      return refuse();
    }
    auto l = text::trim(ends[0]), r = text::trim(ends[1]);
    if (l != ends[0] || r != ends[1]) {
      v.must_accept = false;
    }
    u64 a, b;
    if (!number(l, a)) {
      return refuse();
    }
    if (r.empty()) {
      if (a >= total) {
        return refuse();
      }
      v.subs.push_back({ a, total - a });
      continue;
    }
    if (!number(r, b) || a > b) {
      return refuse();
    }
    if (b == max64) { // one past the end is not representable
      if (a == 0) {
        return refuse();
      }
      v.must_accept = false;
    }
    v.subs.push_back({ a, b - a + 1 });
  }
  return v;
}
void judge(pbt::Case& c, const std::string& s, u64 total)
{
  c.in("text", s);
  c.in("total", total);
  text::placed p(c, s, "1", "9");
  auto got = header::parse(p, total);
  auto want = denote(s, total);
  c.label(got ? "accepted" : "refused");
  if (want.must_refuse) {
    REQ(!got.has_value());
    return;
  }
  if (want.must_accept) {
    REQ(got.has_value());
  }
  if (!got) {
    return;
  }
  p.mem.reset();
  REQ_EQ(got->unit(), want.unit);
  REQ_EQ(got->size(), want.subs.size());
  std::size_t i = 0;
  for (auto& sr : *got) {
    REQ_EQ(sr.offset, want.subs[i].off);
    REQ_EQ(sr.length, want.subs[i].len);
    REQ(&sr == &(*got)[i] && &sr == &got->at(i));
    ++i;
  }
  REQ_EQ(i, want.subs.size());
  const auto& k = *got;
  REQ(static_cast<std::size_t>(k.cend() - k.cbegin()) == i);
  REQ(static_cast<std::size_t>(k.end() - k.begin()) == i);
}
u64 gen_total(pbt::Case& c)
{
  switch (c.below(5)) {
  case 0:
    return c.below(20);
  case 1:
    return c.below(100000);
  case 2:
    return max64 - c.below(5);
  case 3:
    return (u64(1) << c.pick({ 31, 32, 53, 62, 63 })) + c.below(5) - 2;
  default:
    return c.raw() >> c.below(64);
  }
}
std::string gen_number(pbt::Case& c, u64 total)
{
  u64 n;
  switch (c.below(7)) {
  case 0:
    n = c.below(20);
    break;
  case 1:
    n = total + c.below(7) - 3; // may wrap: then it is a number near 2^64
    break;
  case 2:
    n = total ? c.below(total) : 0;
    break;
  case 3:
    n = max64 - c.below(4);
    break;
  case 4:
    n = c.raw() >> c.below(64);
    break;
  case 5: // does not fit
    return c.pick({ "18446744073709551616", "18446744073709551620",
                    "99999999999999999999", "36893488147419103232",
                    "100000000000000000000000000000000000000000" });
  default:
    n = c.below(1000);
  }
  return std::string(c.chance(1, 12) ? 1 + c.below(4) : 0, '0')
      + std::to_string(n);
}
std::string gen_unit(pbt::Case& c)
{
  if (!c.chance(1, 3)) {
    return "bytes";
  }
  std::string s;
  do {
    s += "abyz-BYTES.09"[c.below(13)];
  } while (c.more(s.size(), 8, 3));
  return s;
}
std::string gen_sub(pbt::Case& c, u64 total)
{
  auto a = gen_number(c, total);
  if (c.chance(1, 3)) {
    return a + "-";
  }
  auto b = gen_number(c, total);
  u64 x, y;
  if (!c.chance(1, 8) && number(a, x) && number(b, y) && x > y) {
    std::swap(a, b);
  }
  return a + "-" + b;
}
std::string gen_range(pbt::Case& c, u64 total)
{
  auto s = gen_unit(c) + "=";
  if (c.chance(1, 3)) {
    return s + "-" + gen_number(c, total);
  }
  std::size_t n = 0;
  do {
    if (n) {
      s += std::string(c.below(2), ' ') + "," + std::string(c.below(3), ' ');
    }
    s += gen_sub(c, total);
    ++n;
  } while (c.more(n, 8, 1));
  return s;
}
}

SECTION("ranges", 500000, 10000000)
{
  auto total = gen_total(c);
  auto s = gen_range(c, total);
  c.nontrivial();
  judge(c, s, total);
}

SECTION("ranges well inside", 200000, 3000000)
{
  auto total = 1 + c.below(100000);
  std::string s = "bytes=";
  std::size_t n = 0;
  do {
    auto a = c.below(total), b = a + c.below(total - a);
    s += (n ? ", " : "") + std::to_string(a) + "-"
        + (c.chance(1, 4) ? "" : std::to_string(b));
    ++n;
  } while (c.more(n, 30, 3));
  c.nontrivial();
  judge(c, s, total);
}

SECTION("mutated ranges", 400000, 8000000)
{
  auto total = gen_total(c);
  auto s = text::mutate(c, gen_range(c, total), "0-19, ;=+-\tb");
  c.nontrivial();
  judge(c, s, total);
}

SECTION("short arbitrary text", 300000, 6000000)
{
  auto total = c.below(12);
  std::string s = c.chance(1, 2) ? "b=" : "";
  while (c.more(s.size(), 14, 6)) {
    s += c.chance(1, 12) ? static_cast<char>(c.below(256))
                         : "01-,= b-19"[c.below(10)];
  }
  c.nontrivial(s.find('-') != s.npos);
  judge(c, s, total);
}
