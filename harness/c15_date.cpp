// C15: dates print as IMF-fixdate and keep the instant.
#include "text.hpp"
#include <cstdlib>
#include <ctime>
#include <fitoria/http/header/date.hpp>

static pbt::Rule rule(
    "instants over the whole range both clocks can represent: uniform, around "
    "second/day/month/year/leap boundaries and 1970, with sub-second parts, "
    "conversions under several local time zones; non-trivial: not a whole second of the "
    "21st century");

namespace fi = fitoria;
using date = fi::http::header::date;
using utc = fi::chrono::utc_clock;
using utc_tp = std::chrono::time_point<utc>;
using file_tp = std::chrono::time_point<std::chrono::file_clock>;
using i64 = std::int64_t;
using i128 = __int128;
namespace {
static_assert(std::is_same_v<utc::duration, std::chrono::nanoseconds>);
constexpr i64 G = 1000000000;
// the part of the 64-bit nanosecond range that both clocks can represent
constexpr i64 file_epoch = 6437664000; // 2174-01-01, in seconds from 1970
constexpr i64 lo_ns = INT64_MIN + file_epoch * G;
constexpr i64 hi_ns = INT64_MAX - 1; // (std::chrono::round steps over the last one)

bool leap(i64 y)
{
  return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
}
// walks the calendar from 1970-01-01, a Thursday
std::string imf(i64 ns)
{
  static const char* wd[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };
  static const char* mn[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun",
                              "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
  i64 s = ns / G - (ns % G < 0);
  i64 d = s / 86400 - (s % 86400 < 0), t = s - d * 86400;
  i64 w = ((d + 4) % 7 + 7) % 7;
  i64 y = 1970;
  while (d < 0) {
    --y;
    d += leap(y) ? 366 : 365;
  }
  while (d >= (leap(y) ? 366 : 365)) {
    d -= leap(y) ? 366 : 365;
    ++y;
  }
  int m = 0;
  for (;; ++m) {
    int len = m == 1 ? (leap(y) ? 29 : 28)
        : m == 3 || m == 5 || m == 8 || m == 10 ? 30
                                                : 31;
    if (d < len) {
      break;
    }
    d -= len;
  }
  char buf[64];
  std::snprintf(buf, sizeof buf, "%s, %02d %s %04d %02d:%02d:%02d GMT", wd[w],
                int(d + 1), mn[m], int(y), int(t / 3600), int(t / 60 % 60),
                int(t % 60));
  return buf;
}
i64 days_of(i64 y, int month, int day)
{
  i64 d = 0;
  for (i64 k = 1970; k < y; ++k) {
    d += leap(k) ? 366 : 365;
  }
  for (i64 k = y; k < 1970; ++k) {
    d -= leap(k) ? 366 : 365;
  }
  for (int m = 0; m < month; ++m) {
    d += m == 1 ? (leap(y) ? 29 : 28)
        : m == 3 || m == 5 || m == 8 || m == 10 ? 30
                                                : 31;
  }
  return d + day;
}
i64 clamp(i128 v)
{
  return v < lo_ns ? lo_ns : v > hi_ns ? hi_ns : static_cast<i64>(v);
}
i64 gen(pbt::Case& c)
{
  i64 jitter = c.pick<i64>({ 0, 1, -1, 999999999, 500000000, -500000000,
                             499999999, 1000000, -1000000, G, -G });
  switch (c.below(6)) {
  case 0: // a calendar boundary
    return clamp((i128)days_of(c.range(1883, 2261), int(c.below(12)),
                               int(c.below(31)))
                     * 86400 * G
                 + jitter);
  case 1: // around the epoch
    return c.range(-200000, 200000) * G + jitter;
  case 2: // leap days and their neighbours
    return clamp((i128)(days_of(1884 + 4 * i64(c.below(94)), 1, 27)
                        + i64(c.below(4)))
                     * 86400 * G
                 + jitter);
  case 3: // a second of the near present, any sub-second part
    return clamp((i128)c.range(0, 4102444800) * G + c.range(0, G - 1));
  case 4: // the ends
    return c.chance(1, 2) ? lo_ns + i64(c.below(5000000000))
                          : hi_ns - i64(c.below(5000000000));
  default:
    return c.range(lo_ns, hi_ns);
  }
}
// Printing is only checked in UTC: the installed fmt (9.1) prints sys_time in
// local time, the fmt the project requires (10 or newer) in UTC.
void zone(pbt::Case& c, bool any)
{
  static const char* zones[] = { "UTC", "EST5EDT,M3.2.0,M11.1.0", "JST-9",
                                 "XXX+11:30", "YYY-14" };
  auto z = zones[any ? c.below(5) : 0];
  c.in("TZ", z);
  static std::string now;
  if (now != z) {
    now = z;
    setenv("TZ", z, 1);
    tzset();
  }
}
bool odd(i64 ns)
{
  return ns % G != 0 || ns < 946684800 * G || ns >= 4102444800 * G;
}
utc_tp at(i64 ns)
{
  return utc_tp(std::chrono::nanoseconds(ns));
}
file_tp file_at(i64 ns)
{
  return file_tp(std::chrono::nanoseconds(ns - file_epoch * G));
}
i64 file_ns(file_tp t) // nanoseconds since 1970 of a file time
{
  return t.time_since_epoch().count() + file_epoch * G;
}
}

SECTION("printing", 150000, 4000000)
{
  zone(c, false);
  auto ns = gen(c);
  c.in("ns since 1970", ns);
  c.nontrivial(odd(ns));
  bool file = c.chance(1, 2);
  c.in("from file clock", file);
  auto d = file ? date(file_at(ns)) : date(at(ns));
  REQ_EQ(d.to_string(), imf(ns));
  REQ_EQ(d.to_string(), imf(ns)); // printing does not change it
  REQ(d.utc_time() == at(ns));
}

SECTION("conversions keep the instant", 200000, 4000000)
{
  zone(c, true);
  auto ns = gen(c);
  c.in("ns since 1970", ns);
  c.nontrivial(odd(ns));
  auto t = at(ns);
  auto f = file_at(ns);
  // the two spellings of the instant do agree, says the standard library
  REQ(std::chrono::file_clock::to_sys(f) == t);
  date a(t), b(f);
  REQ(a.utc_time() == t);
  REQ(b.utc_time() == t);
  REQ_EQ(file_ns(a.file_time()), ns);
  REQ_EQ(file_ns(b.file_time()), ns);
  REQ(a == b);
  REQ((a <=> b) == std::strong_ordering::equal);
  REQ(fi::chrono::to_utc(f) == t);
  REQ(fi::chrono::from_utc(t) == f);
  REQ(date(a.file_time()).utc_time() == t);
  REQ(date(b.utc_time()).file_time() == f);
  // coarser clocks convert exactly
  auto sec = std::chrono::floor<std::chrono::seconds>(t);
  if (sec.time_since_epoch().count() * i128(G) >= lo_ns) {
    REQ_EQ(file_ns(fi::chrono::from_utc(sec)),
           i64(sec.time_since_epoch().count()) * G);
    auto fsec = std::chrono::floor<std::chrono::seconds>(f);
    if ((i128(fsec.time_since_epoch().count()) + file_epoch) * G >= lo_ns
        && fsec.time_since_epoch().count() * i128(G) >= INT64_MIN) {
      REQ_EQ(fi::chrono::to_utc(fsec).time_since_epoch().count(),
             (i64(fsec.time_since_epoch().count()) + file_epoch) * G);
    }
  }
}

SECTION("ordering", 200000, 4000000)
{
  auto a = gen(c);
  auto b = c.chance(1, 3) ? a
      : c.chance(1, 2)
      ? clamp(i128(a) + c.pick<i64>({ 1, -1, G, -G, 86400 * G, -86400 * G }))
      : gen(c);
  bool fa = c.chance(1, 2), fb = c.chance(1, 2);
  c.in("a", a);
  c.in("b", b);
  c.in("a from file clock", fa);
  c.in("b from file clock", fb);
  c.nontrivial(odd(a) || odd(b));
  auto x = fa ? date(file_at(a)) : date(at(a));
  auto y = fb ? date(file_at(b)) : date(at(b));
  REQ_EQ(x == y, a == b);
  REQ_EQ(x != y, a != b);
  REQ_EQ(x < y, a < b);
  REQ_EQ(x <= y, a <= b);
  REQ_EQ(x > y, a > b);
  REQ_EQ(x >= y, a >= b);
  REQ((x <=> y) == (a <=> b));
}
