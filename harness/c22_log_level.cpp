// C22: log levels parse and filter as their order prescribes.
#include "text.hpp"
#include <cstdlib>
#include <fitoria/core/format.hpp>
#include <fitoria/log/filter.hpp>
#include <fitoria/log/level.hpp>

static pbt::Rule rule(
    "level names in every letter case and mutations of them, arbitrary text, "
    "lists of levels with repetitions, every threshold, and environment settings "
    "(absent, names, other text); non-trivial: a name or a text an edit away "
    "from one, or a filter allowing some but not all levels");

namespace fi = fitoria;
using fi::log::filter;
using fi::log::level;
namespace {
const char* names[] = { "TRACE", "DEBUG", "INFO", "WARNING", "ERROR", "FATAL" };
const level levels[] = { level::trace,   level::debug, level::info,
                         level::warning, level::error, level::fatal };
level ref_level(const std::string& s)
{
  for (int i = 0; i < 6; ++i) {
    if (text::lower(s) == text::lower(names[i])) {
      return levels[i];
    }
  }
  return level::off;
}
std::string gen_name(pbt::Case& c)
{
  std::string s = c.pick({ "trace", "DEBUG", "Info", "warning", "error", "fatal",
                           "off", "unknown", "warn", "" });
  s = text::flip(c, s);
  if (c.chance(1, 2)) {
    s = text::mutate(c, s, "tracedbuginfowl \n@[");
  }
  return s;
}
void judge(pbt::Case& c, const filter& f, unsigned want)
{
  for (int i = 0; i < 6; ++i) {
    REQM(f.is_allowed(levels[i]) == (((want >> i) & 1) != 0), names[i]);
  }
  REQ(!f.is_allowed(level::off));
  filter g = f;
  for (int i = 0; i < 6; ++i) {
    REQ_EQ(g.is_allowed(levels[i]), f.is_allowed(levels[i]));
  }
}
unsigned from(int lv)
{
  return 0x3fu & ~((1u << lv) - 1);
}
}

SECTION("names", 300000, 5000000)
{
  auto s = gen_name(c);
  c.in("text", s);
  c.nontrivial(!s.empty());
  text::placed p(c, s, "error", "g");
  auto lv = fi::log::to_level(p);
  REQ_EQ(lv, ref_level(s));
  c.label(lv == level::off ? "off" : "level");
  if (lv != level::off) {
    REQ_EQ(text::lower(to_string(lv)), text::lower(s));
  }
}

SECTION("texts of levels", 2000, 20000)
{
  auto i = c.below(6), j = c.below(6);
  c.in("level", i);
  c.in("other", j);
  c.nontrivial();
  auto t = to_string(levels[i]);
  REQ_EQ(t, std::string(names[i]));
  REQ_EQ(fi::log::to_level(t), levels[i]);
  REQ_EQ(fmt::format("{}|{:}", levels[i], levels[j]),
         t + "|" + to_string(levels[j]));
  REQ_EQ(t == to_string(levels[j]), i == j);
  // the text of no level reads back as a level
  REQ_EQ(fi::log::to_level(to_string(level::off)), level::off);
  REQ(levels[i] < level::off);
  REQ_EQ(levels[i] < levels[j], i < j);
}

SECTION("lists", 100000, 1000000)
{
  unsigned want = 0;
  level l[7];
  std::size_t n = 0;
  while (c.more(n, 7, 4)) {
    auto k = c.below(7);
    c.op("allow", k < 6 ? names[k] : "off");
    l[n++] = k < 6 ? levels[k] : level::off;
    want |= k < 6 ? 1u << k : 0;
  }
  c.nontrivial(want != 0 && want != 0x3f);
  using il = std::initializer_list<level>;
  filter f = n == 0 ? filter(il {})
      : n == 1      ? filter(il { l[0] })
      : n == 2      ? filter(il { l[0], l[1] })
      : n == 3      ? filter(il { l[0], l[1], l[2] })
      : n == 4      ? filter(il { l[0], l[1], l[2], l[3] })
      : n == 5      ? filter(il { l[0], l[1], l[2], l[3], l[4] })
      : n == 6      ? filter(il { l[0], l[1], l[2], l[3], l[4], l[5] })
                    : filter(il { l[0], l[1], l[2], l[3], l[4], l[5], l[6] });
  judge(c, f, want);
}

SECTION("thresholds", 20000, 100000)
{
  auto k = static_cast<int>(c.below(8));
  c.in("threshold", k);
  c.nontrivial();
  if (k == 7) {
    judge(c, filter::all(), 0x3f);
  } else if (k == 6) {
    judge(c, filter::at_least(level::off), 0);
  } else {
    judge(c, filter::at_least(levels[k]), from(k));
  }
}

SECTION("environment", 100000, 1000000)
{
  if (c.chance(1, 10)) {
    c.note("not set");
    unsetenv("CPP_LOG");
    judge(c, filter::from_env(), 0);
    return;
  }
  auto s = gen_name(c);
  s = s.substr(0, s.find('\0'));
  c.in("CPP_LOG", s);
  setenv("CPP_LOG", s.c_str(), 1);
  auto lv = ref_level(s);
  c.nontrivial();
  auto f = filter::from_env();
  unsetenv("CPP_LOG"); // the filter does not look again
  judge(c, f, lv == level::off ? 0 : from(static_cast<int>(lv)));
}
