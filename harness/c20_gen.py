"""Writes a table of route patterns that the compiler parses."""
import random, sys
out, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
R = random.Random(seed * 7919 + 20)
PCH = "abcxyzABZ019-._~!$&'()*+,;=:@"


def pch(lo, hi):
    s = ""
    for _ in range(R.randint(lo, hi)):
        s += ("%" + R.choice("0189aAfF") + R.choice("0189aAfF")) if R.random() < .1 else \
            (R.choice("abc") if R.random() < .7 else R.choice(PCH))
    return s


def pattern():
    s = pch(0, 3) if R.random() < .12 else ""
    for _ in range(R.randint(0, 4)):
        s += "/" + ("{" + pch(1, 3) + "}" if R.random() < .4 else pch(0, 4))
    if R.random() < .35:
        s += ("/" if R.random() < .7 else "") + "#" + pch(0 if R.random() < .1 else 1, 4)
    return s


def mutate(s):
    for _ in range(R.randint(1, 2)):
        k = R.randint(0, len(s))
        ch = R.choice("/{}#%a0\"? []\x00\x80~") if R.random() < .8 else chr(R.randint(0, 255))
        r = R.random()
        if s and r < .3:
            s = s[:k] + s[k + 1:]
        elif s and r < .5:
            s = s[:k] + ch + s[k + 1:]
        else:
            s = s[:k] + ch + s[k:]
    return s


n = 220 if tier == "quick" else 900
pats = []
for _ in range(n):
    p = pattern()
    pats.append(p if R.random() < .55 else mutate(p))
with open(out, "w") as f:
    f.write('''#include "c20_table.hpp"
#include <fitoria/web/path_parser.hpp>
#include <array>
#include <type_traits>
using namespace fitoria;
using namespace fitoria::web;
namespace {
struct digest {
  bool ok = false;
  std::size_t n = 0;
  std::array<char, 96> text {};
};
template <basic_fixed_string P, bool W>
constexpr digest run()
{
  digest d;
  path_parser<W> p;
  d.ok = p.template parse<P>();
  if (d.ok) {
    for (auto& t : p.get()) {
      if (t.kind == path_token_kind::static_ && t.value.empty()) {
        continue;
      }
      d.text[d.n++] = t.kind == path_token_kind::static_ ? 's'
          : t.kind == path_token_kind::param             ? 'p'
                                                         : 'w';
      for (char c : t.value) {
        d.text[d.n++] = c;
      }
      d.text[d.n++] = '\\x01';
    }
  }
  return d;
}
template <basic_fixed_string P, bool W>
concept constant = requires { typename std::bool_constant<(run<P, W>(), true)>; };
template <basic_fixed_string P, bool W>
void add(std::vector<c20::entry>& v, const char* s, std::size_t n)
{
  if constexpr (constant<P, W>) {
    static constexpr digest d = run<P, W>();
    v.push_back({ s, n, W, true, d.ok, d.text.data(), d.n });
  } else {
    v.push_back({ s, n, W, false, false, "", 0 });
  }
}
}
const std::vector<c20::entry>& c20::table()
{
  static const std::vector<entry> v = [] {
    std::vector<entry> v;
''')
    for p in pats:
        b = p.encode("latin-1")
        lit = '"' + "".join("\\%03o" % x if x < 32 or x > 126 or chr(x) in '"\\?' else chr(x) for x in b) + '"'
        f.write("    add<%s, %s>(v, %s, %d);\n" % (lit, "true" if R.random() < .6 else "false", lit, len(b)))
    f.write('''    return v;
  }();
  return v;
}
''')
