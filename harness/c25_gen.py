"""Writes a table of compile-time string concatenations."""
import random, sys
out, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
R = random.Random(seed * 104729 + 25)


def text(lo, hi):
    return [R.choice([0, 34, 92, 63, 10, 0x7f]) if R.random() < .15 else
            R.randint(0, 255) if R.random() < .2 else ord(R.choice("abcXYZ019/{}#"))
            for _ in range(R.randint(lo, hi))]


def lit(t, pre):
    if pre == "":
        return '"' + "".join("\\%03o" % x if x < 32 or x > 126 or chr(x) in '"\\?' else chr(x) for x in t) + '"'
    # 16 and 32 bit units: ASCII and a few code points
    return pre + '"' + "".join("\\%03o" % (x & 127) if (x & 127) < 32 or chr(x & 127) in '"\\?\x7f' else chr(x & 127) for x in t) + '"'


n = 160 if tier == "quick" else 700
with open(out, "w") as f:
    f.write('''#include "c25_table.hpp"
#include <fitoria/core/fixed_string.hpp>
#include <type_traits>
using namespace fitoria;
namespace {
template <basic_fixed_string P>
struct holder { };
template <basic_fixed_string P>
struct raw {
  static constexpr auto value = P;
};
template <basic_fixed_string Want, basic_fixed_string Got>
void add(std::vector<c25::entry>& v, const char* what, const void* lit,
         std::size_t units)
{
  using U = std::remove_cvref_t<decltype(*Got.data())>;
  v.push_back({ what, static_cast<const char*>(lit), units * sizeof(U),
                reinterpret_cast<const char*>(raw<Got>::value.data()),
                Got.size() * sizeof(U), Got.size(), units, true,
                std::is_same_v<holder<Want>, holder<Got>> });
}
template <basic_fixed_string... Ps>
concept sums = requires { typename std::bool_constant<((Ps + ...), true)>; };
template <basic_fixed_string Want, basic_fixed_string... Ps>
void left(std::vector<c25::entry>& v, const void* lit, std::size_t units)
{
  if constexpr (sums<Ps...>) {
    add<Want, (... + Ps)>(v, "left to right", lit, units);
  } else {
    v.push_back({ "left to right", "", 0, "", 0, 0, 0, false, false });
  }
}
template <basic_fixed_string Want, basic_fixed_string... Ps>
void right(std::vector<c25::entry>& v, const void* lit, std::size_t units)
{
  if constexpr (sums<Ps...>) {
    add<Want, (Ps + ...)>(v, "right to left", lit, units);
  } else {
    v.push_back({ "right to left", "", 0, "", 0, 0, 0, false, false });
  }
}
}
const std::vector<c25::entry>& c25::table()
{
  static const std::vector<entry> v = [] {
    std::vector<entry> v;
''')
    for _ in range(n):
        pre = R.choice(["", "", "", "L", "u", "U"])
        parts = [text(0 if R.random() < .3 else 1, 9) for _ in range(R.randint(1, 4))]
        parts = [[x if pre == "" else x & 127 for x in p] for p in parts]
        whole = sum(parts, [])
        w = lit(whole, pre)
        f.write("    { static const auto& s = %s; %s<%s, %s>(v, s, %d); }\n" %
                (w, R.choice(["left", "right"]), w, ", ".join(lit(p, pre) for p in parts), len(whole)))
    f.write('''    return v;
  }();
  return v;
}
''')
