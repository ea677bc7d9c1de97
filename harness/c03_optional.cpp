// C03: an optional value behaves like "a value or nothing" after any history.
#include "optional_history.hpp"
#include "pbt.hpp"
#include <fmt/format.h>
#include <string>

static pbt::Rule rule(
    "random histories (mean 12, at most 40 steps) over three optionals and two "
    "convertible source optionals, applied to the implementation and to a "
    "std::optional<long> model; non-trivial: at least two steps switched an "
    "optional between empty and engaged");

SECTION("int", 100000, 1500000) { oh::run_model<int>(c); }
SECTION("trivially copyable struct", 100000, 1500000) { oh::run_model<el::TrivT<1>>(c); }
SECTION("heap-owning", 120000, 1500000) { oh::run_model<el::HeapT<1, true>>(c); }
SECTION("formatting and text values", 60000, 600000)
{
  using O = fitoria::optional<std::string>;
  auto text = c.ascii(12);
  bool engaged = c.chance(3, 4);
  auto spec = c.pick({ "{}", "{:>20}", "{:*<15}", "{:^9}", "{:.3}" });
  c.in("text", text);
  c.in("engaged", engaged);
  c.in("spec", spec);
  c.nontrivial(engaged && !text.empty());
  O o;
  fitoria::optional<const char*> p;
  if (engaged) {
    p = text.c_str();
    o = p;
  }
  REQ_EQ(o.has_value(), engaged);
  if (engaged) {
    REQ_EQ(*o, text);
    REQ_EQ(fmt::format(fmt::runtime(spec), o),
           fmt::format(fmt::runtime(spec), text));
  } else {
    REQ_EQ(fmt::format("{}", o), std::string("{nullopt}"));
  }
  O q(p);
  REQ_EQ(q.has_value(), engaged);
  fitoria::optional<std::string> r
      = c.chance(1, 2) ? O(std::in_place, 5, 'x') : O(std::in_place, { 'a' });
  REQ(*r == "xxxxx" || *r == "a");
  swap(o, r);
  REQ_EQ(r.has_value(), engaged);
  REQ(r.value_or("fallback") == (engaged ? text : std::string("fallback")));
}
