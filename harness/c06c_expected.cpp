#include "expected_history.hpp"
#include <fmt/format.h>

SECTION("trivial constructors only", 60000, 600000)
{
  eh::run_model<el::AsgT<1>, el::AsgT<2>>(c);
}
SECTION("copyable / move-only", 80000, 1000000)
{
  eh::run_model<el::HeapT<1, true>, el::HeapT<2, false>>(c);
}
SECTION("move-only / copyable", 80000, 1000000)
{
  eh::run_model<el::HeapT<1, false>, el::HeapT<2, true>>(c);
}

namespace fi = fitoria;

SECTION("default construction, text payloads, formatting", 60000, 600000)
{
  using X = fi::expected<std::string, std::string>;
  auto a = c.ascii(20), b = c.ascii(20);
  bool has = c.chance(1, 2);
  auto spec = c.pick({ "{}", "{:>24}", "{:*<15}", "{:^9}", "{:.3}" });
  c.in("a", a);
  c.in("b", b);
  c.in("has", has);
  c.in("spec", spec);
  c.nontrivial(a != b);
  slot<X> s;
  s.make();
  REQ(s.get().has_value() && s.get()->empty());
  slot<fi::expected<int, std::string>> d;
  d.make();
  REQ(d.get().has_value() && *d.get() == 0);
  X& x = s.get();
  if (has) {
    x = a;
  } else {
    x = fi::unexpected(a);
  }
  REQ_EQ(x.has_value(), has);
  REQ_EQ(has ? *x : x.error(), a);
  REQ_EQ(fmt::format(fmt::runtime(spec), x),
         has ? fmt::format(fmt::runtime(spec), a)
             : std::string("{unexpected}"));
  X y = has ? X(fi::unexpect, b) : X(std::in_place, b);
  swap(x, y);
  REQ_EQ(y.has_value(), has);
  REQ_EQ(x.has_value(), !has);
  REQ_EQ(has ? x.error() : *x, b);
  REQ_EQ(has ? *y : y.error(), a);
  // unexpected itself
  fi::unexpected<std::string> u(a), w(std::in_place, 3, 'q'),
      l(std::in_place, { 'x', 'y' });
  REQ_EQ(w.error(), std::string("qqq"));
  REQ_EQ(l.error(), std::string("xy"));
  swap(u, w);
  REQ_EQ(w.error(), a);
  REQ_EQ(u.error(), std::string("qqq"));
  u.swap(w);
  REQ_EQ(u.error(), a);
  REQ(u == fi::unexpected(a));
  REQ((u == fi::unexpected(b)) == (a == b));
  std::string moved = std::move(u).error();
  REQ_EQ(moved, a);
}
