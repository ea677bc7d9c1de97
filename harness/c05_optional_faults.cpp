// C05: optional never leaks, double-destroys or breaks when a value throws.
#include "optional_history.hpp"
#include "pbt.hpp"

static pbt::Rule rule(
    "random histories as in C03 over element types that register their "
    "lifetimes and throw from a chosen construction, copy, move or assignment "
    "(each step picks whether and at which element operation to throw); "
    "non-trivial: at least one operation threw, or two switches between empty "
    "and engaged");

namespace {
template <typename T, bool Faults>
void run(pbt::Case& c)
{
  el::reg().reset();
  {
    oh::history<T, Faults> h(c);
    h.verify();
    h.balance(1);
    while (c.more(h.len, 40, 12)) {
      ++h.len;
      h.step();
      h.balance(1);
    }
    c.nontrivial(el::reg().faults > 0 || h.engaged_switches >= 2);
    c.label(el::reg().faults > 0 ? "history with a throw" : "no throw");
  }
  if (!el::reg().error.empty()) {
    c.fail("lifetime: " + el::reg().error);
  }
  REQM(el::reg().live.empty(), "elements left alive at the end");
  REQ_EQ(el::reg().constructed, el::reg().destroyed);
}
}

SECTION("everything may throw", 250000, 3000000)
{
  run<el::TrackT<1, false>, true>(c);
}
SECTION("moves never throw", 200000, 2500000)
{
  run<el::TrackT<1, true>, true>(c);
}
SECTION("no faults", 60000, 600000) { run<el::TrackT<1, false>, false>(c); }
SECTION("trivial assignment, counted lifetime", 60000, 600000)
{
  run<el::TrivAsgT<1>, false>(c);
}
