// C06: expected<T, E> behaves like "a value or an error" after any history.
#include "expected_history.hpp"

static pbt::Rule rule(
    "random histories (mean 12, at most 40 steps) over three expecteds and two "
    "convertible source expecteds, applied to the implementation and to a "
    "two-alternative model; non-trivial: at least two steps switched an "
    "expected between value and error");

SECTION("int / int", 80000, 1200000) { eh::run_model<int, int>(c); }
SECTION("heap / heap", 100000, 1500000)
{
  eh::run_model<el::HeapT<1, true>, el::HeapT<2, true>>(c);
}
SECTION("trivial / trivial structs", 60000, 600000)
{
  eh::run_model<el::TrivT<1>, el::TrivT<2>>(c);
}
