#include "expected_history.hpp"

SECTION("move-only / move-only", 80000, 1000000)
{
  eh::run_model<el::HeapT<1, false>, el::HeapT<2, false>>(c);
}
SECTION("move-only, moves may throw / move-only", 40000, 600000)
{
  eh::run_model<el::HeapT<1, false, false>, el::HeapT<2, false>>(c);
}
