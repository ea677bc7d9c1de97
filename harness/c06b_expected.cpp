#include "expected_history.hpp"

SECTION("trivial / heap", 80000, 1000000)
{
  eh::run_model<el::TrivT<1>, el::HeapT<2, true>>(c);
}
SECTION("heap / trivial", 80000, 1000000)
{
  eh::run_model<el::HeapT<1, true>, el::TrivT<2>>(c);
}
