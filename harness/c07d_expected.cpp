#include "expected_rv_history.hpp"
using erv::obj;
SECTION("reference / heap, moves may throw", 60000, 800000)
{
  erv::run<obj&, el::HeapT<2, true, false>, false, false>(c);
}
SECTION("void / heap, moves may throw", 60000, 800000)
{
  erv::run<void, el::HeapT<2, true, false>, false, false>(c);
}
