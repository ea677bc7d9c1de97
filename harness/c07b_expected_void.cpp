#include "expected_rv_history.hpp"
using erv::obj;
SECTION("void / int", 120000, 1200000)
{
  erv::run<void, int, false, false>(c);
}
SECTION("void / heap", 150000, 2000000)
{
  erv::run<void, el::HeapT<2, true>, false, false>(c);
}
SECTION("void / trivial constructors only", 60000, 600000)
{
  erv::run<void, el::AsgT<2>, false, false>(c);
}
