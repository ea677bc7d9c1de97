#include "expected_rv_history.hpp"
using erv::obj;
// chain_error uses all categories, which need no copyable error
SECTION("reference / trivial", 60000, 600000)
{
  erv::run<obj&, el::TrivT<2>, false, false>(c);
}
SECTION("reference / move-only", 100000, 1000000)
{
  erv::run<obj&, el::HeapT<2, false>, false, false>(c);
}
SECTION("void / move-only", 100000, 1000000)
{
  erv::run<void, el::HeapT<2, false>, false, false>(c);
}
