#include "expected_rv_history.hpp"
using erv::obj;
SECTION("reference / trivial assignment", 60000, 600000)
{
  erv::run<obj&, el::TrivAsgT<2>, false, true>(c);
}
SECTION("void / trivial assignment", 60000, 600000)
{
  erv::run<void, el::TrivAsgT<2>, false, true>(c);
}
SECTION("reference / nothrow moves", 60000, 600000)
{
  erv::run<obj&, el::TrackT<2, true>, true, true>(c);
}
SECTION("void / nothrow moves", 60000, 600000)
{
  erv::run<void, el::TrackT<2, true>, true, true>(c);
}
