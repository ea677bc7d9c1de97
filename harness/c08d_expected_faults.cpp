#include "expected_rv_history.hpp"
using erv::obj;
SECTION("reference / throwing error", 120000, 1500000)
{
  erv::run<obj&, el::TrackT<2, false>, true, true>(c);
}
SECTION("void / throwing error", 120000, 1500000)
{
  erv::run<void, el::TrackT<2, false>, true, true>(c);
}
