#include "expected_history.hpp"
using el::TrackT;
SECTION("trivial assignment, counted lifetime", 60000, 600000)
{
  eh::run_faults<el::TrivAsgT<1>, el::TrivAsgT<2>, false>(c);
}
SECTION("plain value, throwing error", 80000, 800000)
{
  eh::run_faults<int, TrackT<2, false>, true>(c);
}
SECTION("throwing value, plain error", 80000, 800000)
{
  eh::run_faults<TrackT<1, false>, int, true>(c);
}
