#include "expected_history.hpp"
using el::TrackT;
SECTION("throwing error moves", 150000, 2000000)
{
  eh::run_faults<TrackT<1, true>, TrackT<2, false>, true>(c);
}
SECTION("no faults", 60000, 600000)
{
  eh::run_faults<TrackT<1, true>, TrackT<2, false>, false>(c);
}
