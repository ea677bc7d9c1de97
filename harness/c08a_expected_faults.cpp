// C08: expected never leaks, double-destroys or breaks when a payload throws.
#include "expected_history.hpp"

static pbt::Rule rule(
    "random histories as in C06/C07 over payload types that register their "
    "lifetimes and throw from a chosen construction, copy, move or assignment; "
    "non-trivial: at least one operation threw, or two switches between value "
    "and error");

using el::TrackT;
SECTION("nothing-throwing moves on both sides", 150000, 2000000)
{
  eh::run_faults<TrackT<1, true>, TrackT<2, true>, true>(c);
}
SECTION("throwing value moves", 150000, 2000000)
{
  eh::run_faults<TrackT<1, false>, TrackT<2, true>, true>(c);
}
