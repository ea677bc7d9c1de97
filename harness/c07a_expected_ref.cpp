// C07: expected references keep their binding and their error.
#include "expected_rv_history.hpp"

static pbt::Rule rule(
    "random histories (mean 12, at most 40 steps) over three expected "
    "references (or expecteds of void) and two convertible sources, applied to "
    "the implementation and to a model of object index or error; non-trivial: "
    "at least two steps switched between success and error");

using erv::obj;
SECTION("reference / int", 120000, 1200000)
{
  erv::run<obj&, int, false, false>(c);
}
SECTION("reference / heap", 150000, 2000000)
{
  erv::run<obj&, el::HeapT<2, true>, false, false>(c);
}
SECTION("reference / trivial constructors only", 60000, 600000)
{
  erv::run<obj&, el::AsgT<2>, false, false>(c);
}
