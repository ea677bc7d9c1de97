#include "optional_history.hpp"

SECTION("heap-owning, moves may throw", 60000, 800000)
{
  oh::run_model<el::HeapT<1, true, false>>(c);
}
SECTION("trivial constructors only", 60000, 800000) { oh::run_model<el::AsgT<1>>(c); }
SECTION("trivial assignment only", 60000, 800000) { oh::run_model<el::TrivAsgT<1>>(c); }

