#include "optional_history.hpp"

SECTION("move-only", 100000, 1500000) { oh::run_model<el::HeapT<1, false>>(c); }
