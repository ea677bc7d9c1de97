#include "expected_history.hpp"

// moves declared as potentially throwing on one side select the other
// strategies of the assignments and swaps that switch alternatives
SECTION("heap, moves may throw / heap", 80000, 1000000)
{
  eh::run_model<el::HeapT<1, true, false>, el::HeapT<2, true>>(c);
}
SECTION("heap / heap, moves may throw", 80000, 1000000)
{
  eh::run_model<el::HeapT<1, true>, el::HeapT<2, true, false>>(c);
}

namespace {
// a value type that anything copyable converts to
struct anything {
  int kind = 0; // 1: made from an int, 2: from something else
  anything() = default;
  anything(const anything&) = default;
  anything(anything&&) noexcept = default;
  anything& operator=(const anything&) = default;
  anything& operator=(anything&&) noexcept = default;
  template <typename U>
    requires(!std::is_same_v<std::remove_cvref_t<U>, anything>)
  anything(U&&) noexcept
      : kind(std::is_same_v<std::remove_cvref_t<U>, int> ? 1 : 2)
  {
  }
};
}

SECTION("a value type that takes anything", 20000, 100000)
{
  namespace fi = fitoria;
  using X = fi::expected<anything, long>;
  X x(fi::unexpect, 0L);
  bool has = false;
  long err = 0;
  int switches = 0;
  for (std::size_t n = 0; c.more(n, 12, 6); ++n) {
    long v = c.range(1, 99);
    bool was = has;
    switch (c.below(4)) {
    case 0: {
      c.op("assign unexpected", v);
      fi::unexpected<long> u(v);
      el::copy_source(c, u, [&](auto&& f) { x = EL_FWD(f); });
      has = false;
      err = v;
      break;
    }
    case 1: {
      c.op("construct from unexpected", v);
      fi::unexpected<long> u(v);
      el::copy_source(c, u, [&](auto&& f) {
        X y(EL_FWD(f));
        x = std::move(y);
      });
      has = false;
      err = v;
      break;
    }
    default: {
      int i = static_cast<int>(v);
      c.op("assign value", v);
      x = i;
      has = true;
      break;
    }
    }
    switches += was != has;
    REQ_EQ(x.has_value(), has);
    if (has) {
      REQ_EQ(x->kind, 1);
    } else {
      REQ_EQ(x.error(), err);
    }
  }
  c.nontrivial(switches >= 2);
}
