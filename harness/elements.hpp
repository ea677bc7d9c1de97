#pragma once
// Element types used by the optional/expected harnesses.
#include "pbt.hpp"
#include <initializer_list>
#include <memory>
#include <type_traits>
#include <utility>
#include <vector>

// forwards the parameter of a generic lambda
#define EL_FWD(x) std::forward<decltype(x)>(x)

namespace el {
// Calls f with t as one of the forms a copy may be made from: a modifiable
// object, a const object, a const rvalue.
template <typename T, typename F>
void copy_source(pbt::Case& c, T& t, F&& f)
{
  switch (c.below(3)) {
  case 0:
    f(t);
    break;
  case 1:
    f(std::as_const(t));
    break;
  default:
    f(std::move(std::as_const(t)));
  }
}
constexpr long MOVED = -999;

// ---------------------------------------------------------------- registry --
// Live objects by address.  Open addressing, tiny, reset between cases.
struct registry {
  std::vector<std::pair<const void*, int>> live; // address, kind
  std::string error;
  long constructed = 0, destroyed = 0;
  long fault_in = -1; // throw at the n-th faultable operation (0 = next)
  long faults = 0; // thrown so far
  long ops = 0; // faultable operations executed

  void reset()
  {
    live.clear();
    error.clear();
    constructed = destroyed = 0;
    fault_in = -1;
    faults = 0;
    ops = 0;
  }
  bool is_live(const void* p, int kind) const
  {
    for (auto& e : live) {
      if (e.first == p && e.second == kind) {
        return true;
      }
    }
    return false;
  }
  void problem(const char* what)
  {
    if (error.empty()) {
      error = what;
    }
  }
  void born(const void* p, int kind)
  {
    ++constructed;
    if (is_live(p, kind)) {
      problem("constructed over a live object");
    }
    live.emplace_back(p, kind);
  }
  void died(const void* p, int kind)
  {
    ++destroyed;
    for (auto& e : live) {
      if (e.first == p && e.second == kind) {
        e = live.back();
        live.pop_back();
        return;
      }
    }
    problem("destroyed an object that is not alive");
  }
  void used(const void* p, int kind)
  {
    if (!is_live(p, kind)) {
      problem("used an object that is not alive");
    }
  }
};
inline registry& reg()
{
  static registry r;
  return r;
}
struct fault { };
inline void maybe_throw()
{
  ++reg().ops;
  if (reg().fault_in == 0) {
    reg().fault_in = -1;
    ++reg().faults;
    throw fault {};
  }
  if (reg().fault_in > 0) {
    --reg().fault_in;
  }
}

// ------------------------------------------------------------------ types ---
// A value of another type that converts to every element type.
template <int K>
struct SrcT {
  long v;
  explicit SrcT(long v)
      : v(v)
  {
  }
  SrcT(const SrcT&) = default;
  SrcT(SrcT&& o) noexcept
      : v(std::exchange(o.v, MOVED))
  {
  }
  SrcT& operator=(const SrcT&) = default;
  SrcT& operator=(SrcT&& o) noexcept
  {
    auto t = o.v;
    o.v = MOVED;
    v = t;
    return *this;
  }
};

// Heap-owning, copyable; moved-from is visible.  K distinguishes value/error.
// NoThrow: whether its moves are declared not to throw (they never do), which
// is what selects the strategy of assignments that switch alternatives.
template <int K, bool Copy, bool NoThrow = true>
struct HeapT {
  using Src = SrcT<K>;
  long* p;
  explicit HeapT(long v)
      : p(new long(v))
  {
  }
  HeapT(long a, long b)
      : p(new long(a * 1000 + b))
  {
  }
  HeapT(std::initializer_list<int> l, long b)
      : p(new long(b))
  {
    for (auto x : l) {
      *p = *p * 7 + x;
    }
  }
  HeapT(const Src& s)
      : p(new long(s.v))
  {
  }
  HeapT(Src&& s)
      : p(new long(std::exchange(s.v, MOVED)))
  {
  }
  HeapT(const HeapT& o)
    requires Copy
      : p(o.p ? new long(*o.p) : nullptr)
  {
  }
  HeapT(HeapT&& o) noexcept(NoThrow)
      : p(std::exchange(o.p, nullptr))
  {
  }
  HeapT& operator=(const HeapT& o)
    requires Copy
  {
    if (this != &o) {
      delete p;
      p = o.p ? new long(*o.p) : nullptr;
    }
    return *this;
  }
  HeapT& operator=(HeapT&& o) noexcept(NoThrow)
  {
    if (this != &o) {
      delete p;
      p = std::exchange(o.p, nullptr);
    }
    return *this;
  }
  HeapT& operator=(const Src& s)
  {
    delete p;
    p = new long(s.v);
    return *this;
  }
  HeapT& operator=(Src&& s)
  {
    delete p;
    p = new long(std::exchange(s.v, MOVED));
    return *this;
  }
  ~HeapT()
  {
    delete p;
    p = reinterpret_cast<long*>(8); // use after destruction faults
  }
  long get() const
  {
    return p ? *p : MOVED;
  }
  friend bool operator==(const HeapT& a, const HeapT& b)
  {
    return a.get() == b.get();
  }
  friend bool operator!=(const HeapT& a, const HeapT& b)
  {
    return a.get() != b.get();
  }
};

// Trivially copyable struct.
template <int K>
struct TrivT {
  using Src = SrcT<K>;
  long v;
  char pad;
  TrivT() = default;
  explicit TrivT(long v)
      : v(v)
      , pad(1)
  {
  }
  TrivT(long a, long b)
      : v(a * 1000 + b)
      , pad(1)
  {
  }
  TrivT(std::initializer_list<int> l, long b) noexcept
      : v(b)
      , pad(1)
  {
    for (auto x : l) {
      v = v * 7 + x;
    }
  }
  TrivT(const Src& s)
      : v(s.v)
      , pad(1)
  {
  }
  TrivT(Src&& s)
      : v(std::exchange(s.v, MOVED))
      , pad(1)
  {
  }
  long get() const
  {
    return v;
  }
  friend bool operator==(const TrivT& a, const TrivT& b)
  {
    return a.v == b.v;
  }
};

// Trivial copy/move construction, user-provided assignment.
template <int K>
struct AsgT {
  using Src = SrcT<K>;
  long v;
  explicit AsgT(long v)
      : v(v)
  {
  }
  AsgT(long a, long b)
      : v(a * 1000 + b)
  {
  }
  AsgT(std::initializer_list<int> l, long b) noexcept
      : v(b)
  {
    for (auto x : l) {
      v = v * 7 + x;
    }
  }
  AsgT(const Src& s)
      : v(s.v)
  {
  }
  AsgT(Src&& s)
      : v(std::exchange(s.v, MOVED))
  {
  }
  AsgT(const AsgT&) = default;
  AsgT(AsgT&&) = default;
  AsgT& operator=(const AsgT& o)
  {
    v = o.v;
    return *this;
  }
  AsgT& operator=(AsgT&& o) noexcept
  {
    if (this != &o) {
      v = std::exchange(o.v, MOVED);
    }
    return *this;
  }
  long get() const
  {
    return v;
  }
  friend bool operator==(const AsgT& a, const AsgT& b)
  {
    return a.v == b.v;
  }
};

// Registered, possibly throwing element. NoMoveThrow: moves never throw.
template <int K, bool NoMoveThrow, bool TrivialAssign = false>
struct TrackT {
  using Src = SrcT<K>;
  long v;
  long self; // becomes wrong when bytes are copied blindly
  void init(long x)
  {
    v = x;
    self = static_cast<long>(reinterpret_cast<std::uintptr_t>(this));
    reg().born(this, K);
  }
  explicit TrackT(long x)
  {
    maybe_throw();
    init(x);
  }
  TrackT(long a, long b)
  {
    maybe_throw();
    init(a * 1000 + b);
  }
  TrackT(std::initializer_list<int> l, long b)
  {
    maybe_throw();
    for (auto x : l) {
      b = b * 7 + x;
    }
    init(b);
  }
  TrackT(const Src& s)
  {
    // write first, throw later: a caller that lets us scribble over live
    // storage is caught
    v = 0x5a5a5a5a;
    self = 0x5a5a5a5a5a5a5a5a;
    maybe_throw();
    init(s.v);
  }
  TrackT(Src&& s)
  {
    v = 0x5a5a5a5a;
    self = 0x5a5a5a5a5a5a5a5a;
    maybe_throw();
    init(std::exchange(s.v, MOVED));
  }
  TrackT(const TrackT& o)
  {
    o.alive();
    v = 0x5a5a5a5a;
    self = 0x5a5a5a5a5a5a5a5a;
    maybe_throw();
    init(o.v);
  }
  TrackT(TrackT&& o) noexcept(NoMoveThrow)
  {
    o.alive();
    v = 0x5a5a5a5a;
    self = 0x5a5a5a5a5a5a5a5a;
    if constexpr (!NoMoveThrow) {
      maybe_throw();
    }
    init(o.v);
    o.v = MOVED;
  }
  TrackT& operator=(const TrackT& o)
  {
    alive();
    o.alive();
    maybe_throw();
    v = o.v;
    return *this;
  }
  TrackT& operator=(TrackT&& o) noexcept(NoMoveThrow)
  {
    alive();
    o.alive();
    if constexpr (!NoMoveThrow) {
      maybe_throw();
    }
    if (this != &o) {
      v = o.v;
      o.v = MOVED;
    }
    return *this;
  }
  TrackT& operator=(const Src& s)
  {
    alive();
    maybe_throw();
    v = s.v;
    return *this;
  }
  TrackT& operator=(Src&& s)
  {
    alive();
    maybe_throw();
    v = std::exchange(s.v, MOVED);
    return *this;
  }
  ~TrackT()
  {
    if (self != static_cast<long>(reinterpret_cast<std::uintptr_t>(this))) {
      reg().problem("destroyed bytes that were never constructed here");
    }
    reg().died(this, K);
    v = 0x6b6b6b6b;
    self = 0;
  }
  void alive() const
  {
    reg().used(this, K);
    if (self != static_cast<long>(reinterpret_cast<std::uintptr_t>(this))) {
      reg().problem("object bytes were copied or clobbered");
    }
  }
  void registered() const { }
  long get() const
  {
    alive();
    return v;
  }
  friend bool operator==(const TrackT& a, const TrackT& b)
  {
    return a.get() == b.get();
  }
};

// Registered; copy/move construction and destruction are user-provided but
// assignment is trivial: no operation may treat the holder as plain bytes.
template <int K>
struct TrivAsgT {
  using Src = SrcT<K>;
  long v;
  explicit TrivAsgT(long x)
      : v(x)
  {
    reg().born(this, K);
  }
  TrivAsgT(long a, long b)
      : v(a * 1000 + b)
  {
    reg().born(this, K);
  }
  TrivAsgT(std::initializer_list<int> l, long b) noexcept
      : v(b)
  {
    for (auto x : l) {
      v = v * 7 + x;
    }
    reg().born(this, K);
  }
  TrivAsgT(const Src& s)
      : v(s.v)
  {
    reg().born(this, K);
  }
  TrivAsgT(Src&& s)
      : v(std::exchange(s.v, MOVED))
  {
    reg().born(this, K);
  }
  TrivAsgT(const TrivAsgT& o)
      : v(o.v)
  {
    reg().used(&o, K);
    reg().born(this, K);
  }
  TrivAsgT(TrivAsgT&& o) noexcept
      : v(o.v)
  {
    reg().used(&o, K);
    reg().born(this, K);
  }
  TrivAsgT& operator=(const TrivAsgT&) = default;
  TrivAsgT& operator=(TrivAsgT&&) = default;
  ~TrivAsgT()
  {
    reg().died(this, K);
    v = 0x6b6b6b6b;
  }
  void registered() const { }
  long get() const
  {
    reg().used(this, K);
    return v;
  }
  friend bool operator==(const TrivAsgT& a, const TrivAsgT& b)
  {
    return a.get() == b.get();
  }
};

// ----------------------------------------------------------------- traits ---
template <typename T>
struct tr {
  using Src = typename T::Src;
  static constexpr bool copyable = std::is_copy_constructible_v<T>;
  static constexpr bool args = true; // (a,b) and (ilist,b) constructors
  static T make(long v)
  {
    return T(v);
  }
  static long get(const T& t)
  {
    return t.get();
  }
  static long multi(long a, long b)
  {
    return a * 1000 + b;
  }
  static long list3(long b)
  {
    for (auto x : { 1, 2, 3 }) {
      b = b * 7 + x;
    }
    return b;
  }
  static Src src(long v)
  {
    return Src(v);
  }
  static long src_get(const Src& s)
  {
    return s.v;
  }
  static constexpr long src_moved(long)
  {
    return MOVED;
  }
};
template <>
struct tr<int> {
  using Src = short;
  static constexpr bool copyable = true;
  static constexpr bool args = false;
  static int make(long v)
  {
    return static_cast<int>(v);
  }
  static long get(int t)
  {
    return t;
  }
  static Src src(long v)
  {
    return static_cast<short>(v);
  }
  static long src_get(short s)
  {
    return s;
  }
  static constexpr long src_moved(long v)
  {
    return v;
  }
};
// value left behind by a move construction / move assignment
template <typename T>
constexpr long moved_by_construct(long v)
{
  return std::is_trivially_move_constructible_v<T>
          || std::is_trivially_move_assignable_v<T>
      ? v
      : MOVED;
}
template <typename T>
constexpr long moved_by_assign(long v)
{
  return std::is_trivially_move_assignable_v<T> ? v : MOVED;
}
}
