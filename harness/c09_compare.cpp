// C09: comparisons of optionals and expecteds agree with their payloads.
#include "pbt.hpp"
#include "slot.hpp"
#include <cmath>
#include <compare>
#include <fitoria/core/expected.hpp>
#include <fitoria/core/optional.hpp>
#include <limits>
#include <string>
#include <string_view>

static pbt::Rule rule(
    "pairs (and triples) of optionals/expecteds over integers, floating point "
    "with NaN, signed zero and infinities, text, a partially ordered user type "
    "and references, compared by every operator in both operand orders against "
    "the payloads; non-trivial: at least one side holds a value, or the "
    "alternatives differ");

namespace fi = fitoria;
namespace {
struct bits { // what the six relations say
  bool eq, ne, lt, le, gt, ge;
  friend bool operator==(const bits&, const bits&) = default;
};
std::string show(bits b)
{
  std::string s;
  for (bool x : { b.eq, b.ne, b.lt, b.le, b.gt, b.ge }) {
    s += x ? '1' : '0';
  }
  return s + " (==,!=,<,<=,>,>=)";
}
template <typename A, typename B>
bits rel(const A& a, const B& b)
{
  return { a == b, a != b, a < b, a <= b, a > b, a >= b };
}
constexpr bits EQ { true, false, false, true, false, true };
constexpr bits LT { false, true, true, true, false, false };
constexpr bits GT { false, true, false, false, true, true };
bits of(std::partial_ordering o)
{
  return { o == 0, o != 0, o < 0, o <= 0, o > 0, o >= 0 };
}

// Sets ordered by inclusion: many pairs are unordered.
struct subset {
  unsigned m;
  friend bool operator==(subset a, subset b)
  {
    return a.m == b.m;
  }
  friend std::partial_ordering operator<=>(subset a, subset b)
  {
    if (a.m == b.m) {
      return std::partial_ordering::equivalent;
    }
    if ((a.m & b.m) == a.m) {
      return std::partial_ordering::less;
    }
    if ((a.m & b.m) == b.m) {
      return std::partial_ordering::greater;
    }
    return std::partial_ordering::unordered;
  }
};
// Relations that have nothing to do with each other: whatever the payload's
// operator says is what the optional has to say.
struct odd {
  unsigned m;
  unsigned t(odd o) const
  {
    return static_cast<unsigned>(pbt::mix(m * 16 + o.m)) & 63;
  }
  friend bool operator==(odd a, odd b)
  {
    return a.t(b) & 1;
  }
  friend bool operator!=(odd a, odd b)
  {
    return a.t(b) & 2;
  }
  friend bool operator<(odd a, odd b)
  {
    return a.t(b) & 4;
  }
  friend bool operator<=(odd a, odd b)
  {
    return a.t(b) & 8;
  }
  friend bool operator>(odd a, odd b)
  {
    return a.t(b) & 16;
  }
  friend bool operator>=(odd a, odd b)
  {
    return a.t(b) & 32;
  }
};

double gen_double(pbt::Case& c)
{
  using L = std::numeric_limits<double>;
  switch (c.below(8)) {
  case 0:
    return 0.0;
  case 1:
    return 1.0;
  case 2:
    return L::quiet_NaN();
  case 3:
    return -0.0;
  case 4:
    return L::infinity();
  case 5:
    return -L::infinity();
  case 6:
    return static_cast<double>(c.range(-3, 3));
  default:
    return static_cast<double>(c.range(-1000, 1000)) / 7;
  }
}
template <typename T>
T gen(pbt::Case& c)
{
  if constexpr (std::is_floating_point_v<T>) {
    return static_cast<T>(gen_double(c));
  } else if constexpr (std::is_same_v<T, subset> || std::is_same_v<T, odd>) {
    return T { static_cast<unsigned>(c.below(8)) };
  } else if constexpr (std::is_same_v<T, std::string>) {
    return c.str("ab", 4, 1);
  } else if constexpr (std::is_integral_v<T>) {
    if (c.chance(1, 6)) {
      return c.pick({ std::numeric_limits<T>::min(),
                      std::numeric_limits<T>::max() });
    }
    return static_cast<T>(c.range(std::is_signed_v<T> ? -3 : 0, 3));
  }
}
template <typename T>
std::string text(const T& v)
{
  if constexpr (std::is_same_v<T, std::string>) {
    return "'" + v + "'";
  } else if constexpr (std::is_same_v<T, subset> || std::is_same_v<T, odd>) {
    return "#" + std::to_string(v.m);
  } else {
    return std::to_string(v);
  }
}

#define REQ_REL(got, want)                                                     \
  REQM((got) == (want), "got " + show(got) + ", want " + show(want))

template <bool Value = true, typename OA, typename OB, typename A, typename B>
void pair_laws(pbt::Case& c, const OA& a, const OB& b, bool ha, bool hb,
               const A& va, const B& vb)
{
  bits want = ha && hb ? rel(va, vb) : ha ? GT : hb ? LT : EQ;
  REQ_REL(rel(a, b), want);
  bits back = ha && hb ? rel(vb, va) : ha ? LT : hb ? GT : EQ;
  REQ_REL(rel(b, a), back);
  if constexpr (std::three_way_comparable_with<A, B>) {
    auto o = a <=> b;
    static_assert(
        std::is_same_v<decltype(o), std::compare_three_way_result_t<A, B>>);
    REQ_REL(of(o), want);
    if (ha && hb) {
      REQM(o == (va <=> vb), "three-way result");
    } else {
      REQM(o != std::partial_ordering::unordered, "never unordered when empty");
    }
  }
  // comparing with a plain value is comparing with an engaged optional of it
  bits wv = ha ? rel(va, vb) : LT;
  REQ_REL(rel(a, vb), wv);
  bits wb = ha ? rel(vb, va) : GT;
  REQ_REL(rel(vb, a), wb);
  REQ_REL(rel(a, vb), rel(a, fi::optional<B>(vb)));
  REQ_REL(rel(vb, a), rel(fi::optional<B>(vb), a));
  // with nothing
  REQ_REL(rel(a, fi::nullopt), ha ? GT : EQ);
  REQ_REL(rel(fi::nullopt, a), ha ? LT : EQ);
  REQM((a <=> fi::nullopt)
           == (ha ? std::strong_ordering::greater : std::strong_ordering::equal),
       "three-way with nullopt");
}

template <typename A, typename B>
void optionals(pbt::Case& c)
{
  A va = gen<A>(c);
  B vb = gen<B>(c);
  bool ha = c.chance(3, 4), hb = c.chance(3, 4);
  c.in("left", ha ? text(va) : "-");
  c.in("right", hb ? text(vb) : "-");
  c.in("value", text(vb));
  c.nontrivial(ha || hb);
  c.label(ha && hb ? "both engaged" : ha || hb ? "one engaged" : "both empty");
  slot<fi::optional<A>> sa;
  slot<fi::optional<B>> sb;
  sa.make();
  sb.make();
  if (ha) {
    sa.get() = va;
  }
  if (hb) {
    sb.get() = vb;
  }
  pair_laws(c, sa.get(), sb.get(), ha, hb, va, vb);
  fi::optional<A&> ra;
  fi::optional<const B&> rb;
  if (ha) {
    ra = va;
  }
  if (hb) {
    rb = std::as_const(vb);
  }
  bits want = ha && hb ? rel(va, vb) : ha ? GT : hb ? LT : EQ;
  REQ_REL(rel(ra, rb), want);
  REQ_REL(rel(ra, sb.get()), want);
  REQ_REL(rel(sa.get(), rb), want);
  REQ_REL(rel(ra, vb), (ha ? rel(va, vb) : LT));
  REQ_REL(rel(vb, ra), (ha ? rel(vb, va) : GT));
  REQ_REL(rel(ra, fi::nullopt), ha ? GT : EQ);
}

template <typename T, typename E, typename T2, typename E2>
void expecteds(pbt::Case& c)
{
  using X = fi::expected<T, E>;
  using Y = fi::expected<T2, E2>;
  bool hx = c.chance(1, 2), hy = c.chance(1, 2);
  E ex = gen<E>(c);
  E2 ey = gen<E2>(c);
  slot<X> sx;
  slot<Y> sy;
  auto common = [&](const X& x, const Y& y, bool values_equal) {
    bool want = hx == hy && (hx ? values_equal : ex == ey);
    REQM((x == y) == want, "expected == expected");
    REQM((x != y) == !want, "expected != expected");
    REQM((y == x) == (hx == hy && (hx ? values_equal : ey == ex)),
         "expected == expected, swapped");
    fi::unexpected<E2> u(ey);
    bool wu = !hx && ex == ey;
    REQM((x == u) == wu && (x != u) == !wu && (u == x) == wu
             && (u != x) == !wu,
         "expected == unexpected");
    REQM((fi::unexpected<E>(ex) == u) == (ex == ey), "unexpected == unexpected");
    REQM((fi::unexpected<E>(ex) != u) == !(ex == ey), "unexpected != unexpected");
    REQM(x == x || (hx ? false : !(ex == ex)) || hx, "reflexive");
  };
  if (!hx) {
    sx.rebuild([&](void* p) { new (p) X(fi::unexpect, ex); });
  }
  if (!hy) {
    sy.rebuild([&](void* p) { new (p) Y(fi::unexpect, ey); });
  }
  c.nontrivial();
  c.label(hx == hy ? (hx ? "values" : "errors") : "different alternatives");
  if constexpr (std::is_void_v<T>) {
    if (hx) {
      sx.rebuild([&](void* p) { new (p) X(std::in_place); });
    }
    if (hy) {
      sy.rebuild([&](void* p) { new (p) Y(std::in_place); });
    }
    c.in("left", hx ? "ok" : "!" + text(ex));
    c.in("right", hy ? "ok" : "!" + text(ey));
    c.in("error", text(ey));
    common(sx.get(), sy.get(), true);
  } else {
    using D = std::remove_cvref_t<T>;
    using D2 = std::remove_cvref_t<T2>;
    D vx = gen<D>(c);
    D2 vy = gen<D2>(c);
    if (hx) {
      sx.rebuild([&](void* p) { new (p) X(std::in_place, vx); });
    }
    if (hy) {
      sy.rebuild([&](void* p) { new (p) Y(std::in_place, vy); });
    }
    c.in("left", hx ? text(vx) : "!" + text(ex));
    c.in("right", hy ? text(vy) : "!" + text(ey));
    c.in("value", text(vy));
    c.in("error", text(ey));
    common(sx.get(), sy.get(), vx == vy);
    bool wv = hx && vx == vy;
    X& x = sx.get();
    REQM((x == vy) == wv && (x != vy) == !wv && (vy == x) == wv
             && (vy != x) == !wv,
         "expected == value");
  }
}
}

SECTION("int, int", 60000, 500000) { optionals<int, int>(c); }
SECTION("int, long", 40000, 400000) { optionals<int, long long>(c); }
SECTION("double, double", 80000, 600000) { optionals<double, double>(c); }
SECTION("float, double", 40000, 400000) { optionals<float, double>(c); }
SECTION("text", 60000, 500000) { optionals<std::string, std::string>(c); }
SECTION("partial order", 60000, 500000) { optionals<subset, subset>(c); }

SECTION("unrelated relations", 60000, 500000)
{
  odd va = gen<odd>(c), vb = gen<odd>(c);
  bool ha = c.chance(3, 4), hb = c.chance(3, 4);
  c.in("left", ha ? text(va) : "-");
  c.in("right", hb ? text(vb) : "-");
  c.in("value", text(vb));
  c.nontrivial(ha || hb);
  fi::optional<odd> a, b;
  if (ha) {
    a = va;
  }
  if (hb) {
    b = vb;
  }
  REQ_REL(rel(a, b), (ha && hb ? rel(va, vb) : ha ? GT : hb ? LT : EQ));
  REQ_REL(rel(a, vb), (ha ? rel(va, vb) : LT));
  REQ_REL(rel(vb, a), (ha ? rel(vb, va) : GT));
}

SECTION("total order of optionals", 60000, 500000)
{
  // transitivity and sorting: empties first, then by value
  std::vector<fi::optional<int>> v;
  std::size_t empties = 0;
  std::string d;
  for (std::size_t i = 0; c.more(i, 8, 5); ++i) {
    if (c.chance(1, 3)) {
      v.emplace_back();
      ++empties;
      d += "- ";
    } else {
      v.emplace_back(static_cast<int>(c.range(-4, 4)));
      d += std::to_string(*v.back()) + " ";
    }
  }
  c.in("values", d);
  c.nontrivial(v.size() >= 2 && empties);
  for (auto& a : v) {
    for (auto& b : v) {
      REQM((a < b) + (a == b) + (a > b) == 1, "trichotomy");
      REQM((a <=> b) == (0 <=> (b <=> a)), "antisymmetry");
      for (auto& e : v) {
        REQM(!(a < b && b < e) || a < e, "transitivity");
        REQM(!(a <= b && b <= e) || a <= e, "transitivity");
      }
    }
  }
}

SECTION("void optionals", 1000, 5000)
{
  using O = fi::optional<void>;
  bool ha = c.chance(1, 2), hb = c.chance(1, 2);
  c.in("left", ha);
  c.in("right", hb);
  c.nontrivial(ha || hb);
  O a, b;
  if (ha) {
    a.emplace();
  }
  if (hb) {
    b.emplace();
  }
  REQ_REL(rel(a, b), (ha == hb ? EQ : ha ? GT : LT));
  REQ_REL(rel(a, fi::nullopt), (ha ? GT : EQ));
  REQ_REL(rel(fi::nullopt, a), (ha ? LT : EQ));
}

SECTION("expected int/int", 40000, 400000)
{
  expecteds<int, int, int, int>(c);
}
SECTION("expected int/text, long/text", 40000, 400000)
{
  expecteds<int, std::string, long long, std::string>(c);
}
SECTION("expected double/double", 40000, 400000)
{
  expecteds<double, double, double, double>(c);
}
SECTION("expected text/int", 40000, 400000)
{
  expecteds<std::string, int, std::string, int>(c);
}
SECTION("expected void/int", 40000, 400000)
{
  expecteds<void, int, void, long long>(c);
}
SECTION("expected reference/int", 40000, 400000)
{
  expecteds<int&, int, int&, int>(c);
}
