// C25: compile-time strings and function utilities compose faithfully.
#include "c25_table.hpp"
#include "pbt.hpp"
#include <fitoria/core/bytes.hpp>
#include <fitoria/core/fixed_string.hpp>
#include <fitoria/core/tag_invoke.hpp>
#include <fitoria/core/type_traits.hpp>
#include <fitoria/core/utility.hpp>
#include <memory>
#include <string>
#include <utility>
#include <variant>

static pbt::Rule rule(
    "a generated table of literals (with embedded zeros, quotes, escapes and all "
    "byte values) concatenated by the compiler in several groupings and character "
    "types; the same at run time for random contents; tuples of up to six "
    "elements of different, repeated, nested, reference and move-only types; "
    "variants visited with overload sets; customisation points called with every "
    "value category; non-trivial: two non-empty parts, two elements, or any "
    "visit");

namespace fi = fitoria;
namespace {
template <std::size_t N>
fi::basic_fixed_string<char, N> make(const std::string& s)
{
  char buf[N + 1];
  std::memcpy(buf, s.data(), N);
  buf[N] = 'Z'; // the terminator's place is not part of the string
  return fi::basic_fixed_string<char, N>(buf);
}
template <std::size_t N, std::size_t M>
void concat(pbt::Case& c, const std::string& all)
{
  auto x = all.substr(0, N), y = all.substr(N, M);
  c.in("left", x);
  c.in("right", y);
  c.nontrivial(N && M);
  const auto a = make<N>(x);
  const auto b = make<M>(y);
  auto r = a + b;
  static_assert(std::is_same_v<decltype(r), fi::basic_fixed_string<char, N + M>>);
  REQ_EQ(r.size(), N + M);
  REQ_EQ(std::string(std::string_view(r)), x + y);
  REQ_EQ(std::string(r.begin(), r.end()), x + y);
  REQ_EQ(std::string(std::string_view(a)), x); // operands unchanged
  REQ_EQ(std::string(std::string_view(b)), y);
  REQ_EQ(std::string(a.data(), a.size()), x);
  auto rr = r + a;
  REQ_EQ(std::string(std::string_view(rr)), x + y + x);
  auto rl = a + (b + a);
  REQ_EQ(std::string(std::string_view(rl)), x + y + x);
  // writing through the iterators
  auto w = r;
  for (auto& ch : w) {
    ch = static_cast<char>(ch ^ 0x5a);
  }
  for (std::size_t i = 0; i < N + M; ++i) {
    REQ(std::string_view(w)[i] == static_cast<char>((x + y)[i] ^ 0x5a));
  }
  REQ_EQ(std::string(std::string_view(r)), x + y);
}
template <std::size_t N>
void concat_n(pbt::Case& c, std::size_t m, const std::string& all)
{
  switch (m) {
  case 0:
    return concat<N, 0>(c, all);
  case 1:
    return concat<N, 1>(c, all);
  case 2:
    return concat<N, 2>(c, all);
  case 3:
    return concat<N, 3>(c, all);
  case 4:
    return concat<N, 9>(c, all);
  default:
    return concat<N, 33>(c, all);
  }
}
struct point {
  int x, y;
  bool operator==(const point&) const = default;
};
// every copy of an element made on the way is a change of something observable
struct counted {
  int v = 0;
  static inline int copies = 0;
  explicit counted(int v)
      : v(v)
  {
  }
  counted(const counted& o)
      : v(o.v)
  {
    ++copies;
  }
  counted(counted&& o) noexcept
      : v(o.v)
  {
    o.v = -1;
  }
  bool operator==(const counted&) const = default;
};
}

SECTION("concatenation at run time", 120000, 2000000)
{
  auto n = c.below(6), m = c.below(6);
  std::string all;
  while (all.size() < 70) {
    all += c.chance(1, 6) ? '\0'
        : c.chance(1, 2)  ? static_cast<char>(c.below(256))
                          : 'a';
  }
  switch (n) {
  case 0:
    return concat_n<0>(c, m, all);
  case 1:
    return concat_n<1>(c, m, all);
  case 2:
    return concat_n<2>(c, m, all);
  case 3:
    return concat_n<3>(c, m, all);
  case 4:
    return concat_n<7>(c, m, all);
  default:
    return concat_n<32>(c, m, all);
  }
}

SECTION("concatenation by the compiler", 20000, 100000)
{
  auto& e = c25::table()[c.below(c25::table().size())];
  c.in("what", e.what);
  c.in("expected", std::string(e.want, e.nwant));
  c.nontrivial(e.nwant > 1);
  REQM(e.constant, "the compiler cannot evaluate it");
  REQ_EQ(std::string(e.got, e.ngot), std::string(e.want, e.nwant));
  REQ_EQ(e.size, e.units);
  REQM(e.same_type, "equal texts are the same template argument");
}

SECTION("reversing tuples", 60000, 1000000)
{
  int i = static_cast<int>(c.raw());
  auto s = c.bytes(20, 6);
  auto d = static_cast<double>(c.range(-1000, 1000)) / 8;
  c.in("int", i);
  c.in("string", s);
  c.in("double", d);
  auto k = c.below(13);
  c.in("shape", k);
  c.nontrivial(k > 1);
  switch (k) {
  case 0: {
    auto r = fi::reverse_tuple(std::tuple<>());
    static_assert(std::is_same_v<decltype(r), std::tuple<>>);
    break;
  }
  case 1: {
    auto r = fi::reverse_tuple(std::tuple<int>(i));
    static_assert(std::is_same_v<decltype(r), std::tuple<int>>);
    REQ_EQ(std::get<0>(r), i);
    break;
  }
  case 2: {
    auto r = fi::reverse_tuple(std::tuple<int, std::string>(i, s));
    static_assert(std::is_same_v<decltype(r), std::tuple<std::string, int>>);
    REQ(r == std::make_tuple(s, i));
    break;
  }
  case 3: {
    auto r = fi::reverse_tuple(std::tuple<int, int, int>(i, i ^ 1, i ^ 2));
    REQ(r == std::make_tuple(i ^ 2, i ^ 1, i));
    break;
  }
  case 4: {
    std::tuple<std::string, std::string, double, int, point> t(
        s, s + "x", d, i, point { i, 1 });
    auto r = fi::reverse_tuple(t);
    static_assert(
        std::is_same_v<decltype(r),
                       std::tuple<point, int, double, std::string, std::string>>);
    REQ(r == std::make_tuple(point { i, 1 }, i, d, s + "x", s));
    REQ(fi::reverse_tuple(r) == t); // an involution
    break;
  }
  case 5: { // move-only elements
    auto p = std::make_unique<int>(i);
    auto q = p.get();
    auto r = fi::reverse_tuple(
        std::tuple<std::unique_ptr<int>, std::string>(std::move(p), s));
    REQ(std::get<1>(r).get() == q);
    REQ_EQ(std::get<0>(r), s);
    break;
  }
  case 6: { // elements are moved, not copied
    counted::copies = 0;
    std::tuple<counted, counted, counted> t { counted(i), counted(i ^ 4),
                                              counted(i ^ 8) };
    auto r = fi::reverse_tuple(std::move(t));
    REQ_EQ(counted::copies, 0);
    REQ_EQ(std::get<0>(r).v, i ^ 8);
    REQ_EQ(std::get<1>(r).v, i ^ 4);
    REQ_EQ(std::get<2>(r).v, i);
    break;
  }
  case 7: { // tuples as elements stay elements
    std::tuple<std::tuple<int, std::string>> t { std::tuple(i, s) };
    auto r = fi::reverse_tuple(t);
    constexpr bool kept = std::is_same_v<decltype(r), decltype(t)>;
    REQM(kept, "a tuple holding one tuple was flattened");
    if constexpr (kept) {
      REQ(r == t);
    }
    break;
  }
  case 8: {
    std::tuple<std::pair<int, std::string>> t { std::pair(i, s) };
    auto r = fi::reverse_tuple(t);
    constexpr bool kept = std::is_same_v<decltype(r), decltype(t)>;
    REQM(kept, "a tuple holding one pair was flattened");
    break;
  }
  case 9: {
    std::tuple<std::tuple<int>, std::tuple<std::string>, int> t(i, s, i);
    auto r = fi::reverse_tuple(t);
    REQ(r == std::make_tuple(i, std::tuple(s), std::tuple(i)));
    break;
  }
  case 10: { // references stay references
    std::string a = s;
    int b = i;
    auto r = fi::reverse_tuple(std::tuple<std::string&, const int&>(a, b));
    constexpr bool kept
        = std::is_same_v<decltype(r), std::tuple<const int&, std::string&>>;
    REQM(kept, "reference elements became copies");
    if constexpr (kept) {
      REQ(&std::get<1>(r) == &a);
      REQ(&std::get<0>(r) == &b);
      REQ_EQ(a, s); // and was not moved from
    }
    break;
  }
  case 11: { // the argument is taken by value
    const std::tuple<std::string, int> t(s, i);
    auto r = fi::reverse_tuple(t);
    REQ_EQ(std::get<1>(r), s);
    REQ_EQ(std::get<0>(t), s);
    break;
  }
  default: { // a deduced const element
    std::tuple<const int, std::string> t(i, s);
    auto r = fi::reverse_tuple(t);
    REQ_EQ(std::get<1>(r), i);
    REQ_EQ(std::get<0>(r), s);
  }
  }
}

SECTION("visiting with an overload set", 80000, 1000000)
{
  using var = std::variant<int, std::string, double, point, bool>;
  auto k = c.below(5);
  int n = static_cast<int>(c.raw());
  auto s = c.bytes(30, 6);
  c.in("alternative", k);
  c.in("number", n);
  c.in("text", s);
  c.nontrivial();
  var v = k == 0 ? var(n)
      : k == 1   ? var(s)
      : k == 2   ? var(n / 4.0)
      : k == 3   ? var(point { n, 7 })
                 : var((n & 1) != 0);
  int calls[5] = {};
  const void* where = nullptr;
  auto f = fi::overloaded([&](int& x) { ++calls[0]; where = &x; return 0; },
                          [&](std::string& x) { ++calls[1]; where = &x; return 1; },
                          [&](double& x) { ++calls[2]; where = &x; return 2; },
                          [&](point& x) { ++calls[3]; where = &x; return 3; },
                          [&](bool& x) { ++calls[4]; where = &x; return 4; });
  REQ_EQ(std::visit(f, v), static_cast<int>(k));
  for (std::size_t i = 0; i < 5; ++i) {
    REQ_EQ(calls[i], i == k ? 1 : 0);
  }
  // its argument was forwarded, not copied
  const void* held = std::visit([](auto& x) -> const void* { return &x; }, v);
  REQ(where == held);
  // copies of the set call the same functions
  auto g = std::as_const(f);
  REQ_EQ(std::visit(g, v), static_cast<int>(k));
  REQ_EQ(calls[k], 2);
  auto h = std::move(g);
  REQ_EQ(std::visit(h, v), static_cast<int>(k));
  REQ_EQ(calls[k], 3);
  // generic fallback and moved arguments
  std::string taken;
  auto m = fi::overloaded([&](std::string&& x) { taken = std::move(x); return 1; },
                          [](auto&&) { return 9; });
  REQ_EQ(std::visit(m, std::move(v)), k == 1 ? 1 : 9);
  if (k == 1) {
    REQ_EQ(taken, s);
  }
  // functions held by name, stateful and mutable ones
  int total = 0;
  auto add = [sum = 0, &total](int x) mutable { sum = x; total = sum; };
  auto str = [&total](const std::string& x) { total = static_cast<int>(x.size()); };
  fi::overloaded both(add, str);
  both(n);
  REQ_EQ(total, n);
  both(s);
  REQ_EQ(total, static_cast<int>(s.size()));
  // functions given by name stay as they are, functions given as temporaries may be movable only
  auto named = [held = s](int) -> const std::string& { return held; };
  auto given = [held = std::make_unique<std::string>(s)](std::string_view) -> const std::string& { return *held; };
  fi::overloaded kept(named, std::move(given));
  REQ_EQ(named(0), s);
  REQ_EQ(kept(n), s);
  REQ_EQ(kept(std::string_view()), s);
}

namespace custom {
struct tag_t {
  template <typename... A>
    requires fi::is_tag_invocable_v<tag_t, A...>
  constexpr auto operator()(A&&... a) const
      -> fi::tag_invoke_result_t<tag_t, A...>
  {
    return fi::tag_invoke(*this, std::forward<A>(a)...);
  }
};
inline constexpr tag_t tag {};
struct thing {
  std::string text;
  friend int tag_invoke(tag_t, thing& t, int n) noexcept
  {
    t.text += "&";
    return n + 1;
  }
  friend int tag_invoke(tag_t, const thing&, int n)
  {
    return n + 2;
  }
  friend int tag_invoke(tag_t, thing&& t, int n)
  {
    t.text = "taken";
    return n + 3;
  }
  friend std::string tag_invoke(tag_t, thing&, thing&& t)
  {
    return std::move(t.text);
  }
  friend thing& tag_invoke(tag_t, thing& t)
  {
    return t;
  }
};
struct other { };
static_assert(fi::is_tag_invocable_v<tag_t, thing&, int>);
}

SECTION("customisation points", 30000, 300000)
{
  using namespace custom;
  auto s = c.ascii(20);
  int n = static_cast<int>(c.range(-1000000, 1000000));
  c.in("text", s);
  c.in("number", n);
  c.nontrivial();
  thing t { s };
  const thing& k = t;
  REQ_EQ(tag(t, n), n + 1);
  REQ_EQ(t.text, s + "&");
  REQ_EQ(tag(k, n), n + 2);
  REQ(&tag(t) == &t);
  REQ_EQ(tag(std::move(k), n), n + 2);
  REQ_EQ(t.text, s + "&");
  REQ_EQ(tag(std::move(t), n), n + 3);
  REQ_EQ(t.text, std::string("taken"));
  bool ok = !fi::is_tag_invocable_v<tag_t, other> && !fi::is_tag_invocable_v<tag_t, const thing&>
      && fi::is_tag_invocable_v<tag_t, thing&>
      && fi::is_nothrow_tag_invocable_v<tag_t, thing&, int>
      && !fi::is_nothrow_tag_invocable_v<tag_t, const thing&, int>
      && !fi::is_nothrow_tag_invocable_v<tag_t, other>
      && std::is_same_v<fi::tag_invoke_result_t<tag_t, thing&, thing>, std::string>;
  REQ(ok);
}

SECTION("enumerators and function types", 30000, 300000)
{
  enum class e8 : std::uint8_t { };
  enum class e64 : std::int64_t { };
  auto v = c.raw();
  c.in("value", v);
  c.nontrivial();
  REQ(fi::to_underlying(static_cast<e8>(v)) == static_cast<std::uint8_t>(v));
  REQ(fi::to_underlying(static_cast<e64>(v)) == static_cast<std::int64_t>(v));
  bool ok = std::is_same_v<decltype(fi::to_underlying(e8())), std::uint8_t>
      && std::is_same_v<decltype(fi::to_underlying(e64())), std::int64_t>;
  REQ(ok);
  auto l = [](int, std::string&, const double) -> long { return 0; };
  using t = fi::function_traits<decltype(l)>;
  ok = t::arity == 3 && std::is_same_v<t::result_type, long>
      && std::is_same_v<t::arg<0>::type, int>
      && std::is_same_v<t::arg<1>::type, std::string&>
      && std::is_same_v<t::arg<2>::type, double>
      && std::is_same_v<t::args_type, std::tuple<int, std::string&, double>>
      && fi::function_traits<void (*)()>::arity == 0
      && fi::is_specialization_of_v<std::tuple<int>, std::tuple>
      && !fi::is_specialization_of_v<std::pair<int, int>, std::tuple>
      && fi::not_cvref<int> && !fi::not_cvref<const int> && !fi::not_cvref<int&>
      && fi::decay_to<const int&, int> && !fi::decay_to<int, long>
      && fi::not_decay_to<int&, long> && !fi::not_decay_to<int&, int>;
  REQ(ok);
}
