// C10: text converts to numbers and flags exactly, or fails with the right
// error.
#include "pbt.hpp"
#include <charconv>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <fitoria/core/from_string.hpp>
#include <limits>
#include <memory>
#include <string>

static pbt::Rule rule(
    "texts built from valid numbers (boundary values and their neighbours of "
    "every width, round-tripped and decimal-digit floats, exponents, inf/nan), "
    "their mutations, and arbitrary text, placed in exactly sized heap memory "
    "or in the middle of further digits; non-trivial: the text is accepted, "
    "out of range, or one edit away from an accepted text");

namespace fi = fitoria;
namespace {
using i128 = __int128;
using u128 = unsigned __int128;

// The characters live in a block of exactly their size (a read past the end is
// caught), or in the middle of more digits (a read past the end is wrong).
struct placed {
  std::unique_ptr<char[]> mem;
  std::string_view sv;
  // (libstdc++'s own long double parser takes the strlen of its input, so it
  // needs a terminator somewhere behind it)
  placed(pbt::Case& c, const std::string& t, bool always = false)
  {
    bool surrounded = always || c.chance(1, 2);
    c.in("surrounded", surrounded);
    std::string all = surrounded ? "7-" + t + "31e5" : t;
    if (always) {
      all += std::string("0000\0", 5);
    }
    mem = std::make_unique<char[]>(all.size());
    std::memcpy(mem.get(), all.data(), all.size());
    sv = surrounded ? std::string_view(mem.get() + 2, t.size())
                    : std::string_view(mem.get(), t.size());
    if (t.empty() && c.chance(1, 2)) {
      sv = {};
    }
  }
};

enum class verdict { ok, invalid, range, invalid_or_range };

template <typename T>
verdict ref_int(std::string_view s, T& out)
{
  std::size_t i = 0;
  bool neg = false;
  if (i < s.size() && s[i] == '-' && std::is_signed_v<T>) {
    neg = true;
    ++i;
  }
  u128 v = 0;
  bool big = false;
  std::size_t digits = 0;
  for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i, ++digits) {
    v = v * 10 + static_cast<unsigned>(s[i] - '0');
    if (v > (static_cast<u128>(1) << 70)) {
      v = static_cast<u128>(1) << 70;
      big = true;
    }
  }
  if (!digits) {
    return verdict::invalid;
  }
  i128 x = neg ? -static_cast<i128>(v) : static_cast<i128>(v);
  bool fits = !big && x >= static_cast<i128>(std::numeric_limits<T>::min())
      && x <= static_cast<i128>(std::numeric_limits<T>::max());
  if (i != s.size()) {
    return fits ? verdict::invalid : verdict::invalid_or_range;
  }
  if (!fits) {
    return verdict::range;
  }
  out = static_cast<T>(x);
  return verdict::ok;
}

std::string i128_text(i128 v)
{
  if (v == 0) {
    return "0";
  }
  bool neg = v < 0;
  u128 u = neg ? -static_cast<u128>(v) : static_cast<u128>(v);
  std::string s;
  for (; u; u /= 10) {
    s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10)));
  }
  return neg ? "-" + s : s;
}

std::string mutate(pbt::Case& c, std::string t, std::string_view alphabet)
{
  auto n = c.below(3);
  for (pbt::u64 i = 0; i < n; ++i) {
    auto at = c.below(t.size() + 1);
    char ch = c.chance(1, 8) ? static_cast<char>(c.below(256))
                             : alphabet[c.below(alphabet.size())];
    switch (c.below(3)) {
    case 0:
      t.insert(t.begin() + static_cast<long>(at), ch);
      break;
    case 1:
      if (at < t.size()) {
        t.erase(at, 1);
      }
      break;
    default:
      if (at < t.size()) {
        t[at] = ch;
      }
    }
  }
  return t;
}

template <typename T>
void judge(pbt::Case& c, std::string_view s, verdict want, T value)
{
  auto got = fi::from_string<T>(s);
  static_assert(std::is_same_v<decltype(got), fi::expected<T, std::error_code>>);
  auto why = [&] {
    return got.has_value() ? std::string("accepted") : got.error().message();
  };
  switch (want) {
  case verdict::ok:
    c.label("accepted");
    REQM(got.has_value(), "should be accepted, got " + why());
    break;
  case verdict::invalid:
    c.label("invalid");
    REQM(!got.has_value(), "should be invalid");
    REQM(got.error() == std::errc::invalid_argument,
         "should be invalid input, got " + why());
    return;
  case verdict::range:
    c.label("out of range");
    REQM(!got.has_value(), "should be out of range");
    REQM(got.error() == std::errc::result_out_of_range,
         "should be out of range, got " + why());
    return;
  default:
    c.label("too large and garbage");
    REQM(!got.has_value(), "should be refused");
    REQM(got.error() == std::errc::result_out_of_range
             || got.error() == std::errc::invalid_argument,
         "got " + why());
    return;
  }
  if constexpr (std::is_floating_point_v<T>) {
    if (std::isnan(value)) {
      REQM(std::isnan(*got), "should be NaN");
    } else {
      REQM(*got == value && std::signbit(*got) == std::signbit(value),
           "got " + std::to_string(*got) + ", want " + std::to_string(value));
    }
  } else {
    REQM(*got == value,
         "got " + i128_text(static_cast<i128>(*got)) + ", want "
             + i128_text(static_cast<i128>(value)));
  }
}

template <typename T>
void one_int(pbt::Case& c, const char* name)
{
  using L = std::numeric_limits<T>;
  std::string t;
  switch (c.below(8)) {
  case 0:
  case 1:
    t = i128_text(static_cast<i128>(c.range(-20, 300)));
    break;
  case 2: // around the limits
    t = i128_text(static_cast<i128>(L::max()) + c.range(-3, 3));
    break;
  case 3:
    t = i128_text(static_cast<i128>(L::min()) + c.range(-3, 3));
    break;
  case 4: { // around a limit of any other type, or its multiple
    auto sh = c.pick({ 7, 8, 15, 16, 31, 32, 63, 64 });
    i128 v = (static_cast<i128>(1) << sh) * c.range(1, 3) + c.range(-2, 2);
    t = i128_text(c.chance(1, 2) ? v : -v);
    break;
  }
  case 5: // any value
    t = i128_text(static_cast<i128>(static_cast<T>(c.raw())));
    break;
  case 6: // leading zeros and long digit strings
    t = std::string(c.below(4), '0') + i128_text(c.range(0, 500))
        + c.str("0123456789", 22, 3);
    if (c.chance(1, 3)) {
      t = "-" + t;
    }
    break;
  default:
    t = c.str("-+0123456789 .,xXeEaflu_\t\n", 8, 3);
  }
  if (c.chance(1, 3)) {
    t = mutate(c, t, "0123456789-+ .exlLuU;_\t\n\v");
  }
  c.in("type", name);
  c.in("text", t);
  placed p(c, t);
  T v {};
  auto want = ref_int<T>(t, v);
  c.nontrivial(want != verdict::invalid || t.size() > 1);
  judge<T>(c, p.sv, want, v);
}

// ---------------------------------------------------------------- floating --
bool ieq(std::string_view s, std::string_view lower)
{
  if (s.size() != lower.size()) {
    return false;
  }
  for (std::size_t i = 0; i < s.size(); ++i) {
    char ch = s[i] >= 'A' && s[i] <= 'Z' ? static_cast<char>(s[i] + 32) : s[i];
    if (ch != lower[i]) {
      return false;
    }
  }
  return true;
}
bool digit(char ch)
{
  return ch >= '0' && ch <= '9';
}
// length of the longest prefix that is a number; `special`: inf or nan
std::size_t float_prefix(std::string_view s, bool& nonzero, bool& special)
{
  std::size_t i = 0;
  nonzero = special = false;
  if (i < s.size() && s[i] == '-') {
    ++i;
  }
  auto rest = s.substr(i);
  if (ieq(rest.substr(0, 8), "infinity")) {
    special = true;
    return i + 8;
  }
  if (ieq(rest.substr(0, 3), "inf")) {
    special = true;
    return i + 3;
  }
  if (ieq(rest.substr(0, 3), "nan")) {
    special = true;
    std::size_t j = 3;
    if (j < rest.size() && rest[j] == '(') {
      for (std::size_t q = j + 1; q < rest.size(); ++q) {
        char ch = rest[q];
        if (ch == ')') {
          return i + q + 1;
        }
        if (!(digit(ch) || (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z')
              || ch == '_')) {
          break;
        }
      }
    }
    return i + j;
  }
  std::size_t d = 0;
  for (; i < s.size() && digit(s[i]); ++i, ++d) {
    nonzero |= s[i] != '0';
  }
  if (i < s.size() && s[i] == '.') {
    std::size_t j = i + 1;
    std::size_t f = 0;
    for (; j < s.size() && digit(s[j]); ++j, ++f) {
      nonzero |= s[j] != '0';
    }
    if (d + f) {
      i = j;
    }
    d += f;
  }
  if (!d) {
    return 0;
  }
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    std::size_t j = i + 1;
    if (j < s.size() && (s[j] == '+' || s[j] == '-')) {
      ++j;
    }
    std::size_t e = j;
    for (; j < s.size() && digit(s[j]); ++j) { }
    if (j > e) {
      i = j;
    }
  }
  return i;
}
template <typename T>
T strto(const std::string& s)
{
  if constexpr (std::is_same_v<T, float>) {
    return std::strtof(s.c_str(), nullptr);
  } else if constexpr (std::is_same_v<T, double>) {
    return std::strtod(s.c_str(), nullptr);
  } else {
    return std::strtold(s.c_str(), nullptr);
  }
}

template <typename T>
void one_float(pbt::Case& c, const char* name)
{
  using L = std::numeric_limits<T>;
  std::string t;
  auto fmt_of = [&](T v) {
    char b[6000];
    auto how = c.below(4);
    auto r = how == 0 ? std::to_chars(b, b + sizeof b, v)
        : how == 1
        ? std::to_chars(b, b + sizeof b, v, std::chars_format::scientific,
                        static_cast<int>(c.below(25)))
        : how == 2
        ? std::to_chars(b, b + sizeof b, v, std::chars_format::fixed,
                        static_cast<int>(c.below(12)))
        : std::to_chars(b, b + sizeof b, v, std::chars_format::general,
                        static_cast<int>(c.range(1, 40)));
    return std::string(b, r.ptr);
  };
  switch (c.below(8)) {
  case 0:
    t = c.pick({ "1", "1.", ".1", "-1.5", "0", "-0", "-.1", "100.25", "1e5",
                 "1E-5", "1e+5" });
    break;
  case 1: { // any bit pattern
    if constexpr (std::is_same_v<T, float>) {
      auto r = static_cast<std::uint32_t>(c.raw());
      float f;
      std::memcpy(&f, &r, 4);
      t = fmt_of(f);
    } else {
      auto r = c.raw();
      double d;
      std::memcpy(&d, &r, 8);
      t = fmt_of(static_cast<T>(d));
    }
    break;
  }
  case 2:
    t = fmt_of(c.pick({ L::max(), L::min(), L::denorm_min(), L::epsilon(),
                        -L::max(), L::lowest(), T(1), T(0), -T(0) }));
    break;
  case 3: // decimal digits with an exponent around the limits
    t = (c.chance(1, 3) ? "-" : "") + std::to_string(c.below(1000)) + "."
        + c.str("0123456789", 30, 8) + "e"
        + std::to_string(c.pick({ 0, 1, 36, 37, 38, 39, 306, 307, 308, 309,
                                  310, 4930, 4931, 4932, 4933 })
                         * (c.chance(1, 2) ? 1 : -1)
                         - static_cast<int>(c.below(3)));
    break;
  case 4:
    t = c.pick({ "inf", "-inf", "nan", "-nan", "infinity", "INF", "NaN",
                 "nan(0x1)", "nan(", "+inf", "infi", "-Infinity", "nan()" });
    break;
  case 5:
    t = c.str("0123456789", 40, 12) + "." + c.str("0123456789", 40, 12);
    break;
  case 6:
    t = c.str("-+.0123456789eExp infa", 8, 4);
    break;
  default:
    t = std::to_string(c.range(-100000, 100000)) + "."
        + std::to_string(c.below(100000));
  }
  if (c.chance(1, 3)) {
    t = mutate(c, t, "0123456789.-+eEpx ,;f\tin");
  }
  c.in("type", name);
  c.in("text", t);
  placed p(c, t, std::is_same_v<T, long double>);
  bool nonzero, special;
  auto n = float_prefix(t, nonzero, special);
  T v {};
  verdict want;
  if (!n) {
    want = verdict::invalid;
  } else {
    v = strto<T>(t.substr(0, n));
    bool fits = special
        || (!std::isinf(v) && !(nonzero && v == T(0)));
    want = n != t.size() ? (fits ? verdict::invalid : verdict::invalid_or_range)
        : fits           ? verdict::ok
                         : verdict::range;
  }
  c.nontrivial(want != verdict::invalid || t.size() > 1);
  judge<T>(c, p.sv, want, v);
}
}

#define INTS(X)                                                                \
  X(signed char)                                                               \
  X(unsigned char)                                                             \
  X(char) X(short) X(unsigned short) X(int) X(unsigned) X(long)                \
      X(unsigned long) X(long long) X(unsigned long long)

SECTION("integers", 900000, 8000000)
{
  switch (c.below(11)) {
#define X(T)                                                                   \
  one_int<T>(c, #T);                                                           \
  return;
  case 0:
    X(signed char)
  case 1:
    X(unsigned char)
  case 2:
    X(char)
  case 3:
    X(short)
  case 4:
    X(unsigned short)
  case 5:
    X(int)
  case 6:
    X(unsigned)
  case 7:
    X(long)
  case 8:
    X(unsigned long)
  case 9:
    X(long long)
  default:
    X(unsigned long long)
#undef X
  }
}

SECTION("floating point", 500000, 4000000)
{
  switch (c.below(5)) {
  case 0:
  case 1:
    one_float<float>(c, "float");
    return;
  case 2:
  case 3:
    one_float<double>(c, "double");
    return;
  default:
    one_float<long double>(c, "long double");
  }
}

// All 8-bit values and all short texts for the narrow types.
SECTION("exhaustive narrow", 400, 400)
{
  // each case covers a slice of the texts over a small alphabet
  static const char A[] = "-+012358 ";
  constexpr std::size_t N = sizeof A - 1;
  auto slice = c.below(400);
  c.in("slice", slice);
  c.nontrivial();
  std::size_t total = 0, pw = 1;
  for (int l = 0; l <= 5; ++l, pw *= N) {
    total += pw;
  }
  for (std::size_t id = slice; id < total; id += 400) {
    std::size_t k = id, w = 1;
    std::string t;
    std::size_t len = 0;
    while (k >= w) {
      k -= w;
      w *= N;
      ++len;
    }
    for (std::size_t q = 0; q < len; ++q, k /= N) {
      t += A[k % N];
    }
    signed char a {};
    unsigned char b {};
    auto wa = ref_int(t, a);
    judge<signed char>(c, t, wa, a);
    auto wb = ref_int(t, b);
    judge<unsigned char>(c, t, wb, b);
  }
}

SECTION("flags", 200000, 1500000)
{
  static const std::vector<std::string> yes { "1", "t", "true", "y", "yes" };
  static const std::vector<std::string> no { "0", "f", "false", "n", "no" };
  std::string t;
  switch (c.below(4)) {
  case 0:
  case 1:
    t = c.chance(1, 2) ? c.pick(yes) : c.pick(no);
    break;
  case 2:
    t = mutate(c, c.chance(1, 2) ? c.pick(yes) : c.pick(no), "tTfFyYnN01esrua ");
    break;
  default:
    t = c.str("tTrRuUeEyYsSfFaAlLnNoO01", 6, 2);
  }
  for (auto& ch : t) {
    if (c.chance(1, 2)) {
      ch = ch >= 'a' && ch <= 'z' ? static_cast<char>(ch - 32) : ch;
    }
  }
  c.in("text", t);
  placed p(c, t);
  bool is_yes = false, is_no = false;
  for (auto& y : yes) {
    is_yes |= ieq(t, y);
  }
  for (auto& y : no) {
    is_no |= ieq(t, y);
  }
  c.nontrivial(is_yes || is_no || t.size() > 1);
  auto got = fi::from_string<bool>(p.sv);
  if (is_yes || is_no) {
    c.label(is_yes ? "true" : "false");
    REQM(got.has_value(), "should be accepted");
    REQ_EQ(*got, is_yes);
  } else {
    c.label("refused");
    REQM(!got.has_value(), "should be refused");
    REQ(got.error() == std::errc::invalid_argument);
  }
}

SECTION("text is kept", 50000, 400000)
{
  auto t = c.bytes(24);
  c.in("text", t);
  c.nontrivial(!t.empty());
  placed p(c, t);
  auto a = fi::from_string<std::string>(p.sv);
  REQ(a.has_value());
  REQ_EQ(*a, t);
  auto b = fi::from_string<std::string_view>(p.sv);
  REQ(b.has_value());
  REQ_EQ(*b, t);
}
