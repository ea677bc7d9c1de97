// A small property-based testing engine.
//
// * A case is a pure function of a "tape" of choices.  In generation mode the
//   tape is produced by a PRNG seeded from (VERIF_SEED, section, case index);
//   in replay/shrink mode it is read back (values are reduced modulo the
//   requested range; a tape that runs out yields 0, the simplest choice).
// * Cases run in a forked worker.  The worker publishes the case it is about to
//   run in shared memory, so that a crash (sanitizer report, abort, uncaught
//   exception, runaway loop) is attributed to it and treated as a failure.
// * Shrinking works on the tape (delete spans, zero, lower values), each
//   candidate in a forked child.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <exception>
#include <functional>
#include <initializer_list>
#include <map>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

namespace pbt {
using u64 = std::uint64_t;
using i64 = std::int64_t;

inline u64 mix(u64 x)
{
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

struct failure {
  std::string msg;
};
struct discard { };

// printable rendering of bytes, quoted
std::string quote(std::string_view s);

class Case {
public:
  // ---- choices -------------------------------------------------------------
  u64 below(u64 n); // uniform in [0, n)
  i64 range(i64 lo, i64 hi) // inclusive
  {
    return static_cast<i64>(static_cast<u64>(lo)
                            + below(static_cast<u64>(hi) - static_cast<u64>(lo)
                                    + 1));
  }
  u64 raw(); // any 64-bit value
  bool chance(u64 num, u64 den) // true with num/den; false is simplest
  {
    return below(den) >= den - num;
  }
  // weighted choice: returns an index
  std::size_t weighted(std::initializer_list<unsigned> w);
  template <typename T>
  const T& pick(const std::vector<T>& v)
  {
    return v[below(v.size())];
  }
  template <typename T>
  T pick(std::initializer_list<T> v)
  {
    return v.begin()[below(v.size())];
  }
  const char* pick(std::initializer_list<const char*> v)
  {
    return v.begin()[below(v.size())];
  }
  // small counts more likely; "continue?" style so that deletion shrinks well
  std::size_t count(std::size_t max);
  bool more(std::size_t n, std::size_t max, unsigned avg);

  // strings
  std::string str(std::string_view alphabet, std::size_t max, unsigned avg = 6);
  std::string bytes(std::size_t max, unsigned avg = 8);
  std::string ascii(std::size_t max, unsigned avg = 8);

  // ---- description ---------------------------------------------------------
  // Every generated input must be passed through in(): it feeds the identity
  // hash of the case and the human readable description.
  void in(std::string_view name, std::string_view v);
  void in(std::string_view name, const std::string& v)
  {
    in(name, std::string_view(v));
  }
  void in(std::string_view name, const char* v)
  {
    in(name, std::string_view(v));
  }
  template <typename T>
    requires(std::is_integral_v<T>)
  void in(std::string_view name, T v)
  {
    in_int(name, static_cast<i64>(v), std::is_unsigned_v<T>);
  }
  void in(std::string_view name, double v);
  void op(std::string_view name) // a step of a history
  {
    step_text(name);
  }
  template <typename... A>
  void op(std::string_view name, const A&... a)
  {
    step_text(name);
    (in("", a), ...);
  }
  void note(std::string_view text); // description only

  // ---- bookkeeping ---------------------------------------------------------
  void nontrivial(bool b = true)
  {
    nontrivial_ = nontrivial_ || b;
  }
  void label(const char* l);

  [[noreturn]] void fail(std::string msg);
  void check(bool ok, const char* expr, const char* file, int line);
  template <typename F>
  void check(bool ok, F&& msg, const char* file, int line)
  {
    if (!ok) {
      fail_at(msg(), file, line);
    }
  }
  [[noreturn]] void fail_at(std::string msg, const char* file, int line);

  bool verbose = false;

  // ---- engine side ---------------------------------------------------------
  struct Engine;

private:
  friend struct Engine;
  void step_text(std::string_view name);
  void in_int(std::string_view name, i64 v, bool is_unsigned);
  void h(const void* p, std::size_t n);
  void desc(std::string_view s);

  bool replay_ = false;
  const std::vector<u64>* tape_ = nullptr;
  std::size_t pos_ = 0;
  u64 rng_ = 0;
  u64 hash_ = 0;
  bool nontrivial_ = false;
  std::map<const char*, u64>* labels_ = nullptr;
  std::vector<const char*> case_labels_;
  std::string desc_;
};

struct Section {
  const char* name;
  void (*fn)(Case&);
  u64 quick;
  u64 thorough;
  const char* known; // key of a probe for a recorded finding, or nullptr
};

struct Reg {
  Reg(const char* name, void (*fn)(Case&), u64 quick, u64 thorough,
      const char* known = nullptr);
};

// rule text shown in the evidence
void set_rule(const char* rule);
struct Rule {
  Rule(const char* r)
  {
    set_rule(r);
  }
};
// called before and after every case (state resets, leak checks)
void set_hooks(void (*before)(), void (*after)(Case&));

template <typename T>
std::string show(const T& v)
{
  if constexpr (std::is_same_v<T, bool>) {
    return v ? "true" : "false";
  } else if constexpr (std::is_convertible_v<T, std::string_view>) {
    return quote(std::string_view(v));
  } else if constexpr (std::is_enum_v<T>) {
    return std::to_string(static_cast<long long>(v));
  } else if constexpr (std::is_arithmetic_v<T>) {
    return std::to_string(v);
  } else {
    return "<value>";
  }
}

int engine_main(int argc, char** argv);
}

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// SECTION(name, quick cases, thorough cases) { body using `c` }
#define SECTION(name, quick, thorough)                                         \
  static void PBT_CAT(pbt_fn_, __LINE__)(pbt::Case&);                          \
  static pbt::Reg PBT_CAT(pbt_reg_, __LINE__)(                                 \
      name, &PBT_CAT(pbt_fn_, __LINE__), quick, thorough);                     \
  static void PBT_CAT(pbt_fn_, __LINE__)([[maybe_unused]] pbt::Case& c)
#define KNOWN_PROBE(key)                                                       \
  static void PBT_CAT(pbt_fn_, __LINE__)(pbt::Case&);                          \
  static pbt::Reg PBT_CAT(pbt_reg_, __LINE__)(                                 \
      "known:" key, &PBT_CAT(pbt_fn_, __LINE__), 1, 1, key);                   \
  static void PBT_CAT(pbt_fn_, __LINE__)([[maybe_unused]] pbt::Case& c)
#define REQ(cond) c.check(static_cast<bool>(cond), #cond, __FILE__, __LINE__)
#define REQM(cond, msg)                                                        \
  c.check(                                                                     \
      static_cast<bool>(cond),                                                 \
      [&] { return std::string(#cond " : ") + (msg); },                        \
      __FILE__,                                                                \
      __LINE__)
#define REQ_EQ(a, b)                                                           \
  do {                                                                         \
    const auto& pbt_a = (a);                                                   \
    const auto& pbt_b = (b);                                                   \
    c.check(                                                                   \
        static_cast<bool>(pbt_a == pbt_b),                                     \
        [&] {                                                                  \
          return std::string(#a " == " #b " : got ") + pbt::show(pbt_a)        \
              + ", want " + pbt::show(pbt_b);                                  \
        },                                                                     \
        __FILE__,                                                              \
        __LINE__);                                                             \
  } while (0)
