// C42: an operation awaited as an expected yields exactly its outcome.
#include "web.hpp"
#include <fmt/format.h>

static pbt::Rule rule(
    "histories of up to eight operations written against the completion-token interface, each completing with nothing or "
    "with a value of one of seven types (numbers, text, move-only, counted, an error code, an expected), successfully, "
    "with an error of one of four categories, or with an error and a value, while it is initiated, later, after a timer, or "
    "never; awaited with the framework's token, with wrapped tokens and with callbacks of several forms, one after the "
    "other or on several coroutines in a generated order; non-trivial: an error, a move-only value, or an operation that "
    "never completes");

using namespace web_h;
namespace asio = boost::asio;
using sys_ec = boost::system::error_code;

namespace {
// ---- values ---------------------------------------------------------------------
int alive = 0;
struct counted {
  int n = 0;
  bool here = true;
  explicit counted(int n)
      : n(n)
  {
    ++alive;
  }
  counted(const counted& o)
      : n(o.n)
      , here(o.here)
  {
    ++alive;
  }
  counted(counted&& o) noexcept
      : n(o.n)
      , here(std::exchange(o.here, false))
  {
    ++alive;
  }
  counted& operator=(const counted&) = default;
  counted& operator=(counted&& o) noexcept
  {
    n = o.n;
    here = std::exchange(o.here, false);
    return *this;
  }
  ~counted()
  {
    --alive;
  }
  bool operator==(const counted& o) const
  {
    return n == o.n && here == o.here;
  }
};
struct only_moved {
  std::unique_ptr<int> p;
};
struct no_default {
  long n;
  no_default() = delete;
  explicit no_default(long n)
      : n(n)
  {
  }
  bool operator==(const no_default&) const = default;
};

struct category : std::error_category {
  const char* name() const noexcept override
  {
    return "pbt";
  }
  std::string message(int) const override
  {
    return "an error";
  }
  // equivalent to others, which must not make them the same
  std::error_condition default_error_condition(int) const noexcept override
  {
    return std::errc::timed_out;
  }
};
const category own;

template <typename T>
struct sample;
template <>
struct sample<std::size_t> {
  static std::size_t make(int n)
  {
    return static_cast<std::size_t>(n);
  }
  static bool same(const std::size_t& v, int n)
  {
    return v == static_cast<std::size_t>(n);
  }
};
template <>
struct sample<std::string> {
  static std::string make(int n)
  {
    return std::string(static_cast<std::size_t>(n % 60), 'a') + std::to_string(n);
  }
  static bool same(const std::string& v, int n)
  {
    return v == make(n);
  }
};
template <>
struct sample<only_moved> {
  static only_moved make(int n)
  {
    return { std::make_unique<int>(n) };
  }
  static bool same(const only_moved& v, int n)
  {
    return v.p && *v.p == n;
  }
};
template <>
struct sample<counted> {
  static counted make(int n)
  {
    return counted(n);
  }
  static bool same(const counted& v, int n)
  {
    return v.here && v.n == n;
  }
};
template <>
struct sample<no_default> {
  static no_default make(int n)
  {
    return no_default(n);
  }
  static bool same(const no_default& v, int n)
  {
    return v.n == n;
  }
};
template <>
struct sample<bool> {
  static bool make(int n)
  {
    return n & 1;
  }
  static bool same(const bool& v, int n)
  {
    return v == make(n);
  }
};
template <>
struct sample<fi::optional<std::string>> {
  using O = fi::optional<std::string>;
  static O make(int n)
  {
    return n & 1 ? O(std::to_string(n)) : O();
  }
  static bool same(const O& v, int n)
  {
    return v.has_value() == bool(n & 1) && (!v || *v == std::to_string(n));
  }
};

// ---- operations -----------------------------------------------------------------
enum class when { at_once, later, timer, never };
struct op_plan {
  int type = 0; // 0: no value
  when at = when::later;
  int ms = 0;
  sys_ec error;
  int n = 0; // the value
  int token = 0;
  int handled = 0;
  std::string seen;
};
template <typename T>
struct initiation {
  op_plan* p;
  std::shared_ptr<int> own_state; // moved into the operation
  template <typename Handler>
  void operator()(Handler&& handler, asio::io_context* ioc, std::string a, only_moved b)
  {
    // the arguments of the initiation come along unchanged
    if (a != "argument" || !b.p || *b.p != 5 || !own_state || *own_state != 7) {
      p->seen = "other arguments of the initiation";
    }
    using H = std::decay_t<Handler>;
    // the executor of the handler is the one of what it wraps
    if constexpr (!std::is_void_v<T>) {
      if (p->token == 5 && asio::get_associated_executor(handler, fi::executor_type()) != fi::executor_type(ioc->get_executor())) {
        p->seen = "the executor of the handler is lost";
      }
      if (p->token == 4 && asio::get_associated_executor(handler, fi::executor_type(ioc->get_executor())) != fi::executor_type(ioc->get_executor())) {
        p->seen = "a handler without an executor has one";
      }
    }
    auto h = std::make_shared<H>(std::forward<Handler>(handler));
    auto complete = [h, p = p] {
      if constexpr (std::is_void_v<T>) {
        std::move (*h)(p->error);
      } else {
        std::move (*h)(p->error, sample<T>::make(p->n));
      }
    };
    switch (p->at) {
    case when::at_once:
      complete();
      break;
    case when::later:
      net::post(*ioc, complete);
      break;
    case when::timer: {
      auto t = std::make_shared<net::steady_timer>(ioc->get_executor());
      t->expires_after(std::chrono::milliseconds(p->ms));
      t->async_wait([t, complete](sys_ec) { complete(); });
      break;
    }
    case when::never:
      break; // the handler is destroyed
    }
  }
};
template <typename T, typename Token>
auto async_thing(op_plan& p, asio::io_context& ioc, Token&& token)
{
  only_moved b { std::make_unique<int>(5) };
  if constexpr (std::is_void_v<T>) {
    return asio::async_initiate<Token, void(sys_ec)>(initiation<T> { &p, std::make_shared<int>(7) }, token, &ioc, std::string("argument"), std::move(b));
  } else {
    return asio::async_initiate<Token, void(sys_ec, T)>(initiation<T> { &p, std::make_shared<int>(7) }, token, &ioc, std::string("argument"), std::move(b));
  }
}

template <typename E>
void judge(op_plan& p, E& r)
{
  using T = typename std::decay_t<E>::value_type;
  static_assert(std::same_as<typename std::decay_t<E>::error_type, sys_ec>);
  ++p.handled;
  auto wrong = [&](std::string s) {
    if (p.seen.empty()) {
      p.seen = std::move(s);
    }
  };
  if (r.has_value() == static_cast<bool>(p.error)) {
    return wrong(r.has_value() ? "a value instead of the error" : "an error instead of the value");
  }
  if (!r) {
    if (r.error().value() != p.error.value() || &r.error().category() != &p.error.category()) {
      wrong("another error");
    }
    return;
  }
  if constexpr (!std::is_void_v<T>) {
    if (!sample<T>::same(*r, p.n)) {
      wrong("another value");
    }
  }
}
template <typename T>
using exp_of = fi::expected<T, sys_ec>;

template <typename T>
struct const_callback {
  op_plan* p;
  std::shared_ptr<only_moved> keeps;
  void operator()(exp_of<T> r) const
  {
    judge(*p, r);
  }
};
template <typename T>
struct rvalue_callback {
  op_plan* p;
  asio::io_context* ioc;
  using executor_type = fi::executor_type;
  executor_type get_executor() const noexcept
  {
    return ioc->get_executor();
  }
  only_moved keeps { std::make_unique<int>(3) };
  void operator()(exp_of<T>&& r) &&
  {
    if (!keeps.p || *keeps.p != 3) {
      p->seen = "the callback is no longer what was given";
    }
    keeps.p.reset();
    judge(*p, r);
  }
};

// one operation awaited in one of the ways there are
template <typename T>
awaitable<void> await_one(op_plan& p, asio::io_context& ioc)
{
  switch (p.token) {
  case 0: {
    auto r = co_await async_thing<T>(p, ioc, fi::use_awaitable);
    static_assert(std::same_as<decltype(r), exp_of<T>>);
    judge(p, r);
    break;
  }
  case 1: {
    auto r = co_await async_thing<T>(p, ioc, fi::as_expected(asio::use_awaitable_t<fi::executor_type>()));
    judge(p, r);
    break;
  }
  case 2: {
    auto token = fi::as_expected(asio::use_awaitable_t<fi::executor_type>());
    auto a = async_thing<T>(p, ioc, token);
    co_await [](int) -> awaitable<void> { co_return; }(1);
    auto r = co_await std::move(a);
    judge(p, r);
    break;
  }
  case 3: {
    // as the framework's functions take it
    fi::expected<T, std::error_code> r = co_await async_thing<T>(p, ioc, fi::use_awaitable);
    fi::expected<T, sys_ec> back = [&]() -> fi::expected<T, sys_ec> {
      if (!r) {
        return fi::unexpected { sys_ec(r.error()) };
      }
      if constexpr (std::is_void_v<T>) {
        return {};
      } else {
        return std::move(*r);
      }
    }();
    judge(p, back);
    break;
  }
  case 4:
    async_thing<T>(p, ioc, fi::as_expected(const_callback<T> { &p, std::make_shared<only_moved>() }));
    break;
  case 5:
    async_thing<T>(p, ioc, fi::as_expected(rvalue_callback<T> { &p, &ioc }));
    break;
  case 6: {
    auto token = fi::as_expected([&p](exp_of<T> r) { judge(p, r); });
    async_thing<T>(p, ioc, token);
    break;
  }
  default:
    async_thing<T>(p, ioc, fi::as_expected(asio::detached));
    break;
  }
}
using await_fn = awaitable<void> (*)(op_plan&, asio::io_context&);
struct kind_t {
  const char* name;
  await_fn f;
};
const kind_t kinds[] = { { "void", &await_one<void> },
                         { "size", &await_one<std::size_t> },
                         { "string", &await_one<std::string> },
                         { "move-only", &await_one<only_moved> },
                         { "counted", &await_one<counted> },
                         { "no default", &await_one<no_default> },
                         { "bool", &await_one<bool> },
                         { "optional", &await_one<fi::optional<std::string>> } };
}

SECTION("operations", 8000, 150000)
{
  clean_hooks clean;
  {
    net::io_context ioc;
    if (auto seed = c.below(1 << 16); seed) {
      auto s = std::make_shared<pbt::u64>(seed);
      ioc.pick = [s](std::size_t n) {
        *s = pbt::mix(*s);
        return static_cast<std::size_t>(*s % n);
      };
    }
    std::vector<std::vector<std::unique_ptr<op_plan>>> threads(1 + c.below(3));
    for (auto& ops : threads) {
      for (std::size_t n = 0; n == 0 || c.more(n, 8, 3); ++n) {
        auto p = std::make_unique<op_plan>();
        p->type = static_cast<int>(c.below(std::size(kinds)));
        p->at = c.pick<when>({ when::at_once, when::later, when::later, when::timer, when::timer, when::never });
        if (p->at == when::never && !c.chance(1, 4)) {
          p->at = when::later;
        }
        p->ms = static_cast<int>(c.below(20));
        switch (c.weighted({ 4, 1, 1, 1, 1 })) {
        case 0:
          // success of any category
          p->error = c.chance(1, 4) ? sys_ec(0, own) : sys_ec();
          break;
        case 1:
          p->error = net::error::eof;
          break;
        case 2:
          p->error = sys_ec(static_cast<int>(1 + c.below(100)), boost::system::system_category());
          break;
        case 3:
          p->error = sys_ec(static_cast<int>(1 + c.below(100)), own);
          break;
        default:
          p->error = sys_ec(-1, boost::system::generic_category());
        }
        p->n = static_cast<int>(c.below(100));
        p->token = static_cast<int>(c.below(8));
        c.in("operation", fmt::format("{}, completes {}, error {} {}, token {}", kinds[p->type].name, static_cast<int>(p->at), p->error.value(), p->error.category().name(), p->token));
        c.nontrivial(p->error || p->type == 3 || p->at == when::never);
        c.label(p->token < 4 ? "awaited" : "callback");
        ops.push_back(std::move(p));
      }
    }
    std::size_t ended = 0;
    std::exception_ptr error;
    for (auto& ops : threads) {
      net::co_spawn(
          ioc,
          [](auto& ops, auto& ioc) -> awaitable<void> {
            for (auto& p : ops) {
              co_await kinds[p->type].f(*p, ioc);
            }
          }(ops, ioc),
          [&](std::exception_ptr e) {
            ++ended;
            if (e) {
              error = e;
            }
          });
    }
    ioc.scheduler::run(true, 5'000'000);
    REQM(!error, "an exception comes out of an operation");
    std::size_t whole = 0;
    for (auto& ops : threads) {
      bool stuck = false;
      for (auto& p : ops) {
        REQM(p->seen.empty(), std::string(kinds[p->type].name) + ": " + p->seen);
        int want = stuck || p->at == when::never || p->token == 7 ? 0 : 1;
        REQM(p->handled == want, fmt::format("{}: completes {} times instead of {}", kinds[p->type].name, p->handled, want));
        stuck = stuck || (p->token < 4 && p->at == when::never);
      }
      whole += !stuck;
    }
    REQ_EQ(ended, whole);
  }
  REQM(alive == 0, fmt::format("{} values are left", alive));
}
