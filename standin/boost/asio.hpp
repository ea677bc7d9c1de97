// Stand-in for the part of Boost.Asio that fitoria uses (see
// standin/README.md): a scheduler whose task order a check can choose and
// whose clock is virtual, coroutines on top of it, in-memory sockets, and
// stream files on real file descriptors.
#pragma once
#define BOOST_ASIO_HAS_FILE 1
#define BOOST_ASIO_HAS_LOCAL_SOCKETS 1
#define BOOST_ASIO_HAS_CO_AWAIT 1

#include <boost/standin_system.hpp>

#include <arpa/inet.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <any>
#include <array>
#include <chrono>
#include <condition_variable>
#include <coroutine>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <span>
#include <string>
#include <string_view>
#include <system_error>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

namespace boost::asio {
using std::coroutine_handle;

// ---------------------------------------------------------------- errors
namespace error {
enum basic_errors {
  access_denied = EACCES,
  address_family_not_supported = EAFNOSUPPORT,
  address_in_use = EADDRINUSE,
  already_connected = EISCONN,
  already_started = EALREADY,
  bad_descriptor = EBADF,
  broken_pipe = EPIPE,
  connection_aborted = ECONNABORTED,
  connection_refused = ECONNREFUSED,
  connection_reset = ECONNRESET,
  fault = EFAULT,
  host_unreachable = EHOSTUNREACH,
  in_progress = EINPROGRESS,
  interrupted = EINTR,
  invalid_argument = EINVAL,
  message_size = EMSGSIZE,
  name_too_long = ENAMETOOLONG,
  network_down = ENETDOWN,
  network_reset = ENETRESET,
  network_unreachable = ENETUNREACH,
  no_descriptors = EMFILE,
  no_buffer_space = ENOBUFS,
  no_memory = ENOMEM,
  no_permission = EPERM,
  no_protocol_option = ENOPROTOOPT,
  no_such_device = ENODEV,
  not_socket = ENOTSOCK,
  operation_not_supported = EOPNOTSUPP,
  shut_down = ESHUTDOWN,
  not_connected = ENOTCONN,
  no_space = ENOSPC,
  operation_aborted = ECANCELED,
  timed_out = ETIMEDOUT,
  try_again = EAGAIN,
  would_block = EWOULDBLOCK,
};
enum misc_errors { already_open = 1, eof, not_found, fd_set_failure };
class misc_category_impl : public std::error_category {
public:
  const char* name() const noexcept override
  {
    return "asio.misc";
  }
  std::string message(int v) const override
  {
    return v == eof ? "End of file" : "asio.misc error";
  }
};
inline const std::error_category& get_misc_category()
{
  static misc_category_impl c;
  return c;
}
inline std::error_code make_error_code(basic_errors e)
{
  return { static_cast<int>(e), std::system_category() };
}
inline std::error_code make_error_code(misc_errors e)
{
  return { static_cast<int>(e), get_misc_category() };
}
}
}
template <>
struct std::is_error_code_enum<boost::asio::error::basic_errors>
    : std::true_type { };
template <>
struct std::is_error_code_enum<boost::asio::error::misc_errors>
    : std::true_type { };

namespace boost::asio {
// ------------------------------------------------------------- scheduler
class execution_context {
public:
  execution_context() = default;
  execution_context(const execution_context&) = delete;
  execution_context& operator=(const execution_context&) = delete;
  virtual ~execution_context() = default;
};

namespace standin {
using clock = std::chrono::steady_clock;

struct root_base {
  virtual ~root_base() = default;
  virtual void destroy() = 0;
};

class scheduler : public execution_context {
public:
  using task = std::function<void()>;

  // chooses which of n ready tasks runs next; the oldest when empty
  std::function<std::size_t(std::size_t)> pick;

  ~scheduler() override
  {
    shutdown();
  }
  // destroys every coroutine that has not ended, and every queued task
  void shutdown()
  {
    std::set<std::shared_ptr<root_base>> roots;
    {
      std::lock_guard l(m_);
      stopped_ = true;
      roots.swap(roots_);
    }
    for (auto& r : roots) {
      r->destroy();
    }
    roots.clear();
    std::deque<task> ready;
    std::multimap<clock::time_point, std::pair<std::uint64_t, task>> timers;
    {
      std::lock_guard l(m_);
      ready.swap(ready_);
      timers.swap(timers_);
    }
  }
  void post(task t)
  {
    {
      std::lock_guard l(m_);
      ready_.push_back(std::move(t));
    }
    cv_.notify_one();
  }
  void enter(std::shared_ptr<root_base> r)
  {
    std::lock_guard l(m_);
    roots_.insert(std::move(r));
  }
  void leave(const std::shared_ptr<root_base>& r)
  {
    std::lock_guard l(m_);
    roots_.erase(r);
  }
  std::size_t unfinished() const
  {
    std::lock_guard l(m_);
    return roots_.size();
  }
  clock::time_point now() const
  {
    std::lock_guard l(m_);
    return now_;
  }
  std::uint64_t at(clock::time_point when, task t)
  {
    std::lock_guard l(m_);
    auto id = ++ids_;
    timers_.emplace(when, std::pair(id, std::move(t)));
    return id;
  }
  bool cancel(std::uint64_t id)
  {
    task dead;
    std::lock_guard l(m_);
    for (auto it = timers_.begin(); it != timers_.end(); ++it) {
      if (it->second.first == id) {
        dead = std::move(it->second.second);
        timers_.erase(it);
        return true;
      }
    }
    return false;
  }
  // runs until there is nothing left to do; time passes only when no task is
  // ready, and by as much as the next timer needs
  std::size_t run(bool timers = true,
                  std::size_t limit = static_cast<std::size_t>(-1))
  {
    std::size_t n = 0;
    while (n < limit) {
      task t;
      {
        std::unique_lock l(m_);
        if (stopped_) {
          break;
        }
#ifdef STANDIN_REAL_TIME
        // for the project's own tests, which run contexts on threads: wait
        // for work that other threads may bring
        if (ready_.empty() && timers && !roots_.empty()) {
          now_ = std::max(now_, clock::now());
          if (timers_.empty() || timers_.begin()->first > now_) {
            l.unlock();
            std::this_thread::sleep_for(std::chrono::milliseconds(1));
            continue;
          }
        }
#endif
        if (ready_.empty()) {
          if (!timers || timers_.empty()
              || timers_.begin()->first == clock::time_point::max()) {
            break;
          }
          auto it = timers_.begin();
          now_ = std::max(now_, it->first);
          t = std::move(it->second.second);
          timers_.erase(it);
        } else {
          std::size_t i
              = pick && ready_.size() > 1 ? pick(ready_.size()) : 0;
          t = std::move(ready_[i]);
          ready_.erase(ready_.begin() + static_cast<std::ptrdiff_t>(i));
        }
      }
      t();
      ++n;
    }
    return n;
  }
  void work(std::stop_token st)
  {
    for (;;) {
      task t;
      {
        std::unique_lock l(m_);
        if (!cv_.wait(l, st, [&] { return !ready_.empty(); })) {
          return;
        }
        t = std::move(ready_.front());
        ready_.pop_front();
      }
      t();
    }
  }
  void stop()
  {
    std::lock_guard l(m_);
    stopped_ = true;
  }
  void restart()
  {
    std::lock_guard l(m_);
    stopped_ = false;
  }
  bool stopped() const
  {
    std::lock_guard l(m_);
    return stopped_;
  }
  bool idle() const
  {
    std::lock_guard l(m_);
    return ready_.empty();
  }

private:
  mutable std::mutex m_;
  std::condition_variable_any cv_;
  std::deque<task> ready_;
  std::multimap<clock::time_point, std::pair<std::uint64_t, task>> timers_;
  std::set<std::shared_ptr<root_base>> roots_;
#ifdef STANDIN_REAL_TIME
  clock::time_point now_ = clock::now();
#else
  clock::time_point now_ { std::chrono::hours(1) };
#endif
  std::uint64_t ids_ = 0;
  bool stopped_ = false;
};

class executor_base {
protected:
  scheduler* s_ = nullptr;

public:
  executor_base() = default;
  explicit executor_base(scheduler& s)
      : s_(&s)
  {
  }
  scheduler& sched() const
  {
    return *s_;
  }
  execution_context& context() const
  {
    return *s_;
  }
  template <typename F>
  void execute(F&& f) const
  {
    auto p = std::make_shared<std::decay_t<F>>(std::forward<F>(f));
    s_->post([p] { (*p)(); });
  }
  explicit operator bool() const noexcept
  {
    return s_ != nullptr;
  }
  friend bool operator==(const executor_base& a, const executor_base& b) noexcept
  {
    return a.s_ == b.s_;
  }
};
}

class io_context : public standin::scheduler {
public:
  class executor_type : public standin::executor_base {
  public:
    using executor_base::executor_base;
    io_context& context() const
    {
      return static_cast<io_context&>(*s_);
    }
  };
  io_context() = default;
  explicit io_context(int) { }
  ~io_context() override
  {
    shutdown();
  }
  executor_type get_executor() noexcept
  {
    return executor_type(*this);
  }
  std::size_t run()
  {
    return scheduler::run(true);
  }
  std::size_t poll()
  {
    return scheduler::run(false);
  }
  std::size_t run_one()
  {
    return scheduler::run(true, 1);
  }
  template <typename D>
  std::size_t run_for(D)
  {
    return scheduler::run(true);
  }
};

class system_context : public standin::scheduler {
  std::vector<std::jthread> threads_;

public:
  class executor_type;
  system_context()
  {
    set_threads(3);
  }
  // without threads it is a test's own to run
  void set_threads(int n)
  {
    threads_.clear();
    for (int i = 0; i < n; ++i) {
      threads_.emplace_back([this](std::stop_token st) { work(st); });
    }
  }
  ~system_context() override
  {
    threads_.clear();
    shutdown();
  }
  static system_context& instance()
  {
    // never destroyed: objects of static duration may outlive any other one
    static auto& c = *new system_context;
    return c;
  }
};
class system_context::executor_type : public standin::executor_base {
public:
  executor_type()
      : executor_base(system_context::instance())
  {
  }
};
using system_executor = system_context::executor_type;

class any_io_executor : public standin::executor_base {
public:
  any_io_executor() = default;
  any_io_executor(std::nullptr_t) { }
  any_io_executor(const io_context::executor_type& e)
      : executor_base(e)
  {
  }
  any_io_executor(const system_executor& e)
      : executor_base(e)
  {
  }
};
using any_completion_executor = any_io_executor;

namespace standin {
template <typename Ex>
concept executor_like = std::derived_from<std::decay_t<Ex>, executor_base>;
template <typename Ctx>
concept context_like = requires(Ctx& c) {
  { c.get_executor() } -> executor_like;
};
}

// ------------------------------------------------------------ completion
template <typename CompletionToken, typename... Signatures>
class async_result {
public:
  using completion_handler_type = CompletionToken;
  using return_type = void;
  template <typename Initiation, typename RawCompletionToken, typename... Args>
  static auto
  initiate(Initiation&& initiation, RawCompletionToken&& token, Args&&... args)
  {
    return std::forward<Initiation>(initiation)(
        std::forward<RawCompletionToken>(token), std::forward<Args>(args)...);
  }
};

template <template <typename, typename> class Associator,
          typename T,
          typename DefaultCandidate,
          typename = void>
struct associator { };

template <typename T, typename Executor>
struct associated_executor;
namespace standin {
template <typename T, typename Executor>
struct associated_executor_impl {
  using type = Executor;
  static type get(const T&) noexcept
  {
    return type();
  }
  static type get(const T&, const Executor& e) noexcept
  {
    return e;
  }
};
template <typename T, typename Executor>
  requires requires { typename T::executor_type; }
struct associated_executor_impl<T, Executor> {
  using type = typename T::executor_type;
  static type get(const T& t) noexcept
  {
    return t.get_executor();
  }
  static type get(const T& t, const Executor&) noexcept
  {
    return t.get_executor();
  }
};
}
template <typename T, typename Executor = system_executor>
struct associated_executor : standin::associated_executor_impl<T, Executor> { };
// a handler around another one passes on what that one is associated with
template <typename T, typename Executor>
  requires(!requires { typename T::executor_type; }
           && requires {
                typename associator<associated_executor, T, Executor>::type;
              })
struct associated_executor<T, Executor>
    : associator<associated_executor, T, Executor> { };
template <typename T, typename Executor = system_executor>
using associated_executor_t = typename associated_executor<T, Executor>::type;
template <typename T>
auto get_associated_executor(const T& t) noexcept
{
  return associated_executor<T>::get(t);
}
template <typename T, typename Executor>
auto get_associated_executor(const T& t, const Executor& e) noexcept
{
  return associated_executor<T, Executor>::get(t, e);
}

template <typename CompletionToken,
          typename... Signatures,
          typename Initiation,
          typename... Args>
auto async_initiate(Initiation&& initiation,
                    std::type_identity_t<CompletionToken>& token,
                    Args&&... args)
    -> decltype(async_result<std::decay_t<CompletionToken>, Signatures...>::
                    initiate(std::forward<Initiation>(initiation),
                             std::forward<CompletionToken>(token),
                             std::forward<Args>(args)...))
{
  return async_result<std::decay_t<CompletionToken>, Signatures...>::initiate(
      std::forward<Initiation>(initiation),
      std::forward<CompletionToken>(token),
      std::forward<Args>(args)...);
}

struct detached_t {
  constexpr detached_t() = default;
};
inline constexpr detached_t detached {};

template <typename... Signatures>
class async_result<detached_t, Signatures...> {
public:
  using return_type = void;
  template <typename Initiation, typename Raw, typename... Args>
  static void initiate(Initiation&& initiation, Raw&&, Args&&... args)
  {
    std::forward<Initiation>(initiation)([](auto&&...) {},
                                         std::forward<Args>(args)...);
  }
};

template <typename Allocator = void>
struct use_future_t {
  constexpr use_future_t() = default;
};
inline constexpr use_future_t<> use_future {};

namespace standin {
template <typename Sig>
struct future_value;
template <typename R>
struct future_value<R()> {
  using type = void;
};
template <typename R>
struct future_value<R(std::exception_ptr)> {
  using type = void;
};
template <typename R>
struct future_value<R(system::error_code)> {
  using type = void;
};
template <typename R, typename T>
struct future_value<R(std::exception_ptr, T)> {
  using type = T;
};
template <typename R, typename T>
struct future_value<R(system::error_code, T)> {
  using type = T;
};
template <typename T>
struct future_handler {
  std::shared_ptr<std::promise<T>> p = std::make_shared<std::promise<T>>();
  void done(std::exception_ptr e, auto&&... v)
  {
    if (e) {
      p->set_exception(e);
    } else {
      p->set_value(std::forward<decltype(v)>(v)...);
    }
  }
  void operator()()
  {
    done(nullptr);
  }
  void operator()(std::exception_ptr e, auto&&... v)
  {
    done(e, std::forward<decltype(v)>(v)...);
  }
  void operator()(system::error_code e, auto&&... v)
  {
    done(e ? std::make_exception_ptr(system::system_error(e))
           : std::exception_ptr(),
         std::forward<decltype(v)>(v)...);
  }
};
}
template <typename Allocator, typename Signature>
class async_result<use_future_t<Allocator>, Signature> {
public:
  using value_type = typename standin::future_value<Signature>::type;
  using return_type = std::future<value_type>;
  template <typename Initiation, typename Raw, typename... Args>
  static return_type initiate(Initiation&& initiation, Raw&&, Args&&... args)
  {
    standin::future_handler<value_type> h;
    auto f = h.p->get_future();
    std::forward<Initiation>(initiation)(std::move(h),
                                         std::forward<Args>(args)...);
    return f;
  }
};

// ------------------------------------------------------------ coroutines
template <typename T, typename Executor = any_io_executor>
class awaitable;

namespace standin {
// what all the frames of one co_spawn share
struct thread_of {
  scheduler* sched = nullptr;
  std::coroutine_handle<> next;
  void (*after)(void*) = nullptr;
  void* after_arg = nullptr;
  bool done = false;
  bool dead = false;
  std::weak_ptr<root_base> root;
  std::function<void()> finish;

  // resumes frames until one waits for an operation, or the last one ended
  static void pump(std::shared_ptr<root_base> keep, thread_of& t)
  {
    (void)keep;
    if (t.dead) {
      return;
    }
    while (t.next) {
      auto h = std::exchange(t.next, {});
      h.resume();
    }
    if (t.done) {
      auto f = std::move(t.finish);
      f();
    } else if (t.after) {
      auto f = std::exchange(t.after, nullptr);
      f(std::exchange(t.after_arg, nullptr));
    }
  }
};

struct promise_base {
  thread_of* thread = nullptr;
  std::coroutine_handle<> back;
  std::exception_ptr error;

  std::suspend_always initial_suspend() noexcept
  {
    return {};
  }
  struct final_awaiter {
    bool await_ready() noexcept
    {
      return false;
    }
    template <typename P>
    void await_suspend(std::coroutine_handle<P> h) noexcept
    {
      promise_base& p = h.promise();
      if (p.back) {
        p.thread->next = p.back;
      } else {
        p.thread->done = true;
      }
    }
    void await_resume() noexcept { }
  };
  final_awaiter final_suspend() noexcept
  {
    return {};
  }
  void unhandled_exception()
  {
    error = std::current_exception();
  }
};

template <typename T>
struct promise_value : promise_base {
  std::optional<T> value;
  template <typename U>
  void return_value(U&& u)
  {
    value.emplace(std::forward<U>(u));
  }
  T take()
  {
    if (error) {
      std::rethrow_exception(std::exchange(error, nullptr));
    }
    return std::move(*value);
  }
};
template <>
struct promise_value<void> : promise_base {
  void return_void() { }
  void take()
  {
    if (error) {
      std::rethrow_exception(std::exchange(error, nullptr));
    }
  }
};
}

namespace this_coro {
struct executor_t {
  constexpr executor_t() = default;
};
inline constexpr executor_t executor {};
struct cancellation_state_t { };
inline constexpr cancellation_state_t cancellation_state {};
}

template <typename T, typename Executor>
class awaitable {
public:
  using value_type = T;
  using executor_type = Executor;
  struct promise_type : standin::promise_value<T> {
    awaitable get_return_object()
    {
      return awaitable(
          std::coroutine_handle<promise_type>::from_promise(*this));
    }
    template <typename A>
    decltype(auto) await_transform(A&& a)
    {
      if constexpr (std::same_as<std::remove_cvref_t<A>,
                                 this_coro::executor_t>) {
        struct ready {
          Executor e;
          bool await_ready()
          {
            return true;
          }
          void await_suspend(std::coroutine_handle<>) { }
          Executor await_resume()
          {
            return e;
          }
        };
        return ready { executor_of() };
      } else {
        return std::forward<A>(a);
      }
    }
    Executor executor_of()
    {
      if constexpr (std::constructible_from<Executor, standin::scheduler&>) {
        return Executor(*this->thread->sched);
      } else {
        return Executor(
            io_context::executor_type(*this->thread->sched));
      }
    }
  };

  constexpr awaitable() noexcept = default;
  awaitable(awaitable&& o) noexcept
      : h_(std::exchange(o.h_, {}))
  {
  }
  awaitable& operator=(awaitable&& o) noexcept
  {
    if (this != &o) {
      reset();
      h_ = std::exchange(o.h_, {});
    }
    return *this;
  }
  ~awaitable()
  {
    reset();
  }
  bool valid() const noexcept
  {
    return static_cast<bool>(h_);
  }
  bool await_ready() const noexcept
  {
    return false;
  }
  template <typename P>
  void await_suspend(std::coroutine_handle<P> parent)
  {
    standin::promise_base& p = parent.promise();
    h_.promise().thread = p.thread;
    h_.promise().back = parent;
    p.thread->next = h_;
  }
  T await_resume()
  {
    auto mine = awaitable(std::move(*this));
    return mine.h_.promise().take();
  }

  // for the stand-in's own use
  std::coroutine_handle<promise_type> standin_handle() const
  {
    return h_;
  }
  void reset()
  {
    if (auto h = std::exchange(h_, {})) {
      h.destroy();
    }
  }

private:
  explicit awaitable(std::coroutine_handle<promise_type> h)
      : h_(h)
  {
  }
  std::coroutine_handle<promise_type> h_;
};

template <typename Executor = any_io_executor>
struct use_awaitable_t {
  constexpr use_awaitable_t() = default;
};
inline constexpr use_awaitable_t<> use_awaitable {};

namespace standin {
template <typename Sig>
struct await_value;
template <typename R>
struct await_value<R()> {
  using type = void;
  using stored = std::monostate;
  static stored make()
  {
    return {};
  }
  static void take(stored) { }
};
template <typename R>
struct await_value<R(system::error_code)> {
  using type = void;
  using stored = system::error_code;
  static stored make(system::error_code e)
  {
    return e;
  }
  static void take(stored e)
  {
    if (e) {
      throw system::system_error(e);
    }
  }
};
template <typename R>
struct await_value<R(std::exception_ptr)> {
  using type = void;
  using stored = std::exception_ptr;
  static stored make(std::exception_ptr e)
  {
    return e;
  }
  static void take(stored e)
  {
    if (e) {
      std::rethrow_exception(e);
    }
  }
};
template <typename R, typename T>
struct await_value<R(T)> {
  using type = std::decay_t<T>;
  using stored = type;
  template <typename U>
  static stored make(U&& u)
  {
    return std::forward<U>(u);
  }
  static type take(stored&& v)
  {
    return std::move(v);
  }
};
template <typename R, typename T>
struct await_value<R(system::error_code, T)> {
  using type = std::decay_t<T>;
  using stored = std::pair<system::error_code, type>;
  template <typename U>
  static stored make(system::error_code e, U&& u)
  {
    return { e, type(std::forward<U>(u)) };
  }
  static type take(stored&& v)
  {
    if (v.first) {
      throw system::system_error(v.first);
    }
    return std::move(v.second);
  }
};
template <typename R, typename T>
struct await_value<R(std::exception_ptr, T)> {
  using type = std::decay_t<T>;
  using stored = std::pair<std::exception_ptr, std::optional<type>>;
  template <typename U>
  static stored make(std::exception_ptr e, U&& u)
  {
    stored s;
    s.first = e;
    if (!e) {
      s.second.emplace(std::forward<U>(u));
    }
    return s;
  }
  static type take(stored&& v)
  {
    if (v.first) {
      std::rethrow_exception(v.first);
    }
    return std::move(*v.second);
  }
};

// what an operation started by co_await leaves its result in
template <typename Stored>
struct await_slot {
  std::optional<Stored> value;
  std::coroutine_handle<> waiting;
  thread_of* thread = nullptr;
  std::weak_ptr<root_base> root;
};
template <typename Sig>
struct await_handler {
  using stored = typename await_value<Sig>::stored;
  std::shared_ptr<await_slot<stored>> slot;
  template <typename... A>
  void operator()(A&&... a)
  {
    auto s = std::move(slot);
    auto root = s->root.lock();
    if (!root) {
      return;
    }
    s->value.emplace(await_value<Sig>::make(std::forward<A>(a)...));
    s->thread->sched->post([s, root] {
      if (s->waiting) {
        s->thread->next = std::exchange(s->waiting, {});
        thread_of::pump(root, *s->thread);
      }
    });
  }
};
template <typename Sig, typename Initiation, typename... Args>
struct op_awaiter {
  using stored = typename await_value<Sig>::stored;
  Initiation& init;
  std::tuple<Args...>& args;
  std::shared_ptr<await_slot<stored>> slot
      = std::make_shared<await_slot<stored>>();
  op_awaiter(Initiation& i, std::tuple<Args...>& a)
      : init(i)
      , args(a)
  {
  }
  op_awaiter(const op_awaiter&) = delete;
  ~op_awaiter()
  {
    slot->waiting = {};
  }
  bool await_ready() const noexcept
  {
    return false;
  }
  template <typename P>
  void await_suspend(std::coroutine_handle<P> h)
  {
    promise_base& p = h.promise();
    slot->waiting = h;
    slot->thread = p.thread;
    slot->root = p.thread->root;
    // the operation starts only once the coroutine is suspended
    p.thread->after_arg = this;
    p.thread->after = [](void* self) {
      auto& me = *static_cast<op_awaiter*>(self);
      auto handler = await_handler<Sig> { me.slot };
      auto i = std::move(me.init);
      auto a = std::move(me.args);
      std::apply(
          [&](auto&... x) { std::move(i)(std::move(handler), std::move(x)...); },
          a);
    };
  }
  auto await_resume()
  {
    return await_value<Sig>::take(std::move(*slot->value));
  }
};
}

template <typename Executor, typename Signature>
class async_result<use_awaitable_t<Executor>, Signature> {
public:
  using value_type = typename standin::await_value<Signature>::type;
  using return_type = awaitable<value_type, Executor>;
  template <typename Initiation, typename Raw, typename... Args>
  static return_type initiate(Initiation initiation, Raw&&, Args... args)
  {
    return start(std::move(initiation), std::move(args)...);
  }

private:
  template <typename Initiation, typename... Args>
  static return_type start(Initiation initiation, Args... args)
  {
    auto t = std::tuple<Args...>(std::move(args)...);
    co_return co_await standin::op_awaiter<Signature, Initiation, Args...>(
        initiation, t);
  }
};
template <typename Executor, typename Signature>
  requires std::is_void_v<typename standin::await_value<Signature>::type>
class async_result<use_awaitable_t<Executor>, Signature> {
public:
  using return_type = awaitable<void, Executor>;
  template <typename Initiation, typename Raw, typename... Args>
  static return_type initiate(Initiation initiation, Raw&&, Args... args)
  {
    return start(std::move(initiation), std::move(args)...);
  }

private:
  template <typename Initiation, typename... Args>
  static return_type start(Initiation initiation, Args... args)
  {
    auto t = std::tuple<Args...>(std::move(args)...);
    co_await standin::op_awaiter<Signature, Initiation, Args...>(initiation, t);
  }
};

namespace standin {
template <typename T, typename Ex, typename Handler>
struct root : root_base, std::enable_shared_from_this<root<T, Ex, Handler>> {
  awaitable<T, Ex> a;
  Handler h;
  thread_of t;
  root(awaitable<T, Ex> aw, Handler hd)
      : a(std::move(aw))
      , h(std::move(hd))
  {
  }
  ~root() override
  {
    destroy();
  }
  void destroy() override
  {
    t.dead = true;
    t.finish = nullptr;
    a.reset();
  }
  void start(scheduler& s)
  {
    auto self = this->shared_from_this();
    t.sched = &s;
    t.root = self;
    auto& p = a.standin_handle().promise();
    p.thread = &t;
    t.next = a.standin_handle();
    t.finish = [this] { finished(); };
    s.enter(self);
    s.post([self] { thread_of::pump(self, self->t); });
  }
  void finished()
  {
    auto self = this->shared_from_this();
    auto& p = a.standin_handle().promise();
    auto e = std::exchange(p.error, nullptr);
    auto hd = std::move(h);
    if constexpr (std::is_void_v<T>) {
      a.reset();
      t.sched->leave(self);
      hd(e);
    } else {
      if (e) {
        a.reset();
        t.sched->leave(self);
        if constexpr (std::default_initializable<T>) {
          hd(e, T());
        }
      } else {
        T v = std::move(*p.value);
        a.reset();
        t.sched->leave(self);
        hd(e, std::move(v));
      }
    }
  }
};
template <typename T>
struct spawn_signature {
  using type = void(std::exception_ptr, T);
};
template <>
struct spawn_signature<void> {
  using type = void(std::exception_ptr);
};
template <typename Handler>
struct move_handler {
  Handler h;
  template <typename... A>
  void operator()(A&&... a)
  {
    h(std::forward<A>(a)...);
  }
};
}

template <standin::executor_like Ex, typename T, typename AwEx, typename Token>
auto co_spawn(const Ex& ex, awaitable<T, AwEx> a, Token&& token)
{
  using sig = typename standin::spawn_signature<T>::type;
  auto s = &ex.sched();
  auto init = [s](auto&& handler, awaitable<T, AwEx> aw) {
    using H = std::decay_t<decltype(handler)>;
    std::make_shared<standin::root<T, AwEx, H>>(
        std::move(aw), std::forward<decltype(handler)>(handler))
        ->start(*s);
  };
  return async_initiate<Token, sig>(std::move(init), token, std::move(a));
}
template <standin::executor_like Ex, typename F, typename Token>
  requires std::invocable<F>
auto co_spawn(const Ex& ex, F&& f, Token&& token)
{
  using A = std::invoke_result_t<F>;
  // the function object outlives the coroutine it made
  auto run = [](std::decay_t<F> g) -> A { co_return co_await g(); };
  return co_spawn(ex, A(run(std::forward<F>(f))), std::forward<Token>(token));
}
template <standin::context_like Ctx, typename A, typename Token>
auto co_spawn(Ctx& ctx, A&& a, Token&& token)
{
  return co_spawn(
      ctx.get_executor(), std::forward<A>(a), std::forward<Token>(token));
}

template <standin::executor_like Ex, typename F>
void post(const Ex& ex, F&& f)
{
  ex.execute(std::forward<F>(f));
}
template <standin::context_like Ctx, typename F>
void post(Ctx& c, F&& f)
{
  c.get_executor().execute(std::forward<F>(f));
}
template <typename X, typename F>
void dispatch(X&& x, F&& f)
{
  asio::post(std::forward<X>(x), std::forward<F>(f));
}

// --------------------------------------------------------------- buffers
class mutable_buffer {
  void* p_ = nullptr;
  std::size_t n_ = 0;

public:
  mutable_buffer() = default;
  mutable_buffer(void* p, std::size_t n)
      : p_(p)
      , n_(n)
  {
  }
  void* data() const
  {
    return p_;
  }
  std::size_t size() const
  {
    return n_;
  }
  mutable_buffer& operator+=(std::size_t n)
  {
    n = std::min(n, n_);
    p_ = static_cast<char*>(p_) + n;
    n_ -= n;
    return *this;
  }
};
class const_buffer {
  const void* p_ = nullptr;
  std::size_t n_ = 0;

public:
  const_buffer() = default;
  const_buffer(const void* p, std::size_t n)
      : p_(p)
      , n_(n)
  {
  }
  const_buffer(const mutable_buffer& b)
      : p_(b.data())
      , n_(b.size())
  {
  }
  const void* data() const
  {
    return p_;
  }
  std::size_t size() const
  {
    return n_;
  }
  const_buffer& operator+=(std::size_t n)
  {
    n = std::min(n, n_);
    p_ = static_cast<const char*>(p_) + n;
    n_ -= n;
    return *this;
  }
};
using mutable_buffers_1 = mutable_buffer;
using const_buffers_1 = const_buffer;
inline mutable_buffer operator+(mutable_buffer b, std::size_t n)
{
  return b += n;
}
inline const_buffer operator+(const_buffer b, std::size_t n)
{
  return b += n;
}

inline const_buffer buffer(const const_buffer& b)
{
  return b;
}
inline mutable_buffer buffer(const mutable_buffer& b)
{
  return b;
}
inline mutable_buffer buffer(void* p, std::size_t n)
{
  return { p, n };
}
inline const_buffer buffer(const void* p, std::size_t n)
{
  return { p, n };
}
template <typename T, typename A>
mutable_buffer buffer(std::vector<T, A>& v)
{
  return { v.data(), v.size() * sizeof(T) };
}
template <typename T, typename A>
const_buffer buffer(const std::vector<T, A>& v)
{
  return { v.data(), v.size() * sizeof(T) };
}
template <typename T, std::size_t N>
mutable_buffer buffer(std::array<T, N>& v)
{
  return { v.data(), N * sizeof(T) };
}
template <typename T, std::size_t N>
const_buffer buffer(const std::array<T, N>& v)
{
  return { v.data(), N * sizeof(T) };
}
template <typename T, std::size_t N>
  requires(!std::is_const_v<T>)
mutable_buffer buffer(T (&v)[N])
{
  return { v, N * sizeof(T) };
}
inline mutable_buffer buffer(std::string& s)
{
  return { s.data(), s.size() };
}
inline const_buffer buffer(const std::string& s)
{
  return { s.data(), s.size() };
}
inline const_buffer buffer(std::string_view s)
{
  return { s.data(), s.size() };
}
template <typename T, std::size_t N>
  requires std::is_const_v<T>
const_buffer buffer(std::span<T, N> s)
{
  return { s.data(), s.size_bytes() };
}
template <typename T, std::size_t N>
  requires(!std::is_const_v<T>)
mutable_buffer buffer(std::span<T, N> s)
{
  return { s.data(), s.size_bytes() };
}
template <typename B>
auto buffer(const B& b, std::size_t n) -> decltype(asio::buffer(b))
{
  auto x = asio::buffer(b);
  return { x.data(), std::min(n, x.size()) };
}

namespace standin {
inline std::vector<const_buffer> gather(const const_buffer& b)
{
  return { b };
}
template <typename Seq>
std::vector<const_buffer> gather(const Seq& s)
{
  if constexpr (std::convertible_to<const Seq&, const_buffer>) {
    return { const_buffer(s) };
  } else {
    std::vector<const_buffer> v;
    for (auto it = s.begin(); it != s.end(); ++it) {
      v.push_back(const_buffer(*it));
    }
    return v;
  }
}
template <typename Seq>
std::vector<mutable_buffer> scatter(const Seq& s)
{
  if constexpr (std::convertible_to<const Seq&, mutable_buffer>) {
    return { mutable_buffer(s) };
  } else {
    std::vector<mutable_buffer> v;
    for (auto it = s.begin(); it != s.end(); ++it) {
      v.push_back(mutable_buffer(*it));
    }
    return v;
  }
}
inline std::string flatten(const std::vector<const_buffer>& v)
{
  std::string s;
  for (auto& b : v) {
    s.append(static_cast<const char*>(b.data()), b.size());
  }
  return s;
}
}
template <typename Seq>
std::size_t buffer_size(const Seq& s)
{
  std::size_t n = 0;
  for (auto& b : standin::gather(s)) {
    n += b.size();
  }
  return n;
}
template <typename To, typename From>
std::size_t buffer_copy(const To& to, const From& from)
{
  auto src = standin::flatten(standin::gather(from));
  std::size_t done = 0;
  for (auto& b : standin::scatter(to)) {
    auto n = std::min(b.size(), src.size() - done);
    if (n) {
      std::memcpy(b.data(), src.data() + done, n);
    }
    done += n;
  }
  return done;
}

// ------------------------------------------------- faults a check injects
namespace standin {
struct hooks_t {
  // how much of a request for n bytes one read or write serves (1..n)
  std::function<std::size_t(std::size_t)> part;
  // an error for the next file operation, or none
  std::function<std::error_code(const char* op)> fail;
};
inline hooks_t& hooks()
{
  static hooks_t h;
  return h;
}
inline std::size_t part_of(std::size_t n)
{
  if (n <= 1 || !hooks().part) {
    return n;
  }
  return std::clamp<std::size_t>(hooks().part(n), 1, n);
}
template <typename Sig>
struct erased;
template <typename R, typename... A>
struct erased<R(A...)> {
  std::function<void(A...)> f;
  erased() = default;
  template <typename H>
  explicit erased(H&& h)
  {
    auto p = std::make_shared<std::decay_t<H>>(std::forward<H>(h));
    f = [p](A... a) { (*p)(std::move(a)...); };
  }
};
using io_handler = std::function<void(std::error_code, std::size_t)>;
template <typename H>
io_handler erase_io(H&& h)
{
  return erased<void(std::error_code, std::size_t)>(std::forward<H>(h)).f;
}
}

// ------------------------------------------------------- composed writes
namespace standin {
template <typename Stream>
struct write_all {
  Stream& s;
  std::string data;
  std::size_t done = 0;
  io_handler h;
  static void step(std::shared_ptr<write_all> op)
  {
    auto* p = op.get();
    p->s.async_write_some(
        const_buffer(p->data.data() + p->done, p->data.size() - p->done),
        [op](std::error_code ec, std::size_t n) {
          op->done += n;
          if (ec || op->done >= op->data.size()) {
            op->h(ec, op->done);
          } else {
            step(op);
          }
        });
  }
};
}
template <typename Stream, typename Buffers, typename Token>
  requires requires(const Buffers& b) { standin::gather(b); }
auto async_write(Stream& s, const Buffers& b, Token&& token)
{
  auto data = standin::flatten(standin::gather(b));
  auto* sp = &s;
  return async_initiate<Token, void(system::error_code, std::size_t)>(
      [sp](auto&& handler, std::string d) {
        standin::write_all<Stream>::step(
            std::make_shared<standin::write_all<Stream>>(
                standin::write_all<Stream> {
                    *sp,
                    std::move(d),
                    0,
                    standin::erase_io(
                        std::forward<decltype(handler)>(handler)) }));
      },
      token,
      std::move(data));
}

// ----------------------------------------------------------------- files
class file_base {
public:
  enum flags {
    read_only = 1,
    write_only = 2,
    read_write = 4,
    append = 8,
    create = 16,
    exclusive = 32,
    truncate = 64,
    sync_all_on_write = 128,
  };
  friend constexpr flags operator|(flags a, flags b)
  {
    return static_cast<flags>(static_cast<int>(a) | static_cast<int>(b));
  }
  friend constexpr flags operator&(flags a, flags b)
  {
    return static_cast<flags>(static_cast<int>(a) & static_cast<int>(b));
  }
  enum seek_basis { seek_set = SEEK_SET, seek_cur = SEEK_CUR, seek_end = SEEK_END };
};

template <typename Executor = any_io_executor>
class basic_stream_file : public file_base {
  Executor ex_;
  int fd_ = -1;

  static std::error_code last()
  {
    return { errno, std::system_category() };
  }
  static void check(const std::error_code& ec)
  {
    if (ec) {
      throw system::system_error(ec);
    }
  }
  static std::error_code injected(const char* op)
  {
    return standin::hooks().fail ? standin::hooks().fail(op)
                                 : std::error_code();
  }

public:
  using executor_type = Executor;
  using native_handle_type = int;
  explicit basic_stream_file(const Executor& ex)
      : ex_(ex)
  {
  }
  basic_stream_file(const Executor& ex, int fd)
      : ex_(ex)
      , fd_(fd)
  {
  }
  basic_stream_file(const Executor& ex, const char* path, flags f)
      : ex_(ex)
  {
    open(path, f);
  }
  basic_stream_file(const Executor& ex, const std::string& path, flags f)
      : ex_(ex)
  {
    open(path, f);
  }
  template <standin::context_like Ctx>
  basic_stream_file(Ctx& c, const std::string& path, flags f)
      : basic_stream_file(Executor(c.get_executor()), path, f)
  {
  }
  basic_stream_file(basic_stream_file&& o) noexcept
      : ex_(o.ex_)
      , fd_(std::exchange(o.fd_, -1))
  {
  }
  basic_stream_file& operator=(basic_stream_file&& o) noexcept
  {
    if (this != &o) {
      std::error_code ec;
      close(ec);
      ex_ = o.ex_;
      fd_ = std::exchange(o.fd_, -1);
    }
    return *this;
  }
  ~basic_stream_file()
  {
    if (fd_ > 2) {
      ::close(fd_);
    }
  }
  const Executor& get_executor() const noexcept
  {
    return ex_;
  }
  void open(const std::string& path, flags f, std::error_code& ec)
  {
    if (fd_ >= 0) {
      ec = error::already_open;
      return;
    }
    if ((ec = injected("open"))) {
      return;
    }
    int o = 0;
    if (f & read_only) {
      o = O_RDONLY;
    } else if (f & write_only) {
      o = O_WRONLY;
    } else if (f & read_write) {
      o = O_RDWR;
    }
    if (f & append) {
      o |= O_APPEND;
    }
    if (f & create) {
      o |= O_CREAT;
    }
    if (f & exclusive) {
      o |= O_EXCL;
    }
    if (f & truncate) {
      o |= O_TRUNC;
    }
    fd_ = ::open(path.c_str(), o | O_CLOEXEC, 0644);
    ec = fd_ < 0 ? last() : std::error_code();
  }
  void open(const std::string& path, flags f)
  {
    std::error_code ec;
    open(path, f, ec);
    check(ec);
  }
  bool is_open() const noexcept
  {
    return fd_ >= 0;
  }
  int native_handle() noexcept
  {
    return fd_;
  }
  void close(std::error_code& ec)
  {
    ec = {};
    if (fd_ > 2) {
      ::close(fd_);
    }
    fd_ = -1;
  }
  void close()
  {
    std::error_code ec;
    close(ec);
  }
  std::uint64_t size(std::error_code& ec) const
  {
    struct ::stat st;
    if (::fstat(fd_, &st) != 0) {
      ec = last();
      return 0;
    }
    ec = {};
    return static_cast<std::uint64_t>(st.st_size);
  }
  std::uint64_t size() const
  {
    std::error_code ec;
    auto n = size(ec);
    check(ec);
    return n;
  }
  void resize(std::uint64_t n)
  {
    if (::ftruncate(fd_, static_cast<::off_t>(n)) != 0) {
      check(last());
    }
  }
  std::uint64_t seek(std::int64_t off, seek_basis w, std::error_code& ec)
  {
    if ((ec = injected("seek"))) {
      return 0;
    }
    auto r = ::lseek(fd_, off, w);
    ec = r < 0 ? last() : std::error_code();
    return r < 0 ? 0 : static_cast<std::uint64_t>(r);
  }
  std::uint64_t seek(std::int64_t off, seek_basis w)
  {
    std::error_code ec;
    auto r = seek(off, w, ec);
    check(ec);
    return r;
  }
  template <typename Buffers>
  std::size_t read_some(const Buffers& bs, std::error_code& ec)
  {
    ec = {};
    for (auto& b : standin::scatter(bs)) {
      if (b.size() == 0) {
        continue;
      }
      if ((ec = injected("read"))) {
        return 0;
      }
      auto n = ::read(fd_, b.data(), standin::part_of(b.size()));
      if (n < 0) {
        ec = last();
        return 0;
      }
      if (n == 0) {
        ec = error::eof;
      }
      return static_cast<std::size_t>(n);
    }
    return 0;
  }
  template <typename Buffers>
  std::size_t write_some(const Buffers& bs, std::error_code& ec)
  {
    ec = {};
    for (auto& b : standin::gather(bs)) {
      if (b.size() == 0) {
        continue;
      }
      if ((ec = injected("write"))) {
        return 0;
      }
      auto n = ::write(fd_, b.data(), standin::part_of(b.size()));
      if (n < 0) {
        ec = last();
        return 0;
      }
      return static_cast<std::size_t>(n);
    }
    return 0;
  }
  template <typename Buffers>
  std::size_t read_some(const Buffers& bs)
  {
    std::error_code ec;
    auto n = read_some(bs, ec);
    check(ec);
    return n;
  }
  template <typename Buffers>
  std::size_t write_some(const Buffers& bs)
  {
    std::error_code ec;
    auto n = write_some(bs, ec);
    check(ec);
    return n;
  }
  template <typename Buffers, typename Token>
  auto async_read_some(const Buffers& bs, Token&& token)
  {
    return async_initiate<Token, void(system::error_code, std::size_t)>(
        [this](auto&& handler, std::vector<mutable_buffer> v) {
          auto h = standin::erase_io(std::forward<decltype(handler)>(handler));
          ex_.sched().post([this, h, v] {
            std::error_code ec;
            auto n = read_some(v, ec);
            h(ec, n);
          });
        },
        token,
        standin::scatter(bs));
  }
  template <typename Buffers, typename Token>
  auto async_write_some(const Buffers& bs, Token&& token)
  {
    return async_initiate<Token, void(system::error_code, std::size_t)>(
        [this](auto&& handler, std::vector<const_buffer> v) {
          auto h = standin::erase_io(std::forward<decltype(handler)>(handler));
          ex_.sched().post([this, h, v] {
            std::error_code ec;
            auto n = write_some(v, ec);
            h(ec, n);
          });
        },
        token,
        standin::gather(bs));
  }
};
using stream_file = basic_stream_file<>;

// ---------------------------------------------------------------- timers
template <typename Clock>
struct wait_traits { };
template <typename Clock,
          typename WaitTraits = wait_traits<Clock>,
          typename Executor = any_io_executor>
class basic_waitable_timer {
public:
  using clock_type = Clock;
  using duration = typename Clock::duration;
  using time_point = typename Clock::time_point;
  using executor_type = Executor;
  explicit basic_waitable_timer(const Executor& ex)
      : ex_(ex)
  {
  }
  template <standin::executor_like E>
  explicit basic_waitable_timer(const E& ex)
      : ex_(ex)
  {
  }
  template <standin::context_like Ctx>
  explicit basic_waitable_timer(Ctx& c)
      : ex_(c.get_executor())
  {
  }
  template <typename X>
  basic_waitable_timer(X&& x, duration d)
      : basic_waitable_timer(std::forward<X>(x))
  {
    expires_after(d);
  }
  basic_waitable_timer(basic_waitable_timer&& o) noexcept
      : ex_(o.ex_)
      , when_(o.when_)
      , waiting_(std::move(o.waiting_))
  {
  }
  ~basic_waitable_timer()
  {
    cancel();
  }
  std::size_t expires_after(duration d)
  {
    auto n = cancel();
    when_ = ex_.sched().now() + d;
    return n;
  }
  std::size_t expires_at(time_point t)
  {
    auto n = cancel();
    when_ = t;
    return n;
  }
  time_point expiry() const
  {
    return when_;
  }
  std::size_t cancel_one()
  {
    if (waiting_.empty()) {
      return 0;
    }
    auto [id, h] = waiting_.front();
    waiting_.erase(waiting_.begin());
    if (!ex_.sched().cancel(id)) {
      return 0;
    }
    ex_.sched().post([h] { h(error::operation_aborted); });
    return 1;
  }
  std::size_t cancel()
  {
    std::size_t n = 0;
    for (auto& [id, h] : std::exchange(waiting_, {})) {
      if (ex_.sched().cancel(id)) {
        ++n;
        ex_.sched().post([h] { h(error::operation_aborted); });
      }
    }
    return n;
  }
  template <typename Token>
  auto async_wait(Token&& token)
  {
    return async_initiate<Token, void(system::error_code)>(
        [this](auto&& handler) {
          auto h = standin::erased<void(std::error_code)>(
                       std::forward<decltype(handler)>(handler))
                       .f;
          auto id = ex_.sched().at(when_, [h] { h(std::error_code()); });
          waiting_.emplace_back(id, h);
        },
        token);
  }
  const Executor& get_executor() const
  {
    return ex_;
  }

private:
  Executor ex_;
  time_point when_ {};
  std::vector<std::pair<std::uint64_t, std::function<void(std::error_code)>>>
      waiting_;
};
using steady_timer = basic_waitable_timer<std::chrono::steady_clock>;

// --------------------------------------------------------------- sockets
class socket_base {
public:
  enum shutdown_type { shutdown_receive, shutdown_send, shutdown_both };
  static constexpr int max_listen_connections = 4096;
  struct reuse_address {
    bool v;
    explicit reuse_address(bool b = false)
        : v(b)
    {
    }
    bool value() const
    {
      return v;
    }
  };
  using keep_alive = reuse_address;
  using broadcast = reuse_address;
  enum wait_type { wait_read, wait_write, wait_error };
  static constexpr int max_connections = max_listen_connections;
};

namespace standin {
// one direction of a connection
struct pipe {
  std::string data;
  bool ended = false; // the writer will send no more
  bool broken = false; // the reader will take no more
  std::vector<mutable_buffer> into;
  io_handler reader;
  scheduler* sched = nullptr;
  std::uint64_t generation = 0;

  // completes a waiting read if it can be
  void serve()
  {
    if (!reader || (data.empty() && !ended && buffer_size(into) != 0)) {
      return;
    }
    auto h = std::exchange(reader, nullptr);
    std::size_t want = 0;
    for (auto& b : into) {
      want += b.size();
    }
    std::error_code ec;
    std::size_t n = 0;
    if (want != 0) {
      if (data.empty()) {
        ec = error::eof;
      } else {
        n = part_of(std::min(want, data.size()));
        buffer_copy(into, const_buffer(data.data(), n));
        data.erase(0, n);
      }
    }
    sched->post([h, ec, n] { h(ec, n); });
  }
  void abort(std::error_code why)
  {
    if (auto h = std::exchange(reader, nullptr)) {
      sched->post([h, why] { h(why, 0); });
    }
  }
};
struct channel_end {
  std::shared_ptr<pipe> in = std::make_shared<pipe>();
  std::shared_ptr<pipe> out = std::make_shared<pipe>();
  bool open = false;

  static void join(channel_end& a, channel_end& b)
  {
    a.in = b.out;
    b.in = a.out;
    a.open = b.open = true;
  }
  template <typename Buffers, typename Handler>
  void read(scheduler& s, const Buffers& bs, Handler&& handler)
  {
    auto h = erase_io(std::forward<Handler>(handler));
    if (!open) {
      s.post([h] { h(error::bad_descriptor, 0); });
      return;
    }
    in->sched = &s;
    in->into = scatter(bs);
    in->reader = std::move(h);
    in->serve();
  }
  template <typename Buffers, typename Handler>
  void write(scheduler& s, const Buffers& bs, Handler&& handler)
  {
    auto h = erase_io(std::forward<Handler>(handler));
    auto text = flatten(gather(bs));
    std::error_code ec;
    std::size_t n = 0;
    if (!open) {
      ec = error::bad_descriptor;
    } else if (out->broken) {
      ec = error::connection_reset;
    } else if (out->ended) {
      ec = error::broken_pipe;
    } else {
      n = part_of(text.size());
      out->data.append(text, 0, n);
      out->serve();
    }
    s.post([h, ec, n] { h(ec, n); });
  }
  void cancel()
  {
    in->abort(error::operation_aborted);
  }
  std::size_t standin_available() const
  {
    return in->data.size();
  }
  void shut_out()
  {
    out->ended = true;
    out->serve();
  }
  void shut_in()
  {
    in->broken = true;
  }
  void close()
  {
    if (open) {
      open = false;
      shut_out();
      shut_in();
      in->abort(error::operation_aborted);
    }
  }
};
}

namespace ip {
class address {
  std::string text_ = "0.0.0.0";

public:
  address() = default;
  explicit address(std::string t)
      : text_(std::move(t))
  {
  }
  std::string to_string() const
  {
    return text_;
  }
  bool is_v6() const
  {
    return text_.find(':') != std::string::npos;
  }
  bool is_v4() const
  {
    return !is_v6();
  }
  bool is_loopback() const
  {
    return text_ == "::1" || text_.starts_with("127.");
  }
  bool is_unspecified() const
  {
    return text_ == "::" || text_ == "0.0.0.0";
  }
  friend auto operator<=>(const address&, const address&) = default;
};
inline address make_address(std::string_view s, std::error_code& ec)
{
  unsigned char raw[16];
  std::string t(s);
  for (int family : { AF_INET, AF_INET6 }) {
    if (::inet_pton(family, t.c_str(), raw) == 1) {
      char out[64];
      ec = {};
      return address(::inet_ntop(family, raw, out, sizeof out));
    }
  }
  ec = error::invalid_argument;
  return address();
}
inline address make_address(std::string_view s)
{
  std::error_code ec;
  auto a = make_address(s, ec);
  if (ec) {
    throw system::system_error(ec);
  }
  return a;
}
}

template <typename Protocol, typename Executor = any_io_executor>
class basic_stream_socket;
template <typename Protocol, typename Executor = any_io_executor>
class basic_socket_acceptor;

namespace ip {
class tcp {
public:
  class endpoint {
    ip::address a_;
    std::uint16_t port_ = 0;

  public:
    using protocol_type = tcp;
    endpoint() = default;
    endpoint(const ip::address& a, std::uint16_t p)
        : a_(a)
        , port_(p)
    {
    }
    ip::address address() const
    {
      return a_;
    }
    endpoint(const tcp&, std::uint16_t p)
        : port_(p)
    {
    }
    void address(const ip::address& a)
    {
      a_ = a;
    }
    std::uint16_t port() const
    {
      return port_;
    }
    void port(std::uint16_t p)
    {
      port_ = p;
    }
    tcp protocol() const
    {
      return {};
    }
    std::string standin_key() const
    {
      return a_.to_string() + "|" + std::to_string(port_);
    }
    friend auto operator<=>(const endpoint&, const endpoint&) = default;
    template <typename Os>
    friend auto operator<<(Os& os, const endpoint& e) -> decltype(os << "")
    {
      return e.a_.is_v6() ? os << "[" << e.a_.to_string() << "]:" << e.port_
                          : os << e.a_.to_string() << ":" << e.port_;
    }
  };
  struct no_delay {
    bool v;
    explicit no_delay(bool b = false)
        : v(b)
    {
    }
    bool value() const
    {
      return v;
    }
  };
  using socket = basic_stream_socket<tcp>;
  using acceptor = basic_socket_acceptor<tcp>;
  class resolver;
  static tcp v4()
  {
    return {};
  }
  static tcp v6()
  {
    return {};
  }
};
}
namespace local {
class stream_protocol {
public:
  class endpoint {
    std::string path_;

  public:
    using protocol_type = stream_protocol;
    endpoint() = default;
    endpoint(std::string_view p)
        : path_(p)
    {
      check();
    }
    endpoint(const char* p)
        : path_(p)
    {
      check();
    }
    endpoint(const std::string& p)
        : path_(p)
    {
      check();
    }
    std::string path() const
    {
      return path_;
    }
    void path(std::string_view p)
    {
      path_ = p;
      check();
    }
    stream_protocol protocol() const
    {
      return {};
    }
    std::string standin_key() const
    {
      return "local|" + path_;
    }

  private:
    void check() const
    {
      // as long as a name in a sockaddr_un
      if (path_.size() > 107) {
        throw system::system_error(make_error_code(error::name_too_long));
      }
    }

  public:
    friend auto operator<=>(const endpoint&, const endpoint&) = default;
    template <typename Os>
    friend auto operator<<(Os& os, const endpoint& e) -> decltype(os << "")
    {
      return os << e.path_;
    }
  };
  using socket = basic_stream_socket<stream_protocol>;
  using acceptor = basic_socket_acceptor<stream_protocol>;
};
}

namespace standin {
struct arrival {
  std::shared_ptr<channel_end> end;
  std::any from;
};
struct listener {
  bool listening = false;
  int backlog = 0;
  std::deque<arrival> queue;
  std::function<void(std::error_code, arrival)> acceptor;
  scheduler* sched = nullptr;
  std::error_code next_error;
  void serve()
  {
    if (!acceptor) {
      return;
    }
    if (next_error) {
      auto h = std::exchange(acceptor, nullptr);
      auto ec = std::exchange(next_error, {});
      sched->post([h, ec] { h(ec, {}); });
    } else if (!queue.empty()) {
      auto h = std::exchange(acceptor, nullptr);
      auto a = std::move(queue.front());
      queue.pop_front();
      sched->post([h, a] { h({}, a); });
    }
  }
};
// the addresses that are bound
inline std::map<std::string, std::shared_ptr<listener>>& listeners()
{
  static std::map<std::string, std::shared_ptr<listener>> m;
  return m;
}
// what fails when an acceptor is made
struct acceptor_faults_t {
  std::error_code open, option, bind, listen;
};
inline acceptor_faults_t& acceptor_faults()
{
  static acceptor_faults_t f;
  return f;
}
}

namespace ip {
template <typename Protocol>
class basic_resolver_results : public std::vector<typename Protocol::endpoint> {
};
// numeric addresses only
class tcp::resolver {
  any_io_executor ex_;

public:
  explicit resolver(any_io_executor ex)
      : ex_(ex)
  {
  }
  template <typename Token>
  auto async_resolve(std::string_view host, std::string_view port, Token&& token)
  {
    using results = basic_resolver_results<tcp>;
    return async_initiate<Token, void(system::error_code, results)>(
        [ex = ex_](auto&& handler, std::string h, std::string p) {
          results r;
          r.push_back(endpoint(make_address(h), static_cast<std::uint16_t>(std::stoi(p))));
          auto f = standin::erased<void(system::error_code, results)>(
                       std::forward<decltype(handler)>(handler))
                       .f;
          ex.sched().post([f, r] { f({}, r); });
        },
        token,
        std::string(host),
        std::string(port));
  }
};
}

template <typename Protocol, typename Executor>
class basic_stream_socket : public socket_base {
public:
  using executor_type = Executor;
  using protocol_type = Protocol;
  using endpoint_type = typename Protocol::endpoint;
  using lowest_layer_type = basic_stream_socket;

  explicit basic_stream_socket(const Executor& ex)
      : ex_(ex)
  {
  }
  template <standin::context_like Ctx>
  explicit basic_stream_socket(Ctx& c)
      : ex_(c.get_executor())
  {
  }
  basic_stream_socket(const Executor& ex,
                      std::shared_ptr<standin::channel_end> end,
                      endpoint_type local,
                      endpoint_type remote)
      : ex_(ex)
      , end_(std::move(end))
      , local_(std::move(local))
      , remote_(std::move(remote))
  {
  }
  basic_stream_socket(basic_stream_socket&& o) noexcept
      : ex_(o.ex_)
      , end_(std::exchange(o.end_, nullptr))
      , local_(o.local_)
      , remote_(o.remote_)
  {
  }
  basic_stream_socket& operator=(basic_stream_socket&& o) noexcept
  {
    if (this != &o) {
      close();
      ex_ = o.ex_;
      end_ = std::exchange(o.end_, nullptr);
      local_ = o.local_;
      remote_ = o.remote_;
    }
    return *this;
  }
  ~basic_stream_socket()
  {
    close();
  }
  Executor get_executor() const
  {
    return ex_;
  }
  lowest_layer_type& lowest_layer()
  {
    return *this;
  }
  const lowest_layer_type& lowest_layer() const
  {
    return *this;
  }
  template <typename Option>
  std::error_code set_option(const Option&, std::error_code& ec)
  {
    ec = {};
    return ec;
  }
  template <typename Option>
  void set_option(const Option&)
  {
  }
  std::size_t available(std::error_code& ec) const
  {
    ec = {};
    return end_ ? end_->standin_available() : 0;
  }
  std::size_t available() const
  {
    std::error_code ec;
    return available(ec);
  }
  std::error_code cancel(std::error_code& ec)
  {
    ec = {};
    if (end_) {
      end_->cancel();
    }
    return ec;
  }
  void cancel()
  {
    std::error_code ec;
    cancel(ec);
  }
  void shutdown(shutdown_type what)
  {
    std::error_code ec;
    shutdown(what, ec);
    if (ec) {
      throw system::system_error(ec);
    }
  }
  bool is_open() const
  {
    return end_ && end_->open;
  }
  std::error_code close(std::error_code& ec)
  {
    ec = {};
    if (end_) {
      end_->close();
    }
    return ec;
  }
  void close()
  {
    std::error_code ec;
    close(ec);
  }
  std::error_code shutdown(shutdown_type what, std::error_code& ec)
  {
    ec = {};
    if (!is_open()) {
      ec = error::not_connected;
      return ec;
    }
    if (what != shutdown_receive) {
      end_->shut_out();
    }
    if (what != shutdown_send) {
      end_->shut_in();
    }
    return ec;
  }
  endpoint_type local_endpoint() const
  {
    return local_;
  }
  endpoint_type remote_endpoint() const
  {
    return remote_;
  }
  endpoint_type local_endpoint(std::error_code& ec) const
  {
    ec = {};
    return local_;
  }
  endpoint_type remote_endpoint(std::error_code& ec) const
  {
    ec = {};
    return remote_;
  }
  std::error_code connect(const endpoint_type& ep, std::error_code& ec)
  {
    auto it = standin::listeners().find(ep.standin_key());
    if (it == standin::listeners().end() || !it->second->listening) {
      ec = error::connection_refused;
      return ec;
    }
    ec = {};
    end_ = std::make_shared<standin::channel_end>();
    auto other = std::make_shared<standin::channel_end>();
    standin::channel_end::join(*end_, *other);
    remote_ = ep;
    if constexpr (requires { local_.port(); }) {
      if (local_.port() == 0) {
        local_ = endpoint_type(ep.address(), 50000);
      }
    }
    it->second->queue.push_back({ other, std::any(local_) });
    it->second->serve();
    return ec;
  }
  void connect(const endpoint_type& ep)
  {
    std::error_code ec;
    connect(ep, ec);
    if (ec) {
      throw system::system_error(ec);
    }
  }
  void standin_set_local(endpoint_type e)
  {
    local_ = std::move(e);
  }
  template <typename Buffers, typename Token>
  auto async_read_some(const Buffers& bs, Token&& token)
  {
    return async_initiate<Token, void(system::error_code, std::size_t)>(
        [this](auto&& handler, std::vector<mutable_buffer> v) {
          ensure();
          end_->read(
              ex_.sched(), v, std::forward<decltype(handler)>(handler));
        },
        token,
        standin::scatter(bs));
  }
  template <typename Buffers, typename Token>
  auto async_write_some(const Buffers& bs, Token&& token)
  {
    return async_initiate<Token, void(system::error_code, std::size_t)>(
        [this](auto&& handler, std::vector<const_buffer> v) {
          ensure();
          end_->write(
              ex_.sched(), v, std::forward<decltype(handler)>(handler));
        },
        token,
        standin::gather(bs));
  }
  std::shared_ptr<standin::channel_end> standin_end()
  {
    ensure();
    return end_;
  }

private:
  void ensure()
  {
    if (!end_) {
      end_ = std::make_shared<standin::channel_end>();
    }
  }
  Executor ex_;
  std::shared_ptr<standin::channel_end> end_;
  endpoint_type local_ {};
  endpoint_type remote_ {};
};

template <typename Protocol, typename Executor>
class basic_socket_acceptor : public socket_base {
public:
  using executor_type = Executor;
  using protocol_type = Protocol;
  using endpoint_type = typename Protocol::endpoint;
  explicit basic_socket_acceptor(const Executor& ex)
      : ex_(ex)
  {
  }
  template <standin::context_like Ctx>
  explicit basic_socket_acceptor(Ctx& c)
      : ex_(c.get_executor())
  {
  }
  basic_socket_acceptor(const Executor& ex, const endpoint_type& e, bool reuse = true)
      : ex_(ex)
  {
    open(e.protocol());
    if (reuse) {
      set_option(reuse_address(true));
    }
    bind(e);
    listen();
  }
  basic_socket_acceptor(basic_socket_acceptor&& o) noexcept
      : ex_(o.ex_)
      , open_(std::exchange(o.open_, false))
      , at_(o.at_)
      , l_(std::exchange(o.l_, nullptr))
  {
  }
  basic_socket_acceptor& operator=(basic_socket_acceptor&& o) noexcept
  {
    if (this != &o) {
      close();
      ex_ = o.ex_;
      open_ = std::exchange(o.open_, false);
      at_ = o.at_;
      l_ = std::exchange(o.l_, nullptr);
    }
    return *this;
  }
  ~basic_socket_acceptor()
  {
    close();
  }
  bool is_open() const
  {
    return open_;
  }
  std::error_code close(std::error_code& ec)
  {
    ec = {};
    close();
    return ec;
  }
  std::error_code cancel(std::error_code& ec)
  {
    ec = {};
    if (l_) {
      if (auto h = std::exchange(l_->acceptor, nullptr)) {
        ex_.sched().post([h] { h(error::operation_aborted, {}); });
      }
    }
    return ec;
  }
  void cancel()
  {
    std::error_code ec;
    cancel(ec);
  }
  void open(const Protocol& p = Protocol())
  {
    std::error_code ec;
    raise(open(p, ec));
  }
  template <typename Option>
  void set_option(const Option& o)
  {
    std::error_code ec;
    raise(set_option(o, ec));
  }
  void bind(const endpoint_type& e)
  {
    std::error_code ec;
    raise(bind(e, ec));
  }
  void listen(int n = max_listen_connections)
  {
    std::error_code ec;
    raise(listen(n, ec));
  }
  endpoint_type local_endpoint(std::error_code& ec) const
  {
    ec = {};
    return at_;
  }
  Executor get_executor() const
  {
    return ex_;
  }
  std::error_code open(const Protocol&, std::error_code& ec)
  {
    ec = standin::acceptor_faults().open;
    open_ = !ec;
    return ec;
  }
  template <typename Option>
  std::error_code set_option(const Option&, std::error_code& ec)
  {
    ec = standin::acceptor_faults().option;
    return ec;
  }
  std::error_code bind(const endpoint_type& e, std::error_code& ec)
  {
    auto& m = standin::listeners();
    if (!open_) {
      ec = error::bad_descriptor;
      return ec;
    }
    if (standin::acceptor_faults().bind) {
      ec = standin::acceptor_faults().bind;
      return ec;
    }
    if (m.contains(e.standin_key())) {
      ec = error::address_in_use;
      return ec;
    }
    ec = {};
    at_ = e;
    l_ = m[e.standin_key()] = std::make_shared<standin::listener>();
    l_->sched = &ex_.sched();
    return ec;
  }
  std::error_code listen(int n, std::error_code& ec)
  {
    ec = standin::acceptor_faults().listen;
    if (ec) {
      return ec;
    }
    if (l_) {
      l_->listening = true;
      l_->backlog = n;
    } else {
      ec = error::invalid_argument;
    }
    return ec;
  }
  void close()
  {
    open_ = false;
    if (l_) {
      standin::listeners().erase(at_.standin_key());
      l_->acceptor = nullptr;
      l_->queue.clear();
      l_->listening = false;
      l_ = nullptr;
    }
  }
  endpoint_type local_endpoint() const
  {
    return at_;
  }
  // a socket for another executor
  template <standin::executor_like E, typename Token>
    requires std::is_constructible_v<Executor, E>
  auto async_accept(const E& ex, Token&& token)
  {
    using socket = basic_stream_socket<Protocol, Executor>;
    return async_initiate<Token, void(system::error_code, socket)>(
        [this, ex = Executor(ex)](auto&& handler) {
          begin(std::forward<decltype(handler)>(handler), ex);
        },
        token);
  }
  template <typename Token>
  auto async_accept(Token&& token)
  {
    using socket = basic_stream_socket<Protocol, Executor>;
    return async_initiate<Token, void(system::error_code, socket)>(
        [this](auto&& handler) {
          begin(std::forward<decltype(handler)>(handler), ex_);
        },
        token);
  }

private:
  template <typename Handler>
  void begin(Handler&& handler, Executor ex)
  {
    auto p = std::make_shared<std::decay_t<Handler>>(std::forward<Handler>(handler));
    if (!l_) {
      ex_.sched().post([p, ex] {
        (*p)(error::bad_descriptor, basic_stream_socket<Protocol, Executor>(ex));
      });
      return;
    }
    l_->acceptor = [p, ex, at = at_](std::error_code ec, standin::arrival a) {
      endpoint_type from {};
      if (auto* f = std::any_cast<endpoint_type>(&a.from)) {
        from = *f;
      }
      (*p)(ec, basic_stream_socket<Protocol, Executor>(ex, a.end, at, from));
    };
    l_->serve();
  }
  static void raise(std::error_code ec)
  {
    if (ec) {
      throw system::system_error(ec);
    }
  }
  Executor ex_;
  bool open_ = false;
  endpoint_type at_ {};
  std::shared_ptr<standin::listener> l_;
};

template <typename T>
struct is_dynamic_buffer
    : std::bool_constant<requires(T& t, const T& c, std::size_t n) {
        { c.size() } -> std::same_as<std::size_t>;
        { c.max_size() } -> std::same_as<std::size_t>;
        { c.capacity() } -> std::same_as<std::size_t>;
        t.data();
        t.prepare(n);
        t.commit(n);
        t.consume(n);
      }> { };
}
