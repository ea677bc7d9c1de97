// Handlers of many result types inside many layers, and what must come of them.
#pragma once
#include "server.hpp"
#include <array>
#include <fitoria/log.hpp>
#include <variant>

using namespace web_h;
namespace lg = fi::log;
namespace mw = fi::web::middleware;
namespace c41 {
// ---- what a result must become -------------------------------------------------
struct want_response {
  int status = 200;
  std::string type; // Content-Type, "" for none
  std::string body;
  std::vector<std::pair<std::string, std::string>> more;
};
enum class thrown { nothing, runtime, own, system, bad_alloc, integer, text, object };
struct own_error : std::exception {
  std::string s;
  explicit own_error(std::string s)
      : s(std::move(s))
  {
  }
  const char* what() const noexcept override
  {
    return s.c_str();
  }
};
struct no_memory : std::bad_alloc {
  std::string s;
  explicit no_memory(std::string s)
      : s(std::move(s))
  {
  }
  const char* what() const noexcept override
  {
    return s.c_str();
  }
};
struct not_an_exception {
  int n;
};
[[noreturn]] inline void raise(thrown t, const std::string& s)
{
  switch (t) {
  case thrown::runtime:
    throw std::runtime_error(s);
  case thrown::own:
    throw own_error(s);
  case thrown::system:
    throw std::system_error(std::make_error_code(std::errc::io_error), s);
  case thrown::bad_alloc:
    throw no_memory(s);
  case thrown::integer:
    throw 42;
  case thrown::text:
    throw "text";
  default:
    throw not_an_exception { 3 };
  }
}
inline bool is_std(thrown t)
{
  return t == thrown::runtime || t == thrown::own || t == thrown::system || t == thrown::bad_alloc;
}
inline std::string what_of(thrown t, const std::string& s)
{
  try {
    raise(t, s);
  } catch (const std::exception& e) {
    return e.what();
  } catch (...) {
  }
  return {};
}

// ---- user types ------------------------------------------------------------------
struct teapot {
  std::string msg;
  template <fi::decay_to<teapot> Self>
  friend auto tag_invoke(web::to_response_t, Self&& self) -> web::response
  {
    return web::response::not_found().set_header("X-Teapot", "yes").set_body(self.msg);
  }
};
// only as an rvalue, and only once
struct fragile {
  std::unique_ptr<std::string> msg;
  friend auto tag_invoke(web::to_response_t, fragile&& self) -> web::response
  {
    auto p = std::move(self.msg);
    return web::response::conflict().set_body(p ? *p : std::string("(moved away)"));
  }
};
struct by_ref {
  std::string msg;
  friend auto tag_invoke(web::to_response_t, const by_ref& self) -> web::response
  {
    return web::response::gone().set_header(http::field::content_type, "x/y").set_body(self.msg);
  }
};
struct wide {
  std::int16_t a;
  std::uint16_t b;
};

// ---- values of result types --------------------------------------------------------
inline std::string body_text(pbt::Case& c)
{
  return c.chance(1, 12) ? gen_body(c) : c.bytes(24);
}
template <typename T>
struct value_of;
template <typename T>
T make(pbt::Case& c, want_response& w)
{
  return value_of<T>::make(c, w);
}
template <>
struct value_of<std::string> {
  static std::string make(pbt::Case& c, want_response& w)
  {
    auto s = body_text(c);
    w = { 200, "text/plain", s, {} };
    return s;
  }
};
template <typename E>
struct value_of<std::vector<E>> {
  static std::vector<E> make(pbt::Case& c, want_response& w)
  {
    auto s = body_text(c);
    s.resize(s.size() / sizeof(E) * sizeof(E));
    std::vector<E> v(s.size() / sizeof(E));
    if (!v.empty()) {
      std::memcpy(static_cast<void*>(v.data()), s.data(), s.size());
    }
    if (c.chance(1, 4)) {
      v.reserve(v.size() + 17);
    }
    w = { 200, "application/octet-stream", s, {} };
    return v;
  }
};
template <>
struct value_of<web::response> {
  static web::response make(pbt::Case& c, want_response& w)
  {
    static const int codes[] = { 200, 201, 202, 206, 301, 400, 404, 409, 418, 500, 503 };
    w = {};
    w.status = codes[c.below(std::size(codes))];
    auto b = web::response_builder(static_cast<http::status>(w.status));
    if (c.chance(1, 2)) {
      w.type = c.pick<const char*>({ "text/html", "application/json", "text/plain", "a/b; c=d" });
      b.set_header(http::field::content_type, w.type);
    }
    for (std::size_t n = 0; c.more(n, 3, 2); ++n) {
      auto name = "X-R" + std::to_string(c.below(2));
      auto v = c.str("ab ", 3) + "e";
      auto t = text::trim(v);
      b.insert_header(name, t);
      w.more.emplace_back(name, std::string(t));
    }
    if (c.chance(1, 4)) {
      return b.build();
    }
    w.body = body_text(c);
    if (c.chance(1, 4)) {
      return b.set_stream_body(web::async_readable_vector_stream(to_bytes(w.body)));
    }
    return b.set_body(w.body);
  }
};
template <>
struct value_of<teapot> {
  static teapot make(pbt::Case& c, want_response& w)
  {
    auto s = body_text(c);
    w = { 404, "", s, { { "X-Teapot", "yes" } } };
    return { s };
  }
};
template <>
struct value_of<fragile> {
  static fragile make(pbt::Case& c, want_response& w)
  {
    auto s = body_text(c);
    w = { 409, "", s, {} };
    return { std::make_unique<std::string>(s) };
  }
};
template <>
struct value_of<by_ref> {
  static by_ref make(pbt::Case& c, want_response& w)
  {
    auto s = body_text(c);
    w = { 410, "x/y", s, {} };
    return { s };
  }
};
template <typename... Ts>
struct value_of<std::variant<Ts...>> {
  using V = std::variant<Ts...>;
  template <std::size_t I>
  static V at(pbt::Case& c, want_response& w)
  {
    return V(std::in_place_index<I>, c41::make<std::variant_alternative_t<I, V>>(c, w));
  }
  static V make(pbt::Case& c, want_response& w)
  {
    return [&]<std::size_t... I>(std::index_sequence<I...>) {
      static constexpr V (*fs[])(pbt::Case&, want_response&) = { &at<I>... };
      return fs[c.below(sizeof...(Ts))](c, w);
    }(std::index_sequence_for<Ts...> {});
  }
};
template <typename T, typename E>
struct value_of<fi::expected<T, E>> {
  static fi::expected<T, E> make(pbt::Case& c, want_response& w)
  {
    if (c.chance(1, 2)) {
      return fi::expected<T, E>(c41::make<T>(c, w));
    }
    return fi::expected<T, E>(fi::unexpect, c41::make<E>(c, w));
  }
};

// ---- plans -----------------------------------------------------------------------------
enum class layer { none, catching, logging, before, after, marking };
inline const char* const layer_names[] = { "-", "exception_handler", "logger", "throws before", "throws after", "marks" };
constexpr std::size_t depth = 5;
struct throwing {
  thrown kind = thrown::nothing;
  std::string text;
};
struct plan {
  int id = 0;
  int type = 0, form = 0;
  std::array<layer, depth> layers {}; // the first is the outermost
  std::array<throwing, depth> raises {};
  throwing handler;
  int wait = 0;
  std::shared_ptr<void> value; // of the handler's result type
  want_response want;
  std::string path, agent;
  bool has_agent = false;
  std::string method;
  int calls = 0;
  std::vector<std::string> logged; // what is to be logged, in order
  // outcome
  bool answered = true;
  std::string unknown_text; // of an exception that nobody catches
  std::string request;
};
inline std::map<std::string, plan*> plans;
inline plan* plan_of(const web::request& r)
{
  auto it = plans.find(std::string(r.headers().get("X-Plan").value_or("")));
  return it == plans.end() ? nullptr : it->second;
}
inline awaitable<void> pause(int ms)
{
  client_timer t(co_await net::this_coro::executor);
  t.expires_after(std::chrono::milliseconds(ms));
  co_await t.async_wait(fi::use_awaitable);
}

template <std::size_t I>
struct slot {
  using next_t = std::function<awaitable<web::response>(web::request&)>;
  struct impl {
    next_t next, caught, logged;
    auto operator()(web::request& r) const -> awaitable<web::response>
    {
      auto p = plan_of(r);
      if (!p) {
        throw std::runtime_error("unknown plan");
      }
      switch (p->layers[I]) {
      case layer::catching:
        co_return co_await caught(r);
      case layer::logging:
        co_return co_await logged(r);
      case layer::before:
        if (p->wait & 1) {
          co_await pause(1);
        }
        raise(p->raises[I].kind, p->raises[I].text);
      case layer::after: {
        auto res = co_await next(r);
        raise(p->raises[I].kind, p->raises[I].text);
      }
      case layer::marking: {
        auto res = co_await next(r);
        co_return res.builder().insert_header("X-Mark", std::to_string(I)).build();
      }
      default:
        co_return co_await next(r);
      }
    }
  };
  template <typename Request, typename Response, fi::decay_to<slot> Self, typename Next>
  friend auto tag_invoke(web::to_middleware_t<Request, Response>, Self&&, Next&& n)
  {
    next_t next = std::forward<Next>(n);
    impl i { next, nullptr, nullptr };
    i.caught = web::to_middleware<web::request&, awaitable<web::response>>(mw::exception_handler(), next);
    i.logged = web::to_middleware<web::request&, awaitable<web::response>>(mw::logger(), next);
    return i;
  }
};

// ---- handlers ------------------------------------------------------------------------
// every form finds its plan by an extractor of the request
template <typename T>
awaitable<T> result_of(plan* p)
{
  ++p->calls;
  if (p->wait & 2) {
    co_await pause(p->wait);
  }
  if (p->handler.kind != thrown::nothing) {
    raise(p->handler.kind, p->handler.text);
  }
  co_return std::move(*std::static_pointer_cast<T>(p->value));
}
template <typename T>
awaitable<T> plain_function(web::request& r)
{
  return result_of<T>(plan_of(r));
}
template <typename T>
awaitable<T> const_function(const web::request& r)
{
  co_return co_await result_of<T>(plan_of(r));
}
template <typename T>
struct functor {
  std::unique_ptr<int> only_moved = std::make_unique<int>(1);
  functor() = default;
  functor(functor&&) = default;
  functor(const functor&)
  {
  }
  auto operator()(const http::header_map& h) const& noexcept -> awaitable<T>
  {
    return result_of<T>(plans.at(std::string(h.get("X-Plan").value_or(""))));
  }
};
// takes nothing: its plan is the only one there is
template <typename T>
awaitable<T> nothing_taken()
{
  return result_of<T>(plans.begin()->second);
}

using str_t = std::string;
using bytes_t = std::vector<std::uint8_t>;
using res_t = web::response;
#define RESULTS(X)                                                                                                     \
  X(0, res_t)                                                                                                          \
  X(1, str_t)                                                                                                          \
  X(2, bytes_t)                                                                                                        \
  X(3, std::vector<char>)                                                                                              \
  X(4, std::vector<std::byte>)                                                                                         \
  X(5, std::vector<std::uint32_t>)                                                                                     \
  X(6, std::vector<wide>)                                                                                              \
  X(7, teapot)                                                                                                         \
  X(8, by_ref)                                                                                                         \
  X(9, std::variant<str_t, bytes_t>)                                                                                   \
  X(10, std::variant<bytes_t, res_t, teapot>)                                                                          \
  X(11, std::variant<res_t>)                                                                                           \
  X(12, std::variant<str_t, str_t, std::variant<by_ref, bytes_t>>)                                                     \
  X(13, fi::expected<str_t, teapot>)                                                                                   \
  X(14, fi::expected<res_t, str_t>)                                                                                    \
  X(15, fi::expected<bytes_t, res_t>)                                                                                  \
  X(16, fi::expected<str_t, str_t>)                                                                                    \
  X(17, fi::expected<fi::expected<str_t, bytes_t>, by_ref>)                                                            \
  X(18, fi::expected<std::variant<str_t, res_t>, std::variant<teapot, bytes_t>>)                                       \
  X(19, std::variant<fi::expected<res_t, teapot>, str_t>)                                                              \
  X(20, fragile)                                                                                                       \
  X(21, std::variant<fragile, fi::expected<fragile, str_t>>)
template <int N>
struct nth;
#define X(n, ...)                                                                                                      \
  template <>                                                                                                          \
  struct nth<n> {                                                                                                      \
    using type = __VA_ARGS__;                                                                                          \
  };
RESULTS(X)
#undef X
// ---- servers -----------------------------------------------------------------------
template <int F, typename T>
auto route_in_form()
{
  if constexpr (F == 0) {
    return web::route::any<"/a/{x}">(&plain_function<T>);
  } else if constexpr (F == 1) {
    return web::route::any<"/a/{x}">([](web::request& r) -> awaitable<T> { co_return co_await result_of<T>(plan_of(r)); });
  } else if constexpr (F == 2) {
    return web::route::any<"/a/{x}">(functor<T>());
  } else if constexpr (F == 3) {
    return web::route::any<"/a/{x}">(plain_function<T>);
  } else if constexpr (F == 4) {
    return web::route::any<"/a/{x}">(&const_function<T>);
  } else {
    return web::route::any<"/a/{x}">(&nothing_taken<T>);
  }
}
constexpr int forms = 6;

using exception_handler_fn = std::function<void(std::exception_ptr)>;
struct set_up {
  bool nested; // the layers are of a scope and of a route
  exception_handler_fn on_error;
};
template <int N, int F>
void add(web::http_server::builder& b, const set_up& s)
{
  using T = typename nth<N>::type;
  auto r = route_in_form<F, T>();
  if (s.nested) {
    b.serve(web::scope<"/s">().use(slot<0>()).use(slot<1>()).serve(r.use(slot<2>()).use(slot<3>()).use(slot<4>())));
  } else {
    b.serve(r.use(slot<0>()).use(slot<1>()).use(slot<2>()).use(slot<3>()).use(slot<4>()));
  }
}
using add_fn = void (*)(web::http_server::builder&, const set_up&);

// one in each file of handlers; the types n to n + 7
template <int From, int... K>
void fill(std::array<add_fn, 2>* t, std::integer_sequence<int, K...>)
{
  ((t[From + K] = { &add<From + K, (From + K) % forms>, &add<From + K, (From + K + 3) % forms> }), ...);
}
void part_a(std::array<add_fn, 2>*);
void part_b(std::array<add_fn, 2>*);
void part_c(std::array<add_fn, 2>*);
}
