// Programs that compose scopes and routes, and what they are seen to make.
#pragma once
#include <fitoria/web.hpp>
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace c30 {
namespace fi = fitoria;
namespace web = fi::web;

// A number that shows when it was taken out of its place.
struct number {
  int v;
  number(int i)
      : v(i)
  {
  }
  number(const number&) = default;
  number(number&& o) noexcept
      : v(std::exchange(o.v, -1000))
  {
  }
  number& operator=(const number&) = default;
  number& operator=(number&& o) noexcept
  {
    v = std::exchange(o.v, -1000);
    return *this;
  }
  operator int() const
  {
    return v;
  }
};

// ---- what is shared with the routes -----------------------------------------
template <int K>
struct S {
  number id;
};

// ---- a request and its way through the middleware ---------------------------
struct call {
  std::vector<int> trace;
  int stop = -1; // the middleware that answers instead of going on
};
inline call* current = nullptr; // of the request a server handles

template <typename Request, typename Response, typename Next>
struct mark_middleware;
template <typename Request, typename Next>
struct mark_middleware<Request, int, Next> {
  Next next;
  number id;
  auto operator()(Request r) const -> int
  {
    r.trace.push_back(id);
    if (r.stop == id) {
      return -id;
    }
    int x = next(r);
    r.trace.push_back(-id);
    return x;
  }
};
template <typename Request, typename Next>
struct mark_middleware<Request, fi::awaitable<web::response>, Next> {
  Next next;
  number id;
  auto operator()(Request r) const -> fi::awaitable<web::response>
  {
    current->trace.push_back(id);
    if (current->stop == id) {
      co_return web::response::ok().set_header("x-by", std::to_string(-id)).build();
    }
    auto x = co_await next(r);
    current->trace.push_back(-id);
    co_return x;
  }
};
// two kinds, so that not every middleware is of the same type
template <int Kind>
struct mark {
  number id;
  template <typename Request, typename Response, fi::decay_to<mark> Self, typename Next>
  friend auto tag_invoke(web::to_middleware_t<Request, Response>, Self&& self, Next&& next)
  {
    return mark_middleware<Request, Response, std::decay_t<Next>> { std::forward<Next>(next), self.id };
  }
};

struct h {
  number id;
  auto operator()(call& r) const -> int
  {
    r.trace.push_back(id);
    return id;
  }
};
template <int K>
void put_state(std::string& s, web::request& r)
{
  auto x = r.state<S<K>>();
  s += x ? std::to_string(int(x->id)) : std::string("-");
  s += " ";
}
struct eh {
  number id;
  auto operator()(web::request& r) const -> fi::awaitable<web::response>
  {
    current->trace.push_back(id);
    std::string states;
    put_state<0>(states, r);
    put_state<1>(states, r);
    put_state<2>(states, r);
    co_return web::response::ok()
        .set_header("x-by", std::to_string(id))
        .set_header("x-states", states)
        .set_header("x-pattern", std::string(r.path().match_pattern()))
        .build();
  }
};

// ---- what a program makes ----------------------------------------------------
struct made {
  std::string scope; // the variable
  fi::http::verb method;
  std::string pattern;
  int states[3]; // the registration seen for each type, or -1
  const void* at[3];
  std::function<int(call&)> run;
};
struct want {
  const char* scope;
  fi::http::verb method;
  const char* pattern;
  int states[3];
  std::vector<int> marks; // outermost first
  int handler;
  const char* path; // one that matches
};
struct program {
  const char* text;
  std::vector<made> (*run)(); // or
  web::http_server (*serve)(fi::net::io_context&);
  std::vector<want> expected;
};
const std::vector<program>& table0();
const std::vector<program>& table1();
const std::vector<program>& table2();
const std::vector<program>& table3();
const std::vector<program>& table4();

inline const std::vector<program>& table()
{
  static const std::vector<program> v = [] {
    std::vector<program> v;
    for (auto t : { table0, table1, table2, table3, table4 }) {
      v.insert(v.end(), t().begin(), t().end());
    }
    return v;
  }();
  return v;
}

template <int K, typename States>
void look(made& m, const States& s)
{
  auto x = s.template state<S<K>>();
  m.states[K] = x ? int(x->id) : -1;
  m.at[K] = x ? &*x : nullptr;
}
template <typename Routes>
void inspect(std::vector<made>& v, const char* name, const Routes& routes)
{
  std::apply(
      [&](auto&... route) {
        (
            [&] {
              auto s = std::make_shared<decltype(route.template build<call&, int>())>(
                  route.template build<call&, int>());
              made m { name, s->method(), std::string(s->matcher().pattern()), {}, {}, [s](call& c) { return s->service()(c); } };
              look<0>(m, s->states());
              look<1>(m, s->states());
              look<2>(m, s->states());
              v.push_back(std::move(m));
            }(),
            ...);
      },
      routes);
}
}
