// What the handlers of C35 take, and how they show it.
#pragma once
#include "server.hpp"
#include <fmt/format.h>

namespace c35 {
using namespace web_h;
// ---- what handlers take --------------------------------------------------------
struct day_t {
  int year;
  std::string month;
  std::uint8_t day;
  bool leap;
  double share;
};
struct wide_t {
  std::uint64_t big;
  std::int16_t small;
  std::string text, other;
};
struct user_t {
  std::string name;
  std::int64_t age = 0;
  std::vector<std::string> tags;
  bool on = false;
};
inline boost::json::result_for<user_t, boost::json::value>::type tag_invoke(const boost::json::try_value_to_tag<user_t>&, const boost::json::value& jv)
{
  user_t u;
  if (!jv.is_object()) {
    return make_error_code(boost::json::error::not_object);
  }
  auto& o = jv.get_object();
  auto *name = o.if_contains("name"), *age = o.if_contains("age"), *tags = o.if_contains("tags"), *on = o.if_contains("on");
  if (!name || !name->is_string() || !age || !age->is_int64() || !tags || !tags->is_array() || !on || !on->is_bool()) {
    return make_error_code(boost::json::error::size_mismatch);
  }
  u.name = std::string(name->get_string());
  u.age = age->get_int64();
  for (auto& t : tags->get_array()) {
    if (!t.is_string()) {
      return make_error_code(boost::json::error::not_string);
    }
    u.tags.emplace_back(t.get_string());
  }
  u.on = on->get_bool();
  return u;
}
struct pair_t {
  std::uint16_t a, b;
};
struct counter_t {
  int n = 0;
};
// the user's own extractor
struct token_t {
  std::string text;
};
inline awaitable<fi::expected<token_t, web::response>> tag_invoke(web::from_request_t<token_t>, web::request& r)
{
  auto h = std::string(r.headers().get("x-token").value_or(""));
  if (h.starts_with("late")) {
    client_timer t(co_await net::this_coro::executor);
    t.expires_after(std::chrono::milliseconds(20));
    co_await t.async_wait(fi::use_awaitable);
  }
  if (h.empty() || h == "late no") {
    co_return fi::unexpected { web::response::unauthorized().set_header("x-why", "no token").set_body("bring a token: " + h) };
  }
  co_return token_t { h };
}

// ---- as text ------------------------------------------------------------------
inline std::string show(const std::string& s)
{
  return std::to_string(s.size()) + ":" + s;
}
template <typename T>
  requires std::is_arithmetic_v<T>
std::string show(T v)
{
  if constexpr (std::is_same_v<T, bool>) {
    return v ? "yes" : "no";
  } else if constexpr (std::is_integral_v<T>) {
    return std::to_string(v);
  } else {
    return fmt::format("{}", v);
  }
}
inline std::string show(const day_t& d)
{
  return "year " + show(d.year) + " month " + show(d.month) + " day " + show(d.day) + " leap " + show(d.leap) + " share " + show(d.share);
}
inline std::string show(const wide_t& d)
{
  return "big " + show(d.big) + " small " + show(d.small) + " text " + show(d.text) + " other " + show(d.other);
}
inline std::string show(const user_t& u)
{
  std::string s = "name " + show(u.name) + " age " + show(u.age) + " on " + show(u.on) + " tags";
  for (auto& t : u.tags) {
    s += " " + show(t);
  }
  return s;
}
template <typename... Ts>
std::string show(const web::path_of<std::tuple<Ts...>>& t)
{
  std::string s = "tuple";
  std::apply([&](auto&... x) { ((s += " " + show(x)), ...); }, static_cast<const std::tuple<Ts...>&>(t));
  return s;
}
inline std::string show(const std::map<std::string, std::string>& m)
{
  std::string s;
  for (auto& [n, v] : m) {
    s += show(n) + "=" + show(v) + " ";
  }
  return s;
}
inline std::string show(const web::query_map& m)
{
  return show(std::map<std::string, std::string>(m.begin(), m.end()));
}
inline std::string show(const web::path_info& m)
{
  std::string s;
  for (auto n : { "year", "month", "day", "leap", "share", "n" }) {
    if (auto v = m.get(n)) {
      s += std::string(n) + "=" + show(std::string(*v)) + " ";
    }
  }
  return s + std::to_string(m.size());
}
inline std::string show(const web::connect_info& i)
{
  return i.local() + " " + i.remote();
}
inline std::string show(http::version v)
{
  return v == http::version::v1_1 ? "1.1" : v == http::version::v1_0 ? "1.0" : "another";
}
inline std::string show(const http::header_map& h)
{
  std::string s;
  for (auto n : { "X-One", "x-TWO", "x-three" }) {
    s += std::string(n) + " ";
    if (auto v = h.get(n)) {
      s += show(std::string(*v));
    }
    s += ";";
  }
  return s;
}
inline std::string show(const web::request& r)
{
  return std::string(boost::beast::http::to_string(r.method())) + " " + show(r.version()) + " " + show(r.headers()) + " " + show(r.query());
}
inline std::string show(const token_t& t)
{
  return "token " + t.text;
}
inline std::string show(const counter_t& k)
{
  return "counter " + std::to_string(k.n);
}
inline std::string show(const std::shared_ptr<std::string>& p)
{
  return "shared " + *p;
}
template <typename T>
std::string show(const std::vector<T>& v)
{
  std::string s = std::to_string(v.size()) + " elements ";
  s.append(reinterpret_cast<const char*>(v.data()), v.size() * sizeof(T));
  return s;
}

// ---- handlers -----------------------------------------------------------------
struct plan {
  std::string id;
  int calls = 0;
  std::vector<std::string> got;
};
inline std::map<std::string, plan*> plans;
template <typename T>
void spend(T& t)
{
  // changes to what was given stay with this request
  if constexpr (std::derived_from<T, counter_t>) {
    t.n += 1000;
  } else if constexpr (std::is_same_v<T, std::string>) {
    t.assign(t.size() + 3, '!');
  }
}
template <typename... A>
auto take()
{
  return [](A... a, const web::request& r) -> awaitable<web::response> {
    auto it = plans.find(std::string(r.headers().get("x-id").value_or("")));
    if (it == plans.end()) {
      co_return web::response::gone().set_body("unknown id");
    }
    auto& p = *it->second;
    ++p.calls;
    p.got = { show(a)... };
    (spend(a), ...);
    co_return web::response::ok().set_body("taken by " + p.id);
  };
}

web::http_server::builder serve_paths(web::http_server::builder b);
web::http_server::builder serve_bodies(web::http_server::builder b);
web::http_server::builder serve_mixes(web::http_server::builder b);
}
