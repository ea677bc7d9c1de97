// What demonstrations of planted bugs share: a server and a client that sends
// given bytes, on the stand-in scheduler.
#pragma once
#include <fitoria/web.hpp>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
namespace fi = fitoria;
namespace net = fi::net;
namespace web = fi::web;
namespace http = fi::http;
using fi::awaitable;
using std::chrono_literals::operator""ms;
struct part { std::string bytes; int wait = 0; bool shut = false; };
struct talked { std::string in; bool closed = false; std::error_code error; };
using timer_t_ = net::basic_waitable_timer<std::chrono::steady_clock, net::wait_traits<std::chrono::steady_clock>, fi::executor_type>;
inline awaitable<void> pause_ms(int n)
{
  timer_t_ t(co_await net::this_coro::executor);
  t.expires_after(std::chrono::milliseconds(n));
  co_await t.async_wait(fi::use_awaitable);
}
inline std::shared_ptr<talked> client(net::io_context& ioc, std::uint16_t port, std::vector<part> parts, std::string address = "127.0.0.1")
{
  auto r = std::make_shared<talked>();
  net::co_spawn(ioc, [](std::shared_ptr<talked> r, std::uint16_t port, std::vector<part> parts, std::string address) -> awaitable<void> {
    auto ex = co_await net::this_coro::executor;
    auto s = std::make_shared<net::basic_stream_socket<net::ip::tcp, fi::executor_type>>(ex);
    boost::system::error_code ec;
    s->connect({ net::ip::make_address(address), port }, ec);
    if (ec) { r->error = ec; co_return; }
    net::co_spawn(ex, [](auto s, std::vector<part> parts) -> awaitable<void> {
      for (auto& p : parts) {
        if (p.wait) { co_await pause_ms(p.wait); }
        if (!p.bytes.empty()) { if (auto n = co_await net::async_write(*s, net::buffer(p.bytes), fi::use_awaitable); !n) { co_return; } }
        if (p.shut) { boost::system::error_code ec; s->shutdown(net::socket_base::shutdown_send, ec); }
      }
    }(s, std::move(parts)), net::detached);
    std::vector<char> block(65536);
    for (;;) {
      auto n = co_await s->async_read_some(net::buffer(block), fi::use_awaitable);
      if (!n) { r->error = n.error(); r->closed = n.error() == make_error_code(net::error::eof); co_return; }
      r->in.append(block.data(), *n);
    }
  }(r, port, std::move(parts), std::move(address)), net::detached);
  return r;
}
inline void run(net::io_context& ioc, std::size_t steps = 2'000'000)
{
  ioc.scheduler::run(true, steps);
}
// Runs a coroutine to its end.
template <typename F>
bool run_co(F f)
{
  net::io_context ioc;
  bool ended = false;
  net::co_spawn(ioc, std::move(f), [&](std::exception_ptr e) { if (e) std::rethrow_exception(e); ended = true; });
  ioc.scheduler::run(true, 2'000'000);
  return ended;
}
inline std::string request(std::string method, std::string target, std::string fields = "", std::string body = "")
{
  return method + " " + target + " HTTP/1.1\r\nHost: h\r\n" + fields
      + (body.empty() ? "" : "Content-Length: " + std::to_string(body.size()) + "\r\n") + "\r\n" + body;
}
// One request on a connection of its own to a server with the given routes.
template <typename... Routes>
std::string serve_one(std::string text, Routes... routes)
{
  net::io_context ioc;
  auto b = web::http_server::builder(ioc);
  (b.serve(std::move(routes)), ...);
  auto s = b.build();
  if (!s.bind("127.0.0.1", 8080)) { std::fprintf(stderr, "bind\n"); std::exit(3); }
  auto c = client(ioc, 8080, { { text } });
  run(ioc);
  return c->in;
}
inline std::string body_of(const std::string& answer)
{
  auto p = answer.find("\r\n\r\n");
  return p == std::string::npos ? std::string("<none>") : answer.substr(p + 4);
}
inline int status_of(const std::string& answer)
{
  return answer.size() < 12 ? 0 : std::atoi(answer.c_str() + 9);
}
inline std::string field_of(const std::string& answer, std::string name)
{
  auto p = answer.find("\r\n" + name + ": ");
  if (p == std::string::npos) { return "<none>"; }
  p += name.size() + 4;
  return answer.substr(p, answer.find("\r\n", p) - p);
}
inline fi::bytes to_bytes(std::string_view s)
{
  auto p = reinterpret_cast<const std::byte*>(s.data());
  return fi::bytes(p, p + s.size());
}
inline std::string to_text(const fi::bytes& b)
{
  return std::string(reinterpret_cast<const char*>(b.data()), b.size());
}
