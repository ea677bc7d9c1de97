// Clients of a server under test, and a reader of what it sends.
#pragma once
#include "web.hpp"
#include <fitoria/web.hpp>

namespace web_h {
namespace web = fi::web;
namespace http = fi::http;

// ---- a client that sends given bytes ----------------------------------------
struct step {
  std::string bytes;
  int wait = 0; // milliseconds before them
  bool shut = false; // ends its sending direction after them
};
struct seen {
  std::string bytes;
  bool connected = false, ended = false, sent = false;
  long long ended_at = 0; // milliseconds since the client began
  std::error_code error;
};
inline long long ms_of(net::io_context& ioc)
{
  return std::chrono::duration_cast<std::chrono::milliseconds>(ioc.now().time_since_epoch()).count();
}
using client_timer = net::basic_waitable_timer<std::chrono::steady_clock, net::wait_traits<std::chrono::steady_clock>, fi::executor_type>;

template <typename Protocol>
std::shared_ptr<seen> raw_client_at(net::io_context& ioc, typename Protocol::endpoint where, std::vector<step> steps, int slow = 0, int start = 0,
                                   typename Protocol::endpoint from = {})
{
  auto r = std::make_shared<seen>();
  auto ex = ioc.get_executor();
  auto s = std::make_shared<net::basic_stream_socket<Protocol, fi::executor_type>>(ex);
  auto write = [](auto s, auto r, std::vector<step> steps) -> awaitable<void> {
    for (auto& st : steps) {
      if (st.wait) {
        client_timer t(co_await net::this_coro::executor);
        t.expires_after(std::chrono::milliseconds(st.wait));
        co_await t.async_wait(fi::use_awaitable);
      }
      if (!st.bytes.empty()) {
        if (auto n = co_await net::async_write(*s, net::buffer(st.bytes), fi::use_awaitable); !n) {
          co_return;
        }
      }
      if (st.shut) {
        boost::system::error_code ec;
        s->shutdown(net::socket_base::shutdown_send, ec);
      }
    }
    r->sent = true;
  };
  auto read = [](auto s, auto r, net::io_context& ioc, int slow, long long begin) -> awaitable<void> {
    std::vector<char> block(65536);
    for (;;) {
      if (slow) {
        client_timer t(co_await net::this_coro::executor);
        t.expires_after(std::chrono::milliseconds(slow));
        co_await t.async_wait(fi::use_awaitable);
      }
      auto n = co_await s->async_read_some(net::buffer(block), fi::use_awaitable);
      if (!n) {
        r->error = n.error();
        r->ended = n.error() == make_error_code(net::error::eof);
        r->ended_at = ms_of(ioc) - begin;
        co_return;
      }
      r->bytes.append(block.data(), *n);
    }
  };
  net::co_spawn(
      ioc,
      [=, &ioc, steps = std::move(steps)]() -> awaitable<void> {
        if (start) {
          client_timer t(co_await net::this_coro::executor);
          t.expires_after(std::chrono::milliseconds(start));
          co_await t.async_wait(fi::use_awaitable);
        }
        boost::system::error_code ec;
        if (!(from == typename Protocol::endpoint())) {
          s->standin_set_local(from);
        }
        s->connect(where, ec);
        if (ec) {
          r->error = ec;
          co_return;
        }
        r->connected = true;
        auto ex = co_await net::this_coro::executor;
        net::co_spawn(ex, write(s, r, steps), net::detached);
        net::co_spawn(ex, read(s, r, ioc, slow, ms_of(ioc)), net::detached);
      },
      net::detached);
  return r;
}

inline std::shared_ptr<seen> raw_client(net::io_context& ioc, std::uint16_t port, std::vector<step> steps, int slow = 0, int start = 0)
{
  return raw_client_at<net::ip::tcp>(ioc, { net::ip::make_address("127.0.0.1"), port }, std::move(steps), slow, start);
}

// ---- what a server sent ------------------------------------------------------
struct answer {
  int status = 0, minor = 1;
  std::string reason, body;
  std::vector<std::pair<std::string, std::string>> fields;
  enum { none, sized, chunked, to_end } how = none;
  std::vector<std::size_t> chunks;

  std::vector<std::string> all(std::string_view name) const
  {
    std::vector<std::string> v;
    for (auto& [n, x] : fields) {
      if (text::lower(n) == text::lower(std::string(name))) {
        v.push_back(x);
      }
    }
    return v;
  }
  std::string get(std::string_view name) const
  {
    auto v = all(name);
    return v.empty() ? std::string() : v[0];
  }
  bool has(std::string_view name) const
  {
    return !all(name).empty();
  }
};
// Takes one response (RFC 9112) from text at `at`; says what is wrong, or
// nothing when it was whole.
inline std::string take_answer(std::string_view s, std::size_t& at, bool head, bool ended, answer& a)
{
  auto line = [&](std::string& out) {
    auto e = s.find("\r\n", at);
    if (e == std::string_view::npos) {
      return false;
    }
    out = s.substr(at, e - at);
    at = e + 2;
    return out.find_first_of("\r\n") == std::string::npos;
  };
  std::string l;
  if (!line(l)) {
    return at >= s.size() ? "no response" : "the status line is not whole";
  }
  if (l.size() < 13 || l.compare(0, 7, "HTTP/1.") || (l[7] != '0' && l[7] != '1') || l[8] != ' ' || l[12] != ' ') {
    return "status line: " + l;
  }
  a.minor = l[7] - '0';
  for (int i = 9; i < 12; ++i) {
    if (l[i] < '0' || l[i] > '9') {
      return "status line: " + l;
    }
    a.status = a.status * 10 + (l[i] - '0');
  }
  a.reason = l.substr(13);
  for (;;) {
    if (!line(l)) {
      return "the header section is not whole";
    }
    if (l.empty()) {
      break;
    }
    auto colon = l.find(':');
    if (colon == std::string::npos || colon == 0 || l.find_first_of(" \t") < colon) {
      return "header field: " + l;
    }
    a.fields.emplace_back(l.substr(0, colon), text::trim(l.substr(colon + 1)));
  }
  auto cl = a.all("content-length");
  auto te = a.all("transfer-encoding");
  if (cl.size() > 1 || te.size() > 1 || (!cl.empty() && !te.empty())) {
    return "ambiguous framing";
  }
  auto number = [](const std::string& t, int base, std::size_t& n) {
    n = 0;
    if (t.empty() || t.size() > 15) {
      return false;
    }
    for (char ch : t) {
      int d = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : 99;
      if (d >= base) {
        return false;
      }
      n = n * base + d;
    }
    return true;
  };
  std::size_t n = 0;
  if (!cl.empty() && !number(cl[0], 10, n)) {
    return "Content-Length: " + cl[0];
  }
  bool bodyless = a.status / 100 == 1 || a.status == 204;
  if (bodyless && (!cl.empty() || !te.empty())) {
    return "a " + std::to_string(a.status) + " response announces a body";
  }
  if (bodyless || head || a.status == 304) {
    a.how = answer::none;
    return {};
  }
  if (!te.empty()) {
    if (text::lower(te[0]) != "chunked") {
      return "Transfer-Encoding: " + te[0];
    }
    a.how = answer::chunked;
    for (;;) {
      if (!line(l)) {
        return "the body is not whole: no chunk size";
      }
      if (!number(l, 16, n)) {
        return "chunk size: " + l;
      }
      if (n == 0) {
        if (!line(l)) {
          return "the body is not whole: no end of the last chunk";
        }
        return l.empty() ? "" : "after the last chunk: " + l;
      }
      if (s.size() < at + n + 2) {
        a.body += s.substr(at);
        return "the body is not whole: chunk cut short";
      }
      a.chunks.push_back(n);
      a.body += s.substr(at, n);
      at += n;
      if (s.substr(at, 2) != "\r\n") {
        return "no line end after a chunk";
      }
      at += 2;
    }
  }
  if (!cl.empty()) {
    a.how = answer::sized;
    if (s.size() < at + n) {
      a.body = s.substr(at);
      return "the body is not whole: " + std::to_string(s.size() - at) + " of " + std::to_string(n) + " bytes";
    }
    a.body = s.substr(at, n);
    at += n;
    return {};
  }
  a.how = answer::to_end;
  a.body = s.substr(at);
  at = s.size();
  return ended ? "" : "a body without an end";
}

// ---- a request through the server's own test client --------------------------
struct reply {
  bool answered = false;
  int status = 0;
  http::version version = http::version::v1_1;
  http::header_map headers;
  std::string body;
  std::error_code body_error;
  std::string get(std::string_view name) const
  {
    return std::string(headers.get(name).value_or(""));
  }
};
inline reply exchange(net::io_context& ioc, const web::http_server& server, std::string path, web::test_request req)
{
  auto r = std::make_shared<reply>();
  server.serve_request(std::move(path), std::move(req), [r](web::test_response res) -> awaitable<void> {
    r->status = static_cast<int>(res.status().value());
    r->version = res.version();
    r->headers = res.headers();
    if (auto b = co_await web::async_read_until_eof<std::string>(res.body()); b) {
      r->body = *b;
    } else if (b.error() != make_error_code(net::error::eof)) {
      r->body_error = b.error();
    }
    r->answered = true;
  });
  ioc.scheduler::run(true, 5'000'000);
  return std::move(*r);
}
}
