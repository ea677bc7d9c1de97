// C34: limits and timeouts hold for every client.
#include "server.hpp"
#include <fmt/format.h>

static pbt::Rule rule(
    "a server with a generated timeout and generated header and body limits, on TCP or a local socket, and two to four "
    "connections: scripts of requests near and beyond each limit, cut into pieces sent at generated times of a virtual "
    "clock, stalling, trickling or disconnecting anywhere, among well-behaved ones, with errors of accept in between; "
    "the moment each byte arrives decides what must have happened; non-trivial: a limit, the timeout or a disconnect "
    "decides the end of a connection");

using namespace web_h;
namespace {
struct exchange_plan {
  std::string id, text;
  std::size_t head = 0; // bytes of the header section
  std::size_t body = 0;
  bool chunked = false, closes = false;
  bool reads = true;
  int delay = 0;
  // seen
  int calls = 0;
  std::string got;
  bool end = false;
  std::error_code error;
};
std::map<std::string, exchange_plan*> plans;

awaitable<web::response> serve(web::request& r)
{
  auto it = plans.find(std::string(r.path().get("id").value_or("")));
  if (it == plans.end()) {
    co_return web::response::gone().set_body("unknown id");
  }
  auto& p = *it->second;
  ++p.calls;
  if (p.reads) {
    for (;;) {
      auto x = co_await r.body().async_read_some();
      if (!x) {
        p.end = true;
        break;
      }
      if (!*x) {
        p.error = x->error();
        break;
      }
      p.got += str(**x);
    }
  }
  if (p.delay) {
    client_timer t(co_await net::this_coro::executor);
    t.expires_after(std::chrono::milliseconds(p.delay));
    co_await t.async_wait(fi::use_awaitable);
  }
  co_return web::response::ok().set_body("answer " + p.id);
}

struct connection_plan {
  std::vector<std::unique_ptr<exchange_plan>> all;
  std::vector<step> steps;
  std::vector<std::pair<std::size_t, long long>> arrivals; // bytes so far, when
  long long shut = -1; // when the client ends its direction
  std::string text;
  std::shared_ptr<seen> client;
  int start = 0;

  // when the first n bytes are there, or -1
  long long there(std::size_t n) const
  {
    if (n == 0) {
      return 0;
    }
    for (auto& [m, t] : arrivals) {
      if (m >= n) {
        return t;
      }
    }
    return -1;
  }
};
std::string body_of(const exchange_plan& p)
{
  std::string s;
  while (s.size() < p.body) {
    s += "body of " + p.id + " at " + std::to_string(s.size()) + ",";
  }
  s.resize(p.body);
  return s;
}

void judge(pbt::Case& c, connection_plan& k, long long timeout, std::size_t header_limit, std::uint64_t body_limit, bool& decided)
{
  auto& got = k.client->bytes;
  std::size_t at = 0, sent = 0;
  long long s = 0; // when the server begins to wait for the request
  bool open = true;
  std::string end;
  long long ends_at = -1; // when known
  bool stuck = false; // nothing ends the connection
  auto never = timeout < 0 && k.shut < 0;
  auto after = [](long long t, long long deadline) { return t < 0 || t > deadline; };
  for (std::size_t i = 0; i < k.all.size(); ++i) {
    auto& p = *k.all[i];
    auto who = "request " + p.id + ": ";
    if (!open) {
      REQM(p.calls == 0, who + "is handled although the connection ended before it (" + end + ")");
      continue;
    }
    auto deadline = timeout < 0 ? (1ll << 60) : s + timeout;
    auto body = body_of(p);
    // too long a header
    if (p.head > header_limit + 8) {
      auto early = k.there(sent + header_limit - 8), late = k.there(sent + header_limit + 8);
      REQM(p.calls == 0, who + "is handled in spite of the length of its header");
      open = false;
      end = "header limit";
      if (late >= 0 && late < deadline) {
        answer a;
        auto why = take_answer(got, at, false, k.client->ended, a);
        REQM(why.empty(), who + "no answer to a header that is too long: " + why);
        REQ_EQ(a.status, 400);
        REQ_EQ(a.body, std::string("request headers size exceeds limit"));
        REQ_EQ(text::lower(a.get("connection")), std::string("close"));
        decided = true;
      } else if (after(early, deadline)) {
        REQM(at == got.size(), who + "an answer although its header never came");
        decided = true;
        stuck = never;
      } else if (never) {
        return; // within the tolerance of the limit: the server may wait for more or not
      } else {
        at = got.size();
      }
      continue;
    }
    auto th = k.there(sent + p.head);
    auto whole = k.there(sent + p.text.size());
    auto begun = k.there(sent + 1);
    sent += p.text.size();
    if (after(th, deadline)) {
      REQM(p.calls == 0, who + "is handled although its header is not whole in time");
      open = false;
      decided = decided || begun >= 0 || i == 0;
      if (th < 0 && k.shut >= 0 && k.shut < deadline) {
        end = "disconnect";
      } else if (never) {
        end = "nothing";
        stuck = true;
      } else {
        end = "timeout before the header";
        ends_at = deadline;
      }
      continue;
    }
    auto begins = std::max(s, th);
    bool too_long = p.body > body_limit;
    if (too_long && !p.chunked) {
      REQM(p.calls == 0, who + "is handled in spite of the length of its body");
      open = false;
      end = "body limit";
      decided = true;
      if (at < got.size()) {
        answer a;
        auto why = take_answer(got, at, false, k.client->ended, a);
        REQM(why.empty() && a.status / 100 == 4, who + "the answer to a body that is too long");
      }
      continue;
    }
    REQM(p.calls == 1, who + "is handled " + std::to_string(p.calls) + " times");
    bool in_time = !after(whole, deadline) && !too_long;
    if (p.reads) {
      REQM(body.compare(0, p.got.size(), p.got) == 0, who + "the handler reads other bytes");
      if (p.end) {
        REQM(p.got.size() == body.size(), who + "the handler takes " + std::to_string(p.got.size()) + " of " + std::to_string(body.size()) + " bytes for the whole body");
        REQM(in_time, who + "the body ends without an error");
      } else {
        REQM(!in_time, who + "the body does not end: " + p.error.message());
        stuck = never && !too_long;
        if (never && too_long && whole < 0) {
          // whether the chunk that is too long has begun depends on what of the body is there
          stuck = !p.error;
        }
        REQM(stuck == !p.error, who + (stuck ? "the body fails" : "the body neither ends nor fails"));
      }
    }
    if (p.reads && !in_time) {
      // the handler answers all the same; whether the client sees that depends on what failed
      open = false;
      end = too_long ? "body limit" : "body not in time";
      decided = true;
      if (at < got.size()) {
        answer a;
        auto why = take_answer(got, at, false, k.client->ended, a);
        REQM(why.empty() && a.body == "answer " + p.id, who + "the answer after a body that failed: " + why);
      }
      continue;
    }
    auto answered = std::max(begins, p.reads ? whole : begins) + p.delay;
    if (answered > deadline) {
      // only operations on the connection time out: unspecified from here on
      c.label("a handler beyond the timeout");
      return;
    }
    answer a;
    auto why = take_answer(got, at, false, k.client->ended, a);
    REQM(why.empty(), who + why);
    REQ_EQ(a.status, 200);
    REQ_EQ(a.body, "answer " + p.id);
    if (p.closes) {
      open = false;
      end = "close";
      continue;
    }
    if (!in_time) {
      open = false;
      end = "what is left of the body does not come";
      stuck = never && !too_long;
      if (never && too_long && whole < 0) {
        stuck = !k.client->ended; // as above
      }
      decided = true;
      continue;
    }
    s = std::max(answered, whole);
    // an answer beyond the deadline of a connection that already has bytes waiting is never late: time stands still
  }
  REQM(at == got.size(), "bytes after the last answer (" + end + "): " + got.substr(at, 60));
  if (stuck) {
    REQM(!k.client->ended, "the connection is ended without a reason");
    return;
  }
  if (open) {
    // the client is idle now
    if (k.shut >= 0 && (timeout < 0 || k.shut < s + timeout)) {
      end = "disconnect";
    } else if (timeout >= 0) {
      end = "idle";
      ends_at = s + timeout;
      decided = true;
    } else {
      end = "nothing";
      REQM(!k.client->ended, "the connection is ended without a reason");
      return;
    }
  }
  REQM(k.client->ended, "the connection is left open (" + end + ")");
  if (ends_at >= 0) {
    REQM(k.client->ended_at == ends_at, "the connection is ended after " + std::to_string(k.client->ended_at) + " ms instead of " + std::to_string(ends_at) + " (" + end + ")");
  }
  c.label(end == "idle" ? "idle timeout" : end == "timeout before the header" ? "header timeout" : end == "body not in time" ? "body timeout" : end == "header limit" ? "header limit" : end == "body limit" ? "body limit" : end == "disconnect" ? "disconnect" : "other end");
}
}

SECTION("clients", 1600, 40000)
{
  clean_hooks clean;
  plans.clear();
  net::standin::listeners().clear();
  long long timeout = c.pick<int>({ 1005, 5005, 205, -1 });
  std::size_t header_limit = c.pick<std::size_t>({ 200, 1000, 8192, 0 });
  std::uint64_t body_limit = c.pick<pbt::u64>({ 0, 1, 10, 1000, 70000, 1 << 20, ~0ull });
  bool local = c.chance(1, 4);
  c.in("server", fmt::format("timeout {} ms, header limit {}, body limit {}{}", timeout, header_limit, body_limit, local ? ", local" : ""));
  std::vector<connection_plan> ks(2 + c.below(3));
  int id = 0;
  bool big = c.chance(1, 6); // in large transfers
  const auto most_head = header_limit ? header_limit : 1 << 20;
  for (auto& k : ks) {
    bool good = c.chance(1, 3); // keeps to everything
    std::vector<std::size_t> bounds; // where something happens
    for (std::size_t n = 0; n < 1 || c.more(n, 4, 2); ++n) {
      auto p = std::make_unique<exchange_plan>();
      p->id = std::to_string(++id);
      p->closes = c.chance(1, 10);
      bool form = c.chance(1, 2);
      p->chunked = form && c.chance(1, 2);
      if (form) {
        p->body = c.pick<std::size_t>({ 0, 1, 9, 10, 11, 999, 1000, 1001, 1001 });
        if (big && c.chance(1, 3)) {
          p->body = c.pick<std::size_t>({ 5000, 70000, 70001, 140000 });
          if (body_limit >= 1 << 20 && c.chance(1, 2)) {
            p->body = (1 << 20) + c.pick<std::size_t>({ 0, 1, 200000 });
          }
        }
        if (good || c.chance(1, 2)) {
          p->body = std::min<pbt::u64>(p->body, body_limit);
        }
      }
      p->reads = c.chance(2, 3);
      p->delay = c.chance(1, 6) ? 10 * static_cast<int>(1 + c.below(12)) : 0;
      std::string h = (form ? "POST" : "GET") + std::string(" /r/") + p->id + " HTTP/1.1\r\nHost: h\r\n";
      if (p->closes) {
        h += "Connection: close\r\n";
      }
      if (form) {
        h += p->chunked ? "Transfer-Encoding: chunked\r\n" : "Content-Length: " + std::to_string(p->body) + "\r\n";
      }
      if (header_limit && c.chance(1, 3)) {
        bool over = !good && c.chance(1, 2);
        auto want = over ? header_limit + 9 + c.below(40) : header_limit - 9 - c.below(20);
        if (h.size() + 8 < want) {
          auto fill = want - h.size() - 2;
          // in one long field or in several
          while (fill > 0) {
            auto m = fill < 300 || c.chance(1, 2) ? fill : fill / 2;
            if (m < 6) {
              break;
            }
            h += "X: " + std::string(m - 5, 'x') + "\r\n";
            fill -= m;
          }
        }
      }
      h += "\r\n";
      p->head = h.size();
      auto body = body_of(*p);
      p->text = h;
      if (p->chunked) {
        for (auto& s : cut(c, body)) {
          p->text += fmt::format("{:x}\r\n", s.size()) + s + "\r\n";
        }
        p->text += "0\r\n\r\n";
      } else if (form) {
        p->text += body;
      }
      if (timeout >= 0 && p->delay > timeout / 2) {
        p->delay = 0;
      }
      c.in("request", fmt::format("{}: header {}, {} {}{}{}{}", p->id, p->head, p->chunked ? "chunks" : form ? "length" : "no body", p->body, p->closes ? ", close" : "",
                                  p->reads ? ", read" : ", not read", p->delay ? fmt::format(", {} ms", p->delay) : ""));
      bounds.push_back(k.text.size());
      bounds.push_back(k.text.size() + p->head);
      k.text += p->text;
      bounds.push_back(k.text.size());
      plans[p->id] = p.get();
      k.all.push_back(std::move(p));
    }
    // where the client pauses, and for how long
    std::set<std::size_t> cuts { k.text.size() };
    for (std::size_t n = 0; c.more(n, 5, 2); ++n) {
      cuts.insert(c.chance(1, 2) ? c.pick(bounds) : c.below(k.text.size() + 1));
    }
    std::size_t sent = 0, stop = good || c.chance(2, 3) ? k.text.size() : c.below(k.text.size() + 1);
    long long now = 0;
    std::string times;
    for (auto x : cuts) {
      x = std::min(x, stop);
      if (x <= sent && sent > 0) {
        continue;
      }
      int wait = c.chance(1, 2) ? 0 : 10 * static_cast<int>(c.below(good ? 5 : c.pick<pbt::u64>({ 10, 30, 130, 600 })));
      now += wait;
      k.steps.push_back({ k.text.substr(sent, x - sent), wait, false });
      sent = x;
      k.arrivals.emplace_back(sent, now);
      times += fmt::format("{} at {} ms, ", sent, now);
    }
    if (c.chance(1, 2)) {
      int wait = 10 * static_cast<int>(c.below(20));
      k.steps.push_back({ "", wait, true });
      k.shut = now + wait;
      times += fmt::format("ends at {} ms", k.shut);
    }
    k.start = c.chance(1, 2) ? 0 : 10 * static_cast<int>(c.below(100));
    c.in("client", fmt::format("starts at {} ms, sends {}of {}", k.start, times, k.text.size()));
  }
  if (!big) {
    gen_parts(c);
  }
  net::io_context ioc;
  if (auto seed = c.below(1 << 16); seed) {
    auto s = std::make_shared<pbt::u64>(seed);
    ioc.pick = [s](std::size_t n) {
      *s = pbt::mix(*s);
      return static_cast<std::size_t>(*s % n);
    };
  }
  auto builder = web::http_server::builder(ioc);
  // what a server has when nothing is said
  bool defaults = header_limit == 8192 && body_limit == 1 << 20 && c.chance(1, 2);
  if (timeout >= 0) {
    builder.set_request_timeout(std::chrono::milliseconds(timeout));
  } else {
    builder.set_request_timeout(fi::nullopt);
  }
  if (defaults) {
    c.label("default limits");
  } else if (header_limit) {
    builder.set_request_header_limit(static_cast<std::uint32_t>(header_limit));
  } else {
    builder.set_request_header_limit(fi::nullopt);
  }
  if (defaults) {
  } else if (body_limit != ~0ull) {
    builder.set_request_body_limit(body_limit);
  } else {
    builder.set_request_body_limit(fi::nullopt);
  }
  auto server = builder.set_exception_handler([](std::exception_ptr) {})
                    .serve(web::route::any<"/r/{id}">([](web::request& r) -> awaitable<web::response> { co_return co_await serve(r); }))
                    .build();
  REQM(server.request_timeout() == (timeout >= 0 ? fi::optional<std::chrono::steady_clock::duration>(std::chrono::milliseconds(timeout)) : fi::nullopt), "request_timeout()");
  REQM(server.request_header_limit() == (header_limit ? fi::optional<std::uint32_t>(static_cast<std::uint32_t>(header_limit)) : fi::nullopt), "request_header_limit()");
  REQM(server.request_body_limit() == (body_limit != ~0ull ? fi::optional<std::uint64_t>(body_limit) : fi::nullopt), "request_body_limit()");
  if (local) {
    REQM(server.bind_local("/pbt/socket").has_value(), "bind_local");
    REQM(!server.bind_local("/pbt/socket").has_value(), "a second bind_local of the same path");
  } else {
    REQM(server.bind("127.0.0.1", 8080).has_value(), "bind");
    REQM(!server.bind("127.0.0.1", 8080).has_value(), "a second bind of the same address");
  }
  for (auto& k : ks) {
    k.client = local ? raw_client_at<net::local::stream_protocol>(ioc, "/pbt/socket", k.steps, 0, k.start)
                     : raw_client(ioc, 8080, k.steps, 0, k.start);
  }
  if (c.chance(1, 3)) {
    int when = 10 * static_cast<int>(c.below(100));
    c.in("accept fails at", when);
    net::co_spawn(
        ioc,
        [when]() -> awaitable<void> {
          client_timer t(co_await net::this_coro::executor);
          t.expires_after(std::chrono::milliseconds(when));
          co_await t.async_wait(fi::use_awaitable);
          for (auto& [n, l] : net::standin::listeners()) {
            l->next_error = std::make_error_code(std::errc::too_many_files_open);
            l->serve();
          }
        },
        net::detached);
  }
  ioc.scheduler::run(true, 20'000'000);
  bool decided = false;
  for (auto& k : ks) {
    REQM(k.client->connected, "a client is refused");
    judge(c, k, timeout, most_head, body_limit, decided);
  }
  c.nontrivial(decided);
}
