// C33: what a handler is given and what it returns are framed exactly on the wire.
#include "server.hpp"
#include <fmt/format.h>

static pbt::Rule rule(
    "one to three connections to a server, each a generated script of pipelined requests (any method, length or chunked "
    "bodies, chunk extensions and trailers, Expect, HTTP/1.0 and 1.1, Connection fields, unknown and malformed "
    "targets) sent in generated pieces with pauses, to handlers that read none, a part or all of the body and return any "
    "status, headers and body form (absent, of known or unknown length, chunked, with empty pieces, failing) or throw; "
    "transfers are cut by generated amounts and tasks run in a generated order; an independent reader takes the "
    "responses apart and compares them with the script; non-trivial: a connection with two requests, or a body");

using namespace web_h;
namespace {
enum body_form { absent, known, unknown, chunks };
enum reading { nothing, some, everything };

struct exchange_plan {
  // the request
  std::string method, target, path;
  int minor = 1;
  int connection = 0; // 1: close, 2: keep-alive
  bool expect = false;
  bool routed = true, good_target = true;
  std::vector<std::pair<std::string, std::string>> headers;
  body_form request_form = absent;
  std::string request_body;
  bool request_broken = false; // the chunks end in nonsense
  // the handler
  reading reads = everything;
  std::size_t pieces = 1;
  bool throws = false;
  int delay = 0;
  // the response
  int status = 200;
  int response_minor = 1;
  std::vector<std::pair<std::string, std::string>> response_headers;
  body_form form = absent;
  std::string body;
  std::vector<std::string> cuts;
  const char* own_length = nullptr;
  bool body_fails = false, body_pauses = false;
  // what was seen
  int calls = 0;
  std::string wrong;
  std::string got_body;
  std::error_code got_error;
  bool got_end = false;

  bool keeps() const
  {
    return minor == 1 ? connection != 1 : connection == 2;
  }
};
std::map<std::string, exchange_plan*> plans;

struct refused : std::runtime_error {
  using runtime_error::runtime_error;
};

awaitable<web::response> serve(web::request& r)
{
  auto it = plans.find(std::string(r.path().get("id").value_or("")));
  if (it == plans.end()) {
    co_return web::response::gone().set_body("unknown id");
  }
  auto& p = *it->second;
  ++p.calls;
  auto is = [&](bool ok, const std::string& what) {
    if (!ok && p.wrong.empty()) {
      p.wrong = what;
    }
  };
  is(std::string(boost::beast::http::to_string(r.method())) == p.method, "another method");
  is(r.version() == (p.minor ? http::version::v1_1 : http::version::v1_0), "another version");
  is(std::string(r.path().match_path()) == p.path, "another path");
  std::map<std::string, std::vector<std::string>> want, got;
  for (auto& [n, v] : p.headers) {
    want[text::lower(n)].push_back(v);
  }
  for (auto i = r.headers().begin(); i != r.headers().end(); ++i) {
    auto n = text::lower(std::string(i->name_string()));
    if (want.count(n)) {
      got[n].push_back(std::string(i->value()));
    }
  }
  is(want == got, "other headers");
  if (p.reads != nothing) {
    for (std::size_t n = 0; p.reads == everything || n < p.pieces; ++n) {
      auto x = co_await r.body().async_read_some();
      if (!x) {
        p.got_end = true;
        break;
      }
      if (!*x) {
        p.got_error = x->error();
        break;
      }
      p.got_body += str(**x);
    }
  }
  if (p.delay) {
    client_timer t(co_await net::this_coro::executor);
    t.expires_after(std::chrono::milliseconds(p.delay));
    co_await t.async_wait(fi::use_awaitable);
  }
  if (p.throws) {
    throw refused("handler of " + p.target);
  }
  auto b = web::response_builder(http::status::ok);
  b.set_status(p.status);
  b.set_version(p.response_minor ? http::version::v1_1 : http::version::v1_0);
  for (auto& [n, v] : p.response_headers) {
    b.insert_header(n, v);
  }
  if (p.own_length) {
    b.set_header(http::field::content_length, p.own_length);
  }
  piece_stream s;
  s.s->pieces = p.cuts;
  s.s->suspend = p.body_pauses;
  if (p.body_fails) {
    s.s->error = std::make_error_code(std::errc::io_error);
  }
  switch (p.form) {
  case absent:
    co_return b.set_body();
  case known:
    co_return b.set_body(p.body);
  case unknown:
    co_return b.set_body(std::move(s));
  default:
    co_return b.set_stream_body(std::move(s));
  }
}

// ---- the script ----------------------------------------------------------------
std::string mixed(pbt::Case& c, const std::string& s)
{
  if (c.chance(2, 3)) {
    return s;
  }
  return c.chance(1, 2) ? text::lower(s) : [&] {
    auto u = s;
    for (auto& ch : u) {
      ch = static_cast<char>(std::toupper(static_cast<unsigned char>(ch)));
    }
    return u;
  }();
}
std::string chunked_text(pbt::Case& c, exchange_plan& p)
{
  std::string s;
  for (auto& piece : cut(c, p.request_body)) {
    auto size = fmt::format("{:x}", piece.size());
    s += c.chance(1, 4) ? fmt::format("{:X}", piece.size()) : size;
    if (c.chance(1, 8)) {
      s += ";name=value";
    }
    s += "\r\n" + piece + "\r\n";
  }
  if (c.chance(1, 25)) {
    p.request_broken = true;
    return s + "zz\r\n\r\n";
  }
  s += "0\r\n";
  if (c.chance(1, 8)) {
    s += "X-Trailer: t\r\n";
  }
  return s + "\r\n";
}
std::string request_text(pbt::Case& c, exchange_plan& p, const std::string& id)
{
  p.method = c.pick<const char*>({ "GET", "POST", "PUT", "HEAD", "DELETE", "PATCH", "OPTIONS", "GET", "POST" });
  p.path = "/r/" + id;
  p.target = p.path;
  if (c.chance(1, 12)) {
    if (c.chance(1, 2)) {
      p.target = c.pick<const char*>({ "/none", "/r", "/", "/r/a/b" });
      p.routed = false;
    } else {
      p.target = c.pick<const char*>({ "r/1", "/a%zz", "*", "/a%4" });
      p.routed = p.good_target = false;
    }
  } else if (c.chance(1, 5)) {
    p.target += "?a=1&b=2";
  }
  p.minor = c.chance(1, 8) ? 0 : 1;
  p.connection = c.weighted({ 14, 1, 4 });
  for (std::size_t i = 0; c.more(i, 3, 1); ++i) {
    p.headers.emplace_back(c.pick<const char*>({ "X-A", "x-a", "X-B", "Accept", "Cookie" }), text::trim(c.str("abc ,;=\"", 8)));
  }
  p.request_form = c.pick({ absent, absent, known, known, chunks });
  if (p.minor == 0 && p.request_form == chunks) {
    p.request_form = known;
  }
  if (p.request_form != absent) {
    p.request_body = gen_body(c);
    p.expect = p.minor && c.chance(1, 8);
  }
  auto s = p.method + " " + p.target + " HTTP/1." + std::to_string(p.minor) + "\r\n" + mixed(c, "Host") + ": h\r\n";
  for (auto& [n, v] : p.headers) {
    s += n + ": " + v + "\r\n";
  }
  if (p.connection) {
    s += mixed(c, "Connection") + ": " + mixed(c, p.connection == 1 ? "close" : "keep-alive") + "\r\n";
  }
  if (p.expect) {
    s += "Expect: " + mixed(c, "100-continue") + "\r\n";
  }
  if (p.request_form == known) {
    s += mixed(c, "Content-Length") + ": " + std::to_string(p.request_body.size()) + "\r\n\r\n" + p.request_body;
  } else if (p.request_form == chunks) {
    s += mixed(c, "Transfer-Encoding") + ": chunked\r\n\r\n" + chunked_text(c, p);
  } else {
    s += "\r\n";
  }
  return s;
}
void response_plan(pbt::Case& c, exchange_plan& p)
{
  p.reads = c.pick({ everything, everything, nothing, some });
  p.pieces = 1 + c.below(3);
  p.delay = c.chance(1, 6) ? static_cast<int>(1 + c.below(50)) : 0;
  p.throws = c.chance(1, 25);
  p.status = c.pick<int>({ 200, 200, 200, 201, 204, 206, 304, 400, 404, 500, 503, 299, 599, 205 });
  p.form = c.pick({ absent, known, known, unknown, chunks, chunks });
  if (p.form != chunks && c.chance(1, 12)) {
    p.response_minor = 0;
  }
  for (std::size_t i = 0; c.more(i, 3, 1); ++i) {
    p.response_headers.emplace_back(c.pick<const char*>({ "X-A", "x-a", "X-B", "Set-Cookie", "Content-Type" }), text::trim(c.str("abc ,;=\"", 8)));
  }
  if (p.form != absent) {
    // a length of the handler's own does not frame the body
    p.own_length = c.chance(1, 20) ? c.pick<const char*>({ "3", "0", "100000" }) : nullptr;
    p.body = gen_body(c);
    p.cuts = cut(c, p.body, true);
    p.body_fails = p.form != known && c.chance(1, 15);
    p.body_pauses = c.chance(1, 4);
  }
}
struct connection_plan {
  std::vector<std::unique_ptr<exchange_plan>> all;
  std::vector<step> steps;
  std::shared_ptr<seen> client;
};
const char* forms[] = { "absent", "known", "unknown", "chunks" };

// Why the text is not what the connection should have sent, or nothing.
void judge(pbt::Case& c, connection_plan& k)
{
  auto& got = k.client->bytes;
  std::size_t at = 0;
  bool open = true;
  int n = 0;
  for (auto& pp : k.all) {
    auto& p = *pp;
    auto who = "request " + std::to_string(++n) + ": ";
    if (!open) {
      REQM(p.calls == 0, who + "is handled although the connection ended before it");
      continue;
    }
    REQM(p.calls == (p.routed ? 1 : 0), who + "is handled " + std::to_string(p.calls) + " times");
    REQM(p.wrong.empty(), who + "its handler sees " + p.wrong);
    if (p.calls && p.reads != nothing) {
      REQM(p.request_body.compare(0, p.got_body.size(), p.got_body) == 0, who + "the handler reads other bytes");
      if (p.got_end) {
        REQM(p.got_body.size() == p.request_body.size(), who + "the handler reads " + std::to_string(p.got_body.size()) + " of " + std::to_string(p.request_body.size()) + " bytes");
        REQM(!p.request_broken, who + "a broken body ends without an error");
      }
      if (p.got_error) {
        REQM(p.request_broken, who + "the body fails: " + p.got_error.message());
      } else if (p.reads == everything) {
        REQM(p.got_end, who + "the body does not end");
      }
    }
    if (p.expect) {
      answer interim;
      auto why = take_answer(got, at, false, true, interim);
      REQM(why.empty(), who + "no 100 response: " + why);
      REQ_EQ(interim.status, 100);
    }
    bool stream_fails = p.routed && p.body_fails && !p.throws;
    bool head = p.method == "HEAD";
    bool bodyless = head || p.status == 204 || p.status == 304;
    if (p.routed && (p.throws || (stream_fails && (p.form == unknown || (bodyless && p.minor == 0))))) {
      if (p.throws || !bodyless) {
        REQM(at == got.size(), who + "a response although the handler failed");
        REQM(k.client->ended, who + "the connection stays open");
        open = false;
        continue;
      }
      // whether a body that is not sent is read is not specified
      if (at == got.size()) {
        open = false;
        continue;
      }
    }
    answer a;
    auto begin = at;
    auto why = take_answer(got, at, head, k.client->ended, a);
    if (stream_fails && p.form == chunks && !bodyless) {
      REQM(!why.empty() || a.how == answer::to_end, who + "a body that failed is sent as a whole one");
      REQM(p.body.compare(0, a.body.size(), a.body) == 0, who + "other bytes before the failure");
      REQM(k.client->ended, who + "the connection stays open after a failed body");
      open = false;
      at = got.size();
      continue;
    }
    REQM(why.empty(), who + why);
    if (!p.routed) {
      REQ_EQ(a.status, p.good_target ? 404 : 400);
      REQ_EQ(a.get("content-type"), std::string("text/plain"));
      if (!head) {
        REQ_EQ(a.body, std::string(p.good_target ? "request path is not found" : "request target is invalid"));
      }
    } else {
      REQ_EQ(a.status, p.status);
      REQ_EQ(a.minor, p.response_minor);
      std::map<std::string, std::vector<std::string>> want, has;
      for (auto& [x, v] : p.response_headers) {
        want[text::lower(x)].push_back(v);
      }
      for (auto& [x, v] : a.fields) {
        auto low = text::lower(x);
        if (low != "content-length" && low != "transfer-encoding" && low != "connection") {
          has[low].push_back(v);
        }
      }
      REQM(want == has, who + "the response has other headers");
      if (!bodyless) {
        REQM(a.body == p.body, who + "the response's body has other bytes (" + std::to_string(a.body.size()) + " instead of " + std::to_string(p.body.size()) + ")");
        if (p.form == chunks && p.minor == 1) {
          REQM(a.how == answer::chunked, who + "the body is not chunked");
        } else if (p.form != chunks) {
          REQM(a.how == answer::sized, who + "the body has no length");
        }
        REQM(p.minor == 1 || a.how != answer::chunked, who + "a chunked body for an HTTP/1.0 client");
      } else if (head && p.form != absent) {
        // what a HEAD response announces is what GET would have
        auto cl = a.all("content-length");
        REQM(cl.empty() || cl[0] == std::to_string(p.body.size()), who + "HEAD announces another length");
      }
      if (p.status == 304 && p.form != absent) {
        auto cl = a.all("content-length");
        REQM(cl.empty() || cl[0] == std::to_string(p.body.size()), who + "304 announces another length");
      }
    }
    c.label(bodyless ? "response without a body" : forms[p.form]);
    bool says_close = false, says_keep = false;
    for (auto& v : a.all("connection")) {
      says_close |= text::lower(v) == "close";
      says_keep |= text::lower(v) == "keep-alive";
    }
    bool closes = says_close || (a.minor == 0 && !says_keep);
    if (!p.keeps() || a.how == answer::to_end) {
      REQM(closes || a.how == answer::to_end, who + "the response does not say the connection ends");
      REQM(at == got.size(), who + "bytes after the last response");
      REQM(k.client->ended, who + "the connection stays open");
      open = false;
    } else {
      REQM(!closes, who + "the response says the connection ends");
      if (p.request_broken) {
        REQM(at == got.size(), who + "a response after a broken request");
        REQM(k.client->ended, who + "the connection stays open after a broken request");
        open = false;
      }
    }
    (void)begin;
  }
  REQM(at == got.size(), "bytes after the last response: " + got.substr(at, 60));
  REQM(k.client->ended, "the connection is left open");
}
}

SECTION("connections", 1500, 25000)
{
  clean_hooks clean;
  plans.clear();
  net::standin::listeners().clear();
  std::vector<connection_plan> ks(1 + c.weighted({ 5, 2, 1 }));
  int id = 0;
  std::vector<std::string> thrown;
  bool plain = true;
  for (auto& k : ks) {
    std::string all;
    for (std::size_t n = 0; n < 1 || c.more(n, 5, 3); ++n) {
      auto p = std::make_unique<exchange_plan>();
      auto name = std::to_string(++id);
      c.raw();
      all += request_text(c, *p, name);
      response_plan(c, *p);
      if (p->routed) {
        plans[name] = p.get();
      }
      c.in("request", fmt::format("{} {} HTTP/1.{} {} {} {}{}", p->method, p->target, p->minor, p->connection == 1 ? "close" : p->connection == 2 ? "keep-alive" : "-",
                                  forms[p->request_form], p->request_body.size(), p->request_broken ? " broken" : "")
               + (p->expect ? " expects 100" : ""));
      c.in("handler", fmt::format("reads {} then {} {} HTTP/1.{} {} {} bytes in {} pieces{}", p->reads == nothing ? "nothing" : p->reads == some ? std::to_string(p->pieces) : "everything",
                                  p->throws ? "throws" : "returns", p->status, p->response_minor, forms[p->form], p->body.size(), p->cuts.size(), p->body_fails ? ", fails" : ""));
      plain = plain && p->form == absent && p->request_form == absent;
      bool broken = p->request_broken;
      k.all.push_back(std::move(p));
      if (broken) {
        break;
      }
    }
    for (auto& s : cut(c, all)) {
      k.steps.push_back({ s, c.chance(1, 6) ? static_cast<int>(1 + c.below(20)) : 0, false });
    }
    k.steps.push_back({ "", 0, true });
    c.in("sent in", k.steps.size());
  }
  gen_parts(c);
  net::io_context ioc;
  if (auto seed = c.below(1 << 16); seed && ks.size() > 1) {
    auto s = std::make_shared<pbt::u64>(seed);
    ioc.pick = [s](std::size_t n) {
      *s = pbt::mix(*s);
      return static_cast<std::size_t>(*s % n);
    };
  }
  auto server = web::http_server::builder(ioc)
                    .set_request_timeout(fi::nullopt)
                    .set_request_body_limit(fi::nullopt)
                    .set_exception_handler([&](std::exception_ptr e) {
                      try {
                        if (e) {
                          std::rethrow_exception(e);
                        }
                      } catch (const refused& x) {
                        thrown.push_back(x.what());
                      } catch (...) {
                      }
                    })
                    .serve(web::route::any<"/r/{id}">([](web::request& r) -> awaitable<web::response> { co_return co_await serve(r); }))
                    .build();
  REQM(server.bind("127.0.0.1", 8080).has_value(), "bind");
  for (auto& k : ks) {
    k.client = raw_client(ioc, 8080, k.steps, c.chance(1, 8) ? 3 : 0, c.chance(1, 4) ? static_cast<int>(c.below(10)) : 0);
  }
  ioc.scheduler::run(true, 20'000'000);
  std::vector<std::string> refusals;
  std::size_t most = 0;
  for (auto& k : ks) {
    most = std::max(most, k.all.size());
    judge(c, k);
    for (auto& p : k.all) {
      if (p->calls && p->throws) {
        refusals.push_back("handler of " + p->target);
      }
    }
  }
  std::sort(thrown.begin(), thrown.end());
  std::sort(refusals.begin(), refusals.end());
  REQM(thrown == refusals, "the exception handler gets other exceptions than the handlers throw");
  c.nontrivial(most > 1 || !plain);
}
