// C40: what a builder is given is what the request or response carries.
#include "server.hpp"

static pbt::Rule rule(
    "histories of up to 14 builder calls on a response, a test request and, in a middleware behind a server, a request: "
    "status, method, version, header set and insert by text and by known name, query parameters, each on the builder "
    "or on its rvalue, ending with any of the body setters and, often, continuing with the builder of what was built; "
    "compared with a record of the calls after each build, and the body read at the end; the buffers passed in are "
    "overwritten after each call; non-trivial: two builds, or a header written twice, or a body that is replaced");

using namespace web_h;
namespace {
struct record {
  int status = 200;
  http::verb method = http::verb::get;
  http::version version = http::version::v1_1;
  std::vector<std::pair<std::string, std::string>> headers;
  std::map<std::string, std::string> query;
  enum { null, sized, unsized, chunked } kind = null;
  std::string body;
  int builds = 0, rewritten = 0, replaced = 0;
  bool has_body = false;
};
struct known {
  http::field f;
  const char* name;
};
const known fields[] = { { http::field::content_type, "Content-Type" },
                         { http::field::accept, "Accept" },
                         { http::field::set_cookie, "Set-Cookie" },
                         { http::field::user_agent, "User-Agent" } };
const char* other[] = { "X-A", "x-a", "X-B", "content-type", "ACCEPT", "X-", "Content-Typ" };

std::string value(pbt::Case& c)
{
  return text::trim(c.chance(1, 2) ? c.pick<const char*>({ "", "a", "text/html", "x, y" }) : c.str("abc ,;=\"/\\0()<>@:?{}\t", 12));
}

// ---- JSON --------------------------------------------------------------------
void quote(std::string& s, const std::string& t)
{
  s += '"';
  for (char ch : t) {
    if (ch == '"' || ch == '\\') {
      s += '\\';
      s += ch;
    } else if (ch == '\n') {
      s += "\\n";
    } else {
      s += ch;
    }
  }
  s += '"';
}
boost::json::value json(pbt::Case& c, std::string& s, int depth = 0)
{
  switch (c.weighted({ 2, 2, 1, 1, 1, depth < 3 ? 3u : 0u, depth < 3 ? 3u : 0u })) {
  case 0: {
    auto n = c.range(-100000, 100000);
    s += std::to_string(n);
    return static_cast<std::int64_t>(n);
  }
  case 1: {
    auto t = c.str("ab\"\\\n {}[]:,", 6);
    quote(s, t);
    return boost::json::value(boost::json::string(t));
  }
  case 2:
    s += "null";
    return nullptr;
  case 3:
    s += "true";
    return true;
  case 4:
    s += "false";
    return false;
  case 5: {
    boost::json::array a;
    s += '[';
    for (std::size_t i = 0; c.more(i, 4, 2); ++i) {
      s += i ? "," : "";
      a.push_back(json(c, s, depth + 1));
    }
    s += ']';
    return a;
  }
  default: {
    boost::json::object o;
    s += '{';
    for (std::size_t i = 0; c.more(i, 4, 2); ++i) {
      auto k = "k" + std::to_string(i) + c.str("a\"", 2);
      s += i ? "," : "";
      quote(s, k);
      s += ':';
      o[k] = json(c, s, depth + 1);
    }
    s += '}';
    return o;
  }
  }
}
struct point {
  int x, y;
};
void tag_invoke(const boost::json::value_from_tag&, boost::json::value& v, const point& p)
{
  boost::json::object o;
  o["x"] = p.x;
  o["y"] = p.y;
  v = o;
}

// ---- calls -------------------------------------------------------------------
// text that is overwritten once the call is over
struct fleeting {
  std::unique_ptr<char[]> p;
  std::size_t n;
  explicit fleeting(const std::string& s)
      : p(new char[s.size()])
      , n(s.size())
  {
    std::copy(s.begin(), s.end(), p.get());
  }
  operator std::string_view() const
  {
    return { p.get(), n };
  }
  std::string_view view() const
  {
    return *this;
  }
  ~fleeting()
  {
    std::fill(p.get(), p.get() + n, '#');
  }
};
template <typename B, typename F>
void call(pbt::Case& c, B& b, F f)
{
  if (c.chance(1, 2)) {
    auto& r = f(b);
    REQM(&r == &b, "the call does not return the builder");
  } else {
    auto&& r = f(std::move(b));
    REQM(&r == &b, "the call does not return the builder");
  }
}
#define CALL(b, expr) call(c, b, [&](auto&& x) -> auto&& { return static_cast<decltype(x)&&>(x).expr; })

void put(record& m, const std::string& name, const std::string& v, bool set)
{
  auto low = text::lower(name);
  auto same = [&](auto& e) { return text::lower(e.first) == low; };
  m.rewritten += std::any_of(m.headers.begin(), m.headers.end(), same);
  if (set) {
    std::erase_if(m.headers, same);
  }
  m.headers.emplace_back(name, v);
}
template <typename B>
void calls(pbt::Case& c, B& b, record& m)
{
  for (std::size_t n = 0; c.more(n, 7, 3); ++n) {
    switch (c.below(6)) {
    case 0: {
      std::string name = c.pick<const char*>({ other[0], other[1], other[2], other[3], other[4], other[5], other[6] });
      auto v = value(c);
      fleeting fn(name), fv(v);
      c.op("set_header", name, v);
      CALL(b, set_header(fn.view(), fv.view()));
      put(m, name, v, true);
      break;
    }
    case 1: {
      std::string name = c.pick<const char*>({ other[0], other[1], other[2], other[3], other[4], other[5], other[6] });
      auto v = value(c);
      fleeting fn(name), fv(v);
      c.op("insert_header", name, v);
      CALL(b, insert_header(fn.view(), fv.view()));
      put(m, name, v, false);
      break;
    }
    case 2: {
      auto& k = fields[c.below(std::size(fields))];
      auto v = value(c);
      fleeting fv(v);
      c.op("set_header known", k.name, v);
      CALL(b, set_header(k.f, fv.view()));
      put(m, k.name, v, true);
      break;
    }
    case 3: {
      auto& k = fields[c.below(std::size(fields))];
      auto v = value(c);
      fleeting fv(v);
      c.op("insert_header known", k.name, v);
      CALL(b, insert_header(k.f, fv.view()));
      put(m, k.name, v, false);
      break;
    }
    case 4:
      if constexpr (requires { b.set_status(http::status::ok); }) {
        int s = c.pick<int>({ 200, 201, 204, 206, 304, 400, 404, 500, 511, 599, 299 });
        c.op("set_status", s);
        CALL(b, set_status(s));
        m.status = s;
      } else {
        auto v = c.pick<http::verb>({ http::verb::get, http::verb::post, http::verb::put, http::verb::delete_, http::verb::head, http::verb::options });
        c.op("set_method", static_cast<int>(v));
        CALL(b, set_method(v));
        m.method = v;
      }
      break;
    default:
      if constexpr (requires { b.set_query("", ""); }) {
        auto name = c.str("ab", 2), v = c.str("xyz =&%", 4);
        c.op("set_query", name, v);
        CALL(b, set_query(name, v));
        m.query[name] = v;
      } else {
        auto v = c.chance(1, 2) ? http::version::v1_0 : http::version::v1_1;
        c.op("set_version", v == http::version::v1_1);
        CALL(b, set_version(v));
        m.version = v;
      }
      if constexpr (requires { b.set_version(http::version::v1_0); b.set_query("", ""); }) {
        if (c.chance(1, 2)) {
          auto v = c.chance(1, 2) ? http::version::v1_0 : http::version::v1_1;
          c.op("set_version", v == http::version::v1_1);
          CALL(b, set_version(v));
          m.version = v;
        }
      }
    }
  }
}
// ends a builder's history
template <typename B>
auto finish(pbt::Case& c, B& b, record& m) -> decltype(b.build())
{
  ++m.builds;
  constexpr bool streams = requires { b.set_stream_body(piece_stream()); };
  auto how = c.weighted({ 3, 1, 2, 2, 2, streams ? 2u : 0u, 3 });
  if (how) {
    m.replaced += m.has_body;
    m.has_body = how != 1;
  }
  switch (how) {
  case 0:
    c.op("build");
    return b.build();
  case 1:
    c.op("set_body");
    m.kind = record::null;
    m.body.clear();
    return b.set_body();
  case 2: {
    m.body = gen_body(c);
    m.kind = record::sized;
    in_body(c, "set_body span", m.body);
    fleeting f(m.body);
    return b.set_body(std::as_bytes(std::span(f.p.get(), f.n)));
  }
  case 3: {
    m.body = gen_body(c);
    m.kind = record::sized;
    in_body(c, "set_body text", m.body);
    fleeting f(m.body);
    return b.set_body(f.view());
  }
  case 4:
  case 5: {
    m.body = gen_body(c);
    m.kind = how == 4 ? record::unsized : record::chunked;
    in_body(c, how == 4 ? "set_body stream" : "set_stream_body", m.body);
    piece_stream s;
    s.s->pieces = cut(c, m.body);
    s.s->suspend = c.chance(1, 4);
    if constexpr (streams) {
      if (how == 5) {
        return b.set_stream_body(std::move(s));
      }
    }
    return b.set_body(std::move(s));
  }
  default: {
    m.kind = record::sized;
    m.body.clear();
    put(m, "Content-Type", "application/json", true);
    switch (c.weighted({ 4, 1, 1, 1, 1 })) {
    case 0: {
      auto v = json(c, m.body);
      c.in("set_json", m.body);
      return b.set_json(v);
    }
    case 1: {
      std::vector<int> v;
      m.body = "[";
      for (std::size_t i = 0; c.more(i, 5, 2); ++i) {
        v.push_back(static_cast<int>(c.range(-50, 50)));
        m.body += (i ? "," : "") + std::to_string(v.back());
      }
      m.body += "]";
      c.in("set_json vector", m.body);
      return b.set_json(v);
    }
    case 2: {
      std::map<std::string, bool> v;
      for (std::size_t i = 0; c.more(i, 5, 2); ++i) {
        v[c.str("abc", 3)] = c.chance(1, 2);
      }
      m.body = "{";
      for (auto& [k, x] : v) {
        m.body += m.body.size() > 1 ? "," : "";
        quote(m.body, k);
        m.body += x ? ":true" : ":false";
      }
      m.body += "}";
      c.in("set_json map", m.body);
      return b.set_json(v);
    }
    case 3: {
      auto t = c.str("ab\"\n", 8);
      quote(m.body, t);
      c.in("set_json text", m.body);
      return b.set_json(t);
    }
    default: {
      point p { static_cast<int>(c.range(-9, 9)), static_cast<int>(c.range(-9, 9)) };
      m.body = "{\"x\":" + std::to_string(p.x) + ",\"y\":" + std::to_string(p.y) + "}";
      c.in("set_json object", m.body);
      return b.set_json(p);
    }
    }
  }
  }
}

// ---- comparisons ---------------------------------------------------------------
std::map<std::string, std::vector<std::string>> groups(const std::vector<std::pair<std::string, std::string>>& v)
{
  std::map<std::string, std::vector<std::string>> g;
  for (auto& [n, x] : v) {
    g[text::lower(n)].push_back(x);
  }
  return g;
}
std::vector<std::pair<std::string, std::string>> listed(const http::header_map& h)
{
  std::vector<std::pair<std::string, std::string>> v;
  for (auto it = h.begin(); it != h.end(); ++it) {
    v.emplace_back(std::string(it->name_string()), std::string(it->value()));
  }
  return v;
}
template <typename H>
std::string show(const H& g)
{
  std::string s;
  for (auto& [n, v] : g) {
    s += n + ":";
    for (auto& x : v) {
      s += " [" + x + "]";
    }
    s += "  ";
  }
  return s;
}
void same_headers(pbt::Case& c, const http::header_map& h, const record& m)
{
  REQ_EQ(show(groups(listed(h))), show(groups(m.headers)));
}
void same_kind(pbt::Case& c, const web::any_body& b, const record& m)
{
  int got = -1;
  std::visit(fi::overloaded { [&](web::any_body::null) { got = record::null; },
                              [&](web::any_body::sized s) {
                                got = s.size ? record::sized : record::unsized;
                                if (s.size && m.kind == record::sized) {
                                  REQ_EQ(*s.size, m.body.size());
                                }
                              },
                              [&](web::any_body::chunked) { got = record::chunked; } },
             b.size());
  REQM(got == m.kind, "the body's kind is " + std::to_string(got) + " instead of " + std::to_string(m.kind));
}
template <typename Stream>
awaitable<void> same_body(pbt::Case& c, Stream& s, const record& m)
{
  std::string got;
  for (;;) {
    auto p = co_await s.async_read_some();
    if (!p) {
      break;
    }
    REQM(p->has_value(), "the body ends with an error: " + p->error().message());
    got += str(**p);
  }
  REQM(got == m.body, "the body has other bytes (" + std::to_string(got.size()) + " instead of " + std::to_string(m.body.size()) + ")");
}
void judge(pbt::Case& c, const record& m)
{
  c.nontrivial(m.builds > 1 || m.rewritten || m.replaced);
  c.label(m.kind == record::null ? "no body" : m.kind == record::sized ? "body of known size" : m.kind == record::unsized ? "body of unknown size" : "chunked body");
}
}

SECTION("responses", 2500, 40000)
{
  record m;
  using maker = web::response_builder (*)();
  static const std::pair<maker, int> makers[] = {
#define M(n, v) { web::response::n, v }
    M(ok, 200), M(created, 201), M(accepted, 202), M(non_authoritative_information, 203), M(no_content, 204), M(reset_content, 205),
    M(partial_content, 206), M(multi_status, 207), M(already_reported, 208), M(im_used, 226), M(multiple_choices, 300), M(moved_permanently, 301),
    M(found, 302), M(see_other, 303), M(not_modified, 304), M(use_proxy, 305), M(temporary_redirect, 307), M(permanent_redirect, 308),
    M(bad_request, 400), M(unauthorized, 401), M(payment_required, 402), M(forbidden, 403), M(not_found, 404), M(method_not_allowed, 405),
    M(not_acceptable, 406), M(proxy_authentication_required, 407), M(request_timeout, 408), M(conflict, 409), M(gone, 410), M(length_required, 411),
    M(precondition_failed, 412), M(payload_too_large, 413), M(uri_too_long, 414), M(unsupported_media_type, 415), M(range_not_satisfiable, 416),
    M(expectation_failed, 417), M(misdirected_request, 421), M(unprocessable_entity, 422), M(locked, 423), M(failed_dependency, 424),
    M(too_early, 425), M(upgrade_required, 426), M(precondition_required, 428), M(too_many_requests, 429), M(request_header_fields_too_large, 431),
    M(unavailable_for_legal_reasons, 451), M(internal_server_error, 500), M(not_implemented, 501), M(bad_gateway, 502), M(service_unavailable, 503),
    M(gateway_timeout, 504), M(http_version_not_supported, 505), M(variant_also_negotiates, 506), M(insufficient_storage, 507), M(loop_detected, 508),
    M(not_extended, 510), M(network_authentication_required, 511), M(continue_, 100), M(switching_protocols, 101), M(processing, 102), M(early_hints, 103)
#undef M
  };
  auto& mk = makers[c.below(std::size(makers))];
  c.in("made by", mk.second);
  m.status = mk.second;
  auto b = mk.first();
  calls(c, b, m);
  auto r = finish(c, b, m);
  for (;;) {
    REQ_EQ(static_cast<int>(r.status().value()), m.status);
    REQM(r.version() == m.version, "another version");
    same_headers(c, r.headers(), m);
    same_kind(c, r.body(), m);
    if (!c.more(m.builds, 4, 2)) {
      break;
    }
    auto again = r.builder();
    calls(c, again, m);
    r = finish(c, again, m);
  }
  judge(c, m);
  drive(c, [&]() -> awaitable<void> { return same_body(c, r.body().stream(), m); });
}

SECTION("test requests", 1500, 25000)
{
  record m;
  auto start = [&] {
    switch (c.below(8)) {
    case 0: m.method = http::verb::get; return web::test_request::get();
    case 1: m.method = http::verb::post; return web::test_request::post();
    case 2: m.method = http::verb::put; return web::test_request::put();
    case 3: m.method = http::verb::patch; return web::test_request::patch();
    case 4: m.method = http::verb::delete_; return web::test_request::delete_();
    case 5: m.method = http::verb::head; return web::test_request::head();
    case 6: m.method = http::verb::options; return web::test_request::options();
    default: m.method = http::verb::trace; return web::test_request_builder(http::verb::trace);
    }
  };
  auto b = start();
  calls(c, b, m);
  auto r = finish(c, b, m);
  for (;;) {
    REQM(r.method() == m.method, "another method");
    REQM(r.version() == m.version, "another version");
    same_headers(c, r.headers(), m);
    std::map<std::string, std::string> q;
    for (auto& [k, v] : r.query()) {
      q[k] = v;
    }
    REQM(q == m.query, "other query parameters");
    same_kind(c, r.body(), m);
    if (!c.more(m.builds, 4, 2)) {
      break;
    }
    auto again = r.builder();
    calls(c, again, m);
    r = finish(c, again, m);
  }
  judge(c, m);
  drive(c, [&]() -> awaitable<void> { return same_body(c, r.body().stream(), m); });
}

// ---- requests, which only a server makes ---------------------------------------
namespace {
struct kept {
  int n;
};
struct plan {
  pbt::Case& c;
  record m;
  bool handled = false;
  std::exception_ptr error;
};
plan* now = nullptr;

void same_request(pbt::Case& c, const web::request& r, const record& m)
{
  REQM(r.method() == m.method, "another method");
  REQM(r.version() == m.version, "another version");
  same_headers(c, r.headers(), m);
  std::map<std::string, std::string> q;
  for (auto& [k, v] : r.query()) {
    q[k] = v;
  }
  REQM(q == m.query, "other query parameters");
  REQ_EQ(std::string(r.path().match_path()), std::string("/p/abc"));
  REQ_EQ(std::string(r.path().match_pattern()), std::string("/p/{x}"));
  REQ_EQ(std::string(r.path().get("x").value_or("(none)")), std::string("abc"));
  auto s = r.state<kept>();
  REQM(s && s->n == 7, "the state is lost");
}
template <typename Next>
struct rebuild_middleware {
  Next next;
  auto operator()(web::request& r) const -> awaitable<web::response>
  {
    auto& p = *now;
    try {
      auto& c = p.c;
      auto& m = p.m;
      m.method = r.method();
      m.version = r.version();
      m.headers = listed(r.headers());
      m.query.clear();
      for (auto& [k, v] : r.query()) {
        m.query[k] = v;
      }
      same_request(c, r, m);
      auto b = r.builder();
      calls(c, b, m);
      auto made = finish(c, b, m);
      same_request(c, made, m);
      while (c.more(m.builds, 4, 2)) {
        auto again = made.builder();
        calls(c, again, m);
        made = finish(c, again, m);
        same_request(c, made, m);
      }
      co_return co_await next(made);
    } catch (...) {
      p.error = std::current_exception();
    }
    co_return web::response::internal_server_error().build();
  }
};
struct rebuild {
  template <typename Request, typename Response, fi::decay_to<rebuild> Self, typename Next>
  friend auto tag_invoke(web::to_middleware_t<Request, Response>, Self&&, Next&& next)
  {
    return rebuild_middleware<std::decay_t<Next>> { std::forward<Next>(next) };
  }
};
}

SECTION("requests", 1200, 20000)
{
  clean_hooks clean;
  plan p { c, {}, false, nullptr };
  now = &p;
  net::io_context ioc;
  auto handler = [](web::request& r) -> awaitable<web::response> {
    try {
      now->handled = true;
      same_request(now->c, r, now->m);
      co_await same_body(now->c, r.body(), now->m);
    } catch (...) {
      now->error = std::current_exception();
    }
    co_return web::response::ok().set_body("done");
  };
  auto server = web::http_server::builder(ioc)
                    .serve(web::route::get<"/p/{x}">(handler).use_state(kept { 7 }).use(rebuild()))
                    .serve(web::route::post<"/p/{x}">(handler).use_state(kept { 7 }).use(rebuild()))
                    .build();
  auto b = c.chance(1, 3) ? web::test_request::get() : web::test_request::post();
  if (c.chance(1, 2)) {
    b.set_query(c.str("ab", 2), "1");
  }
  if (c.chance(1, 2)) {
    b.set_header("X-A", "first");
  }
  p.m.body = c.bytes(30);
  c.in("sent body", p.m.body);
  p.m.has_body = true;
  auto r = exchange(ioc, server, "/p/abc", b.set_body(p.m.body));
  if (p.error) {
    std::rethrow_exception(p.error);
  }
  REQM(p.handled && r.answered, "the request does not reach its handler");
  REQ_EQ(r.body, std::string("done"));
  c.nontrivial(p.m.builds > 1 || p.m.rewritten || p.m.replaced);
}
