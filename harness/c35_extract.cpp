// C35: extractors hand a handler what the request carries, or reject it.
#include "c35_extract.hpp"

static pbt::Rule rule(
    "one to three connections to a server whose handlers take every kind of extractor, alone and in combinations: "
    "pipelined requests generated field by field (values of each type at and beyond its limits, encoded in different "
    "ways, fields missing, renamed, added, repeated, in any order; content types; JSON of the right and the wrong shape; "
    "bodies by length, in chunks, broken off), so that what every extractor must yield is known; the handler reports "
    "what it was given; non-trivial: an extractor rejects, or a handler takes three values or more");

using namespace web_h;
using namespace c35;
namespace {
enum kind { ok, rejects };
struct verdict {
  std::vector<int> statuses; // any of these, when rejected
  std::vector<std::string> got;
  bool custom = false; // rejected by the user's extractor, its response is known
  std::string custom_body;
  void yields(std::string s)
  {
    got.push_back(std::move(s));
  }
  void fails(int status)
  {
    statuses.push_back(status);
  }
};

// a value of a field's type: its text, and what the handler sees of it (nothing: rejected)
struct value_t {
  std::string text;
  std::optional<std::string> shown;
};
value_t gen_text(pbt::Case& c, bool path)
{
  static const std::string plain = "abcXYZ019-._~ !$'()*,;:@+&=%?#[]\"<>\\^`{|}";
  std::string s;
  for (std::size_t i = path ? 0 : c.below(2); i < 1 || c.more(i, 8, 4); ++i) {
    if (!path && i == 0 && c.chance(1, 6)) {
      break;
    }
    s += !path && c.chance(1, 8) ? static_cast<char>(c.below(256)) : plain[c.below(plain.size())];
  }
  return { s, show(s) };
}
template <typename T>
value_t gen_int(pbt::Case& c)
{
  using L = std::numeric_limits<T>;
  if (c.chance(1, 8)) {
    std::string s;
    switch (c.below(6)) {
    case 0:
      s = "x";
      break;
    case 1:
      s = std::to_string(static_cast<T>(c.below(100))) + c.pick<std::string>({ " ", "x", ".0", "-" });
      break;
    case 2:
      s = "99999999999999999999";
      break;
    case 3: {
      auto b = static_cast<__int128>(L::max()) + 1;
      s = std::to_string(static_cast<unsigned long long>(b));
      if (b > static_cast<__int128>(~0ull)) {
        s = "18446744073709551616";
      }
      break;
    }
    case 4:
      s = !std::is_signed_v<T> ? "-1" : sizeof(T) == 8 ? "-9223372036854775809" : std::to_string(static_cast<long long>(L::min()) - (sizeof(T) < 8));
      break;
    default:
      s = "--1";
    }
    return { s, std::nullopt };
  }
  T v;
  switch (c.below(4)) {
  case 0:
    v = static_cast<T>(c.below(20));
    break;
  case 1:
    v = L::max();
    break;
  case 2:
    v = L::min();
    break;
  default:
    v = static_cast<T>(c.raw());
  }
  return { std::to_string(v), show(v) };
}
value_t gen_bool(pbt::Case& c)
{
  if (c.chance(1, 8)) {
    return { c.pick<std::string>({ "2", "tru", "ye", "falsee", "on" }), std::nullopt };
  }
  bool b = c.chance(1, 2);
  return { text::flip(c, b ? c.pick<std::string>({ "1", "t", "true", "y", "yes" }) : c.pick<std::string>({ "0", "f", "false", "n", "no" })), show(b) };
}
value_t gen_double(pbt::Case& c)
{
  if (c.chance(1, 8)) {
    return { c.pick<std::string>({ "x", "1.5x", "1,5", "1e999", "." }), std::nullopt };
  }
  double d = (static_cast<double>(c.below(4000)) - 2000) / 8;
  return { fmt::format("{}", d), fmt::format("{}", d) };
}
value_t gen_value(pbt::Case& c, std::string_view type, bool path)
{
  return type == "i32" ? gen_int<int>(c) : type == "u8" ? gen_int<std::uint8_t>(c) : type == "u64" ? gen_int<std::uint64_t>(c)
      : type == "i16" ? gen_int<std::int16_t>(c) : type == "i64" ? gen_int<std::int64_t>(c)
      : type == "bool" ? gen_bool(c) : type == "double" ? gen_double(c) : gen_text(c, path);
}
struct field {
  std::string name, type;
};
const std::vector<field> day_fields { { "year", "i32" }, { "month", "text" }, { "day", "u8" }, { "leap", "bool" }, { "share", "double" } };
const std::vector<field> wide_fields { { "big", "u64" }, { "small", "i16" }, { "text", "text" }, { "other", "text" } };

std::string encode(pbt::Case& c, const std::string& s, bool path)
{
  std::string out;
  for (char ch : s) {
    auto u = static_cast<unsigned char>(ch);
    bool plain = (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9') || std::string_view("-._~").find(ch) != std::string_view::npos;
    bool fine = plain || (std::string_view("!$'()*,;:@").find(ch) != std::string_view::npos) || (path && (ch == '+' || ch == '&' || ch == '=')) || (!path && ch == '?');
    if (ch == ' ' && !path && c.chance(1, 2)) {
      out += '+';
    } else if (plain ? c.chance(1, 12) : !fine || c.chance(1, 2)) {
      out += fmt::format(fmt::runtime(c.chance(1, 2) ? "%{:02x}" : "%{:02X}"), u);
    } else {
      out += ch;
    }
  }
  return out;
}

// text of a query or a form that carries the fields, nearly or exactly, and the map it means
std::string gen_pairs(pbt::Case& c, const std::vector<field>& fields, std::map<std::string, std::string>& means, std::map<std::string, std::optional<std::string>>& shown)
{
  std::vector<std::tuple<std::string, value_t, bool>> v;
  for (auto& f : fields) {
    v.emplace_back(f.name, gen_value(c, f.type, false), true);
  }
  for (std::size_t i = v.size(); i > 1; --i) {
    std::swap(v[i - 1], v[c.below(i)]);
  }
  switch (c.weighted({ 8, 1, 1, 1, 1, 1, 1 })) {
  case 1: // a field is missing
    v.erase(v.begin() + static_cast<long>(c.below(v.size())));
    break;
  case 2: // one more
    v.emplace(v.begin() + static_cast<long>(c.below(v.size() + 1)), c.pick<std::string>({ "more", "", "years", "Year" }), gen_text(c, false), true);
    break;
  case 3: // another name
    std::get<0>(v[c.below(v.size())]) = c.pick<std::string>({ "more", "yea", "YEAR", "" });
    break;
  case 4: { // given twice: the last one counts
    auto k = c.below(fields.size());
    v.emplace(v.begin() + static_cast<long>(c.below(v.size() + 1)), fields[k].name, gen_value(c, fields[k].type, false), true);
    break;
  }
  case 5: // a name without a value
    v.emplace(v.begin() + static_cast<long>(c.below(v.size() + 1)), c.pick<std::string>({ "flag", "year", "day", "" }), value_t {}, false);
    break;
  case 6: // nothing at all
    v.clear();
    break;
  default:;
  }
  std::string s;
  for (auto& [n, x, has] : v) {
    if (&n != &std::get<0>(v[0])) {
      s += '&';
    }
    s += encode(c, n, false);
    if (has) {
      s += "=" + encode(c, x.text, false);
      means[n] = x.text;
      shown[n] = x.shown;
    }
  }
  return s;
}
void want_struct(verdict& v, const std::vector<field>& fields, const std::map<std::string, std::optional<std::string>>& shown)
{
  if (shown.size() != fields.size()) {
    return v.fails(400);
  }
  std::string s;
  for (auto& f : fields) {
    auto it = shown.find(f.name);
    if (it == shown.end() || !it->second) {
      return v.fails(400);
    }
    s += (s.empty() ? "" : " ") + f.name + " " + *it->second;
  }
  v.yields(s);
}

// ---- JSON -----------------------------------------------------------------------
std::string space(pbt::Case& c)
{
  return c.chance(5, 6) ? "" : c.pick<std::string>({ " ", "\n", "\t", "\r\n  " });
}
std::string quoted(pbt::Case& c, const std::string& s)
{
  std::string out = "\"";
  for (char ch : s) {
    auto u = static_cast<unsigned char>(ch);
    if (ch == '"' || ch == '\\') {
      out += '\\';
      out += ch;
    } else if (u < 32 || c.chance(1, 10)) {
      out += fmt::format("\\u{:04x}", u);
    } else {
      out += ch;
    }
  }
  return out + "\"";
}
std::string gen_ascii(pbt::Case& c)
{
  std::string s;
  for (std::size_t i = 0; c.more(i, 10, 4); ++i) {
    s += static_cast<char>(c.chance(1, 8) ? c.below(128) : 'a' + c.below(26));
  }
  return s;
}
std::string gen_json(pbt::Case& c, verdict& v)
{
  user_t u;
  u.name = gen_ascii(c);
  u.age = c.pick<std::int64_t>({ 0, 1, -1, 42, std::numeric_limits<std::int64_t>::max(), std::numeric_limits<std::int64_t>::min() });
  u.on = c.chance(1, 2);
  for (std::size_t i = 0; c.more(i, 4, 2); ++i) {
    u.tags.push_back(gen_ascii(c));
  }
  std::string tags = "[";
  for (auto& t : u.tags) {
    tags += (tags.size() > 1 ? "," + space(c) : space(c)) + quoted(c, t);
  }
  tags += space(c) + "]";
  std::vector<std::pair<std::string, std::string>> m { { "name", quoted(c, u.name) }, { "age", std::to_string(u.age) }, { "tags", tags }, { "on", u.on ? "true" : "false" } };
  bool good = true;
  auto wrong = c.weighted({ 8, 1, 1, 1, 1 });
  if (wrong == 1) { // of another type
    auto& x = m[c.below(4)].second;
    x = c.pick<std::string>({ "null", "{}", "[1]", "1.5" });
    good = false;
  } else if (wrong == 2) {
    m.erase(m.begin() + static_cast<long>(c.below(4)));
    good = false;
  } else if (wrong == 3) {
    m.emplace_back("extra", c.pick<std::string>({ "null", "[[],{}]", "\"x\"", "{\"a\":[1,2,{\"b\":null}]}" }));
  }
  for (std::size_t i = m.size(); i > 1; --i) {
    std::swap(m[i - 1], m[c.below(i)]);
  }
  std::string s = space(c) + "{";
  for (std::size_t i = 0; i < m.size(); ++i) {
    s += (i ? "," : "") + space(c) + quoted(c, m[i].first) + space(c) + ":" + space(c) + m[i].second + space(c);
  }
  s += "}" + space(c);
  if (wrong == 4) { // not JSON
    good = false;
    switch (c.below(3)) {
    case 0:
      s.resize(c.below(s.rfind('}') + 1));
      break;
    case 1:
      s += c.pick<std::string>({ "x", "}", ",", "{}" });
      break;
    default:
      s = c.pick<std::string>({ "", "null", "[]", "\"name\"", "1", "{\"name\":\"x\",}", "{'name':1}" });
    }
  }
  if (good) {
    v.yields(show(u));
  } else {
    v.fails(400);
  }
  return s;
}

// ---- requests -------------------------------------------------------------------
struct exchange_plan {
  plan p;
  verdict v;
  std::string text;
  std::string what;
  bool ends = false; // nothing follows on this connection
  bool broken = false; // the body is broken off
};

std::string some_bytes(pbt::Case& c)
{
  return c.chance(1, 30) ? gen_body(c) : c.bytes(60);
}
void gen_exchange(pbt::Case& c, exchange_plan& x, bool last)
{
  auto& v = x.v;
  static const char* routes[] = { "tuple", "struct", "few", "few-fields", "other-fields", "query", "query-wide", "form", "form-wide", "json", "string", "bytes", "chars", "words", "pairs",
                                  "state/route", "in/state", "in/state/own", "in/mix", "state/none", "state/none/form", "mix", "all", "body-first", "body-last", "token" };
  std::string route = c.pick<const char*>(std::vector<const char*>(std::begin(routes), std::end(routes)));
  std::string path = "/" + route, query, body, type;
  bool has_query = false, has_body = false, any_body = false;
  std::map<std::string, std::optional<std::string>> shown;
  std::vector<value_t> values;
  auto segment = [&](std::string_view t) {
    auto val = gen_value(c, t, true);
    if (val.text.empty()) {
      val.text = "-";
    }
    path += "/" + encode(c, val.text, true);
    values.push_back(val);
    return val;
  };
  auto tuple = [&](std::initializer_list<std::string_view> types) {
    std::string s = "tuple";
    bool good = true;
    for (auto t : types) {
      auto val = segment(t);
      good = good && val.shown;
      s += " " + val.shown.value_or("");
    }
    good ? v.yields(s) : v.fails(400);
  };
  auto in_path = [&](std::initializer_list<std::string_view> names) {
    std::map<std::string, std::optional<std::string>> m;
    for (auto n : names) {
      if (n == "x") {
        path += "/x";
        continue;
      }
      for (auto& f : day_fields) {
        if (f.name == n) {
          m[f.name] = segment(f.type).shown;
        }
      }
    }
    want_struct(v, day_fields, m);
  };
  std::map<std::string, std::string> pairs;
  auto in_query = [&](const std::vector<field>& f) {
    has_query = true;
    query = gen_pairs(c, f, pairs, shown);
    want_struct(v, f, shown);
  };
  std::string why_body;
  auto form = [&](const std::vector<field>& f) {
    has_body = true;
    std::map<std::string, std::string> m;
    std::map<std::string, std::optional<std::string>> sh;
    body = gen_pairs(c, f, m, sh);
    if (c.chance(1, 12)) {
      body += c.pick<std::string>({ "&a=%", "%zz", "&x=%4" });
      v.fails(400);
    }
    if (c.chance(1, 8)) {
      type = c.pick<std::string>({ "", "text/plain", "application/json", "application/x-www-form-urlencode", "form" });
      v.fails(400);
    } else {
      type = c.pick<std::string>({ "application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8" });
    }
    want_struct(v, f, sh);
  };
  auto json = [&] {
    has_body = true;
    body = gen_json(c, v);
    if (c.chance(1, 8)) {
      type = c.pick<std::string>({ "", "text/plain", "application/x-www-form-urlencoded", "text/json", "application/jso" });
      v.fails(400);
    } else {
      type = c.pick<std::string>({ "application/json", "application/json; charset=utf-8" });
    }
  };
  std::string token;
  auto want_token = [&] {
    token = c.pick<std::string>({ "", "late no", "late", "abc", "late abc", "t" });
    if (token.empty() || token == "late no") {
      v.fails(401);
      v.custom = true;
      v.custom_body = "bring a token: " + token;
    } else {
      v.yields("token " + token);
    }
  };
  int minor = c.chance(1, 6) ? 0 : 1;
  std::string headers, header_text;
  for (auto n : { "X-One", "x-TWO", "x-three" }) {
    headers += std::string(n) + " ";
    if (c.chance(1, 3)) {
      std::string val = c.pick<std::string>({ "1", "a b", "x;y=\"z\"", "," });
      headers += show(val);
      header_text += text::flip(c, n) + ": " + val + "\r\n";
    }
    headers += ";";
  }
  auto method = c.pick<std::string>({ "POST", "GET", "PUT", "PATCH" });
  if (route == "tuple") {
    tuple({ "i32", "text", "u8", "bool", "double" });
  } else if (route == "struct") {
    in_path({ "leap", "share", "x", "month", "day", "year" });
  } else if (route == "few" || route == "few-fields") {
    segment("i32");
    segment("text");
    v.fails(route == "few" ? 400 : 500);
  } else if (route == "other-fields") {
    for (auto t : { "bool", "double", "text", "u8", "i32" }) {
      segment(t);
    }
    v.fails(400);
  } else if (route == "query" || route == "query-wide") {
    in_query(route == "query" ? day_fields : wide_fields);
  } else if (route == "form" || route == "form-wide") {
    form(route == "form" ? day_fields : wide_fields);
  } else if (route == "json") {
    json();
  } else if (route == "string" || route == "bytes" || route == "chars" || route == "words" || route == "pairs") {
    has_body = true;
    body = some_bytes(c);
    std::size_t size = route == "words" ? 2 : route == "pairs" ? 4 : 1;
    if (size > 1 && c.chance(2, 3)) {
      body.resize(body.size() / size * size);
    }
    if (body.size() % size) {
      v.fails(400);
    } else {
      v.yields(route == "string" ? show(body) : std::to_string(body.size() / size) + " elements " + body);
    }
  } else if (route == "state/route") {
    v.yields("counter 1");
  } else if (route == "in/state") {
    v.yields("counter 2");
  } else if (route == "in/state/own") {
    v.yields("counter 3");
    v.yields("shared everywhere");
  } else if (route == "state/none") {
    v.fails(500);
  } else if (route == "state/none/form") {
    form(wide_fields);
    v.fails(500);
  } else if (route == "in/mix") {
    tuple({ "i64" });
    in_query(day_fields);
    v.yields("counter 2");
    v.yields(headers);
    json();
    v.yields(minor ? "1.1" : "1.0");
  } else if (route == "mix") {
    form(wide_fields);
    in_path({ "day", "month", "year", "share", "leap" });
    want_token();
    v.yields("shared everywhere");
  } else if (route == "all") {
    auto n = segment("i64"), month = segment("text");
    has_query = true;
    query = gen_pairs(c, wide_fields, pairs, shown);
    has_body = true;
    body = some_bytes(c);
    v.yields(show(pairs));
    v.yields("month=" + show(month.text) + " n=" + show(n.text) + " 2");
    v.yields("127.0.0.1 127.0.0.1");
    v.yields(method + " " + (minor ? "1.1" : "1.0") + " " + headers + " " + show(pairs));
    v.yields(minor ? "1.1" : "1.0");
    v.yields(show(body));
  } else if (route == "body-first") {
    has_body = true;
    body = some_bytes(c);
    v.yields(show(body));
    in_query(wide_fields);
  } else if (route == "body-last") {
    want_token();
    in_query(wide_fields);
    has_body = true;
    body = some_bytes(c);
    v.yields(std::to_string(body.size()) + " elements " + body);
  } else {
    want_token();
  }
  any_body = has_body || c.chance(1, 4);
  if (!has_body && any_body) {
    body = some_bytes(c);
  }
  if (has_query && !query.empty()) {
    path += "?" + query;
  } else if (!has_query && c.chance(1, 6)) {
    path += "?unused=1&year=2";
  }
  bool chunked = minor && any_body && c.chance(1, 2);
  x.ends = last && c.chance(1, 2);
  std::string h = method + " " + path + " HTTP/1." + std::to_string(minor) + "\r\nHost: h\r\n" + header_text;
  if (x.ends || minor == 0) {
    h += x.ends ? "Connection: close\r\n" : "Connection: keep-alive\r\n";
  }
  h += "X-Id: " + x.p.id + "\r\n";
  if (!type.empty()) {
    h += "Content-Type: " + type + "\r\n";
  }
  if (!token.empty()) {
    h += "X-Token: " + token + "\r\n";
  }
  if (any_body) {
    h += chunked ? "Transfer-Encoding: chunked\r\n" : "Content-Length: " + std::to_string(body.size()) + "\r\n";
  }
  h += "\r\n";
  auto head = h.size();
  if (chunked) {
    for (auto& s : cut(c, body)) {
      h += fmt::format("{:x}\r\n", s.size()) + s + "\r\n";
    }
    h += "0\r\n\r\n";
  } else {
    h += body;
  }
  if (has_body && last && h.size() > head && c.chance(1, 5)) {
    x.broken = true;
    v.fails(400);
    if (chunked && c.chance(1, 2)) {
      h.resize(h.size() - 5);
      h += c.pick<std::string>({ "zz\r\n", "-1\r\n\r\n" });
    } else {
      h.resize(head + c.below(h.size() - head));
    }
  }
  x.text = h;
  x.what = fmt::format("{} {} 1.{}{}{}{}{}", method, path, minor, type.empty() ? "" : ", " + type, any_body ? chunked ? ", chunks" : ", length" : "", token.empty() ? "" : ", token " + token,
                       x.broken ? ", broken off" : "");
  c.in("request " + x.p.id, x.what);
  if (any_body) {
    in_body(c, "body", body);
  }
}
}

SECTION("requests", 2500, 60000)
{
  clean_hooks clean;
  plans.clear();
  net::standin::listeners().clear();
  struct connection {
    std::vector<std::unique_ptr<exchange_plan>> all;
    std::shared_ptr<seen> client;
    std::vector<step> steps;
  };
  std::vector<connection> ks(1 + c.below(3));
  int id = 0;
  for (auto& k : ks) {
    std::string text;
    auto n = 1 + c.below(4);
    for (pbt::u64 i = 0; i < n; ++i) {
      auto x = std::make_unique<exchange_plan>();
      x->p.id = std::to_string(++id);
      plans[x->p.id] = &x->p;
      gen_exchange(c, *x, i + 1 == n);
      text += x->text;
      k.all.push_back(std::move(x));
    }
    for (auto& s : cut(c, text)) {
      k.steps.push_back({ s, c.chance(1, 4) ? 10 : 0, false });
    }
    k.steps.push_back({ "", 0, true });
  }
  gen_parts(c);
  net::io_context ioc;
  if (auto seed = c.below(1 << 16); seed) {
    auto s = std::make_shared<pbt::u64>(seed);
    ioc.pick = [s](std::size_t n) {
      *s = pbt::mix(*s);
      return static_cast<std::size_t>(*s % n);
    };
  }
  auto server = serve_mixes(serve_bodies(serve_paths(web::http_server::builder(ioc).set_request_body_limit(fi::nullopt)))).build();
  REQM(server.bind("127.0.0.1", 8080).has_value(), "bind");
  for (auto& k : ks) {
    k.client = raw_client(ioc, 8080, k.steps);
  }
  ioc.scheduler::run(true, 20'000'000);
  bool decided = false;
  for (auto& k : ks) {
    REQM(k.client->connected && k.client->ended, "the connection is not ended");
    std::size_t at = 0;
    for (auto& x : k.all) {
      auto who = "request " + x->p.id + " (" + x->what.substr(0, 60) + "): ";
      auto& v = x->v;
      answer a;
      auto why = take_answer(k.client->bytes, at, false, true, a);
      if (!v.statuses.empty()) {
        decided = true;
        REQM(x->p.calls == 0, who + "the handler is called although an extractor rejects");
        if (x->broken && !why.empty()) {
          continue; // the connection may be gone with the rest of the body
        }
        REQM(why.empty(), who + why);
        bool known = std::find(v.statuses.begin(), v.statuses.end(), a.status) != v.statuses.end();
        REQM(known, who + "rejected with status " + std::to_string(a.status));
        if (a.status == 401) {
          REQ_EQ(a.get("x-why"), std::string("no token"));
          REQ_EQ(a.body, v.custom_body);
        }
        c.label(a.status == 500 ? "rejected with 500" : a.status == 401 ? "rejected by the user's extractor" : "rejected with 400");
        continue;
      }
      REQM(why.empty(), who + why);
      REQM(x->p.calls == 1, who + "the handler is called " + std::to_string(x->p.calls) + " times, status " + std::to_string(a.status) + " " + a.body);
      REQ_EQ(a.status, 200);
      REQ_EQ(a.body, "taken by " + x->p.id);
      REQ_EQ(x->p.got.size(), v.got.size());
      for (std::size_t i = 0; i < v.got.size(); ++i) {
        REQM(x->p.got[i] == v.got[i], who + "value " + std::to_string(i) + " is " + x->p.got[i].substr(0, 100) + " instead of " + v.got[i].substr(0, 100));
      }
      decided = decided || v.got.size() >= 3;
      c.label(v.got.size() >= 3 ? "several extractors" : "one extractor");
    }
    REQM(at == k.client->bytes.size(), "bytes after the last answer: " + k.client->bytes.substr(at, 60));
  }
  c.nontrivial(decided);
}
