// C37: WebSocket messages arrive whole and in order until either side closes.
#include "server.hpp"
#include <fmt/format.h>

static pbt::Rule rule(
    "a server with websocket and plain routes, on TCP or a local socket, and one to three clients at once: handshakes of "
    "generated spelling, scripts of text and binary messages of sizes around every frame format, cut into fragments with "
    "pings and pongs between them, sent in generated pieces at generated times, ending with a close, a disconnect, a "
    "violation of the protocol or silence, against handlers that echo, push from a second task, close, fail or return; and "
    "requests for an upgrade that are to be refused; non-trivial: a session exchanges messages, or an upgrade is refused");

using namespace web_h;
namespace {
constexpr std::pair<const char*, const char*> keys[] = {
  { "dGhlIHNhbXBsZSBub25jZQ==", "s3pPLMBiTxaQ9kYGzzhZRbK+xOo=" },
  { "grcO7n8aUDm+8H7CNH8Gbg==", "CB/sMUg+i95o9VM74b0KExRftWk=" },
  { "0I9dx1EkR+NAQwACa25UVQ==", "KJplhXK6oCET9+9lV5wExck+ajY=" },
  { "lKBlaF1kxJgLuNRUSochqQ==", "D6snEg/K9ClyvtYtG/yvkGdyXIs=" },
  { "mgGtIZ61nPahXvbxWh2DCw==", "6zFSSQ4GP+yib8dIp39ckQwCmtQ=" },
  { "t84J1rvABOcXXGQ8feywtQ==", "/GxTn4vqint901OeB4qc5SMBEAY=" },
  { "gOw3vJcS3S5qrrlLro0vnw==", "B4mP2VACWXfa9hYheg9u+Kw9xoU=" },
  { "opxaKEye91IYKc8QebCA6Q==", "n8cVrAgyAPol48bRCWdkzzF0d5M=" },
  { "10ocEPyrakJD0zZW3r5MHg==", "VCbCWWEjy24mPsruYIcyvzj9WAc=" },
  { "15ZI6Fbo+aL1jJXwzks5wQ==", "gZuewj3GOAfatCJDjOPoWc1ncII=" },
};

// ---- frames, written and read without the code under test --------------------
struct frame_t {
  bool fin = true;
  unsigned op = 0, reserved = 0;
  bool masked = true;
  std::string data;
};
std::string encode(const frame_t& f, std::uint32_t key, bool long_size = false)
{
  std::string s;
  s.push_back(static_cast<char>((f.fin ? 128u : 0u) + f.reserved * 16 + f.op));
  auto n = f.data.size();
  auto mask = f.masked ? 128u : 0u;
  auto big_endian = [&](std::uint64_t v, int bytes) {
    while (bytes-- > 0) {
      s.push_back(static_cast<char>((v >> (bytes * 8)) & 255));
    }
  };
  if (n <= 125 && !long_size) {
    s.push_back(static_cast<char>(mask + n));
  } else if (n <= 65535) {
    s.push_back(static_cast<char>(mask + 126));
    big_endian(n, 2);
  } else {
    s.push_back(static_cast<char>(mask + 127));
    big_endian(n, 8);
  }
  if (f.masked) {
    big_endian(key, 4);
    for (std::size_t i = 0; i < n; ++i) {
      s.push_back(static_cast<char>(static_cast<unsigned char>(f.data[i]) ^ ((key >> (24 - 8 * (i % 4))) & 255)));
    }
  } else {
    s += f.data;
  }
  return s;
}
// the frames of a server; says what is wrong
std::string decode(std::string_view s, std::vector<frame_t>& fs)
{
  std::size_t at = 0;
  auto byte = [&](std::size_t i) { return static_cast<unsigned>(static_cast<unsigned char>(s[i])); };
  while (at < s.size()) {
    if (s.size() - at < 2) {
      return "half a frame";
    }
    frame_t f;
    f.fin = byte(at) >= 128;
    f.reserved = (byte(at) >> 4) & 7;
    f.op = byte(at) & 15;
    f.masked = byte(at + 1) >= 128;
    std::uint64_t n = byte(at + 1) & 127;
    at += 2;
    if (n >= 126) {
      auto w = n == 126 ? 2u : 8u;
      if (s.size() - at < w) {
        return "half a frame";
      }
      n = 0;
      for (unsigned i = 0; i < w; ++i) {
        n = n * 256 + byte(at++);
      }
    }
    if (f.masked) {
      return "a masked frame";
    }
    if (f.reserved != 0) {
      return "a frame with reserved bits";
    }
    if (s.size() - at < n) {
      return "a frame of " + std::to_string(n) + " bytes of which " + std::to_string(s.size() - at) + " are there";
    }
    f.data = s.substr(at, n);
    at += n;
    fs.push_back(std::move(f));
  }
  return {};
}
struct message {
  bool text = false;
  std::string data;
  bool operator==(const message&) const = default;
};
std::string show(const message& m)
{
  return fmt::format("{} of {} bytes ({})", m.text ? "text" : "binary", m.data.size(), m.data.substr(0, 20));
}

struct session {
  std::string id;
  enum class how { echo, push, close, fail, leave } mode = how::echo;
  enum class ending { close, close_empty, shut, violation, silent } end = ending::close;
  // of the client
  std::vector<message> sent; // before the end
  std::vector<std::string> pings;
  bool only_text = false; // the violation is one of a text message
  bool cut_short = false; // disconnects within a message
  long long last = 0; // when it sends its last bytes, from its start
  unsigned code = 1000;
  // of the handler
  std::size_t after = 0; // messages before it closes, fails or leaves
  std::vector<message> pushes;
  std::vector<int> waits;
  int handler_pings = 0; // per message or push, of ten
  std::uint16_t close_code = 1000;
  // 0: as they are, < 0: none, else ms
  int idle = 0, handshake = 0;
  int keep_alive = -1; // as it is, no, yes
  std::vector<std::pair<std::string, std::string>> headers; // of the middleware
  // seen
  int calls = 0, pinged = 0;
  std::vector<message> got;
  std::string ended; // how reads end: "close" or what failed
  std::error_code error;
  std::string wrong;
  long long ended_at = -1;
  bool closed = false;
  std::shared_ptr<std::string> writer;
  std::vector<step> steps;
  std::shared_ptr<seen> client;
  std::string accept;
  int start = 0;
};
std::map<std::string, session*> sessions;
int thrown = 0;
std::vector<std::string> caught;

awaitable<void> sleep(int ms)
{
  client_timer t(co_await net::this_coro::executor);
  t.expires_after(std::chrono::milliseconds(ms));
  co_await t.async_wait(fi::use_awaitable);
}

// the different ways of writing a message
awaitable<bool> write(web::websocket::context& ctx, const message& m, std::size_t n)
{
  std::string s = m.data;
  auto b = to_bytes(s);
  fi::expected<void, std::error_code> r;
  switch (n % 3) {
  case 0:
    if (m.text) {
      r = co_await ctx.async_write_text(std::string_view(s));
    } else {
      r = co_await ctx.async_write_binary(std::span { s.data(), s.size() });
    }
    break;
  case 1:
    if (m.text) {
      r = co_await ctx.async_write_text(std::span { b.data(), b.size() });
    } else {
      r = co_await ctx.async_write_binary(std::span { b.data(), b.size() });
    }
    break;
  default: {
    std::span<const char> v(s);
    if (m.text) {
      r = co_await ctx.async_write_text(v);
    } else {
      r = co_await ctx.async_write_binary(v);
    }
  }
  }
  co_return r.has_value();
}
awaitable<void> ping(web::websocket::context& ctx, session& s, std::size_t n)
{
  if (static_cast<int>(n * 7 % 10) < s.handler_pings) {
    if (!co_await ctx.async_ping()) {
      s.wrong = "a ping fails";
    } else {
      ++s.pinged;
    }
  }
}

awaitable<void> pusher(web::websocket::context& ctx, session& s, std::shared_ptr<std::string> done)
{
  std::size_t n = 0;
  for (auto& m : s.pushes) {
    if (auto w = s.waits[n]; w) {
      co_await sleep(w);
    }
    if (!co_await write(ctx, m, n)) {
      *done = "failed";
      co_return;
    }
    ++n;
  }
  *done = "done";
}

awaitable<void> talk(web::websocket::context& ctx, session& s, net::io_context& ioc, long long begin)
{
  ++s.calls;
  if (s.mode == session::how::push) {
    s.writer = std::make_shared<std::string>();
    net::co_spawn(ctx.get_executor(), pusher(ctx, s, s.writer), net::detached);
  }
  for (;;) {
    if (s.got.size() == s.after) {
      if (s.mode == session::how::close) {
        auto r = co_await ctx.async_close(static_cast<web::websocket::close_code>(s.close_code));
        s.closed = true;
        s.error = r ? std::error_code() : r.error();
        s.ended_at = ms_of(ioc) - begin;
        if (co_await write(ctx, { true, "late" }, 0)) {
          s.wrong = "a write succeeds after the close";
        }
        co_return;
      }
      if (s.mode == session::how::fail) {
        ++thrown;
        throw std::runtime_error("session " + s.id);
      }
      if (s.mode == session::how::leave) {
        co_return;
      }
    }
    auto m = co_await ctx.async_read();
    if (!m) {
      s.ended = m.error().message();
      s.error = m.error();
      break;
    }
    if (std::get_if<web::websocket::close_t>(&*m)) {
      s.ended = "close";
      break;
    }
    message x;
    if (auto t = std::get_if<web::websocket::text_t>(&*m)) {
      x = { true, t->value };
    } else {
      x = { false, str(std::get<web::websocket::binary_t>(*m).value) };
    }
    s.got.push_back(x);
    if (s.mode == session::how::echo) {
      co_await ping(ctx, s, s.got.size());
      if (!co_await write(ctx, x, s.got.size())) {
        s.ended = "a write fails";
        break;
      }
    }
  }
  s.ended_at = ms_of(ioc) - begin;
  while (s.writer && s.writer->empty()) {
    co_await sleep(5);
  }
}

template <typename Next>
struct decorate_middleware {
  Next next;
  auto operator()(web::request& r) const -> awaitable<web::response>
  {
    auto id = std::string(r.path().get("id").value_or(""));
    auto res = co_await next(r);
    if (auto it = sessions.find(id); it != sessions.end()) {
      auto b = res.builder();
      for (auto& [n, v] : it->second->headers) {
        b.insert_header(n, v);
      }
      co_return b.build();
    }
    co_return res;
  }
};
struct decorate {
  template <typename Request, typename Response, fi::decay_to<decorate> Self, typename Next>
  friend auto tag_invoke(web::to_middleware_t<Request, Response>, Self&&, Next&& next)
  {
    return decorate_middleware<std::decay_t<Next>> { std::forward<Next>(next) };
  }
};

std::string gen_utf8(pbt::Case& c, std::size_t n)
{
  std::string s;
  auto seed = c.raw();
  while (s.size() < n) {
    seed = pbt::mix(seed);
    switch (seed % 7) {
    case 0:
      s += "\u00e9";
      break;
    case 1:
      s += "\u4e16";
      break;
    case 2:
      s += "\U0001F600";
      break;
    default:
      s += static_cast<char>(seed >> 8 & 127);
    }
  }
  while (s.size() > n) { // cut whole characters
    while ((s.back() & 0xC0) == 0x80) {
      s.pop_back();
    }
    s.pop_back();
  }
  return s;
}
message gen_message(pbt::Case& c, bool big)
{
  message m;
  m.text = c.chance(1, 2);
  auto n = c.chance(1, 2) ? c.below(40) : c.pick<std::size_t>({ 0, 1, 125, 126, 127, 300 });
  if (big && c.chance(1, 4)) {
    n = c.pick<std::size_t>({ 4096, 65535, 65536, 70000 });
  }
  if (m.text) {
    m.data = gen_utf8(c, n);
  } else {
    auto seed = c.raw();
    for (std::size_t i = 0; i < n; ++i) {
      seed = pbt::mix(seed);
      m.data.push_back(static_cast<char>(seed));
    }
  }
  return m;
}

std::string spelled(pbt::Case& c, std::string s)
{
  auto k = c.below(3);
  for (std::size_t i = 0; i < s.size(); ++i) {
    if (k == 1) {
      s[i] = static_cast<char>(std::tolower(s[i]));
    } else if (k == 2) {
      s[i] = static_cast<char>(i % 2 ? std::tolower(s[i]) : std::toupper(s[i]));
    }
  }
  return s;
}
struct handshake {
  std::string target;
  std::string method = "GET", version = "HTTP/1.1";
  std::vector<std::pair<std::string, std::string>> fields;
  std::string body;
};
handshake gen_handshake(pbt::Case& c, std::string target, std::string& accept)
{
  handshake h;
  h.target = std::move(target);
  auto& k = keys[c.below(std::size(keys))];
  accept = k.second;
  auto among = [&](std::string token, std::vector<std::string> others) {
    token = spelled(c, token);
    if (c.chance(1, 3)) {
      auto o = c.pick(others);
      auto sep = c.pick<std::string>({ ", ", ",", " , " });
      return c.chance(1, 2) ? o + sep + token : token + sep + o;
    }
    return token;
  };
  h.fields = { { "Host", "h" }, { "Upgrade", among("websocket", { "h2c", "foo/1" }) }, { "Connection", among("Upgrade", { "keep-alive", "x-other" }) },
               { "Sec-WebSocket-Key", k.first }, { "Sec-WebSocket-Version", "13" } };
  if (c.chance(1, 3)) {
    h.fields.emplace_back("Origin", "http://elsewhere");
  }
  if (c.chance(1, 4)) {
    h.fields.emplace_back("Sec-WebSocket-Extensions", "permessage-deflate");
  }
  for (std::size_t i = h.fields.size() - 1; i > 0; --i) {
    std::swap(h.fields[i], h.fields[c.below(i + 1)]);
  }
  return h;
}
std::string text_of(pbt::Case& c, const handshake& h)
{
  auto s = h.method + " " + h.target + " " + h.version + "\r\n";
  for (auto& [n, v] : h.fields) {
    s += spelled(c, n) + ": " + v + "\r\n";
  }
  return s + "\r\n" + h.body;
}

void plan_session(pbt::Case& c, session& s, bool big)
{
  using how = session::how;
  using ending = session::ending;
  s.mode = c.pick<how>({ how::echo, how::echo, how::echo, how::push, how::close, how::fail, how::leave });
  auto h = gen_handshake(c, "/ws/" + s.id, s.accept);
  auto open = text_of(c, h);
  c.in("handshake", open);
  s.start = c.chance(1, 2) ? 0 : static_cast<int>(10 * c.below(20));
  while (c.more(s.headers.size(), 3, 2)) {
    s.headers.emplace_back(c.pick<std::string>({ "X-One", "X-Two", "Set-Cookie" }), "value " + std::to_string(s.headers.size()));
  }
  s.handler_pings = c.pick<int>({ 0, 0, 3, 10 });
  s.idle = c.pick<int>({ 0, -1, 4000 });
  s.handshake = c.pick<int>({ 0, -1, 2000 });
  s.keep_alive = c.pick<int>({ -1, 0, 1 });
  // the frames
  std::string bytes;
  std::vector<std::size_t> bounds { 0 };
  auto put = [&](const frame_t& f, bool long_size = false) {
    bytes += encode(f, static_cast<std::uint32_t>(pbt::mix(c.below(1000))), long_size);
    bounds.push_back(bytes.size());
  };
  auto control = [&] {
    while (c.chance(1, 5)) {
      frame_t f;
      f.data = c.bytes(c.chance(1, 8) ? 125 : 10);
      f.op = c.chance(2, 3) ? 9 : 10;
      if (f.op == 9) {
        s.pings.push_back(f.data);
      }
      put(f);
    }
  };
  auto put_message = [&](const message& m, bool whole = true) {
    std::size_t at = 0;
    bool first = true;
    std::vector<std::size_t> ends;
    for (std::size_t n = 0; c.more(n, 4, 2); ++n) {
      ends.push_back(c.below(m.data.size() + 1));
    }
    std::sort(ends.begin(), ends.end());
    ends.push_back(m.data.size());
    for (std::size_t i = 0; i < ends.size(); ++i) {
      frame_t f;
      f.fin = whole && i + 1 == ends.size();
      f.op = first ? (m.text ? 1 : 2) : 0;
      f.data = m.data.substr(at, ends[i] - at);
      put(f);
      at = ends[i];
      first = false;
      if (!f.fin) {
        control();
      }
    }
  };
  for (std::size_t n = 0; c.more(n, 6, 4); ++n) {
    control();
    auto m = gen_message(c, big);
    put_message(m);
    c.in("message", show(m));
    s.sent.push_back(std::move(m));
  }
  control();
  s.after = c.below(s.sent.size() + 1);
  s.close_code = c.pick<std::uint16_t>({ 1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011 });
  for (std::size_t n = 0; s.mode == how::push && c.more(n, 6, 3); ++n) {
    s.pushes.push_back(gen_message(c, big));
    s.waits.push_back(c.chance(1, 2) ? 0 : static_cast<int>(c.below(60)));
    c.in("push", show(s.pushes.back()) + fmt::format(" after {} ms", s.waits.back()));
  }
  s.end = c.pick<ending>({ ending::close, ending::close, ending::close_empty, ending::shut, ending::violation, ending::silent });
  std::string violation;
  if (s.end == ending::close || s.end == ending::close_empty) {
    frame_t f;
    f.op = 8;
    if (s.end == ending::close) {
      s.code = c.pick<unsigned>({ 1000, 1001, 1008, 3000, 4999 });
      f.data = { static_cast<char>(s.code >> 8), static_cast<char>(s.code & 255) };
      if (c.chance(1, 3)) {
        f.data += "reason";
      }
    }
    put(f);
  } else if (s.end == ending::violation) {
    frame_t f;
    f.op = 1;
    f.data = "x";
    auto kind = c.below(10);
    switch (kind) {
    case 0:
      violation = "unmasked";
      f.masked = false;
      put(f);
      break;
    case 1:
      violation = "reserved bits";
      f.reserved = 1 + c.below(7);
      put(f);
      break;
    case 2:
      violation = "opcode";
      f.op = c.pick<unsigned>({ 3, 4, 5, 6, 7, 11, 12, 13, 14, 15 });
      put(f);
      break;
    case 3:
      violation = "fragmented control";
      f.op = 8 + c.below(3);
      f.fin = false;
      put(f);
      break;
    case 4:
      violation = "long control";
      f.op = 9 + c.below(2);
      f.data = std::string(126 + c.below(100), 'p');
      put(f);
      break;
    case 5:
      violation = "continuation of nothing";
      f.op = 0;
      put(f);
      break;
    case 6:
      violation = "a message within a message";
      f.fin = false;
      put(f);
      f.fin = true;
      f.op = 2;
      put(f);
      break;
    case 7:
      violation = "text that is not UTF-8";
      s.only_text = true;
      f.data = c.pick<std::string>({ "\xff", "a\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "abc\xe4\xb8" });
      put(f);
      break;
    case 8:
      violation = "a close of one byte";
      f.op = 8;
      put(f);
      break;
    default:
      violation = "a size in too many bytes";
      put(f, true);
    }
  } else if (s.end == ending::shut && c.chance(1, 2)) {
    // a message that never becomes whole
    message m = gen_message(c, false);
    m.data += "x";
    auto before = bytes.size();
    auto pings = s.pings.size();
    put_message(m, c.chance(1, 2));
    auto keep = before + 1 + c.below(bytes.size() - before - 1);
    bytes.resize(keep);
    s.pings.resize(pings); // those within it may or may not be there
    s.cut_short = true;
  }
  // when they are sent
  s.steps.push_back({ open, 0, false });
  std::set<std::size_t> cuts { bytes.size() };
  for (std::size_t n = 0; c.more(n, 6, 3); ++n) {
    cuts.insert(std::min(bytes.size(), c.chance(1, 2) ? c.pick(bounds) : c.below(bytes.size() + 1)));
  }
  long long now = 0;
  std::size_t at = 0;
  bool wait_first = true;
  for (auto x : cuts) {
    int wait = wait_first ? 10 : c.chance(1, 2) ? 0 : static_cast<int>(5 * c.below(30));
    wait_first = false;
    s.steps.push_back({ bytes.substr(at, x - at), wait, false });
    now += wait;
    at = x;
  }
  s.last = now;
  if (s.end == ending::shut) {
    s.steps.push_back({ "", static_cast<int>(10 * c.below(3)), true });
    s.last = now += s.steps.back().wait;
  } else if (s.mode == how::close && s.end == ending::silent && c.chance(2, 3)) {
    // answers the close of the handler in the end
    frame_t f;
    f.op = 8;
    f.data = { static_cast<char>(s.close_code >> 8), static_cast<char>(s.close_code & 255) };
    s.end = ending::close;
    s.code = s.close_code;
    s.steps.push_back({ encode(f, 77), 10, false });
    s.last = now += 10;
  }
  const char* modes[] = { "echo", "push", "close", "fail", "leave" };
  const char* ends[] = { "close", "close without a code", "disconnect", "violation", "silence" };
  c.in("session", fmt::format("{}: handler {} after {} messages, idle {} ms, handshake {} ms, pings {}; {} bytes in {} parts until {} ms, then {}{}{}", s.id,
                              modes[static_cast<int>(s.mode)], s.after, s.idle, s.handshake, s.keep_alive, bytes.size(), cuts.size(), s.last,
                              ends[static_cast<int>(s.end)], violation.empty() ? "" : ": ", violation));
}

void judge(pbt::Case& c, session& s)
{
  using how = session::how;
  using ending = session::ending;
  auto who = "session " + s.id + ": ";
  auto& got = s.client->bytes;
  REQM(s.client->connected, who + "the client is refused");
  // the handshake
  answer a;
  std::size_t at = 0;
  auto why = take_answer(got, at, false, s.client->ended, a);
  REQM(why.empty(), who + "the answer to the handshake: " + why);
  REQM(a.status == 101, who + "the answer to the handshake has status " + std::to_string(a.status));
  REQM(text::lower(a.get("upgrade")) == "websocket", who + "Upgrade: " + a.get("upgrade"));
  REQM(text::lower(a.get("connection")) == "upgrade", who + "Connection: " + a.get("connection"));
  REQM(a.all("sec-websocket-accept") == std::vector<std::string> { s.accept }, who + "Sec-WebSocket-Accept: " + a.get("sec-websocket-accept"));
  for (auto name : { "X-One", "X-Two", "Set-Cookie" }) {
    std::vector<std::string> want;
    for (auto& [n, v] : s.headers) {
      if (n == name) {
        want.push_back(v);
      }
    }
    REQM(a.all(name) == want, who + "the header field " + name + " of the answer");
  }
  REQM(s.calls == 1, who + "the handler runs " + std::to_string(s.calls) + " times");
  REQM(s.wrong.empty(), who + s.wrong);
  std::vector<frame_t> fs;
  why = decode(std::string_view(got).substr(at), fs);
  bool broken = s.end == ending::shut || s.end == ending::violation || s.mode == how::fail || s.mode == how::leave;
  if (!broken || (why != "half a frame" && !why.starts_with("a frame of"))) {
    REQM(why.empty(), who + "the server sends " + why);
  }
  // what the handler received
  auto want = s.sent.size();
  bool handler_ends = s.mode == how::close || s.mode == how::fail || s.mode == how::leave;
  if (handler_ends) {
    want = s.after;
  }
  for (std::size_t i = 0; i < std::max(want, s.got.size()); ++i) {
    REQM(i < s.got.size(), who + "message " + std::to_string(i + 1) + " does not arrive: " + show(s.sent[i]) + "; reads end with " + s.ended);
    REQM(i < want, who + "a message that was not sent: " + show(s.got[i]));
    REQM(s.got[i] == s.sent[i], who + "message " + std::to_string(i + 1) + " arrives as " + show(s.got[i]) + " instead of " + show(s.sent[i]));
  }
  // what it sent
  std::vector<message> out;
  bool within = false;
  std::vector<std::string> pongs, closes;
  int pings = 0;
  for (auto& f : fs) {
    REQM(closes.empty(), who + "a frame after the close frame");
    if (f.op >= 8) {
      REQM(f.fin && f.data.size() <= 125, who + "a control frame that is none");
      if (f.op == 8) {
        closes.push_back(f.data);
      } else if (f.op == 9) {
        ++pings;
      } else {
        pongs.push_back(f.data);
      }
      continue;
    }
    REQM(f.op == (within ? 0 : f.op) && f.op <= 2 && (within || f.op != 0), who + "a frame of opcode " + std::to_string(f.op));
    if (!within) {
      out.push_back({ f.op == 1, {} });
    }
    out.back().data += f.data;
    within = !f.fin;
  }
  auto& wrote = s.mode == how::push ? s.pushes : s.mode == how::echo ? s.got : s.pushes;
  if (within && broken) {
    out.pop_back();
  }
  for (std::size_t i = 0; i < out.size(); ++i) {
    REQM(i < wrote.size(), who + "the client receives a message too many: " + show(out[i]));
    REQM(out[i] == wrote[i], who + "the client receives " + show(out[i]) + " instead of " + show(wrote[i]));
  }
  bool reading_to_the_end = !handler_ends;
  bool all_out = s.mode == how::echo ? s.end != ending::shut && s.end != ending::violation : s.mode == how::push && s.writer && *s.writer == "done";
  if (all_out) {
    REQM(out.size() == wrote.size(), who + "the client receives " + std::to_string(out.size()) + " of " + std::to_string(wrote.size()) + " messages");
  }
  // pongs: to the pings there were, in order
  {
    std::size_t j = 0;
    for (auto& p : pongs) {
      while (j < s.pings.size() && s.pings[j] != p) {
        ++j;
      }
      if (s.cut_short && j == s.pings.size()) {
        break;
      }
      REQM(j < s.pings.size(), who + "a pong to no ping");
      ++j;
    }
    if (reading_to_the_end && !broken && !s.pings.empty()) {
      REQM(!pongs.empty() && pongs.back() == s.pings.back(), who + "the last ping is not answered");
    }
  }
  bool may_ping = s.keep_alive != 0;
  if (!broken) {
    REQM(may_ping ? pings >= s.pinged : pings == s.pinged, who + fmt::format("{} pings arrive of {}", pings, s.pinged));
  }
  // the end
  bool hangs = false;
  if (reading_to_the_end) {
    switch (s.end) {
    case ending::close:
    case ending::close_empty:
      REQM(s.ended == "close", who + "the close of the client is read as: " + s.ended);
      REQM(closes.size() == 1, who + "the close of the client is not answered");
      if (s.end == ending::close) {
        REQM(closes[0].size() >= 2 && ((static_cast<unsigned char>(closes[0][0]) << 8) | static_cast<unsigned char>(closes[0][1])) == static_cast<int>(s.code),
             who + "the code of the close frame");
      }
      break;
    case ending::silent: {
      if (s.idle < 0) {
        REQM(s.ended.empty(), who + "an idle session without a limit ends: " + s.ended);
        hangs = true;
      } else {
        REQM(s.error == make_error_code(boost::beast::error::timeout), who + "an idle session ends with: " + s.ended);
        auto limit = s.idle ? s.idle : 300000;
        auto idle_since = s.last;
        if (s.mode == how::push) {
          for (auto w : s.waits) {
            idle_since += w;
          }
        }
        REQM(s.ended_at >= s.last + limit / 2 && s.ended_at <= std::max<long long>(idle_since, s.last) + 2 * limit + 100,
             who + fmt::format("an idle limit of {} ms ends the session after {} ms, the last bytes came after {} ms", limit, s.ended_at, s.last));
        if (may_ping) {
          REQM(pings > s.pinged, who + "an idle peer is not asked whether it is there");
        }
      }
      break;
    }
    default:
      REQM(!s.ended.empty() && s.ended != "close", who + "after a " + (s.end == ending::shut ? "disconnect" : "violation") + " reads end with: " + s.ended);
    }
  } else if (s.mode == how::close && s.only_text) {
    hangs = !s.closed; // what comes after the close frame is not looked at
  } else if (s.mode == how::close) {
    // the client may have ended it before
    bool client_ends = s.end == ending::close || s.end == ending::close_empty;
    if (s.end == ending::silent && s.handshake < 0) {
      REQM(!s.closed, who + "a close without an answer and without a limit ends");
      hangs = true;
    } else {
      REQM(s.closed, who + "the close of the handler does not end");
      if (client_ends) {
        REQM(!s.error, who + "the close of the handler fails: " + s.error.message());
      } else {
        REQM(!!s.error, who + "the close of the handler succeeds without an answer");
      }
      if (s.end == ending::silent) {
        auto limit = s.handshake ? s.handshake : 30000;
        REQM(s.ended_at <= s.last + 2 * limit + 100, who + fmt::format("a close without an answer ends after {} ms", s.ended_at));
      }
    }
    REQM(closes.size() == 1 && closes[0].size() >= 2
             && ((static_cast<unsigned char>(closes[0][0]) << 8) | static_cast<unsigned char>(closes[0][1])) == s.close_code,
         who + "the close frame of the handler does not arrive with its code");
  }
  if (hangs) {
    REQM(!s.client->ended, who + "the connection is ended without a reason");
  } else {
    REQM(s.client->ended || s.client->error, who + "the connection is left open");
  }
  if (s.mode == how::push && s.writer && !hangs) {
    REQM(!s.writer->empty(), who + "the second task does not end");
  }
  c.label(s.mode == how::echo ? "echo" : s.mode == how::push ? "push" : s.mode == how::close ? "close by the handler" : s.mode == how::fail ? "a failing handler" : "a handler that leaves");
  c.label(s.end == ending::close || s.end == ending::close_empty ? "close" : s.end == ending::shut ? "disconnect" : s.end == ending::violation ? "violation" : "silence");
}

void shuffle(pbt::Case& c, net::io_context& ioc)
{
  if (auto seed = c.below(1 << 16); seed) {
    auto s = std::make_shared<pbt::u64>(seed);
    ioc.pick = [s](std::size_t n) {
      *s = pbt::mix(*s);
      return static_cast<std::size_t>(*s % n);
    };
  }
}
}

SECTION("sessions", 1500, 30000)
{
  clean_hooks clean;
  sessions.clear();
  caught.clear();
  thrown = 0;
  net::standin::listeners().clear();
  std::vector<session> ss(1 + c.below(3));
  bool big = c.chance(1, 6);
  bool local = c.chance(1, 4);
  for (std::size_t i = 0; i < ss.size(); ++i) {
    ss[i].id = std::to_string(i + 1);
    plan_session(c, ss[i], big);
    sessions[ss[i].id] = &ss[i];
  }
  if (!big) {
    gen_parts(c);
  }
  net::io_context ioc;
  shuffle(c, ioc);
  auto upgrade = [&ioc](web::websocket ws, const web::request& r) -> awaitable<web::response> {
    auto it = sessions.find(std::string(r.path().get("id").value_or("")));
    if (it == sessions.end()) {
      co_return web::response::gone().set_body("unknown id");
    }
    auto& s = *it->second;
    auto limit = [](int ms) -> fi::optional<std::chrono::steady_clock::duration> {
      if (ms < 0) {
        return fi::nullopt;
      }
      return std::chrono::milliseconds(ms);
    };
    if (s.idle) {
      ws.set_idle_timeout(limit(s.idle));
    }
    if (s.handshake) {
      ws.set_handshake_timeout(limit(s.handshake));
    }
    if (s.keep_alive >= 0) {
      ws.set_keep_alive_pings(s.keep_alive > 0);
    }
    auto begin = ms_of(ioc);
    co_return ws.set_handler([&s, &ioc, begin](web::websocket::context& ctx) { return talk(ctx, s, ioc, begin); });
  };
  auto server = web::http_server::builder(ioc)
                    .set_exception_handler([](std::exception_ptr e) {
                      if (!e) {
                        return; // a session ended
                      }
                      try {
                        std::rethrow_exception(e);
                      } catch (const std::exception& x) {
                        caught.push_back(x.what());
                      } catch (...) {
                        caught.push_back("other");
                      }
                    })
                    .serve(web::route::get<"/ws/{id}">(upgrade).use(decorate()))
                    .serve(web::route::get<"/plain">([]() -> awaitable<web::response> { co_return web::response::ok().set_body("plain"); }))
                    .build();
  if (local) {
    REQM(server.bind_local("/pbt/socket").has_value(), "bind_local");
  } else {
    REQM(server.bind("127.0.0.1", 8080).has_value(), "bind");
  }
  auto client = [&](std::vector<step> steps, int start) {
    return local ? raw_client_at<net::local::stream_protocol>(ioc, "/pbt/socket", std::move(steps), 0, start) : raw_client(ioc, 8080, std::move(steps), 0, start);
  };
  std::vector<std::shared_ptr<seen>> plain;
  for (auto& s : ss) {
    s.client = client(s.steps, s.start);
    if (c.chance(1, 2)) {
      plain.push_back(client({ { "GET /plain HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n", 0, false } }, static_cast<int>(10 * c.below(30))));
    }
  }
  ioc.scheduler::run(true, 20'000'000);
  bool any = false;
  for (auto& s : ss) {
    judge(c, s);
    any = any || !s.sent.empty() || !s.pushes.empty();
  }
  for (auto& p : plain) {
    answer a;
    std::size_t at = 0;
    auto why = take_answer(p->bytes, at, false, p->ended, a);
    REQM(why.empty() && a.status == 200 && a.body == "plain" && p->ended, "a plain request beside the sessions: " + why);
  }
  // each exception reaches the handler of exceptions, and nothing else does
  std::vector<std::string> want;
  for (auto& s : ss) {
    if (s.mode == session::how::fail && s.got.size() == s.after) {
      want.push_back("session " + s.id);
    }
  }
  std::sort(want.begin(), want.end());
  std::sort(caught.begin(), caught.end());
  REQM(want == caught, fmt::format("{} of {} exceptions reach the handler of exceptions", caught.size(), want.size()));
  c.nontrivial(any);
}

SECTION("refusals", 2000, 30000)
{
  clean_hooks clean;
  sessions.clear();
  net::standin::listeners().clear();
  gen_parts(c);
  std::string accept;
  int run = 0, extracted = 0;
  enum { none, unknown, plain, ignored, discarded, host, key, long_key, version, no_version, connection, protocol, method, old, target } kind;
  kind = c.pick<decltype(kind)>({ none, unknown, plain, ignored, discarded, host, key, long_key, version, no_version, connection, protocol, method, old, target });
  const char* names[] = { "nothing", "unknown path", "a plain handler", "an extractor not used", "a response discarded", "no Host", "no key", "a long key", "another version", "no version",
                          "no Connection: Upgrade", "another protocol", "POST", "HTTP/1.0", "an invalid target" };
  c.in("wrong", names[kind]);
  auto h = gen_handshake(c, kind == unknown ? "/none" : kind == plain ? "/plain" : kind == ignored ? "/ignored" : kind == discarded ? "/discarded" : "/ws", accept);
  auto field = [&](std::string_view n) -> auto& {
    return *std::find_if(h.fields.begin(), h.fields.end(), [&](auto& f) { return f.first == n; });
  };
  auto drop = [&](std::string_view n) { std::erase_if(h.fields, [&](auto& f) { return f.first == n; }); };
  std::vector<int> statuses { 400 };
  switch (kind) {
  case none:
    statuses = { 101 };
    break;
  case unknown:
    statuses = { 404 };
    break;
  case plain:
  case ignored:
    statuses = { 200 };
    break;
  case discarded:
    statuses = { 403 };
    break;
  case host:
    drop("Host");
    break;
  case key:
    drop("Sec-WebSocket-Key");
    break;
  case long_key:
    field("Sec-WebSocket-Key").second += c.pick<std::string>({ "A", "ABCDEFGH" });
    break;
  case version:
    field("Sec-WebSocket-Version").second = c.pick<std::string>({ "8", "12", "14", "0", "130", "x" });
    statuses = { 426 };
    break;
  case no_version:
    drop("Sec-WebSocket-Version");
    break;
  case connection:
    if (c.chance(1, 2)) {
      drop("Connection");
    } else {
      field("Connection").second = c.pick<std::string>({ "keep-alive", "upgraded", "keep-alive, x-upgrade" });
    }
    break;
  case protocol:
    if (c.chance(1, 2)) {
      drop("Upgrade");
    } else {
      field("Upgrade").second = c.pick<std::string>({ "h2c", "websockets", "web socket" });
    }
    break;
  case method:
    h.method = "POST";
    h.fields.emplace_back("Content-Length", "0");
    break;
  case old:
    h.version = "HTTP/1.0";
    break;
  case target:
    h.target = c.pick<std::string>({ "ws", "http://h/ws", "*" });
    break;
  }
  bool body = kind != none && kind != method && c.chance(1, 4);
  if (body) {
    h.body = c.str("abcd", 30);
    h.fields.emplace_back("Content-Length", std::to_string(h.body.size()));
  }
  auto open = text_of(c, h);
  c.in("request", open);
  net::io_context ioc;
  shuffle(c, ioc);
  auto callback = [&](web::websocket::context& ctx) -> awaitable<void> {
    ++run;
    co_await ctx.async_write_text("hello");
    co_await ctx.async_close(web::websocket::close_code::normal);
  };
  auto server
      = web::http_server::builder(ioc)
            .set_exception_handler([](std::exception_ptr e) {
              if (e) {
                caught.push_back("any");
              }
            })
            .serve(web::route::any<"/ws">([&](web::websocket ws) -> awaitable<web::response> {
              ++extracted;
              co_return ws.set_handler(callback);
            }))
            .serve(web::route::any<"/plain">([]() -> awaitable<web::response> { co_return web::response::ok().set_body("plain"); }))
            .serve(web::route::any<"/ignored">([&](web::websocket) -> awaitable<web::response> {
              ++extracted;
              co_return web::response::ok().set_body("ignored");
            }))
            .serve(web::route::any<"/discarded">([&](web::websocket ws) -> awaitable<web::response> {
              ++extracted;
              auto res = ws.set_handler(callback);
              co_return web::response::forbidden().set_body("no");
            }))
            .build();
  REQM(server.bind("127.0.0.1", 8080).has_value(), "bind");
  caught.clear();
  std::string next = "GET /plain HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n";
  std::vector<step> steps { { open, 0, false } };
  if (kind != none) {
    auto cut = c.below(open.size());
    steps = { { open.substr(0, cut), 0, false }, { open.substr(cut), static_cast<int>(10 * c.below(3)), false }, { next, static_cast<int>(10 * c.below(3)), false } };
  }
  auto client = raw_client(ioc, 8080, steps);
  ioc.scheduler::run(true, 20'000'000);
  REQM(caught.empty(), "an exception leaves the server");
  answer a;
  std::size_t at = 0;
  auto why = take_answer(client->bytes, at, false, client->ended, a);
  REQM(why.empty(), "no answer: " + why);
  REQM(std::find(statuses.begin(), statuses.end(), a.status) != statuses.end(), "the status is " + std::to_string(a.status));
  if (kind == none) {
    REQ_EQ(run, 1);
    REQ_EQ(a.get("sec-websocket-accept"), accept);
    return;
  }
  REQM(run == 0, "the handler of messages runs although the upgrade is refused");
  if (kind == version) {
    REQ_EQ(a.get("sec-websocket-version"), std::string("13"));
  }
  if (kind == plain || kind == ignored) {
    REQ_EQ(a.body, std::string(kind == plain ? "plain" : "ignored"));
  }
  // the connection still speaks HTTP
  if (text::lower(a.get("connection")) == "close") {
    REQM(kind == old, "the connection is closed");
    REQM(at == client->bytes.size(), "bytes after the last answer");
  } else {
    answer b;
    why = take_answer(client->bytes, at, false, client->ended, b);
    REQM(why.empty() && b.status == 200 && b.body == "plain", "the next request on the connection: " + why);
  }
  REQM(client->ended, "the connection is left open");
  c.label(names[kind]);
  c.nontrivial();
}
