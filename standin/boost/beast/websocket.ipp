// Stand-in for boost/beast/websocket: RFC 6455 without extensions; the server
// side, the idle timeout, and as much of the client side as the project's own
// tests use.
#pragma once

namespace boost::beast::websocket {
enum class error {
  closed = 1,
  unused1,
  unused2,
  buffer_overflow,
  partial_deflate_block,
  message_too_big,
  bad_http_version,
  bad_method,
  no_host,
  no_connection,
  no_connection_upgrade,
  no_upgrade,
  no_upgrade_websocket,
  no_sec_key,
  bad_sec_key,
  no_sec_version,
  bad_sec_version,
  no_sec_accept,
  bad_sec_accept,
  upgrade_declined,
  bad_opcode,
  bad_data_frame,
  bad_continuation,
  bad_reserved_bits,
  bad_control_fragment,
  bad_control_size,
  bad_unmasked_frame,
  bad_masked_frame,
  bad_size,
  bad_frame_payload,
  bad_close_code,
  bad_close_size,
  bad_close_payload
};
namespace standin {
struct category_t : std::error_category {
  const char* name() const noexcept override
  {
    return "boost.beast.websocket";
  }
  std::string message(int v) const override
  {
    switch (static_cast<error>(v)) {
    case error::closed:
      return "The WebSocket stream was gracefully closed at both endpoints";
    case error::bad_http_version:
      return "The WebSocket handshake was not HTTP/1.1";
    case error::bad_method:
      return "The WebSocket handshake method was not GET";
    case error::no_host:
      return "The WebSocket handshake Host field is missing";
    case error::no_connection:
      return "The WebSocket handshake Connection field is missing";
    case error::no_connection_upgrade:
      return "The WebSocket handshake Connection field is missing the upgrade token";
    case error::no_upgrade:
      return "The WebSocket handshake Upgrade field is missing";
    case error::no_upgrade_websocket:
      return "The WebSocket handshake Upgrade field is missing the websocket token";
    case error::no_sec_key:
      return "The WebSocket handshake Sec-WebSocket-Key field is missing";
    case error::bad_sec_key:
      return "The WebSocket handshake Sec-WebSocket-Key field is invalid";
    case error::no_sec_version:
      return "The WebSocket handshake Sec-WebSocket-Version field is missing";
    case error::bad_sec_version:
      return "The WebSocket handshake Sec-WebSocket-Version field is invalid";
    default:
      return "The WebSocket operation failed (" + std::to_string(v) + ")";
    }
  }
};
inline const std::error_category& category()
{
  static category_t c;
  return c;
}
}
inline std::error_code make_error_code(error e)
{
  return { static_cast<int>(e), standin::category() };
}
}
template <>
struct std::is_error_code_enum<boost::beast::websocket::error> : std::true_type { };

namespace boost::beast::websocket {
using request_type = http::request<http::empty_body>;
using response_type = http::response<http::string_body>;
using ping_data = std::string;
struct close_reason {
  std::uint16_t code = 0;
  std::string reason;
  close_reason() = default;
  close_reason(std::uint16_t c)
      : code(c)
  {
  }
};
enum close_code : std::uint16_t { none = 0, normal = 1000, protocol_error = 1002, bad_payload = 1007, too_big = 1009 };

template <bool R, typename Fields>
bool is_upgrade(const http::header<R, Fields>& req)
{
  return req.version() >= 11 && req.method() == http::verb::get
      && http::token_list(req[http::field::connection]).exists("upgrade")
      && http::token_list(req[http::field::upgrade]).exists("websocket");
}

namespace detail {
struct sec_ws_key_type {
  static constexpr std::size_t static_capacity = 24;
};
using sec_ws_accept_type = std::string;
inline std::string sha1(std::string m)
{
  std::uint32_t h[5] = { 0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0 };
  std::uint64_t bits = m.size() * 8;
  m += static_cast<char>(0x80);
  while (m.size() % 64 != 56) {
    m += '\0';
  }
  for (int i = 7; i >= 0; --i) {
    m += static_cast<char>(bits >> (8 * i));
  }
  auto rol = [](std::uint32_t x, int n) { return (x << n) | (x >> (32 - n)); };
  for (std::size_t at = 0; at < m.size(); at += 64) {
    std::uint32_t w[80];
    for (std::size_t i = 0; i < 16; ++i) {
      w[i] = 0;
      for (std::size_t j = 0; j < 4; ++j) {
        w[i] = (w[i] << 8) | static_cast<unsigned char>(m[at + 4 * i + j]);
      }
    }
    for (int i = 16; i < 80; ++i) {
      w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
    }
    auto a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
    for (int i = 0; i < 80; ++i) {
      std::uint32_t f, k;
      if (i < 20) {
        f = (b & c) | (~b & d);
        k = 0x5A827999;
      } else if (i < 40) {
        f = b ^ c ^ d;
        k = 0x6ED9EBA1;
      } else if (i < 60) {
        f = (b & c) | (b & d) | (c & d);
        k = 0x8F1BBCDC;
      } else {
        f = b ^ c ^ d;
        k = 0xCA62C1D6;
      }
      auto t = rol(a, 5) + f + e + k + w[i];
      e = d;
      d = c;
      c = rol(b, 30);
      b = a;
      a = t;
    }
    h[0] += a;
    h[1] += b;
    h[2] += c;
    h[3] += d;
    h[4] += e;
  }
  std::string out;
  for (auto x : h) {
    for (int i = 3; i >= 0; --i) {
      out += static_cast<char>(x >> (8 * i));
    }
  }
  return out;
}
inline std::string base64(std::string_view s)
{
  constexpr auto t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string o;
  for (std::size_t i = 0; i < s.size(); i += 3) {
    std::uint32_t v = 0;
    for (std::size_t j = 0; j < 3; ++j) {
      v = (v << 8) | (i + j < s.size() ? static_cast<unsigned char>(s[i + j]) : 0u);
    }
    for (std::size_t j = 0; j < 4; ++j) {
      o += i + j <= s.size() ? t[(v >> (18 - 6 * j)) & 63] : '=';
    }
  }
  return o;
}
inline void make_sec_ws_accept(sec_ws_accept_type& acc, string_view key)
{
  acc = base64(sha1(std::string(key) + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"));
}
}

template <typename Protocol, typename Ex>
void beast_close_socket(asio::basic_stream_socket<Protocol, Ex>& s)
{
  s.close();
}
template <typename Protocol, typename Ex>
void beast_close_socket(basic_stream<Protocol, Ex>& s)
{
  s.socket().close();
}
template <typename Protocol, typename Ex>
void teardown(role_type, asio::basic_stream_socket<Protocol, Ex>& s, error_code& ec)
{
  s.shutdown(asio::socket_base::shutdown_both, ec);
  s.close(ec);
}
template <typename Protocol, typename Ex, typename Handler>
void async_teardown(role_type r, asio::basic_stream_socket<Protocol, Ex>& s, Handler&& h)
{
  error_code ec;
  teardown(r, s, ec);
  auto f = asio::standin::erased<void(error_code)>(std::forward<Handler>(h)).f;
  s.get_executor().sched().post([f, ec] { f(ec); });
}

template <typename Protocol, typename Ex, typename Handler>
void async_teardown(role_type r, basic_stream<Protocol, Ex>& s, Handler&& h)
{
  async_teardown(r, s.socket(), std::forward<Handler>(h));
}

struct stream_base {
  class decorator {
    std::function<void(response_type&)> f_;

  public:
    decorator() = default;
    template <typename F>
      requires(!std::same_as<std::decay_t<F>, decorator>)
    decorator(F&& f)
    {
      auto p = std::make_shared<std::decay_t<F>>(std::forward<F>(f));
      f_ = [p](response_type& r) { (*p)(r); };
    }
    void operator()(response_type& r) const
    {
      if (f_) {
        f_(r);
      }
    }
  };
  using duration = std::chrono::steady_clock::duration;
  static constexpr duration none()
  {
    return duration::max();
  }
  struct timeout {
    duration handshake_timeout {};
    duration idle_timeout {};
    bool keep_alive_pings = false;
    static timeout suggested(role_type)
    {
      return { std::chrono::seconds(30), std::chrono::seconds(300), true };
    }
  };
};

namespace standin {
inline bool utf8(std::string_view s)
{
  std::size_t i = 0;
  while (i < s.size()) {
    auto c = static_cast<unsigned char>(s[i]);
    std::size_t n = c < 0x80 ? 0 : c >= 0xC2 && c <= 0xDF ? 1 : (c & 0xF0) == 0xE0 ? 2 : c >= 0xF0 && c <= 0xF4 ? 3 : 9;
    if (n == 9 || i + n >= s.size() + (n == 0)) {
      return false;
    }
    for (std::size_t j = 1; j <= n; ++j) {
      auto d = static_cast<unsigned char>(s[i + j]);
      if ((d & 0xC0) != 0x80) {
        return false;
      }
      if (j == 1 && ((c == 0xE0 && d < 0xA0) || (c == 0xED && d > 0x9F) || (c == 0xF0 && d < 0x90) || (c == 0xF4 && d > 0x8F))) {
        return false;
      }
    }
    i += n + 1;
  }
  return true;
}
inline std::string frame(unsigned op, std::string_view data, bool mask = false)
{
  std::string s;
  s += static_cast<char>(0x80 | op);
  auto head = s.size();
  if (data.size() < 126) {
    s += static_cast<char>(data.size());
  } else if (data.size() < 65536) {
    s += static_cast<char>(126);
    s += static_cast<char>(data.size() >> 8);
    s += static_cast<char>(data.size());
  } else {
    s += static_cast<char>(127);
    for (int i = 7; i >= 0; --i) {
      s += static_cast<char>(static_cast<std::uint64_t>(data.size()) >> (8 * i));
    }
  }
  if (!mask) {
    return s + std::string(data);
  }
  s[head] = static_cast<char>(s[head] | 0x80);
  constexpr char key[] = { 0x12, 0x34, 0x56, 0x78 };
  s.append(key, 4);
  for (std::size_t i = 0; i < data.size(); ++i) {
    s += static_cast<char>(data[i] ^ key[i % 4]);
  }
  return s;
}

template <typename Next>
struct state : std::enable_shared_from_this<state<Next>> {
  Next next;
  std::string in;
  std::array<char, 4096> chunk;
  stream_base::decorator deco;
  bool text_out = true;
  bool got_text = false;
  bool open = false;
  bool client = false;
  stream_base::timeout limits { stream_base::none(), stream_base::none(), false };
  bool close_sent = false;
  bool close_got = false;
  bool failed = false;
  bool closing = false; // until the peer answers the close frame
  // the message being received
  bool in_message = false;
  std::string payload;
  // frames waiting to be sent
  struct out_t {
    std::string data;
    std::function<void(error_code)> h;
  };
  std::list<out_t> out;
  bool writing = false;

  explicit state(Next n)
      : next(std::move(n))
  {
  }
  void send(std::string data, std::function<void(error_code)> h)
  {
    out.push_back({ std::move(data), std::move(h) });
    pump();
  }
  void pump()
  {
    if (writing || out.empty()) {
      return;
    }
    writing = true;
    auto self = this->shared_from_this();
    auto o = std::move(out.front());
    out.pop_front();
    http::standin::write_text(next, std::move(o.data), [self, h = o.h](error_code ec, std::size_t) {
      self->writing = false;
      h(ec);
      self->pump();
    });
  }
  void post(std::function<void()> f)
  {
    next.get_executor().sched().post(std::move(f));
  }
  void down(std::function<void(error_code)> h)
  {
    open = false;
    async_teardown(client ? role_type::client : role_type::server, next, [h](error_code ec) { h(ec); });
  }
  // fails the connection: a close frame, then the end
  void fail(std::uint16_t code, error_code why, std::function<void(error_code)> h)
  {
    auto self = this->shared_from_this();
    failed = true;
    auto end = [self, why, h](error_code) { self->down([why, h](error_code) { h(why); }); };
    if (close_sent || code == 0) {
      return end({});
    }
    close_sent = true;
    std::string c { static_cast<char>(code >> 8), static_cast<char>(code) };
    send(frame(8, c, client), end);
  }
  // reads until a message is complete (or only until the close handshake is)
  void read(bool only_close, std::function<void(error_code)> h)
  {
    auto self = this->shared_from_this();
    for (;;) {
      if (in.size() < 2) {
        return more(only_close, h);
      }
      auto b0 = static_cast<unsigned char>(in[0]);
      auto b1 = static_cast<unsigned char>(in[1]);
      bool fin = (b0 & 0x80) != 0;
      unsigned op = b0 & 15;
      bool masked = (b1 & 0x80) != 0;
      std::uint64_t len = b1 & 127;
      std::size_t at = 2;
      if (b0 & 0x70) {
        return fail(protocol_error, make_error_code(error::bad_reserved_bits), h);
      }
      if ((op > 2 && op < 8) || op > 10) {
        return fail(protocol_error, make_error_code(error::bad_opcode), h);
      }
      if (op >= 8 && !fin) {
        return fail(protocol_error, make_error_code(error::bad_control_fragment), h);
      }
      if (op >= 8 && len > 125) {
        return fail(protocol_error, make_error_code(error::bad_control_size), h);
      }
      if (op == 0 && !in_message) {
        return fail(protocol_error, make_error_code(error::bad_continuation), h);
      }
      if ((op == 1 || op == 2) && in_message) {
        return fail(protocol_error, make_error_code(error::bad_data_frame), h);
      }
      if (masked == client) {
        return fail(protocol_error, make_error_code(error::bad_unmasked_frame), h);
      }
      std::size_t ext = len == 126 ? 2 : len == 127 ? 8 : 0;
      std::size_t keyed = masked ? 4 : 0;
      if (in.size() < at + ext + keyed) {
        return more(only_close, h);
      }
      if (ext != 0) {
        len = 0;
        for (std::size_t i = 0; i < ext; ++i) {
          len = (len << 8) | static_cast<unsigned char>(in[at + i]);
        }
        if (len < (ext == 2 ? 126u : 65536u)) {
          return fail(protocol_error, make_error_code(error::bad_size), h);
        }
        at += ext;
      }
      if (len + payload.size() > 16 * 1024 * 1024) {
        return fail(too_big, make_error_code(error::message_too_big), h);
      }
      if (in.size() < at + keyed + len) {
        return more(only_close, h);
      }
      std::string data = in.substr(at + keyed, len);
      for (std::size_t i = 0; masked && i < data.size(); ++i) {
        data[i] = static_cast<char>(data[i] ^ in[at + i % 4]);
      }
      in.erase(0, at + keyed + len);
      if (op == 9) {
        if (!close_sent) {
          send(frame(10, data, client), [](error_code) { });
        }
        continue;
      }
      if (op == 10) {
        continue;
      }
      if (op == 8) {
        if (data.size() == 1) {
          return fail(protocol_error, make_error_code(error::bad_close_size), h);
        }
        close_got = true;
        auto closed = make_error_code(error::closed);
        auto end = [self, closed, h](error_code) { self->down([closed, h](error_code) { h(closed); }); };
        if (close_sent) {
          return end({});
        }
        close_sent = true;
        return send(frame(8, std::string_view(data).substr(0, std::min<std::size_t>(2, data.size())), client), end);
      }
      if (only_close) {
        if (op != 0) {
          in_message = true;
        }
        if (fin) {
          in_message = false;
        }
        continue;
      }
      if (op != 0) {
        got_text = op == 1;
        in_message = true;
        payload.clear();
      }
      payload += data;
      if (fin) {
        in_message = false;
        if (got_text && !utf8(payload)) {
          return fail(bad_payload, make_error_code(error::bad_frame_payload), h);
        }
        return post([h] { h({}); });
      }
    }
  }
  void more(bool only_close, std::function<void(error_code)> h)
  {
    auto self = this->shared_from_this();
    auto w = std::make_shared<wait_t>();
    watch(w, limits.keep_alive_pings && !closing);
    next.async_read_some(asio::buffer(chunk), [self, only_close, h, w](error_code ec, std::size_t n) {
      w->done = true;
      if (w->timer) {
        self->next.get_executor().sched().cancel(w->timer);
      }
      if (ec) {
        self->open = false;
        h(w->late ? beast::make_error_code(beast::error::timeout) : ec);
        return;
      }
      self->in.append(self->chunk.data(), n);
      self->read(only_close, h);
    });
  }
  // one wait for the peer
  struct wait_t {
    bool done = false;
    bool late = false;
    std::uint64_t timer = 0;
  };
  void watch(std::shared_ptr<wait_t> w, bool ping)
  {
    auto limit = closing ? limits.handshake_timeout : limits.idle_timeout;
    if (limit == stream_base::none()) {
      return;
    }
    auto& sc = next.get_executor().sched();
    auto self = this->shared_from_this();
    w->timer = sc.at(sc.now() + (!closing && limits.keep_alive_pings ? limit / 2 : limit), [self, w, ping] {
      w->timer = 0;
      if (w->done) {
        return;
      }
      if (ping) {
        if (!self->close_sent) {
          self->send(frame(9, "", self->client), [](error_code) { });
        }
        self->watch(w, false);
        return;
      }
      w->late = true;
      beast_close_socket(self->next);
    });
  }
};
}

template <typename Next>
class stream : public stream_base {
  std::shared_ptr<standin::state<Next>> p_;

public:
  using executor_type = typename Next::executor_type;
  using next_layer_type = Next;
  template <typename Arg>
    requires(!std::same_as<std::decay_t<Arg>, stream>)
  explicit stream(Arg&& a)
      : p_(std::make_shared<standin::state<Next>>(Next(std::forward<Arg>(a))))
  {
  }
  stream(stream&&) = default;
  stream& operator=(stream&&) = default;
  executor_type get_executor() noexcept
  {
    return p_->next.get_executor();
  }
  Next& next_layer() noexcept
  {
    return p_->next;
  }
  void set_option(decorator d)
  {
    p_->deco = std::move(d);
  }
  void set_option(const timeout& t)
  {
    p_->limits = t;
  }
  bool is_open() const
  {
    return p_->open;
  }
  bool got_text() const noexcept
  {
    return p_->got_text;
  }
  bool got_binary() const noexcept
  {
    return !p_->got_text;
  }
  void text(bool v)
  {
    p_->text_out = v;
  }
  void binary(bool v)
  {
    p_->text_out = !v;
  }

  template <typename Body, typename Fields, typename Token>
  auto async_accept(const http::request<Body, Fields>& req, Token&& token)
  {
    auto p = p_;
    auto* rp = &req;
    return asio::async_initiate<Token, void(error_code)>(
        [p, rp](auto&& handler) {
          auto h = asio::standin::erased<void(error_code)>(std::forward<decltype(handler)>(handler)).f;
          error_code why;
          auto res = answer(*rp, p->deco, why);
          http::standin::write_text(
              p->next,
              http::standin::head_of(res) + res.body(),
              [p, h, why](error_code ec, std::size_t) {
                p->open = !ec && !why;
                h(ec ? ec : why);
              });
        },
        token);
  }
  template <typename Token>
  auto async_handshake(std::string host, std::string target, Token&& token)
  {
    auto p = p_;
    p->client = true;
    return asio::async_initiate<Token, void(error_code)>(
        [p](auto&& handler, std::string head) {
          auto h = asio::standin::erased<void(error_code)>(std::forward<decltype(handler)>(handler)).f;
          http::standin::write_text(p->next, std::move(head), [p, h](error_code ec, std::size_t) {
            if (ec) {
              return h(ec);
            }
            answered(p, h);
          });
        },
        token,
        "GET " + target + " HTTP/1.1\r\nHost: " + host
            + "\r\nUpgrade: websocket\r\nConnection: upgrade\r\n"
              "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n"
              "Sec-WebSocket-Version: 13\r\n\r\n");
  }
  template <typename Token>
  auto async_ping(const ping_data& d, Token&& token)
  {
    auto p = p_;
    return asio::async_initiate<Token, void(error_code)>(
        [p](auto&& handler, std::string f) {
          auto h = asio::standin::erased<void(error_code)>(std::forward<decltype(handler)>(handler)).f;
          if (p->close_sent || !p->open) {
            p->post([h] { h(asio::error::operation_aborted); });
          } else {
            p->send(std::move(f), h);
          }
        },
        token,
        standin::frame(9, d, p->client));
  }
  template <typename Buffers, typename Token>
  auto async_write(const Buffers& b, Token&& token)
  {
    auto p = p_;
    auto data = asio::standin::flatten(asio::standin::gather(b));
    return asio::async_initiate<Token, void(error_code, std::size_t)>(
        [p](auto&& handler, std::string d) {
          auto h = asio::standin::erase_io(std::forward<decltype(handler)>(handler));
          if (p->close_sent || !p->open) {
            p->post([h] { h(asio::error::operation_aborted, 0); });
            return;
          }
          auto n = d.size();
          p->send(standin::frame(p->text_out ? 1 : 2, d, p->client), [h, n](error_code ec) { h(ec, ec ? 0 : n); });
        },
        token,
        std::move(data));
  }
  template <typename Buffer, typename Token>
  auto async_read(Buffer& b, Token&& token)
  {
    auto p = p_;
    auto* bp = &b;
    return asio::async_initiate<Token, void(error_code, std::size_t)>(
        [p, bp](auto&& handler) {
          auto h = asio::standin::erase_io(std::forward<decltype(handler)>(handler));
          if (p->close_got || p->failed || !p->open) {
            p->post([h] { h(asio::error::operation_aborted, 0); });
            return;
          }
          p->read(false, [p, bp, h](error_code ec) {
            std::size_t n = 0;
            if (!ec) {
              n = p->payload.size();
              // a message arrives in as many parts as the buffer is prepared for
              std::size_t at = 0;
              while (at < n) {
                auto part = asio::standin::part_of(n - at);
                auto to = bp->prepare(part);
                asio::buffer_copy(to, asio::buffer(p->payload.data() + at, part));
                bp->commit(part);
                at += part;
              }
              p->payload.clear();
            }
            h(ec, n);
          });
        },
        token);
  }
  template <typename Token>
  auto async_close(const close_reason& r, Token&& token)
  {
    auto p = p_;
    return asio::async_initiate<Token, void(error_code)>(
        [p](auto&& handler, std::uint16_t code) {
          auto h = asio::standin::erased<void(error_code)>(std::forward<decltype(handler)>(handler)).f;
          if (p->close_sent || !p->open) {
            p->post([h] { h(asio::error::operation_aborted); });
            return;
          }
          p->close_sent = true;
          p->closing = true;
          std::string d;
          if (code != 0) {
            d = { static_cast<char>(code >> 8), static_cast<char>(code) };
          }
          p->send(standin::frame(8, d, p->client), [p, h](error_code ec) {
            if (ec) {
              h(ec);
              return;
            }
            p->read(true, [h](error_code e) {
              h(e == make_error_code(error::closed) ? error_code() : e);
            });
          });
        },
        token,
        r.code);
  }

private:
  static void answered(std::shared_ptr<standin::state<Next>> p, std::function<void(error_code)> h)
  {
    p->next.async_read_some(asio::buffer(p->chunk), [p, h](error_code ec, std::size_t n) {
      if (ec) {
        return h(ec);
      }
      p->in.append(p->chunk.data(), n);
      auto end = p->in.find("\r\n\r\n");
      if (end == p->in.npos) {
        return answered(p, h);
      }
      auto head = p->in.substr(0, end);
      p->in.erase(0, end + 4);
      p->open = head.starts_with("HTTP/1.1 101 ") && head.find("s3pPLMBiTxaQ9kYGzzhZRbK+xOo=") != head.npos;
      h(p->open ? error_code() : make_error_code(error::upgrade_declined));
    });
  }
  template <typename Request>
  static response_type answer(const Request& req, const decorator& deco, error_code& why)
  {
    response_type res;
    res.version(req.version());
    auto err = [&](error e) {
      why = make_error_code(e);
      res.result(http::status::bad_request);
      res.body() = why.message();
      res.prepare_payload();
      deco(res);
      return res;
    };
    if (req.version() != 11) {
      return err(error::bad_http_version);
    }
    if (req.method() != http::verb::get) {
      return err(error::bad_method);
    }
    if (!req.count(http::field::host)) {
      return err(error::no_host);
    }
    if (!req.count(http::field::connection)) {
      return err(error::no_connection);
    }
    if (!http::token_list(req[http::field::connection]).exists("upgrade")) {
      return err(error::no_connection_upgrade);
    }
    if (!req.count(http::field::upgrade)) {
      return err(error::no_upgrade);
    }
    if (!http::token_list(req[http::field::upgrade]).exists("websocket")) {
      return err(error::no_upgrade_websocket);
    }
    if (!req.count(http::field::sec_websocket_key)) {
      return err(error::no_sec_key);
    }
    auto key = req[http::field::sec_websocket_key];
    if (key.size() > detail::sec_ws_key_type::static_capacity) {
      return err(error::bad_sec_key);
    }
    if (!req.count(http::field::sec_websocket_version)) {
      return err(error::no_sec_version);
    }
    if (req[http::field::sec_websocket_version] != "13") {
      why = make_error_code(error::bad_sec_version);
      res.result(http::status::upgrade_required);
      res.set(http::field::sec_websocket_version, "13");
      res.body() = why.message();
      res.prepare_payload();
      deco(res);
      return res;
    }
    res.result(http::status::switching_protocols);
    res.set(http::field::upgrade, "websocket");
    res.set(http::field::connection, "Upgrade");
    detail::sec_ws_accept_type acc;
    detail::make_sec_ws_accept(acc, key);
    res.set(http::field::sec_websocket_accept, acc);
    deco(res);
    return res;
  }
};
}
