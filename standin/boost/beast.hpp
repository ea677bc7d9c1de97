// Stand-in for the part of Boost.Beast that fitoria uses (see standin/README.md).
#pragma once
#define BOOST_BEAST_VERSION_STRING "Boost.Beast/stand-in"
#include <boost/asio.hpp>
#include <boost/core/detail/string_view.hpp>
#include <boost/standin_system.hpp>

#include <algorithm>
#include <array>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace boost::beast {
namespace net = boost::asio;
using boost::system::error_category;
using boost::system::error_code;
using boost::system::system_error;
using string_view = boost::core::string_view;
using asio::async_write;

enum class role_type { client, server };
enum class error { timeout = 1 };
namespace standin {
struct core_category_t : std::error_category {
  const char* name() const noexcept override
  {
    return "boost.beast";
  }
  std::string message(int) const override
  {
    return "The socket was closed due to a timeout";
  }
};
inline const std::error_category& core_category()
{
  static core_category_t c;
  return c;
}
inline char lower(char c)
{
  return c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c;
}
inline std::string_view trim(std::string_view s)
{
  while (!s.empty() && (s.front() == ' ' || s.front() == '\t')) {
    s.remove_prefix(1);
  }
  while (!s.empty() && (s.back() == ' ' || s.back() == '\t')) {
    s.remove_suffix(1);
  }
  return s;
}
inline bool tchar(char c)
{
  return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z')
      || (c >= 'A' && c <= 'Z')
      || (c != 0 && std::string_view("!#$%&'*+-.^_`|~").find(c) != std::string_view::npos);
}
// the tokens of a comma separated list; parameters are dropped
inline std::vector<std::string_view> tokens(std::string_view s)
{
  std::vector<std::string_view> out;
  std::size_t i = 0;
  while (i <= s.size()) {
    auto j = std::min(s.find(',', i), s.size());
    auto t = trim(s.substr(i, j - i));
    t = trim(t.substr(0, std::min(t.find(';'), t.size())));
    if (!t.empty()) {
      out.push_back(t);
    }
    i = j + 1;
  }
  return out;
}
}
inline std::error_code make_error_code(error e)
{
  return { static_cast<int>(e), standin::core_category() };
}
inline bool iequals(string_view a, string_view b)
{
  return std::equal(
      a.begin(), a.end(), b.begin(), b.end(), [](char x, char y) {
        return standin::lower(x) == standin::lower(y);
      });
}
struct iless {
  bool operator()(std::string_view a, std::string_view b) const
  {
    return std::lexicographical_compare(
        a.begin(), a.end(), b.begin(), b.end(), [](char x, char y) {
          return standin::lower(x) < standin::lower(y);
        });
  }
};
template <typename S>
  requires requires(const S& s) {
    { s.data() } -> std::convertible_to<const char*>;
    s.size();
  }
string_view to_string_view(const S& s)
{
  return { s.data(), s.size() };
}

// ---------------------------------------------------------------- buffers
class flat_buffer {
  std::vector<char> d_;
  std::size_t n_ = 0;

public:
  using const_buffers_type = asio::const_buffer;
  using mutable_buffers_type = asio::mutable_buffer;
  std::size_t size() const noexcept
  {
    return n_;
  }
  std::size_t max_size() const noexcept
  {
    return std::numeric_limits<std::size_t>::max();
  }
  std::size_t capacity() const noexcept
  {
    return d_.size();
  }
  asio::const_buffer data() const noexcept
  {
    return { d_.data(), n_ };
  }
  asio::const_buffer cdata() const noexcept
  {
    return data();
  }
  void reserve(std::size_t)
  {
  }
  void shrink_to_fit()
  {
  }
  asio::mutable_buffer prepare(std::size_t n)
  {
    d_.resize(n_ + n);
    return { d_.data() + n_, n };
  }
  void commit(std::size_t n)
  {
    n_ += std::min(n, d_.size() - n_);
  }
  void consume(std::size_t n)
  {
    n = std::min(n, n_);
    d_.erase(d_.begin(), d_.begin() + static_cast<std::ptrdiff_t>(n));
    n_ -= n;
  }
  void clear()
  {
    n_ = 0;
  }
};

template <typename T>
T& get_lowest_layer(T& t)
{
  return t;
}
template <typename T>
  requires requires(T& t) { t.next_layer(); }
auto& get_lowest_layer(T& t)
{
  return get_lowest_layer(t.next_layer());
}

// --------------------------------------------------- a socket with a clock
template <typename Protocol, typename Executor = asio::any_io_executor>
class basic_stream {
public:
  using socket_type = asio::basic_stream_socket<Protocol, Executor>;
  using executor_type = Executor;
  using protocol_type = Protocol;
  using endpoint_type = typename Protocol::endpoint;

private:
  struct impl {
    socket_type s;
    std::chrono::steady_clock::time_point until
        = std::chrono::steady_clock::time_point::max();
    explicit impl(socket_type x)
        : s(std::move(x))
    {
    }
  };
  std::shared_ptr<impl> p_;

  struct pending {
    bool done = false;
    std::uint64_t timer = 0;
    bool timed = false;
  };
  // runs one operation against the clock
  template <typename Start>
  static void run(std::shared_ptr<impl> p,
                  asio::standin::io_handler h,
                  Start start)
  {
    auto st = std::make_shared<pending>();
    auto& sched = p->s.get_executor().sched();
    if (p->until != std::chrono::steady_clock::time_point::max()) {
      st->timed = true;
      st->timer = sched.at(p->until, [st, p, h] {
        if (!st->done) {
          st->done = true;
          p->s.close();
          h(make_error_code(error::timeout), 0);
        }
      });
    }
    start([st, h, &sched, p](std::error_code ec, std::size_t n) {
      if (!st->done) {
        st->done = true;
        if (st->timed) {
          sched.cancel(st->timer);
        }
        h(ec, n);
      }
    });
  }

public:
  template <typename Arg>
    requires(!std::same_as<std::decay_t<Arg>, basic_stream>)
  explicit basic_stream(Arg&& a)
      : p_(std::make_shared<impl>(socket_type(std::forward<Arg>(a))))
  {
  }
  basic_stream(basic_stream&&) = default;
  basic_stream& operator=(basic_stream&&) = default;

  Executor get_executor() noexcept
  {
    return p_->s.get_executor();
  }
  socket_type& socket() noexcept
  {
    return p_->s;
  }
  const socket_type& socket() const noexcept
  {
    return p_->s;
  }
  socket_type release_socket()
  {
    return std::move(p_->s);
  }
  template <typename D>
  void expires_after(D d)
  {
    p_->until = p_->s.get_executor().sched().now() + d;
  }
  void expires_at(std::chrono::steady_clock::time_point t)
  {
    p_->until = t;
  }
  void expires_never()
  {
    p_->until = std::chrono::steady_clock::time_point::max();
  }
  void close()
  {
    p_->s.close();
  }
  void cancel()
  {
    p_->s.close();
  }
  error_code connect(const endpoint_type& e, error_code& ec)
  {
    return p_->s.connect(e, ec);
  }
  void connect(const endpoint_type& e)
  {
    error_code ec;
    if (connect(e, ec)) {
      throw system_error(ec);
    }
  }
  template <typename Token>
  auto async_connect(const endpoint_type& e, Token&& token)
  {
    auto p = p_;
    return asio::async_initiate<Token, void(error_code)>(
        [p, e](auto&& handler) {
          error_code ec;
          p->s.connect(e, ec);
          auto h = asio::standin::erased<void(error_code)>(
                       std::forward<decltype(handler)>(handler))
                       .f;
          p->s.get_executor().sched().post([h, ec] { h(ec); });
        },
        token);
  }
  template <typename Endpoints, typename Token>
    requires(!std::convertible_to<const Endpoints&, endpoint_type>)
  auto async_connect(const Endpoints& es, Token&& token)
  {
    return async_connect(endpoint_type(*es.begin()),
                         std::forward<Token>(token));
  }
  template <typename Buffers, typename Token>
  auto async_read_some(const Buffers& bs, Token&& token)
  {
    auto p = p_;
    return asio::async_initiate<Token, void(error_code, std::size_t)>(
        [p](auto&& handler, std::vector<asio::mutable_buffer> v) {
          run(p,
              asio::standin::erase_io(std::forward<decltype(handler)>(handler)),
              [p, v](auto h) { p->s.async_read_some(v, std::move(h)); });
        },
        token,
        asio::standin::scatter(bs));
  }
  template <typename Buffers, typename Token>
  auto async_write_some(const Buffers& bs, Token&& token)
  {
    auto p = p_;
    return asio::async_initiate<Token, void(error_code, std::size_t)>(
        [p](auto&& handler, std::vector<asio::const_buffer> v) {
          run(p,
              asio::standin::erase_io(std::forward<decltype(handler)>(handler)),
              [p, v](auto h) { p->s.async_write_some(v, std::move(h)); });
        },
        token,
        asio::standin::gather(bs));
  }
};
using tcp_stream = basic_stream<asio::ip::tcp>;

// -------------------------------------------------------------------- HTTP
namespace http {
enum class status : unsigned {
  unknown = 0,
#define STANDIN_STATUS(e, n, t) e = n,
#include <boost/beast/status_names.ipp>
#undef STANDIN_STATUS
};
inline status int_to_status(unsigned v)
{
  switch (v) {
#define STANDIN_STATUS(e, n, t) case n:
#include <boost/beast/status_names.ipp>
#undef STANDIN_STATUS
    return static_cast<status>(v);
  default:
    return status::unknown;
  }
}
inline string_view obsolete_reason(status s)
{
  switch (s) {
#define STANDIN_STATUS(e, n, t)                                                \
  case status::e:                                                              \
    return t;
#include <boost/beast/status_names.ipp>
#undef STANDIN_STATUS
  default:
    return "<unknown-status>";
  }
}
inline std::ostream& operator<<(std::ostream& os, status s)
{
  return os << obsolete_reason(s);
}
enum class status_class : unsigned {
  unknown = 0,
  informational = 1,
  successful = 2,
  redirection = 3,
  client_error = 4,
  server_error = 5,
};
inline status_class to_status_class(unsigned v)
{
  return v / 100 >= 1 && v / 100 <= 5 ? static_cast<status_class>(v / 100)
                                      : status_class::unknown;
}
inline status_class to_status_class(status v)
{
  return to_status_class(static_cast<unsigned>(v));
}

enum class verb {
  unknown = 0,
#define STANDIN_VERB(e, t) e,
#include <boost/beast/verb_names.ipp>
#undef STANDIN_VERB
};
inline verb string_to_verb(string_view s)
{
#define STANDIN_VERB(e, t)                                                     \
  if (s == t) {                                                                \
    return verb::e;                                                            \
  }
#include <boost/beast/verb_names.ipp>
#undef STANDIN_VERB
  return verb::unknown;
}
inline string_view to_string(verb v)
{
  switch (v) {
#define STANDIN_VERB(e, t)                                                     \
  case verb::e:                                                                \
    return t;
#include <boost/beast/verb_names.ipp>
#undef STANDIN_VERB
  case verb::unknown:
    return "<unknown>";
  }
  throw std::invalid_argument("unknown verb");
}
inline std::ostream& operator<<(std::ostream& os, verb v)
{
  return os << to_string(v);
}

enum class field : unsigned short {
#define STANDIN_FIELD(e, t) e,
#include <boost/beast/field_names.ipp>
#undef STANDIN_FIELD
};
inline string_view to_string(field f)
{
  static constexpr const char* names[] = {
#define STANDIN_FIELD(e, t) t,
#include <boost/beast/field_names.ipp>
#undef STANDIN_FIELD
  };
  return names[static_cast<unsigned>(f)];
}
inline field string_to_field(string_view s)
{
  static const auto known = [] {
    std::map<std::string, field, iless> m;
#define STANDIN_FIELD(e, t) m.emplace(t, field::e);
#include <boost/beast/field_names.ipp>
#undef STANDIN_FIELD
    m.erase("<unknown-field>");
    return m;
  }();
  auto it = known.find(std::string(s.data(), s.size()));
  return it == known.end() ? field::unknown : it->second;
}
inline std::ostream& operator<<(std::ostream& os, field f)
{
  return os << to_string(f);
}

enum class error {
  end_of_stream = 1,
  partial_message,
  need_more,
  unexpected_body,
  need_buffer,
  end_of_chunk,
  buffer_overflow,
  header_limit,
  body_limit,
  bad_alloc,
  bad_line_ending,
  bad_method,
  bad_target,
  bad_version,
  bad_status,
  bad_reason,
  bad_field,
  bad_value,
  bad_content_length,
  bad_transfer_encoding,
  bad_chunk,
  bad_chunk_extension,
  bad_obs_fold,
  multiple_content_length,
  stale_parser,
  short_read
};
namespace standin {
struct http_category_t : std::error_category {
  const char* name() const noexcept override
  {
    return "beast.http";
  }
  std::string message(int v) const override
  {
    static constexpr const char* texts[]
        = { "",
            "end of stream",
            "partial message",
            "need more",
            "unexpected body",
            "need buffer",
            "end of chunk",
            "buffer overflow",
            "header limit exceeded",
            "body limit exceeded",
            "bad alloc",
            "bad line ending",
            "bad method",
            "bad target",
            "bad version",
            "bad status",
            "bad reason",
            "bad field",
            "bad value",
            "bad Content-Length",
            "bad Transfer-Encoding",
            "bad chunk",
            "bad chunk extension",
            "bad obs-fold",
            "multiple Content-Length",
            "stale parser",
            "unexpected eof in body" };
    return v > 0 && v < static_cast<int>(std::size(texts)) ? texts[v]
                                                           : "beast.http error";
  }
};
inline const std::error_category& http_category()
{
  static http_category_t c;
  return c;
}
}
inline std::error_code make_error_code(error e)
{
  return { static_cast<int>(e), standin::http_category() };
}
}
}
template <>
struct std::is_error_code_enum<boost::beast::error> : std::true_type { };
template <>
struct std::is_error_code_enum<boost::beast::http::error> : std::true_type { };

namespace boost::beast::http {
class token_list {
  std::string_view s_;

public:
  explicit token_list(string_view s)
      : s_(s)
  {
  }
  bool exists(string_view t) const
  {
    for (auto x : beast::standin::tokens(s_)) {
      if (iequals(x, t)) {
        return true;
      }
    }
    return false;
  }
};

// the header fields: a list in which equal names stand together
class fields {
public:
  class value_type {
    friend class fields;
    field f_;
    std::string name_;
    std::string value_;

  public:
    value_type(field f, std::string_view n, std::string_view v)
        : f_(f)
        , name_(n)
        , value_(v)
    {
    }
    field name() const
    {
      return f_;
    }
    string_view name_string() const
    {
      return name_;
    }
    string_view value() const
    {
      return value_;
    }
  };

private:
  std::list<value_type> l_;

public:
  using const_iterator = std::list<value_type>::const_iterator;
  using iterator = const_iterator;

  fields() = default;
  fields(const fields&) = default;
  fields(fields&& o) noexcept
      : l_(std::move(o.l_))
  {
    o.l_.clear();
  }
  fields& operator=(const fields&) = default;
  fields& operator=(fields&& o) noexcept
  {
    if (this != &o) {
      l_ = std::move(o.l_);
      o.l_.clear();
    }
    return *this;
  }
  const_iterator begin() const
  {
    return l_.begin();
  }
  const_iterator end() const
  {
    return l_.end();
  }
  const_iterator cbegin() const
  {
    return l_.begin();
  }
  const_iterator cend() const
  {
    return l_.end();
  }
  void clear()
  {
    l_.clear();
  }
  const_iterator find(string_view n) const
  {
    return std::find_if(
        l_.begin(), l_.end(), [&](auto& e) { return iequals(e.name_, n); });
  }
  const_iterator find(field f) const
  {
    return find(to_string(f));
  }
  std::size_t count(string_view n) const
  {
    return static_cast<std::size_t>(std::count_if(
        l_.begin(), l_.end(), [&](auto& e) { return iequals(e.name_, n); }));
  }
  std::size_t count(field f) const
  {
    return count(to_string(f));
  }
  bool contains(field f) const
  {
    return count(f) != 0;
  }
  bool contains(string_view n) const
  {
    return count(n) != 0;
  }
  std::pair<const_iterator, const_iterator> equal_range(string_view n) const
  {
    auto a = find(n);
    auto b = a;
    while (b != l_.end() && iequals(b->name_, n)) {
      ++b;
    }
    return { a, b };
  }
  std::pair<const_iterator, const_iterator> equal_range(field f) const
  {
    return equal_range(to_string(f));
  }
  string_view operator[](string_view n) const
  {
    auto it = find(n);
    return it == l_.end() ? string_view() : it->value();
  }
  string_view operator[](field f) const
  {
    return (*this)[to_string(f)];
  }
  string_view at(string_view n) const
  {
    auto it = find(n);
    if (it == l_.end()) {
      throw std::out_of_range("field not found");
    }
    return it->value();
  }
  string_view at(field f) const
  {
    auto it = find(f);
    if (it == l_.end()) {
      throw std::out_of_range("field not found");
    }
    return it->value();
  }
  void insert(string_view n, string_view v)
  {
    put(string_to_field(n), n, v);
  }
  void insert(field f, string_view v)
  {
    put(f, to_string(f), v);
  }
  void insert(field f, string_view n, string_view v)
  {
    put(f, n, v);
  }
  void set(string_view n, string_view v)
  {
    value_type e(string_to_field(n), n, v);
    erase(std::string_view(e.name_));
    l_.push_back(std::move(e));
  }
  void set(field f, string_view v)
  {
    value_type e(f, to_string(f), v);
    erase(f);
    l_.push_back(std::move(e));
  }
  std::size_t erase(string_view n)
  {
    std::string key(n.data(), n.size());
    return std::erase_if(l_, [&](auto& e) { return iequals(e.name_, key); });
  }
  std::size_t erase(field f)
  {
    return erase(to_string(f));
  }
  const_iterator erase(const_iterator it)
  {
    return l_.erase(it);
  }
  void swap(fields& o)
  {
    l_.swap(o.l_);
  }

protected:
  bool chunked_impl() const
  {
    auto t = beast::standin::tokens((*this)[field::transfer_encoding]);
    return !t.empty() && iequals(t.back(), "chunked");
  }
  bool keep_alive_impl(unsigned version) const
  {
    token_list l((*this)[field::connection]);
    return version < 11 ? l.exists("keep-alive") : !l.exists("close");
  }
  void set_keep_alive_impl(unsigned version, bool keep)
  {
    std::string v;
    auto add = [&](std::string_view t) {
      v += (v.empty() ? "" : ", ") + std::string(t);
    };
    for (auto t : beast::standin::tokens((*this)[field::connection])) {
      if (!iequals(t, "close") && !iequals(t, "keep-alive")) {
        add(t);
      }
    }
    if (version < 11 && keep) {
      add("keep-alive");
    }
    if (version >= 11 && !keep) {
      add("close");
    }
    if (v.empty()) {
      erase(field::connection);
    } else {
      set(field::connection, v);
    }
  }
  void set_chunked_impl(bool on)
  {
    auto it = find(field::transfer_encoding);
    if (on) {
      if (it == end()) {
        set(field::transfer_encoding, "chunked");
      } else if (!chunked_impl()) {
        std::string v(it->value());
        set(field::transfer_encoding, v.empty() ? "chunked" : v + ", chunked");
      }
    } else if (it != end() && chunked_impl()) {
      std::string v;
      auto t = beast::standin::tokens(it->value());
      for (std::size_t i = 0; i + 1 < t.size(); ++i) {
        v += (v.empty() ? "" : ", ") + std::string(t[i]);
      }
      if (v.empty()) {
        erase(field::transfer_encoding);
      } else {
        set(field::transfer_encoding, v);
      }
    }
  }
  void set_content_length_impl(std::optional<std::uint64_t> n)
  {
    if (n) {
      set(field::content_length, std::to_string(*n));
    } else {
      erase(field::content_length);
    }
  }

private:
  void put(field f, string_view n, string_view v)
  {
    value_type e(f, n, v);
    auto at = l_.end();
    for (auto it = l_.begin(); it != l_.end(); ++it) {
      if (iequals(it->name_, e.name_)) {
        at = std::next(it);
      }
    }
    l_.insert(at, std::move(e));
  }
};

template <bool isRequest, typename Fields = fields>
class header;
template <typename Fields>
class header<true, Fields> : public Fields {
  verb m_ = verb::unknown;
  std::string method_;
  std::string target_;
  unsigned v_ = 11;

public:
  static constexpr bool is_request = true;
  using fields_type = Fields;
  header() = default;
  header(verb m, string_view t, unsigned v)
      : m_(m)
      , target_(t)
      , v_(v)
  {
  }
  unsigned version() const noexcept
  {
    return v_;
  }
  void version(unsigned v) noexcept
  {
    v_ = v;
  }
  verb method() const
  {
    return m_;
  }
  void method(verb m)
  {
    if (m == verb::unknown) {
      throw std::invalid_argument("verb");
    }
    m_ = m;
    method_.clear();
  }
  string_view method_string() const
  {
    if (m_ != verb::unknown) {
      return to_string(m_);
    }
    return method_;
  }
  void method_string(string_view s)
  {
    m_ = string_to_verb(s);
    method_ = m_ == verb::unknown ? std::string(s) : std::string();
  }
  string_view target() const
  {
    return target_;
  }
  void target(string_view s)
  {
    target_ = std::string(s);
  }
};
template <typename Fields>
class header<false, Fields> : public Fields {
  status r_ = status::ok;
  std::string reason_;
  unsigned v_ = 11;

public:
  static constexpr bool is_request = false;
  using fields_type = Fields;
  header() = default;
  header(status r, unsigned v)
      : r_(r)
      , v_(v)
  {
  }
  unsigned version() const noexcept
  {
    return v_;
  }
  void version(unsigned v) noexcept
  {
    v_ = v;
  }
  status result() const
  {
    return int_to_status(static_cast<unsigned>(r_));
  }
  void result(status s)
  {
    r_ = s;
  }
  void result(unsigned v)
  {
    if (v > 999) {
      throw std::invalid_argument("status-code");
    }
    r_ = static_cast<status>(v);
  }
  unsigned result_int() const
  {
    return static_cast<unsigned>(r_);
  }
  string_view reason() const
  {
    if (!reason_.empty()) {
      return reason_;
    }
    return obsolete_reason(r_);
  }
  void reason(string_view s)
  {
    reason_ = std::string(s);
  }
};

// ------------------------------------------------------------------ bodies
struct empty_body {
  struct value_type { };
  static std::uint64_t size(const value_type&)
  {
    return 0;
  }
  static std::string bytes(const value_type&)
  {
    return {};
  }
  static std::size_t take(value_type&, const char*, std::size_t n, error_code& ec)
  {
    ec = n == 0 ? error_code() : make_error_code(error::unexpected_body);
    return 0;
  }
};
struct buffer_body {
  struct value_type {
    void* data = nullptr;
    std::size_t size = 0;
    bool more = true;
  };
  static std::size_t take(value_type& v, const char* p, std::size_t n, error_code& ec)
  {
    if (!v.data) {
      ec = make_error_code(error::need_buffer);
      return 0;
    }
    auto k = std::min(n, v.size);
    if (k != 0) {
      std::memcpy(v.data, p, k);
    }
    v.data = static_cast<char*>(v.data) + k;
    v.size -= k;
    ec = k == n ? error_code() : make_error_code(error::need_buffer);
    return k;
  }
};
template <typename T, typename A = std::allocator<T>>
struct vector_body {
  static_assert(sizeof(T) == 1);
  using value_type = std::vector<T, A>;
  static std::uint64_t size(const value_type& v)
  {
    return v.size();
  }
  static std::string bytes(const value_type& v)
  {
    return std::string(reinterpret_cast<const char*>(v.data()), v.size());
  }
  static std::size_t take(value_type& v, const char* p, std::size_t n, error_code& ec)
  {
    auto q = reinterpret_cast<const T*>(p);
    v.insert(v.end(), q, q + n);
    ec = {};
    return n;
  }
};
struct string_body {
  using value_type = std::string;
  static std::uint64_t size(const value_type& v)
  {
    return v.size();
  }
  static std::string bytes(const value_type& v)
  {
    return v;
  }
  static std::size_t take(value_type& v, const char* p, std::size_t n, error_code& ec)
  {
    v.append(p, n);
    ec = {};
    return n;
  }
};

template <bool isRequest, typename Body, typename Fields = fields>
class message : public header<isRequest, Fields> {
  typename Body::value_type body_ {};

public:
  using header_type = header<isRequest, Fields>;
  using body_type = Body;
  message() = default;
  message(verb m, string_view t, unsigned v)
    requires isRequest
      : header_type(m, t, v)
  {
  }
  message(status s, unsigned v)
    requires(!isRequest)
      : header_type(s, v)
  {
  }
  message(verb m, string_view t, unsigned v, typename Body::value_type b)
    requires isRequest
      : header_type(m, t, v)
      , body_(std::move(b))
  {
  }
  message(status s, unsigned v, typename Body::value_type b)
    requires(!isRequest)
      : header_type(s, v)
      , body_(std::move(b))
  {
  }
  header_type& base()
  {
    return *this;
  }
  const header_type& base() const
  {
    return *this;
  }
  typename Body::value_type& body() noexcept
  {
    return body_;
  }
  const typename Body::value_type& body() const noexcept
  {
    return body_;
  }
  bool chunked() const
  {
    return this->chunked_impl();
  }
  void chunked(bool on)
  {
    this->set_chunked_impl(on);
    this->set_content_length_impl(std::nullopt);
  }
  bool has_content_length() const
  {
    return this->count(field::content_length) > 0;
  }
  void content_length(std::optional<std::uint64_t> n)
  {
    this->set_content_length_impl(n);
    this->set_chunked_impl(false);
  }
  void content_length(none_t)
  {
    content_length(std::optional<std::uint64_t>());
  }
  bool keep_alive() const
  {
    return this->keep_alive_impl(this->version());
  }
  void keep_alive(bool v)
  {
    this->set_keep_alive_impl(this->version(), v);
  }
  bool need_eof() const
  {
    if constexpr (isRequest) {
      return false;
    } else {
      if (this->result() == status::no_content
          || this->result() == status::not_modified
          || to_status_class(this->result()) == status_class::informational
          || has_content_length() || chunked()) {
        return !keep_alive();
      }
      return true;
    }
  }
  std::optional<std::uint64_t> payload_size() const
  {
    if constexpr (requires { Body::size(body_); }) {
      return Body::size(body_);
    } else {
      return std::nullopt;
    }
  }
  void prepare_payload()
  {
    auto n = payload_size();
    if constexpr (isRequest) {
      if (this->method() == verb::trace && (!n || *n > 0)) {
        throw std::invalid_argument("invalid request body");
      }
      if (n) {
        if (*n > 0 || this->method() == verb::options
            || this->method() == verb::put || this->method() == verb::post) {
          content_length(n);
        } else {
          chunked(false);
        }
        return;
      }
    } else {
      if ((!n || *n > 0)
          && (to_status_class(this->result()) == status_class::informational
              || this->result() == status::no_content
              || this->result() == status::not_modified)) {
        throw std::invalid_argument("invalid response body");
      }
      if (n) {
        content_length(n);
        return;
      }
    }
    chunked(this->version() == 11);
  }
};
template <typename Body, typename Fields = fields>
using request = message<true, Body, Fields>;
template <typename Body, typename Fields = fields>
using response = message<false, Body, Fields>;

namespace standin {
template <bool R, typename Fields>
std::string head_of(const header<R, Fields>& h)
{
  std::string s;
  std::string version
      = "HTTP/" + std::to_string(h.version() / 10) + "."
      + std::to_string(h.version() % 10);
  if constexpr (R) {
    s = std::string(h.method_string()) + " " + std::string(h.target()) + " "
        + version;
  } else {
    auto n = h.result_int();
    s = version + " ";
    s += static_cast<char>('0' + n / 100 % 10);
    s += static_cast<char>('0' + n / 10 % 10);
    s += static_cast<char>('0' + n % 10);
    s += " " + std::string(h.reason());
  }
  s += "\r\n";
  for (auto& f : h) {
    s += std::string(f.name_string()) + ": " + std::string(f.value()) + "\r\n";
  }
  return s + "\r\n";
}
inline std::string chunk_of(std::string_view data)
{
  char size[20];
  std::snprintf(size, sizeof size, "%zx", data.size());
  return std::string(size) + "\r\n" + std::string(data) + "\r\n";
}
template <bool R, typename Body, typename Fields>
std::string payload_of(const message<R, Body, Fields>& m)
{
  auto b = Body::bytes(m.body());
  if (!m.chunked()) {
    return b;
  }
  return (b.empty() ? "" : chunk_of(b)) + "0\r\n\r\n";
}
}

// ------------------------------------------------------------------ parser
template <bool isRequest>
class basic_parser {
protected:
  enum class st { head, body, to_eof, chunk_size, chunk_data, chunk_end, trailer, done };
  st s_ = st::head;
  bool got_some_ = false;
  bool eager_ = false;
  bool skip_ = false;
  bool sized_ = false;
  bool chunked_ = false;
  std::uint64_t left_ = 0;
  std::optional<std::uint64_t> body_limit_
      = isRequest ? 1024 * 1024 : 8 * 1024 * 1024;
  std::uint32_t header_limit_ = 8192;
  std::uint64_t trailer_ = 0;

public:
  bool got_some() const
  {
    return got_some_;
  }
  bool is_done() const
  {
    return s_ == st::done;
  }
  bool is_header_done() const
  {
    return s_ != st::head;
  }
  bool eager() const
  {
    return eager_;
  }
  void eager(bool v)
  {
    eager_ = v;
  }
  void skip(bool v)
  {
    skip_ = v;
  }
  bool chunked() const
  {
    return chunked_;
  }
  std::uint64_t standin_left() const
  {
    return left_;
  }
  void header_limit(std::uint32_t n)
  {
    header_limit_ = n;
  }
  void body_limit(std::uint64_t n)
  {
    body_limit_ = n;
  }
  void body_limit(none_t)
  {
    body_limit_.reset();
  }
};

template <bool isRequest, typename Body>
class parser : public basic_parser<isRequest> {
  using base = basic_parser<isRequest>;
  using st = typename base::st;
  message<isRequest, Body> m_;

public:
  using value_type = message<isRequest, Body>;
  parser() = default;
  parser(const parser&) = delete;
  parser(parser&&) = default;
  value_type& get()
  {
    return m_;
  }
  const value_type& get() const
  {
    return m_;
  }
  value_type release()
  {
    return std::move(m_);
  }
  bool keep_alive() const
  {
    return m_.keep_alive();
  }
  bool upgrade() const
  {
    return token_list(m_[field::connection]).exists("upgrade");
  }

  std::size_t put(asio::const_buffer b, error_code& ec)
  {
    if (this->is_done()) {
      ec = make_error_code(error::stale_parser);
      return 0;
    }
    std::string_view all(static_cast<const char*>(b.data()), b.size());
    auto rest = all;
    ec = {};
    if (all.empty() && this->s_ == st::head) {
      ec = make_error_code(error::need_more);
      return 0;
    }
    this->got_some_ = true;
    for (;;) {
      auto before = rest.size();
      auto was = this->s_;
      step(rest, ec);
      if (ec || rest.empty() || this->is_done() || !this->eager_
          || (rest.size() == before && this->s_ == was)) {
        break;
      }
    }
    return all.size() - rest.size();
  }
  void put_eof(error_code& ec)
  {
    ec = {};
    if (this->s_ == st::to_eof) {
      this->s_ = st::done;
    } else if (!this->is_done()) {
      ec = make_error_code(error::partial_message);
    }
  }

private:
  void fail(error_code& ec, error e)
  {
    ec = make_error_code(e);
  }
  void step(std::string_view& in, error_code& ec)
  {
    switch (this->s_) {
    case st::head: {
      auto end = in.find("\r\n\r\n");
      if (end == in.npos || end + 4 > this->header_limit_) {
        return fail(ec,
                    in.size() >= this->header_limit_ ? error::header_limit
                                                     : error::need_more);
      }
      auto text = in.substr(0, end + 2);
      in.remove_prefix(end + 4);
      head(text, ec);
      return;
    }
    case st::body: {
      auto n = std::min<std::uint64_t>(this->left_, in.size());
      auto used = Body::take(m_.body(), in.data(), n, ec);
      in.remove_prefix(used);
      this->left_ -= used;
      if (!ec && this->left_ == 0) {
        this->s_ = st::done;
      }
      return;
    }
    case st::to_eof: {
      if (this->body_limit_) {
        if (in.size() > *this->body_limit_) {
          return fail(ec, error::body_limit);
        }
        *this->body_limit_ -= in.size();
      }
      in.remove_prefix(Body::take(m_.body(), in.data(), in.size(), ec));
      return;
    }
    case st::chunk_size: {
      auto eol = in.find("\r\n");
      if (eol == in.npos) {
        return fail(ec, in.size() > 16384 ? error::bad_chunk : error::need_more);
      }
      auto line = in.substr(0, eol);
      std::uint64_t n = 0;
      std::size_t i = 0;
      for (; i < line.size() && std::isxdigit(static_cast<unsigned char>(line[i])); ++i) {
        if (n >> 60) {
          return fail(ec, error::bad_chunk);
        }
        auto c = beast::standin::lower(line[i]);
        n = n * 16 + static_cast<std::uint64_t>(c <= '9' ? c - '0' : c - 'a' + 10);
      }
      if (i == 0) {
        return fail(ec, error::bad_chunk);
      }
      auto ext = beast::standin::trim(line.substr(i));
      if (!ext.empty() && ext[0] != ';') {
        return fail(ec, error::bad_chunk_extension);
      }
      if (n != 0 && this->body_limit_) {
        if (n > *this->body_limit_) {
          return fail(ec, error::body_limit);
        }
        *this->body_limit_ -= n;
      }
      in.remove_prefix(eol + 2);
      this->left_ = n;
      this->s_ = n == 0 ? st::trailer : st::chunk_data;
      // the last chunk's header and trailer are taken together
      if (n != 0 || in.empty()) {
        if (n == 0 && in.empty()) {
          fail(ec, error::need_more);
        }
        return;
      }
      return step(in, ec);
    }
    case st::chunk_data: {
      auto n = std::min<std::uint64_t>(this->left_, in.size());
      auto used = Body::take(m_.body(), in.data(), n, ec);
      in.remove_prefix(used);
      this->left_ -= used;
      if (this->left_ == 0) {
        this->s_ = st::chunk_end;
      }
      return;
    }
    case st::chunk_end: {
      if (in.size() < 2) {
        return fail(ec, error::need_more);
      }
      if (in.substr(0, 2) != "\r\n") {
        return fail(ec, error::bad_chunk);
      }
      in.remove_prefix(2);
      this->s_ = st::chunk_size;
      if (in.empty()) {
        return fail(ec, error::need_more);
      }
      return;
    }
    case st::trailer: {
      auto eol = in.find("\r\n");
      if (eol == in.npos) {
        return fail(ec, in.size() > 16384 ? error::bad_field : error::need_more);
      }
      auto line = in.substr(0, eol);
      if (!line.empty()) {
        if (!one_field(line, ec)) {
          return;
        }
        in.remove_prefix(eol + 2);
        if (in.empty()) {
          return fail(ec, error::need_more);
        }
        return step(in, ec);
      }
      in.remove_prefix(2);
      this->s_ = st::done;
      return;
    }
    case st::done:
      return;
    }
  }
  bool one_field(std::string_view line, error_code& ec)
  {
    auto colon = line.find(':');
    if (colon == line.npos || colon == 0
        || !std::all_of(line.begin(), line.begin() + static_cast<std::ptrdiff_t>(colon), beast::standin::tchar)) {
      fail(ec, error::bad_field);
      return false;
    }
    auto name = line.substr(0, colon);
    auto value = beast::standin::trim(line.substr(colon + 1));
    for (unsigned char ch : value) {
      if ((ch < 32 && ch != '\t') || ch == 127) {
        fail(ec, error::bad_value);
        return false;
      }
    }
    auto f = string_to_field(name);
    if (f == field::content_length) {
      if (this->chunked_) {
        fail(ec, error::bad_content_length);
        return false;
      }
      std::size_t i = 0;
      if (value.empty()) {
        fail(ec, error::bad_content_length);
        return false;
      }
      while (i <= value.size()) {
        auto j = std::min(value.find(',', i), value.size());
        auto t = beast::standin::trim(value.substr(i, j - i));
        std::uint64_t n = 0;
        bool ok = !t.empty();
        for (char ch : t) {
          ok = ok && ch >= '0' && ch <= '9'
              && n <= (UINT64_MAX - static_cast<std::uint64_t>(ch - '0')) / 10;
          n = n * 10 + static_cast<std::uint64_t>(ch - '0');
        }
        if (!ok) {
          fail(ec, error::bad_content_length);
          return false;
        }
        if (this->sized_ && n != this->left_) {
          fail(ec, error::multiple_content_length);
          return false;
        }
        this->sized_ = true;
        this->left_ = n;
        i = j + 1;
      }
    } else if (f == field::transfer_encoding) {
      if (this->chunked_ || this->sized_) {
        fail(ec, error::bad_transfer_encoding);
        return false;
      }
      auto t = beast::standin::tokens(value);
      for (std::size_t i = 0; i < t.size(); ++i) {
        if (iequals(t[i], "chunked")) {
          this->chunked_ = i + 1 == t.size();
          break;
        }
      }
    }
    m_.insert(f, name, value);
    return true;
  }
  void head(std::string_view text, error_code& ec)
  {
    auto eol = text.find("\r\n");
    auto line = text.substr(0, eol);
    auto version_of = [&](std::string_view v) -> unsigned {
      return v == "HTTP/1.1" ? 11 : v == "HTTP/1.0" ? 10 : 0;
    };
    if constexpr (isRequest) {
      auto a = line.find(' ');
      if (a == line.npos || a == 0
          || !std::all_of(line.begin(), line.begin() + static_cast<std::ptrdiff_t>(a), beast::standin::tchar)) {
        return fail(ec, error::bad_method);
      }
      auto b = line.find(' ', a + 1);
      if (b == line.npos || b == a + 1) {
        return fail(ec, error::bad_target);
      }
      auto target = line.substr(a + 1, b - a - 1);
      for (unsigned char ch : target) {
        if (ch <= 32 || ch == 127) {
          return fail(ec, error::bad_target);
        }
      }
      auto v = version_of(line.substr(b + 1));
      if (!v) {
        return fail(ec, error::bad_version);
      }
      m_.method_string(line.substr(0, a));
      m_.target(target);
      m_.version(v);
    } else {
      auto v = version_of(line.substr(0, 8));
      if (!v || line.size() < 12 || line[8] != ' ') {
        return fail(ec, error::bad_version);
      }
      unsigned n = 0;
      for (int i = 9; i < 12; ++i) {
        if (line[static_cast<std::size_t>(i)] < '0' || line[static_cast<std::size_t>(i)] > '9') {
          return fail(ec, error::bad_status);
        }
        n = n * 10 + static_cast<unsigned>(line[static_cast<std::size_t>(i)] - '0');
      }
      if (line.size() > 12 && line[12] != ' ') {
        return fail(ec, error::bad_reason);
      }
      m_.version(v);
      m_.result(n);
      m_.reason(line.size() > 13 ? line.substr(13) : std::string_view());
    }
    std::size_t i = eol + 2;
    while (i < text.size()) {
      auto j = text.find("\r\n", i);
      if (!one_field(text.substr(i, j - i), ec)) {
        return;
      }
      i = j + 2;
    }
    bool none = this->skip_;
    if constexpr (!isRequest) {
      auto n = m_.result_int();
      none = none || n / 100 == 1 || n == 204 || n == 304;
    }
    if (none) {
      this->s_ = st::done;
    } else if (this->sized_) {
      if (this->body_limit_ && this->left_ > *this->body_limit_) {
        return fail(ec, error::body_limit);
      }
      this->s_ = this->left_ == 0 ? st::done : st::body;
    } else if (this->chunked_) {
      this->s_ = st::chunk_size;
    } else {
      this->s_ = isRequest ? st::done : st::to_eof;
    }
  }
};
template <typename Body>
using request_parser = parser<true, Body>;
template <typename Body>
using response_parser = parser<false, Body>;

// ------------------------------------------------------- reading messages
namespace standin {
template <typename Stream, typename Parser>
struct read_op : std::enable_shared_from_this<read_op<Stream, Parser>> {
  Stream& s;
  flat_buffer& b;
  Parser& p;
  bool head_only;
  std::size_t total = 0;
  asio::standin::io_handler h;

  read_op(Stream& s_, flat_buffer& b_, Parser& p_, bool ho, asio::standin::io_handler h_)
      : s(s_)
      , b(b_)
      , p(p_)
      , head_only(ho)
      , h(std::move(h_))
  {
  }
  bool finished() const
  {
    return head_only ? p.is_header_done() : p.is_done();
  }
  void post(error_code ec)
  {
    auto self = this->shared_from_this();
    s.get_executor().sched().post([self, ec] { self->h(ec, self->total); });
  }
  void start()
  {
    p.eager(!head_only);
    if (finished()) {
      return post({});
    }
    go(true);
  }
  // parses what is there, then reads more until the condition holds
  void go(bool first)
  {
    for (;;) {
      if (b.size() == 0) {
        return more();
      }
      error_code ec;
      auto used = p.put(b.data(), ec);
      total += used;
      b.consume(used);
      if (ec == make_error_code(error::need_more)) {
        return more();
      }
      if (ec || finished()) {
        return first ? post(ec) : h(ec, total);
      }
    }
  }
  void more()
  {
    auto self = this->shared_from_this();
    s.async_read_some(b.prepare(65536), [self](error_code ec, std::size_t n) {
      self->b.commit(n);
      if (ec == asio::error::eof) {
        if (self->p.got_some()) {
          ec = {};
          self->p.put_eof(ec);
        } else {
          ec = make_error_code(error::end_of_stream);
        }
        self->h(ec, self->total);
      } else if (ec) {
        self->h(ec, self->total);
      } else {
        self->go(false);
      }
    });
  }
};
template <typename Stream, typename Parser, typename Token>
auto read(Stream& s, flat_buffer& b, Parser& p, bool head_only, Token&& token)
{
  auto* sp = &s;
  auto* bp = &b;
  auto* pp = &p;
  return asio::async_initiate<Token, void(error_code, std::size_t)>(
      [sp, bp, pp, head_only](auto&& handler) {
        std::make_shared<read_op<Stream, Parser>>(
            *sp,
            *bp,
            *pp,
            head_only,
            asio::standin::erase_io(std::forward<decltype(handler)>(handler)))
            ->start();
      },
      token);
}
}
template <typename Stream, bool R, typename Body, typename Token>
auto async_read_header(Stream& s, flat_buffer& b, parser<R, Body>& p, Token&& token)
{
  return standin::read(s, b, p, true, std::forward<Token>(token));
}
template <typename Stream, bool R, typename Body, typename Token>
auto async_read(Stream& s, flat_buffer& b, parser<R, Body>& p, Token&& token)
{
  return standin::read(s, b, p, false, std::forward<Token>(token));
}
template <typename Stream, bool R, typename Body, typename Fields, typename Token>
auto async_read(Stream& s, flat_buffer& b, message<R, Body, Fields>& m, Token&& token)
{
  auto* sp = &s;
  auto* bp = &b;
  auto* mp = &m;
  return asio::async_initiate<Token, void(error_code, std::size_t)>(
      [sp, bp, mp](auto&& handler) {
        auto p = std::make_shared<parser<R, Body>>();
        auto h = asio::standin::erase_io(std::forward<decltype(handler)>(handler));
        async_read(*sp, *bp, *p, [p, mp, h](error_code ec, std::size_t n) {
          if (!ec) {
            *mp = p->release();
          }
          h(ec, n);
        });
      },
      token);
}

// ------------------------------------------------------- writing messages
template <bool isRequest, typename Body, typename Fields = fields>
class serializer {
  const message<isRequest, Body, Fields>& m_;
  bool head_ = false;
  bool done_ = false;

public:
  explicit serializer(const message<isRequest, Body, Fields>& m)
      : m_(m)
  {
  }
  const message<isRequest, Body, Fields>& get() const
  {
    return m_;
  }
  bool is_header_done() const
  {
    return head_;
  }
  bool is_done() const
  {
    return done_;
  }
  std::string standin_head()
  {
    head_ = true;
    return standin::head_of(m_);
  }
  std::string standin_rest()
  {
    std::string s;
    if (!head_) {
      s = standin_head();
    }
    if (!done_) {
      s += standin::payload_of(m_);
    }
    done_ = true;
    return s;
  }
};
template <typename Body, typename Fields = fields>
using request_serializer = serializer<true, Body, Fields>;
template <typename Body, typename Fields = fields>
using response_serializer = serializer<false, Body, Fields>;

namespace standin {
template <typename Stream, typename Token>
auto write_text(Stream& s, std::string text, Token&& token)
{
  auto* sp = &s;
  return asio::async_initiate<Token, void(error_code, std::size_t)>(
      [sp](auto&& handler, std::string d) {
        if (d.empty()) {
          auto h = asio::standin::erase_io(std::forward<decltype(handler)>(handler));
          sp->get_executor().sched().post([h] { h({}, 0); });
          return;
        }
        asio::standin::write_all<Stream>::step(
            std::make_shared<asio::standin::write_all<Stream>>(
                asio::standin::write_all<Stream> {
                    *sp,
                    std::move(d),
                    0,
                    asio::standin::erase_io(std::forward<decltype(handler)>(handler)) }));
      },
      token,
      std::move(text));
}
}
template <typename Stream, bool R, typename Body, typename Fields, typename Token>
auto async_write_header(Stream& s, serializer<R, Body, Fields>& sr, Token&& token)
{
  return standin::write_text(s, sr.standin_head(), std::forward<Token>(token));
}
template <typename Stream, bool R, typename Body, typename Fields, typename Token>
auto async_write(Stream& s, serializer<R, Body, Fields>& sr, Token&& token)
{
  return standin::write_text(s, sr.standin_rest(), std::forward<Token>(token));
}
template <typename Stream, bool R, typename Body, typename Fields, typename Token>
auto async_write(Stream& s, const message<R, Body, Fields>& m, Token&& token)
{
  return standin::write_text(
      s, standin::head_of(m) + standin::payload_of(m), std::forward<Token>(token));
}
struct chunk_text {
  using value_type = asio::const_buffer;
  std::shared_ptr<std::string> s;
  std::array<asio::const_buffer, 1> b;
  explicit chunk_text(std::string t)
      : s(std::make_shared<std::string>(std::move(t)))
      , b { asio::const_buffer(s->data(), s->size()) }
  {
  }
  auto begin() const
  {
    return b.begin();
  }
  auto end() const
  {
    return b.end();
  }
};
template <typename Buffers>
chunk_text make_chunk(const Buffers& b)
{
  return chunk_text(standin::chunk_of(
      asio::standin::flatten(asio::standin::gather(b))));
}
inline chunk_text make_chunk_last()
{
  return chunk_text("0\r\n\r\n");
}
}

#include <boost/beast/websocket.ipp>
#include <boost/beast/zlib.ipp>
