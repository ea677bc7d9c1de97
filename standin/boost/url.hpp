// Stand-in for Boost.URL: origin-form targets (RFC 9112 section 3.2.1) and
// query strings. Percent escapes are decoded; in query keys and values "+"
// decodes to a space, as Boost.URL does by default.
#pragma once
#include <boost/standin_system.hpp>
#include <string>
#include <string_view>
#include <vector>

namespace boost::urls {
enum class error { success, missing_pct_hexdig = 3, invalid };
enum class scheme { none, unknown, http, https };
inline std::string_view to_string(scheme s)
{
  return s == scheme::http ? "http" : s == scheme::https ? "https" : "";
}
namespace standin {
inline bool unreserved(unsigned char c)
{
  return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z')
      || (c >= 'a' && c <= 'z') || c == '-' || c == '.' || c == '_'
      || c == '~';
}
inline bool sub_delim(unsigned char c)
{
  return std::string_view("!$&'()*+,;=").find(static_cast<char>(c))
      != std::string_view::npos;
}
inline bool pchar(unsigned char c)
{
  return unreserved(c) || sub_delim(c) || c == ':' || c == '@';
}
inline bool path_char(unsigned char c)
{
  return c != 0 && (pchar(c) || c == '/');
}
inline bool query_char(unsigned char c)
{
  return c != 0 && (pchar(c) || c == '/' || c == '?');
}
inline int hex(char c)
{
  return c >= '0' && c <= '9' ? c - '0'
      : c >= 'a' && c <= 'f'  ? c - 'a' + 10
      : c >= 'A' && c <= 'F'  ? c - 'A' + 10
                              : -1;
}
template <typename Pred>
bool valid(std::string_view s, Pred pred)
{
  for (std::size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%') {
      if (i + 2 >= s.size() || hex(s[i + 1]) < 0 || hex(s[i + 2]) < 0) {
        return false;
      }
      i += 2;
    } else if (!pred(static_cast<unsigned char>(s[i]))) {
      return false;
    }
  }
  return true;
}
inline std::string decode(std::string_view s, bool plus)
{
  std::string out;
  for (std::size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%') {
      out += static_cast<char>(hex(s[i + 1]) * 16 + hex(s[i + 2]));
      i += 2;
    } else {
      out += plus && s[i] == '+' ? ' ' : s[i];
    }
  }
  return out;
}
template <typename Pred>
std::string encode(std::string_view s, Pred pred)
{
  std::string out;
  for (auto ch : s) {
    auto c = static_cast<unsigned char>(ch);
    if (pred(c)) {
      out += ch;
    } else {
      out += '%';
      out += "0123456789ABCDEF"[c >> 4];
      out += "0123456789ABCDEF"[c & 15];
    }
  }
  return out;
}
class category_t final : public std::error_category {
public:
  const char* name() const noexcept override
  {
    return "boost.url.grammar";
  }
  std::string message(int v) const override
  {
    return "url error " + std::to_string(v);
  }
};
}
inline system::error_code make_error_code(error e)
{
  static const standin::category_t c;
  return { static_cast<int>(e), c };
}
namespace standin {
inline system::error_code invalid(std::string_view s)
{
  auto at = s.find('%');
  while (at != s.npos && at + 2 < s.size() && hex(s[at + 1]) >= 0
         && hex(s[at + 2]) >= 0) {
    at = s.find('%', at + 1);
  }
  return make_error_code(at != s.npos ? error::missing_pct_hexdig
                                      : error::invalid);
}
}

struct param {
  std::string key;
  std::string value;
  bool has_value = false;
};

class params_view {
  std::vector<param> v_;

public:
  params_view() = default;
  explicit params_view(std::string_view query, bool present = true)
  {
    while (present) {
      auto amp = query.find('&');
      auto one = query.substr(0, amp);
      auto eq = one.find('=');
      v_.push_back(param { standin::decode(one.substr(0, eq), true),
                           eq == one.npos
                               ? std::string()
                               : standin::decode(one.substr(eq + 1), true),
                           eq != one.npos });
      if (amp == query.npos) {
        break;
      }
      query.remove_prefix(amp + 1);
    }
  }
  auto begin() const
  {
    return v_.begin();
  }
  auto end() const
  {
    return v_.end();
  }
  std::size_t size() const
  {
    return v_.size();
  }
  bool empty() const
  {
    return v_.empty();
  }
  auto find(std::string_view key) const
  {
    auto it = v_.begin();
    while (it != v_.end() && it->key != key) {
      ++it;
    }
    return it;
  }
  bool contains(std::string_view key) const
  {
    return find(key) != v_.end();
  }
  std::size_t count(std::string_view key) const
  {
    std::size_t n = 0;
    for (auto& p : v_) {
      n += p.key == key;
    }
    return n;
  }
};

class params_encoded_view {
  std::string_view s_;

public:
  explicit params_encoded_view(std::string_view s)
      : s_(s)
  {
  }
  operator params_view() const
  {
    return params_view(s_, !s_.empty());
  }
};

inline system::result<params_encoded_view> parse_query(std::string_view s)
{
  if (!standin::valid(s, standin::query_char)) {
    return standin::invalid(s);
  }
  return params_encoded_view(s);
}

class url_view {
  std::string_view path_;
  std::string_view query_;
  bool has_query_;

public:
  url_view(std::string_view path, std::string_view query, bool has_query)
      : path_(path)
      , query_(query)
      , has_query_(has_query)
  {
  }
  std::string path() const
  {
    return standin::decode(path_, false);
  }
  std::string_view encoded_path() const
  {
    return path_;
  }
  params_view params() const
  {
    return params_view(query_, has_query_);
  }
  params_encoded_view encoded_params() const
  {
    return params_encoded_view(query_);
  }
  bool has_query() const
  {
    return has_query_;
  }
  std::string_view encoded_query() const
  {
    return query_;
  }
  std::string query() const
  {
    return standin::decode(query_, false);
  }
};

inline system::result<url_view> parse_origin_form(std::string_view s)
{
  auto q = s.find('?');
  auto path = s.substr(0, q);
  auto query = q == s.npos ? std::string_view() : s.substr(q + 1);
  if (path.empty() || path[0] != '/'
      || !standin::valid(path, standin::path_char)
      || !standin::valid(query, standin::query_char)) {
    return standin::invalid(s);
  }
  return url_view(path, query, q != s.npos);
}

class url {
  std::string path_;
  std::string query_;
  bool has_query_ = false;

public:
  url& set_path(std::string_view s)
  {
    path_ = standin::encode(s, standin::path_char);
    return *this;
  }
  url& set_query(std::string_view s)
  {
    query_ = standin::encode(s, standin::query_char);
    has_query_ = true;
    return *this;
  }
  std::string encoded_target() const
  {
    return has_query_ ? path_ + "?" + query_ : path_;
  }
};

// absolute http(s) URLs with a numeric host
class uri {
public:
  std::string host_;
  std::uint16_t port_ = 0;
  std::string path_;
  scheme scheme_ = scheme::unknown;
  std::string host() const
  {
    return host_;
  }
  std::uint16_t port_number() const
  {
    return port_;
  }
  std::string path() const
  {
    return path_;
  }
  scheme scheme_id() const
  {
    return scheme_;
  }
};
inline system::result<uri> parse_uri(std::string_view s)
{
  uri u;
  auto all = s;
  for (auto k : { scheme::http, scheme::https }) {
    auto pre = std::string(to_string(k)) + "://";
    if (s.starts_with(pre)) {
      u.scheme_ = k;
      s.remove_prefix(pre.size());
      break;
    }
  }
  auto slash = s.find('/');
  auto host = s.substr(0, slash);
  auto colon = host.find(':');
  u.host_ = host.substr(0, colon);
  if (colon != host.npos) {
    u.port_ = static_cast<std::uint16_t>(
        std::stoi(std::string(host.substr(colon + 1))));
  }
  auto path = slash == s.npos ? std::string_view() : s.substr(slash);
  if (u.scheme_ == scheme::unknown
      || !standin::valid(path, standin::path_char)) {
    return standin::invalid(all);
  }
  u.path_ = standin::decode(path, false);
  return u;
}
}
