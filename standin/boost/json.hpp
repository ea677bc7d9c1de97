// Stand-in for Boost.JSON: values, a strict RFC 8259 parser, a serializer and
// the conversion customisation points, as far as fitoria uses them.
#pragma once
#include <boost/standin_system.hpp>
#include <charconv>
#include <cmath>
#include <cstdint>
#include <initializer_list>
#include <map>
#include <optional>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

namespace boost::json {
enum class error {
  syntax = 1,
  extra_data,
  incomplete,
  too_deep,
  not_number,
  not_exact,
  not_bool,
  not_string,
  not_array,
  not_object,
  size_mismatch,
  unknown_name
};
namespace standin {
class category_t final : public std::error_category {
public:
  const char* name() const noexcept override
  {
    return "boost.json";
  }
  std::string message(int v) const override
  {
    return "json error " + std::to_string(v);
  }
};
}
inline system::error_code make_error_code(error e)
{
  static const standin::category_t c;
  return { static_cast<int>(e), c };
}
}
template <>
struct std::is_error_code_enum<boost::json::error> : std::true_type { };

namespace boost::json {
class value;
class value_ref;
using string = std::string;
using array = std::vector<value>;
enum class kind { null, bool_, int64, uint64, double_, string, array, object };

class object {
  std::vector<std::pair<std::string, value>> v_;

public:
  using value_type = std::pair<std::string, value>;
  object();
  object(const object&);
  object(object&&) noexcept;
  object& operator=(const object&);
  object& operator=(object&&) noexcept;
  ~object();
  std::size_t size() const;
  bool empty() const;
  const value* if_contains(std::string_view key) const;
  value* if_contains(std::string_view key);
  bool contains(std::string_view key) const;
  const value& at(std::string_view key) const;
  value& operator[](std::string_view key);
  auto begin() const;
  auto end() const;
  friend bool operator==(const object& a, const object& b);
};

struct value_from_tag { };
template <typename T>
struct value_to_tag { };
template <typename T>
struct try_value_to_tag { };
template <typename T, typename V = value>
struct result_for {
  using type = system::result<T>;
};
template <typename T, typename V = value>
using result_for_t = typename result_for<T, V>::type;

class value {
  std::variant<std::monostate,
               bool,
               std::int64_t,
               std::uint64_t,
               double,
               std::string,
               array,
               object>
      v_;

public:
  value() = default;
  value(std::nullptr_t) { }
  template <typename T>
    requires std::same_as<T, bool>
  value(T b)
      : v_(b)
  {
  }
  template <typename T>
    requires(std::signed_integral<T>)
  value(T n)
      : v_(static_cast<std::int64_t>(n))
  {
  }
  template <typename T>
    requires(std::unsigned_integral<T> && !std::same_as<T, bool>)
  value(T n)
      : v_(static_cast<std::uint64_t>(n))
  {
  }
  value(double d)
      : v_(d)
  {
  }
  value(const char* s)
      : v_(std::string(s))
  {
  }
  value(std::string_view s)
      : v_(std::string(s))
  {
  }
  value(std::string s)
      : v_(std::move(s))
  {
  }
  value(array a)
      : v_(std::move(a))
  {
  }
  value(object o)
      : v_(std::move(o))
  {
  }
  value(std::initializer_list<value_ref> init);

  json::kind kind() const
  {
    return static_cast<json::kind>(v_.index());
  }
  bool is_null() const
  {
    return v_.index() == 0;
  }
  bool is_bool() const
  {
    return v_.index() == 1;
  }
  bool is_int64() const
  {
    return v_.index() == 2;
  }
  bool is_uint64() const
  {
    return v_.index() == 3;
  }
  bool is_double() const
  {
    return v_.index() == 4;
  }
  bool is_number() const
  {
    return v_.index() >= 2 && v_.index() <= 4;
  }
  bool is_string() const
  {
    return v_.index() == 5;
  }
  bool is_array() const
  {
    return v_.index() == 6;
  }
  bool is_object() const
  {
    return v_.index() == 7;
  }
  bool get_bool() const
  {
    return std::get<1>(v_);
  }
  std::int64_t get_int64() const
  {
    return std::get<2>(v_);
  }
  std::uint64_t get_uint64() const
  {
    return std::get<3>(v_);
  }
  double get_double() const
  {
    return std::get<4>(v_);
  }
  const std::string& get_string() const
  {
    return std::get<5>(v_);
  }
  const array& get_array() const
  {
    return std::get<6>(v_);
  }
  const object& get_object() const
  {
    return std::get<7>(v_);
  }
  array& get_array()
  {
    return std::get<6>(v_);
  }
  object& get_object()
  {
    return std::get<7>(v_);
  }
  const std::string& as_string() const
  {
    return get_string();
  }
  const object& as_object() const
  {
    return get_object();
  }
  const array& as_array() const
  {
    return get_array();
  }
  std::int64_t as_int64() const
  {
    return get_int64();
  }
  const value& at(std::string_view k) const
  {
    return get_object().at(k);
  }
  friend bool operator==(const value& a, const value& b)
  {
    // numbers of either signedness compare by value
    if (a.is_int64() && b.is_uint64()) {
      return a.get_int64() >= 0
          && static_cast<std::uint64_t>(a.get_int64()) == b.get_uint64();
    }
    if (a.is_uint64() && b.is_int64()) {
      return b == a;
    }
    return a.v_ == b.v_;
  }
};

inline object::object() = default;
inline object::object(const object&) = default;
inline object::object(object&&) noexcept = default;
inline object& object::operator=(const object&) = default;
inline object& object::operator=(object&&) noexcept = default;
inline object::~object() = default;
inline std::size_t object::size() const
{
  return v_.size();
}
inline bool object::empty() const
{
  return v_.empty();
}
inline const value* object::if_contains(std::string_view key) const
{
  for (auto& [k, v] : v_) {
    if (k == key) {
      return &v;
    }
  }
  return nullptr;
}
inline value* object::if_contains(std::string_view key)
{
  return const_cast<value*>(std::as_const(*this).if_contains(key));
}
inline bool object::contains(std::string_view key) const
{
  return if_contains(key) != nullptr;
}
inline const value& object::at(std::string_view key) const
{
  if (auto p = if_contains(key)) {
    return *p;
  }
  throw std::out_of_range("object::at");
}
inline value& object::operator[](std::string_view key)
{
  if (auto p = if_contains(key)) {
    return *p;
  }
  return v_.emplace_back(std::string(key), value()).second;
}
inline auto object::begin() const
{
  return v_.begin();
}
inline auto object::end() const
{
  return v_.end();
}
inline bool operator==(const object& a, const object& b)
{
  if (a.v_.size() != b.v_.size()) {
    return false;
  }
  for (auto& [k, v] : a.v_) {
    auto p = b.if_contains(k);
    if (!p || !(*p == v)) {
      return false;
    }
  }
  return true;
}

class value_ref {
  value v_;

public:
  template <typename T>
    requires(std::constructible_from<value, T>)
  value_ref(T&& t)
      : v_(std::forward<T>(t))
  {
  }
  value_ref(std::initializer_list<value_ref> init)
      : v_(init)
  {
  }
  const value& get() const
  {
    return v_;
  }
};

inline value::value(std::initializer_list<value_ref> init)
{
  bool obj = true;
  for (auto& r : init) {
    auto& v = r.get();
    obj = obj && v.is_array() && v.get_array().size() == 2
        && v.get_array()[0].is_string();
  }
  if (obj) {
    object o;
    for (auto& r : init) {
      auto& a = r.get().get_array();
      o[a[0].get_string()] = a[1];
    }
    v_ = std::move(o);
  } else {
    array a;
    for (auto& r : init) {
      a.push_back(r.get());
    }
    v_ = std::move(a);
  }
}

namespace standin {
inline void quote(std::string& out, std::string_view s)
{
  out += '"';
  for (auto ch : s) {
    auto c = static_cast<unsigned char>(ch);
    switch (c) {
    case '"':
      out += "\\\"";
      break;
    case '\\':
      out += "\\\\";
      break;
    case '\b':
      out += "\\b";
      break;
    case '\f':
      out += "\\f";
      break;
    case '\n':
      out += "\\n";
      break;
    case '\r':
      out += "\\r";
      break;
    case '\t':
      out += "\\t";
      break;
    default:
      if (c < 0x20) {
        out += "\\u00";
        out += "0123456789abcdef"[c >> 4];
        out += "0123456789abcdef"[c & 15];
      } else {
        out += ch;
      }
    }
  }
  out += '"';
}
inline void write(std::string& out, const value& v)
{
  switch (v.kind()) {
  case kind::null:
    out += "null";
    break;
  case kind::bool_:
    out += v.get_bool() ? "true" : "false";
    break;
  case kind::int64:
    out += std::to_string(v.get_int64());
    break;
  case kind::uint64:
    out += std::to_string(v.get_uint64());
    break;
  case kind::double_: {
    char b[64];
    auto r = std::to_chars(b, b + sizeof b, v.get_double(), std::chars_format::scientific);
    out.append(b, r.ptr);
    break;
  }
  case kind::string:
    quote(out, v.get_string());
    break;
  case kind::array: {
    out += '[';
    bool first = true;
    for (auto& e : v.get_array()) {
      if (!std::exchange(first, false)) {
        out += ',';
      }
      write(out, e);
    }
    out += ']';
    break;
  }
  case kind::object: {
    out += '{';
    bool first = true;
    for (auto& [k, e] : v.get_object()) {
      if (!std::exchange(first, false)) {
        out += ',';
      }
      quote(out, k);
      out += ':';
      write(out, e);
    }
    out += '}';
    break;
  }
  }
}

class reader {
  std::string_view s_;
  std::size_t i_ = 0;
  system::error_code ec_;

  value fail(error e)
  {
    if (!ec_) {
      ec_ = make_error_code(e);
    }
    return {};
  }
  void ws()
  {
    while (i_ < s_.size()
           && (s_[i_] == ' ' || s_[i_] == '\t' || s_[i_] == '\r'
               || s_[i_] == '\n')) {
      ++i_;
    }
  }
  bool eat(char c)
  {
    if (i_ < s_.size() && s_[i_] == c) {
      ++i_;
      return true;
    }
    return false;
  }
  value word(std::string_view w, value v)
  {
    auto rest = s_.substr(i_);
    if (rest.starts_with(w)) {
      i_ += w.size();
      return v;
    }
    return fail(w.starts_with(rest) ? error::incomplete : error::syntax);
  }
  static void utf8(std::string& out, unsigned c)
  {
    if (c < 0x80) {
      out += static_cast<char>(c);
    } else if (c < 0x800) {
      out += static_cast<char>(0xc0 | (c >> 6));
      out += static_cast<char>(0x80 | (c & 63));
    } else if (c < 0x10000) {
      out += static_cast<char>(0xe0 | (c >> 12));
      out += static_cast<char>(0x80 | ((c >> 6) & 63));
      out += static_cast<char>(0x80 | (c & 63));
    } else {
      out += static_cast<char>(0xf0 | (c >> 18));
      out += static_cast<char>(0x80 | ((c >> 12) & 63));
      out += static_cast<char>(0x80 | ((c >> 6) & 63));
      out += static_cast<char>(0x80 | (c & 63));
    }
  }
  std::optional<unsigned> hex4()
  {
    unsigned n = 0;
    for (int k = 0; k < 4; ++k) {
      if (i_ >= s_.size()) {
        fail(error::incomplete);
        return {};
      }
      auto c = s_[i_++];
      int d = c >= '0' && c <= '9' ? c - '0'
          : c >= 'a' && c <= 'f'   ? c - 'a' + 10
          : c >= 'A' && c <= 'F'   ? c - 'A' + 10
                                   : -1;
      if (d < 0) {
        fail(error::syntax);
        return {};
      }
      n = n * 16 + static_cast<unsigned>(d);
    }
    return n;
  }
  // length of the UTF-8 sequence at i_, 0 when malformed
  std::size_t sequence() const
  {
    auto at = [&](std::size_t k) -> unsigned {
      return i_ + k < s_.size() ? static_cast<unsigned char>(s_[i_ + k]) : 0;
    };
    auto tail = [&](std::size_t k, unsigned lo = 0x80, unsigned hi = 0xbf) {
      return at(k) >= lo && at(k) <= hi;
    };
    auto c = at(0);
    if (c < 0x80) {
      return 1;
    }
    if (c >= 0xc2 && c <= 0xdf) {
      return tail(1) ? 2 : 0;
    }
    if (c >= 0xe0 && c <= 0xef) {
      return tail(1, c == 0xe0 ? 0xa0 : 0x80, c == 0xed ? 0x9f : 0xbf)
              && tail(2)
          ? 3
          : 0;
    }
    if (c >= 0xf0 && c <= 0xf4) {
      return tail(1, c == 0xf0 ? 0x90 : 0x80, c == 0xf4 ? 0x8f : 0xbf)
              && tail(2) && tail(3)
          ? 4
          : 0;
    }
    return 0;
  }
  std::string str()
  {
    std::string out;
    for (;;) {
      if (i_ >= s_.size()) {
        fail(error::incomplete);
        return out;
      }
      auto c = static_cast<unsigned char>(s_[i_]);
      if (c == '"') {
        ++i_;
        return out;
      }
      if (c < 0x20) {
        fail(error::syntax);
        return out;
      }
      if (c != '\\') {
        auto n = sequence();
        if (n == 0) {
          fail(error::syntax);
          return out;
        }
        out += s_.substr(i_, n);
        i_ += n;
        continue;
      }
      ++i_;
      if (i_ >= s_.size()) {
        fail(error::incomplete);
        return out;
      }
      auto e = s_[i_++];
      auto from = std::string_view("\"\\/bfnrt");
      if (auto at = from.find(e); at != from.npos) {
        out += "\"\\/\b\f\n\r\t"[at];
      } else if (e == 'u') {
        auto a = hex4();
        if (!a) {
          return out;
        }
        if (*a >= 0xd800 && *a < 0xdc00) {
          if (!s_.substr(i_).starts_with("\\u")) {
            fail(error::syntax);
            return out;
          }
          i_ += 2;
          auto b = hex4();
          if (!b || *b < 0xdc00 || *b > 0xdfff) {
            fail(error::syntax);
            return out;
          }
          utf8(out, 0x10000 + ((*a - 0xd800) << 10) + (*b - 0xdc00));
        } else if (*a >= 0xdc00 && *a < 0xe000) {
          fail(error::syntax);
          return out;
        } else {
          utf8(out, *a);
        }
      } else {
        fail(error::syntax);
        return out;
      }
    }
  }
  value number()
  {
    auto b = i_;
    auto digit = [&] {
      return i_ < s_.size() && s_[i_] >= '0' && s_[i_] <= '9';
    };
    bool neg = eat('-');
    bool integral = true;
    if (!digit()) {
      return fail(i_ >= s_.size() ? error::incomplete : error::syntax);
    }
    if (!eat('0')) {
      while (digit()) {
        ++i_;
      }
    }
    if (eat('.')) {
      integral = false;
      if (!digit()) {
        return fail(i_ >= s_.size() ? error::incomplete : error::syntax);
      }
      while (digit()) {
        ++i_;
      }
    }
    if (eat('e') || eat('E')) {
      integral = false;
      if (!eat('+')) {
        eat('-');
      }
      if (!digit()) {
        return fail(i_ >= s_.size() ? error::incomplete : error::syntax);
      }
      while (digit()) {
        ++i_;
      }
    }
    auto first = s_.data() + b;
    auto last = s_.data() + i_;
    if (integral) {
      std::int64_t n {};
      if (std::from_chars(first, last, n).ec == std::errc()) {
        return n;
      }
      std::uint64_t u {};
      if (!neg && std::from_chars(first, last, u).ec == std::errc()) {
        return u;
      }
    }
    return std::strtod(std::string(first, last).c_str(), nullptr);
  }
  value any(int depth)
  {
    ws();
    if (i_ >= s_.size()) {
      return fail(error::incomplete);
    }
    if (depth > 32) {
      return fail(error::too_deep);
    }
    switch (s_[i_]) {
    case 'n':
      return word("null", nullptr);
    case 't':
      return word("true", true);
    case 'f':
      return word("false", false);
    case '"':
      ++i_;
      return str();
    case '[': {
      ++i_;
      array a;
      ws();
      if (eat(']')) {
        return a;
      }
      for (;;) {
        a.push_back(any(depth + 1));
        ws();
        if (ec_) {
          return {};
        }
        if (eat(']')) {
          return a;
        }
        if (!eat(',')) {
          return fail(i_ >= s_.size() ? error::incomplete : error::syntax);
        }
      }
    }
    case '{': {
      ++i_;
      object o;
      ws();
      if (eat('}')) {
        return o;
      }
      for (;;) {
        ws();
        if (!eat('"')) {
          return fail(i_ >= s_.size() ? error::incomplete : error::syntax);
        }
        auto k = str();
        ws();
        if (ec_) {
          return {};
        }
        if (!eat(':')) {
          return fail(i_ >= s_.size() ? error::incomplete : error::syntax);
        }
        auto v = any(depth + 1);
        if (ec_) {
          return {};
        }
        o[k] = std::move(v);
        ws();
        if (eat('}')) {
          return o;
        }
        if (!eat(',')) {
          return fail(i_ >= s_.size() ? error::incomplete : error::syntax);
        }
      }
    }
    default:
      return number();
    }
  }

public:
  explicit reader(std::string_view s)
      : s_(s)
  {
  }
  value read(system::error_code& ec)
  {
    auto v = any(1);
    ws();
    if (!ec_ && i_ != s_.size()) {
      fail(error::extra_data);
    }
    ec = ec_;
    return ec_ ? value() : v;
  }
};
}

inline std::string serialize(const value& v)
{
  std::string out;
  standin::write(out, v);
  return out;
}
inline value parse(std::string_view s, system::error_code& ec)
{
  return standin::reader(s).read(ec);
}
inline value parse(std::string_view s)
{
  system::error_code ec;
  auto v = parse(s, ec);
  if (ec) {
    throw system::system_error(ec);
  }
  return v;
}

// conversions
namespace standin {
template <typename T>
concept user_from
    = requires(value& v, T&& t) { tag_invoke(value_from_tag(), v, std::forward<T>(t)); };
template <typename T>
concept user_to
    = requires(const value& v) { tag_invoke(try_value_to_tag<T>(), v); };
template <typename T>
struct is_vector : std::false_type { };
template <typename T, typename A>
struct is_vector<std::vector<T, A>> : std::true_type { };
template <typename T>
struct is_map : std::false_type { };
template <typename T, typename C, typename A>
struct is_map<std::map<std::string, T, C, A>> : std::true_type { };
template <typename T>
struct is_optional : std::false_type { };
template <typename T>
struct is_optional<std::optional<T>> : std::true_type { };
template <typename T>
consteval bool can_from()
{
  using U = std::remove_cvref_t<T>;
  if constexpr (std::is_same_v<U, value> || user_from<T> || std::is_arithmetic_v<U>
                || std::is_convertible_v<T, std::string_view>) {
    return true;
  } else if constexpr (is_vector<U>::value || is_optional<U>::value) {
    return can_from<const typename U::value_type&>();
  } else if constexpr (is_map<U>::value) {
    return can_from<const typename U::mapped_type&>();
  } else {
    return false;
  }
}
}
template <typename T>
struct has_value_from : std::bool_constant<standin::can_from<T>()> { };
template <typename T>
value value_from(T&& t)
{
  using U = std::remove_cvref_t<T>;
  if constexpr (std::is_same_v<U, value>) {
    return std::forward<T>(t);
  } else if constexpr (standin::user_from<T>) {
    value v;
    tag_invoke(value_from_tag(), v, std::forward<T>(t));
    return v;
  } else if constexpr (std::is_floating_point_v<U>) {
    return value(static_cast<double>(t));
  } else if constexpr (std::is_arithmetic_v<U>) {
    return value(t);
  } else if constexpr (std::is_convertible_v<T, std::string_view>) {
    return value(std::string_view(t));
  } else if constexpr (standin::is_optional<U>::value) {
    return t ? value_from(*t) : value();
  } else if constexpr (standin::is_map<U>::value) {
    object o;
    for (auto& [k, e] : t) {
      o[k] = value_from(e);
    }
    return o;
  } else {
    array a;
    for (const auto& e : t) {
      a.push_back(value_from(e));
    }
    return a;
  }
}
template <typename T>
system::result<T> try_value_to(const value& v)
{
  if constexpr (standin::user_to<T>) {
    return tag_invoke(try_value_to_tag<T>(), v);
  } else if constexpr (std::is_same_v<T, bool>) {
    return v.is_bool() ? system::result<T>(v.get_bool())
                       : make_error_code(error::not_bool);
  } else if constexpr (std::is_integral_v<T>) {
    if (v.is_int64() && std::in_range<T>(v.get_int64())) {
      return static_cast<T>(v.get_int64());
    }
    if (v.is_uint64() && std::in_range<T>(v.get_uint64())) {
      return static_cast<T>(v.get_uint64());
    }
    return make_error_code(v.is_number() ? error::not_exact
                                         : error::not_number);
  } else if constexpr (std::is_floating_point_v<T>) {
    if (v.is_double()) {
      return static_cast<T>(v.get_double());
    }
    if (v.is_int64()) {
      return static_cast<T>(v.get_int64());
    }
    if (v.is_uint64()) {
      return static_cast<T>(v.get_uint64());
    }
    return make_error_code(error::not_number);
  } else if constexpr (std::is_same_v<T, std::string>) {
    return v.is_string() ? system::result<T>(v.get_string())
                         : make_error_code(error::not_string);
  } else if constexpr (standin::is_optional<T>::value) {
    if (v.is_null()) {
      return T();
    }
    auto r = try_value_to<typename T::value_type>(v);
    return r ? system::result<T>(T(*r)) : r.error();
  } else if constexpr (standin::is_vector<T>::value) {
    if (!v.is_array()) {
      return make_error_code(error::not_array);
    }
    T out;
    for (auto& e : v.get_array()) {
      auto r = try_value_to<typename T::value_type>(e);
      if (!r) {
        return r.error();
      }
      out.push_back(std::move(*r));
    }
    return out;
  } else if constexpr (standin::is_map<T>::value) {
    if (!v.is_object()) {
      return make_error_code(error::not_object);
    }
    T out;
    for (auto& [k, e] : v.get_object()) {
      auto r = try_value_to<typename T::mapped_type>(e);
      if (!r) {
        return r.error();
      }
      out.emplace(k, std::move(*r));
    }
    return out;
  } else {
    static_assert(standin::user_to<T>, "no conversion for this type");
  }
}
}
