// Stand-in for the part of Boost.Regex that fitoria uses, on top of PCRE2.
// Boost's default (Perl) syntax and PCRE2's agree on everything a pattern made
// of literal text, character classes and (named) groups can contain, with '.'
// matching any character.
#pragma once
#define PCRE2_CODE_UNIT_WIDTH 8
#include <pcre2.h>

#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace boost {
class regex_error : public std::runtime_error {
public:
  using runtime_error::runtime_error;
};

class regex {
public:
  using flag_type = unsigned;
  static constexpr flag_type normal = 0, perl = 0, ECMAScript = 0, icase = 1,
                             nosubs = 2, optimize = 0, literal = 4, mod_s = 0;
  regex() = default;
  explicit regex(const std::string& text, flag_type f = 0)
      : text_(text)
  {
    int err = 0;
    PCRE2_SIZE at = 0;
    std::uint32_t o = PCRE2_DOTALL | PCRE2_DOLLAR_ENDONLY;
    if (f & icase) {
      o |= PCRE2_CASELESS;
    }
    if (f & nosubs) {
      o |= PCRE2_NO_AUTO_CAPTURE;
    }
    if (f & literal) {
      o = (f & icase ? PCRE2_CASELESS : 0) | PCRE2_LITERAL;
    }
    // Boost takes any characters as a group's name, PCRE2 only identifiers:
    // named groups become plain ones, their names are kept here
    std::string plain = f & literal ? text : strip_names(text);
    auto* code = pcre2_compile(
        reinterpret_cast<PCRE2_SPTR>(plain.data()), plain.size(), o, &err, &at,
        nullptr);
    if (!code) {
      throw regex_error("bad regular expression at " + std::to_string(at));
    }
    code_ = std::shared_ptr<pcre2_code>(code, pcre2_code_free);
  }
  explicit regex(const char* text, flag_type f = 0)
      : regex(std::string(text), f)
  {
  }
  regex& operator=(const std::string& t)
  {
    return *this = regex(t);
  }
  std::string str() const
  {
    return text_;
  }
  bool empty() const
  {
    return !code_;
  }
  unsigned mark_count() const
  {
    std::uint32_t n = 0;
    if (code_) {
      pcre2_pattern_info(code_.get(), PCRE2_INFO_CAPTURECOUNT, &n);
    }
    return n;
  }
  const pcre2_code* code() const
  {
    return code_.get();
  }
  const std::map<std::string, int>& names() const
  {
    return names_;
  }

private:
  std::string strip_names(const std::string& t)
  {
    std::string out;
    int group = 0;
    bool in_class = false;
    for (std::size_t i = 0; i < t.size(); ++i) {
      if (t[i] == '\\' && i + 1 < t.size()) {
        out += t[i];
        out += t[++i];
      } else if (in_class) {
        in_class = t[i] != ']';
        out += t[i];
      } else if (t[i] == '[') {
        in_class = true;
        out += t[i];
        if (i + 1 < t.size() && t[i + 1] == '^') {
          out += t[++i];
        }
        if (i + 1 < t.size() && t[i + 1] == ']') {
          out += t[++i];
        }
      } else if (t[i] == '(') {
        bool ext = i + 1 < t.size() && t[i + 1] == '?';
        char q = i + 2 < t.size() ? t[i + 2] : 0;
        char n = i + 3 < t.size() ? t[i + 3] : 0;
        if (ext && ((q == '<' && n != '=' && n != '!') || q == '\'')) {
          auto e = t.find(q == '<' ? '>' : '\'', i + 3);
          if (e == t.npos) {
            throw regex_error("unterminated group name");
          }
          names_.emplace(t.substr(i + 3, e - i - 3), ++group);
          out += '(';
          i = e;
        } else {
          group += !ext;
          out += '(';
        }
      } else {
        out += t[i];
      }
    }
    return out;
  }

  std::map<std::string, int> names_;
  std::string text_;
  std::shared_ptr<pcre2_code> code_;
};

template <typename It>
struct sub_match : std::pair<It, It> {
  bool matched = false;
  sub_match() = default;
  sub_match(It a, It b, bool m)
      : std::pair<It, It>(a, b)
      , matched(m)
  {
  }
  std::string str() const
  {
    return matched ? std::string(this->first, this->second) : std::string();
  }
  operator std::string() const
  {
    return str();
  }
  std::ptrdiff_t length() const
  {
    return matched ? this->second - this->first : 0;
  }
};

template <typename It>
class match_results {
public:
  using value_type = sub_match<It>;
  bool empty() const
  {
    return subs_.empty();
  }
  std::size_t size() const
  {
    return subs_.size();
  }
  const value_type& operator[](int i) const
  {
    return i >= 0 && static_cast<std::size_t>(i) < subs_.size()
        ? subs_[static_cast<std::size_t>(i)]
        : none_;
  }
  const value_type& operator[](std::size_t i) const
  {
    return i < subs_.size() ? subs_[i] : none_;
  }
  const value_type& operator[](const std::string& name) const
  {
    auto it = names_.find(name);
    return it == names_.end() ? none_ : (*this)[it->second];
  }
  const value_type& operator[](const char* name) const
  {
    return (*this)[std::string(name)];
  }
  std::string str(int i = 0) const
  {
    return (*this)[i].str();
  }
  auto begin() const
  {
    return subs_.begin();
  }
  auto end() const
  {
    return subs_.end();
  }
  std::vector<value_type> subs_;
  std::map<std::string, int> names_;
  value_type none_;
};
using smatch = match_results<std::string::const_iterator>;
using cmatch = match_results<const char*>;

namespace standin {
template <typename It>
bool match(It b, It e, match_results<It>* m, const regex& r, bool whole)
{
  if (!r.code()) {
    return false;
  }
  std::string s(b, e);
  auto* md = pcre2_match_data_create_from_pattern(r.code(), nullptr);
  int n = pcre2_match(r.code(),
                      reinterpret_cast<PCRE2_SPTR>(s.data()),
                      s.size(),
                      0,
                      whole ? PCRE2_ANCHORED | PCRE2_ENDANCHORED : 0,
                      md,
                      nullptr);
  if (m) {
    *m = {};
  }
  if (n > 0 && m) {
    auto* ov = pcre2_get_ovector_pointer(md);
    auto groups = r.mark_count() + 1;
    for (unsigned i = 0; i < groups; ++i) {
      bool set = i < static_cast<unsigned>(n) && ov[2 * i] != PCRE2_UNSET;
      m->subs_.emplace_back(set ? b + static_cast<std::ptrdiff_t>(ov[2 * i]) : e,
                            set ? b + static_cast<std::ptrdiff_t>(ov[2 * i + 1])
                                : e,
                            set);
    }
    m->names_ = r.names();
  }
  pcre2_match_data_free(md);
  return n > 0;
}
}
inline bool regex_match(const std::string& s, const regex& r)
{
  return standin::match<std::string::const_iterator>(
      s.begin(), s.end(), nullptr, r, true);
}
inline bool regex_match(const std::string& s, smatch& m, const regex& r)
{
  return standin::match(s.begin(), s.end(), &m, r, true);
}
template <typename It>
bool regex_match(It b, It e, match_results<It>& m, const regex& r)
{
  return standin::match(b, e, &m, r, true);
}
inline bool regex_search(const std::string& s, smatch& m, const regex& r)
{
  return standin::match(s.begin(), s.end(), &m, r, false);
}
inline bool regex_search(const std::string& s, const regex& r)
{
  return standin::match<std::string::const_iterator>(
      s.begin(), s.end(), nullptr, r, false);
}
bool regex_match(std::string&&, smatch&, const regex&) = delete;
}
