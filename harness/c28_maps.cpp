// C28: query and path parameter maps behave as maps of decoded text.
#include "path_ref.hpp"
#include <fitoria/web/detail/as_form.hpp>
#include <fitoria/web/path_info.hpp>
#include <fitoria/web/query_map.hpp>
#include <algorithm>
#include <map>

static pbt::Rule rule(
    "histories over several query maps (set, get, modify, erase, index, clear, "
    "copy, move, print, compare), path parameter maps with any distinct names "
    "and values, and query strings and form bodies spelled with any percent "
    "encoding of generated names and values; non-trivial: some name is used at "
    "least twice, or a percent escape, or a map of two or more parameters");

namespace fi = fitoria;
using fi::web::path_info;
using fi::web::query_map;
namespace {
using model = std::map<std::string, std::string, std::less<>>;

std::string name(pbt::Case& c, const std::vector<std::string>& pool)
{
  return c.chance(9, 10) ? c.pick(pool) : c.bytes(4);
}
std::vector<std::string> pool(pbt::Case& c)
{
  std::vector<std::string> v { "", "a" };
  for (int i = 0; i < 3; ++i) {
    v.push_back(c.chance(1, 2) ? c.str("abAB", 3) : c.bytes(6));
  }
  return v;
}
template <typename M>
void same(pbt::Case& c, M& q, const model& m)
{
  const auto& k = q;
  REQ_EQ(k.size(), m.size());
  REQ_EQ(k.empty(), m.empty());
  model seen;
  for (auto& [n, v] : k) {
    REQM(seen.emplace(n, v).second, "a name is listed twice");
  }
  REQM(seen == m, "the entries listed are not those of the map");
  seen.clear();
  for (auto it = k.cbegin(); it != k.cend(); ++it) {
    seen.emplace(it->first, it->second);
  }
  REQM(seen == m, "the entries listed are not those of the map");
  seen.clear();
  for (auto it = q.begin(); it != q.end(); ++it) {
    seen.emplace(it->first, it->second);
  }
  REQM(seen == m, "the entries listed are not those of the map");
  for (auto& [n, v] : m) {
    auto g = k.get(n);
    REQM(g, "a name of the map is not found");
    REQ_EQ(*g, v);
    REQ_EQ(k.at(n), v);
    REQM(k.contains(n), "contains");
  }
}
void step(pbt::Case& c, std::vector<query_map>& q, std::vector<model>& m,
          const std::vector<std::string>& names, std::size_t& touched)
{
  auto i = c.below(q.size());
  auto j = c.below(q.size());
  auto n = name(c, names);
  auto& a = q[i];
  auto& x = m[i];
  const auto& k = a;
  touched += x.contains(n);
  switch (c.weighted({ 8, 5, 4, 4, 4, 3, 1, 2, 2, 2, 2, 2 })) {
  case 0: {
    auto v = c.bytes(5);
    c.op("set", static_cast<int>(i), n, v);
    a.set(n, v);
    x[n] = v;
    break;
  }
  case 1: {
    c.op("get", static_cast<int>(i), n);
    auto it = x.find(n);
    auto sv = k.get(std::string_view(n));
    REQ_EQ(sv.has_value(), it != x.end());
    auto mu = a.get(n);
    REQ_EQ(mu.has_value(), it != x.end());
    if (it != x.end()) {
      REQ_EQ(*sv, it->second);
      REQ_EQ(*mu, it->second);
    }
    if (n.find('\0') == n.npos) {
      REQ_EQ(k.get(n.c_str()).has_value(), it != x.end());
    }
    REQ_EQ(k.contains(n), it != x.end());
    break;
  }
  case 2: {
    auto v = c.bytes(5);
    c.op("modify", static_cast<int>(i), n, v);
    if (auto g = a.get(n); g) {
      *g = v;
      x[n] = v;
    }
    break;
  }
  case 3: {
    c.op("erase", static_cast<int>(i), n);
    auto it = x.find(n);
    auto e = a.erase(n);
    REQ_EQ(e.has_value(), it != x.end());
    if (it != x.end()) {
      REQ_EQ(*e, it->second);
      x.erase(it);
    }
    break;
  }
  case 4: {
    c.op("index", static_cast<int>(i), n);
    REQ_EQ(a[n], x[n]);
    if (c.chance(1, 2)) {
      auto v = c.bytes(5);
      c.in("value", v);
      a[n] = v;
      x[n] = v;
    }
    break;
  }
  case 5: {
    c.op("at", static_cast<int>(i), n);
    bool thrown = false;
    try {
      REQ_EQ(k.at(n), x.contains(n) ? x[n] : std::string("?"));
      a.at(n) += "!";
      x[n] += "!";
    } catch (const std::out_of_range&) {
      thrown = true;
    }
    REQ_EQ(thrown, !x.contains(n));
    break;
  }
  case 6:
    c.op("clear", static_cast<int>(i));
    a.clear();
    x.clear();
    break;
  case 7: {
    c.op("assign", static_cast<int>(i), static_cast<int>(j));
    a = q[j];
    x = m[j];
    break;
  }
  case 8: {
    c.op("move", static_cast<int>(i), static_cast<int>(j));
    if (i != j) {
      a = std::move(q[j]);
      x = m[j];
      q[j].clear();
      m[j].clear();
    }
    break;
  }
  case 9: {
    c.op("compare", static_cast<int>(i), static_cast<int>(j));
    REQ_EQ(a == q[j], x == m[j]);
    REQ_EQ(a != q[j], x != m[j]);
    break;
  }
  case 10: {
    c.op("copy", static_cast<int>(i));
    query_map n1(a);
    same(c, n1, x);
    query_map n2(std::move(n1));
    same(c, n2, x);
    REQM(n2 == a, "a copy differs");
    break;
  }
  default: {
    c.op("print", static_cast<int>(i));
    // every entry once: judged where the text can be taken apart again
    bool plain = true;
    for (auto& [n1, v1] : x) {
      for (unsigned char ch : n1 + v1) {
        plain = plain && std::isalnum(ch);
      }
    }
    if (plain) {
      c.label("printed");
      std::vector<std::string> want, got;
      for (auto& [n1, v1] : x) {
        want.push_back(n1 + "=" + v1);
      }
      std::string s = k.to_string(), cur;
      if (!x.empty()) {
        for (std::size_t p = 0;;) {
          auto e = s.find('&', p);
          got.push_back(s.substr(p, e == s.npos ? e : e - p));
          if (e == s.npos) {
            break;
          }
          p = e + 1;
        }
      } else {
        REQ_EQ(s, "");
      }
      std::sort(want.begin(), want.end());
      std::sort(got.begin(), got.end());
      REQM(want == got, "printed text does not list every entry once: " + s);
    }
  }
  }
  same(c, a, x);
  same(c, q[j], m[j]);
}

std::string encode(pbt::Case& c, const std::string& s, bool& escaped)
{
  std::string out;
  for (unsigned char ch : s) {
    bool unreserved = std::isalnum(ch) || (ch && std::strchr("-._~", ch));
    bool allowed = unreserved || (ch && std::strchr("!$'()*,;:@/?", ch));
    if ((unreserved && c.chance(9, 10)) || (!unreserved && allowed && c.chance(1, 2))) {
      out += static_cast<char>(ch);
    } else {
      char b[4];
      std::snprintf(b, sizeof b, c.chance(1, 2) ? "%%%02x" : "%%%02X", ch);
      out += b;
      escaped = true;
    }
  }
  return out;
}
}
SECTION("query map histories", 6000, 150000)
{
  std::size_t touched = 0;
  std::vector<query_map> q(3);
  std::vector<model> m(3);
  auto names = pool(c);
  if (c.chance(1, 3)) {
    q[0] = query_map { { "a", "1" }, { "b", "2" }, { "", "3" } };
    m[0] = { { "a", "1" }, { "b", "2" }, { "", "3" } };
    c.note("starts with three entries");
    same(c, q[0], m[0]);
  }
  for (std::size_t i = 0; i < 3 || c.more(i, 60, 15); ++i) {
    step(c, q, m, names, touched);
  }
  c.nontrivial(touched >= 2);
  for (std::size_t i = 0; i < q.size(); ++i) {
    same(c, q[i], m[i]);
  }
}
SECTION("query strings and forms", 8000, 200000)
{
  model want;
  std::string s;
  bool escaped = false, twice = false;
  auto names = pool(c);
  for (std::size_t i = 0; c.more(i, 8, 3); ++i) {
    auto n = name(c, names);
    auto v = c.chance(1, 3) ? c.bytes(6) : c.str("abc%+&= ", 6);
    if (i) {
      s += '&';
    }
    s += encode(c, n, escaped) + "=" + encode(c, v, escaped);
    twice = twice || want.contains(n);
    want[n] = v; // the last one counts
  }
  c.in("query", s);
  c.nontrivial(escaped || twice);
  auto held = std::make_unique<std::string>(s);
  auto form = fi::web::detail::as_form(*held);
  auto parsed = boost::urls::parse_query(*held);
  REQM(form && parsed, "a well formed query was refused");
  auto q = query_map::from(static_cast<boost::urls::params_view>(*parsed));
  held.reset();
  if (!s.empty()) {
    same(c, q, want);
    same(c, *form, want);
  } else {
    REQM(q.empty() && form->empty(), "an empty query has entries");
  }
}
SECTION("malformed forms", 2000, 30000)
{
  bool escaped = false;
  auto s = encode(c, c.bytes(6), escaped) + "=" + encode(c, c.bytes(6), escaped);
  auto at = c.below(s.size() + 1);
  s.insert(at, c.pick({ "%", "%g", "%4", "%0x" }));
  // malformed unless what was inserted happens to make an escape
  bool bad = false;
  for (std::size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%') {
      bad = bad || i + 2 >= s.size() || !ref::hex(s[i + 1]) || !ref::hex(s[i + 2]);
      i += 2;
    }
  }
  c.in("query", s);
  c.nontrivial(bad);
  REQ_EQ(fi::web::detail::as_form(s).has_value(), !bad);
}
SECTION("path parameters", 6000, 150000)
{
  std::vector<std::pair<std::string, std::string>> v;
  model m;
  while (c.more(v.size(), 6, 3)) {
    auto n = c.chance(1, 2) ? c.str("abAB", 3) : c.bytes(4);
    if (m.contains(n)) {
      continue;
    }
    v.emplace_back(n, c.bytes(5));
    m.insert(v.back());
    c.in("name", n);
    c.in("value", v.back().second);
  }
  c.nontrivial(v.size() >= 2);
  auto pattern = c.bytes(5), path = c.bytes(5);
  path_info first(pattern, path, v);
  auto judge = [&](path_info& p) {
    const auto& k = p;
    same(c, p, m);
    REQ_EQ(k.match_pattern(), pattern);
    REQ_EQ(k.match_path(), path);
    auto keys = k.keys();
    REQ_EQ(keys.size(), v.size());
    auto it = k.begin();
    auto it2 = p.cbegin();
    for (std::size_t i = 0; i < v.size(); ++i, ++it) {
      REQ_EQ(keys[i], v[i].first);
      REQ_EQ(it->first, v[i].first);
      REQ_EQ((*it).second, v[i].second);
      REQM(it == it2, "iterators at the same entry differ");
      REQM(it2 != k.end(), "an iterator ends early");
      auto was = it2++;
      REQM(was == it, "i++ does not return the old place");
      REQ_EQ(k.get(i).has_value(), true);
      REQ_EQ(*k.get(i), v[i].second);
      REQ_EQ(k.at(i), v[i].second);
      REQ_EQ(k.find(i)->first, v[i].first);
      REQ_EQ(k.find(v[i].first)->second, v[i].second);
      REQ_EQ(*k.get(std::string_view(v[i].first)), v[i].second);
    }
    REQM(it == k.end() && it2 == k.cend(), "an iterator does not reach the end");
    for (std::size_t i = v.size(); i > 0; --i) {
      auto was = it--;
      REQM(was == it2, "i-- does not return the old place");
      --it2;
      REQ_EQ(it->first, v[i - 1].first);
      REQ_EQ(it2->second, v[i - 1].second);
    }
    auto past = v.size() + (c.chance(1, 2) ? 0 : c.below(1000));
    REQM(!k.get(past), "a parameter past the last one");
    bool thrown = false;
    try {
      k.at(past);
    } catch (const std::out_of_range&) {
      thrown = true;
    }
    REQM(thrown, "at() past the last parameter does not throw");
    auto other = c.bytes(3);
    REQ_EQ(k.get(other).has_value(), m.contains(other));
    REQ_EQ(k.contains(other), m.contains(other));
    REQ_EQ(k.find(other) == k.find(k.size()), !m.contains(other));
  };
  judge(first);
  path_info copy(first);
  REQM(copy == first, "a copy differs");
  path_info moved(std::move(copy));
  judge(moved);
  path_info assigned;
  REQM(assigned.empty() && assigned.size() == 0 && assigned.begin() == assigned.end(), "a new map has entries");
  assigned = first;
  judge(assigned);
  assigned = std::move(moved);
  judge(assigned);
  if (!v.empty()) {
    auto w = v;
    auto& e = w[c.below(w.size())];
    auto edit = c.below(3);
    if (edit == 0) {
      e.second += "x";
    } else if (edit == 1) {
      w.pop_back();
    }
    path_info changed(pattern, edit == 2 ? path + "x" : path, w);
    REQM(!(changed == first), "maps that differ are equal");
  }
}
