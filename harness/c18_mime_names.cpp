// C18: media-type names and parameters behave as a case-insensitive map.
#include "mime_ref.hpp"
#include <fitoria/mime/params_view.hpp>
#include <map>
#include <set>
#include <stdexcept>

static pbt::Rule rule(
    "pairs of names sharing folded prefixes; histories of set, [], get, at, "
    "contains, erase, clear, copy, move and iteration on two or three parameter "
    "sets over a pool of keys that coincide up to letter case, against a plain "
    "map; non-trivial: names equal or prefix-equal up to case, or a history that "
    "touches a present key");

namespace fi = fitoria;
using fi::mime::name_view;
using fi::mime::params_view;
namespace {
std::string str(name_view v)
{
  return std::string(static_cast<std::string_view>(v));
}
std::string gen_text(pbt::Case& c)
{
  std::string s;
  while (c.more(s.size(), 10, 3)) {
    s += c.chance(1, 4) ? static_cast<char>(1 + c.below(127))
                        : "abzAZB@[`{_-"[c.below(12)];
  }
  return s;
}
// texts outlive the sets that view them
struct pool {
  std::vector<std::unique_ptr<std::string>> texts;
  name_view add(std::string s)
  {
    texts.push_back(std::make_unique<std::string>(std::move(s)));
    return name_view(std::string_view(*texts.back()));
  }
};
using model = std::map<std::string, std::string>; // lower-cased key, value
bool same(const model& a, const model& b)
{
  if (a.size() != b.size()) {
    return false;
  }
  for (auto& [k, v] : a) {
    auto it = b.find(k);
    if (it == b.end() || text::lower(it->second) != text::lower(v)) {
      return false;
    }
  }
  return true;
}
}

SECTION("names", 300000, 6000000)
{
  auto a = gen_text(c);
  auto b = c.chance(1, 2) ? text::flip(c, a) : gen_text(c);
  if (c.chance(1, 3)) {
    b = text::mutate(c, b, "abAB@[`{");
    for (auto& ch : b) {
      ch = static_cast<char>(ch & 0x7f);
      ch = ch ? ch : 'a';
    }
  }
  c.in("a", a);
  c.in("b", b);
  auto la = text::lower(a), lb = text::lower(b);
  int o = la.compare(lb);
  bool eq = o == 0;
  c.nontrivial(eq || la.substr(0, 1) == lb.substr(0, 1));
  name_view x { std::string_view(a) }, y(b.c_str());
  REQ_EQ(x == y, eq);
  REQ_EQ(y == x, eq);
  REQ_EQ(x != y, !eq);
  REQ_EQ(x < y, o < 0);
  REQ_EQ(x <= y, o <= 0);
  REQ_EQ(x > y, o > 0);
  REQ_EQ(x >= y, o >= 0);
  std::string_view sv = b;
  REQ_EQ(x == sv, eq);
  REQ_EQ(x != sv, !eq);
  REQ_EQ(x < sv, o < 0);
  REQ_EQ(x > sv, o > 0);
  REQ_EQ(sv == x, eq);
  REQ_EQ(sv < x, o > 0);
  const char* p = b.c_str();
  REQ_EQ(x == p, eq);
  REQ_EQ(x != p, !eq);
  REQ_EQ(x < p, o < 0);
  REQ_EQ(x >= p, o >= 0);
  REQ_EQ(p == x, eq);
  REQ_EQ(p > x, o < 0);
  REQ_EQ(x.to_string(), la);
  REQ_EQ(y.to_string(), lb);
  REQ_EQ(str(x), a);
  REQ_EQ(str(y), b);
  REQ_EQ(fmt::format("{}", x), a);
  REQ(x == x);
  REQ(name_view() == name_view(""));
  REQ_EQ(x == name_view(), a.empty());
}

SECTION("parameter histories", 120000, 2000000)
{
  pool texts;
  std::vector<std::string> keys;
  for (int i = 0; i < 2 || c.more(i, 6, 2); ++i) {
    keys.push_back(i == 0 ? "charset" : gen_text(c));
  }
  const std::size_t nsets = 2;
  params_view set[nsets];
  model mod[nsets];
  auto key = [&] { return text::flip(c, keys[c.below(keys.size())]); };
  for (int i = 0; c.more(i, 30, 12); ++i) {
    auto w = c.below(nsets);
    auto& s = set[w];
    auto& m = mod[w];
    switch (c.below(11)) {
    case 0: {
      auto k = key(), v = gen_text(c);
      c.op("set", w, k, v);
      s.set(texts.add(k), texts.add(v));
      c.nontrivial(m.count(text::lower(k)) > 0);
      m[text::lower(k)] = v;
      break;
    }
    case 1: {
      auto k = key(), v = gen_text(c);
      c.op("[]=", w, k, v);
      s[texts.add(k)] = texts.add(v);
      c.nontrivial(m.count(text::lower(k)) > 0);
      m[text::lower(k)] = v;
      break;
    }
    case 2: {
      auto k = key();
      c.op("[]", w, k);
      auto& slot = m[text::lower(k)];
      REQ_EQ(str(s[texts.add(k)]), slot);
      break;
    }
    case 3: {
      auto k = key();
      c.op("erase", w, k);
      auto got = s.erase(k.c_str());
      auto it = m.find(text::lower(k));
      REQ_EQ(got.has_value(), it != m.end());
      if (got) {
        c.nontrivial();
        REQ_EQ(str(*got), it->second);
        m.erase(it);
      }
      break;
    }
    case 4:
      c.op("clear", w);
      s.clear();
      m.clear();
      break;
    case 5: {
      auto k = key();
      c.op("at", w, k);
      auto it = m.find(text::lower(k));
      try {
        auto& v = s.at(std::string_view(k));
        REQ(it != m.end());
        REQ_EQ(str(v), it->second);
        if (c.chance(1, 2)) {
          auto nv = gen_text(c);
          c.op("at=", w, k, nv);
          v = texts.add(nv);
          it->second = nv;
        }
      } catch (const std::out_of_range&) {
        REQ(it == m.end());
      }
      break;
    }
    case 6: {
      c.op("copy", w);
      set[1 - w] = s;
      mod[1 - w] = m;
      break;
    }
    case 7: {
      c.op("copy construct and change", w);
      params_view t = s;
      t.set("charset", "changed by the copy");
      t.erase(keys.back().c_str());
      break;
    }
    case 8: {
      c.op("move through another", w);
      params_view t = std::move(s);
      s = params_view();
      REQ(s.empty());
      s = std::move(t);
      break;
    }
    case 9: {
      std::vector<std::pair<name_view, name_view>> kv;
      model nm;
      for (int j = 0; c.more(j, 3, 2); ++j) {
        auto k = key(), v = gen_text(c);
        if (nm.emplace(text::lower(k), v).second) {
          c.op("  with", k, v);
          kv.emplace_back(texts.add(k), texts.add(v));
        }
      }
      c.op("= initializer list", w);
      using vt = params_view::value_type;
      auto at = [&](std::size_t j) { return vt(kv[j].first, kv[j].second); };
      s = kv.size() == 0 ? params_view {}
          : kv.size() == 1
          ? params_view({ at(0) })
          : kv.size() == 2 ? params_view({ at(0), at(1) })
                           : params_view({ at(0), at(1), at(2) });
      m = nm;
      break;
    }
    default: {
      auto v = gen_text(c);
      c.op("assign all values through iteration", w, v);
      auto nv = texts.add(v);
      for (auto& kv : s) {
        kv.second = nv;
      }
      for (auto& kv : m) {
        kv.second = v;
      }
    }
    }
    for (std::size_t q = 0; q < nsets; ++q) {
      const auto& cs = set[q];
      REQ_EQ(cs.size(), mod[q].size());
      REQ_EQ(cs.empty(), mod[q].empty());
      model seen;
      for (auto& [k, v] : cs) {
        REQ(seen.emplace(text::lower(str(k)), str(v)).second);
      }
      REQ(seen == mod[q]);
      REQ_EQ(static_cast<std::size_t>(std::distance(cs.cbegin(), cs.cend())),
             mod[q].size());
      auto k = text::flip(c, keys[c.below(keys.size())]);
      auto it = mod[q].find(text::lower(k));
      REQ_EQ(cs.contains(k.c_str()), it != mod[q].end());
      auto g = cs.get(std::string_view(k));
      auto g2 = set[q].get(std::string_view(k));
      REQ_EQ(g.has_value(), it != mod[q].end());
      REQ_EQ(g2.has_value(), it != mod[q].end());
      if (it != mod[q].end()) {
        REQ_EQ(str(*g), it->second);
        REQ_EQ(str(*g2), it->second);
        REQ_EQ(str(cs.at(k.c_str())), it->second);
      }
    }
    bool eq = same(mod[0], mod[1]);
    REQ_EQ(set[0] == set[1], eq);
    REQ_EQ(set[1] != set[0], !eq);
    c.label(eq ? "equal sets" : "different sets");
  }
}
