// C29: header maps are case-insensitive multimaps.
#include "pbt.hpp"
#include "text.hpp"
#include <fitoria/http/header_map.hpp>

static pbt::Rule rule(
    "histories of up to 40 operations over three header maps (insert, set and "
    "erase by text in generated letter case and by known field, clear, copies, "
    "moves, self-assignment, conversion from and to the wire container, values "
    "read from the map being changed), names close to each other, values with "
    "any field content; every lookup form compared with a list-of-values model "
    "after each step; non-trivial: some name held two values at once or was "
    "spelled in two ways");

namespace fi = fitoria;
using fi::http::field;
using fi::http::header_map;
namespace {
struct known {
  field f;
  const char* name;
};
const known knowns[] = { { field::accept, "Accept" },
                         { field::accept_encoding, "Accept-Encoding" },
                         { field::accept_charset, "Accept-Charset" },
                         { field::content_type, "Content-Type" },
                         { field::content_length, "Content-Length" },
                         { field::cookie, "Cookie" },
                         { field::set_cookie, "Set-Cookie" },
                         { field::host, "Host" },
                         { field::vary, "Vary" },
                         { field::user_agent, "User-Agent" },
                         { field::te, "TE" },
                         { field::connection, "Connection" },
                         { field::www_authenticate, "WWW-Authenticate" } };
const char* odd[] = { "X-A", "X-B", "X-AB", "X", "x_a", "X-A-", "accep", "Hosts" };

// one stored field: name as it was first written for this entry, and value
struct entry {
  std::string name, value;
};
struct model {
  std::vector<entry> all; // values of one name in order
  std::size_t erase(const std::string& low)
  {
    return std::erase_if(all,
                         [&](auto& e) { return text::lower(e.name) == low; });
  }
  std::vector<entry> of(const std::string& low) const
  {
    std::vector<entry> v;
    for (auto& e : all) {
      if (text::lower(e.name) == low) {
        v.push_back(e);
      }
    }
    return v;
  }
  std::map<std::string, std::vector<std::string>> groups() const
  {
    std::map<std::string, std::vector<std::string>> m;
    for (auto& e : all) {
      m[text::lower(e.name)].push_back(e.name + "\n" + e.value);
    }
    return m;
  }
};

std::string value(pbt::Case& c)
{
  static const std::string inner
      = "abcXYZ019 ,;=\"\\()<>@:?{}\t!#$%&'*+-.^_`|~\x80\xff";
  std::string s;
  switch (c.weighted({ 3, 3, 1 })) {
  case 0:
    s = c.pick({ "", "a", "b", "close", "text/html", "a, b", "gzip" });
    break;
  case 1:
    s = c.str(inner, 20);
    break;
  default:
    s = std::string(c.below(3000), 'v');
  }
  // the field content of RFC 9110 neither begins nor ends with white space
  return text::trim(s);
}

template <typename M>
void compare(pbt::Case& c, M& h, const model& m)
{
  REQ_EQ(h.size(), m.all.size());
  REQ_EQ(h.empty(), m.all.empty());
  model got;
  for (auto it = h.begin(); it != h.end(); ++it) {
    got.all.push_back(
        { std::string(it->name_string()), std::string(it->value()) });
  }
  REQM(got.groups() == m.groups(), "iteration shows other entries");
  model again, once_more;
  for (auto it = h.cbegin(); it != h.cend(); ++it) {
    again.all.push_back({ std::string(it->name_string()), std::string(it->value()) });
  }
  REQM(again.groups() == m.groups(), "iteration from cbegin() shows other entries");
  for (auto& e : std::as_const(h)) {
    once_more.all.push_back({ std::string(e.name_string()), std::string(e.value()) });
  }
  REQM(once_more.groups() == m.groups(), "iteration of a constant map shows other entries");
}

template <typename Name>
void lookup(pbt::Case& c, const header_map& h, Name name, const std::string& low, const model& m)
{
  auto want = m.of(low);
  REQ_EQ(h.contains(name), !want.empty());
  auto g = h.get(name);
  REQ_EQ(g.has_value(), !want.empty());
  if (g) {
    REQ_EQ(std::string(*g), want[0].value);
  }
  auto [b, e] = h.equal_range(name);
  std::size_t i = 0;
  for (; b != e; ++b, ++i) {
    REQM(i < want.size(), "equal_range shows too many entries");
    REQ_EQ(std::string(b->value()), want[i].value);
    REQ_EQ(std::string(b->name_string()), want[i].name);
  }
  REQ_EQ(i, want.size());
}
}

SECTION("histories", 15000, 400000)
{
  header_map h[3];
  model m[3];
  // few names, so that they meet again
  std::vector<const known*> few;
  std::vector<const char*> few_odd;
  for (int i = 0; i < 3; ++i) {
    few.push_back(&knowns[c.below(std::size(knowns))]);
    few_odd.push_back(odd[c.below(std::size(odd))]);
  }
  for (std::size_t step = 0; c.more(step, 40, 14); ++step) {
    auto k = c.below(3);
    // the name, as text and perhaps as a known field
    std::string name;
    const known* kn = nullptr;
    if (c.chance(2, 3)) {
      kn = c.chance(5, 6) ? c.pick(few) : &knowns[c.below(std::size(knowns))];
      name = kn->name;
    } else {
      name = c.chance(5, 6) ? c.pick(few_odd) : odd[c.below(std::size(odd))];
    }
    bool by_field = kn && c.chance(1, 2);
    if (!by_field) {
      name = text::flip(c, name);
    }
    auto low = text::lower(name);
    auto& mk = m[k];
    auto& hk = h[k];
    switch (c.weighted({ 8, 5, 4, 1, 2, 2, 1, 2, 2 })) {
    case 0: {
      auto v = value(c);
      c.op("insert", k, name, by_field, v);
      by_field ? hk.insert(kn->f, v) : hk.insert(name, v);
      mk.all.push_back({ name, v });
      break;
    }
    case 1: {
      auto v = value(c);
      c.op("set", k, name, by_field, v);
      by_field ? hk.set(kn->f, v) : hk.set(name, v);
      mk.erase(low);
      mk.all.push_back({ name, v });
      break;
    }
    case 2: {
      c.op("erase", k, name, by_field);
      auto n = by_field ? hk.erase(kn->f) : hk.erase(name);
      REQ_EQ(n, mk.erase(low));
      break;
    }
    case 3:
      c.op("clear", k);
      hk.clear();
      mk.all.clear();
      break;
    case 4: {
      auto j = c.below(3);
      c.op("copy assign", k, j);
      hk = h[j];
      mk = model(m[j]);
      break;
    }
    case 5: {
      auto j = c.below(3);
      if (c.chance(1, 2)) {
        c.op("move assign", k, j);
        if (j != k) {
          hk = std::move(h[j]);
          mk = m[j];
          h[j].clear();
          m[j].all.clear();
        }
      } else {
        c.op("copy, move", k, j);
        header_map x(h[j]);
        compare(c, x, m[j]);
        header_map y(std::move(x));
        compare(c, y, m[j]);
        hk = y;
        mk = model(m[j]);
      }
      break;
    }
    case 6: {
      c.op("swap", k);
      auto j = c.below(3);
      std::swap(hk, h[j]);
      std::swap(mk.all, m[j].all);
      break;
    }
    case 7: {
      // appends every entry of one map to another through the wire container
      auto j = c.below(3);
      c.op("to_impl, from_impl", k, j);
      boost::beast::http::fields f;
      hk.to_impl(f);
      if (j != k) {
        h[j].to_impl(f);
      }
      auto x = header_map::from_impl(f);
      model sum = mk;
      if (j != k) {
        sum.all.insert(sum.all.end(), m[j].all.begin(), m[j].all.end());
      }
      compare(c, x, sum);
      hk = std::move(x);
      mk = sum;
      break;
    }
    default: {
      // a value that lives in the map that is changed
      if (auto v = hk.get(low); v) {
        bool set = c.chance(1, 2);
        auto copy = std::string(*v);
        c.op(set ? "set from itself" : "insert from itself", k, name);
        set ? hk.set(name, *v) : hk.insert(name, *v);
        if (set) {
          mk.erase(low);
        }
        mk.all.push_back({ name, copy });
      }
    }
    }
    for (std::size_t i = 0; i < 3; ++i) {
      compare(c, h[i], m[i]);
      compare(c, std::as_const(h[i]), m[i]);
    }
    const auto& ck = hk;
    lookup(c, ck, std::string_view(text::flip(c, name)), low, mk);
    if (kn) {
      lookup(c, ck, kn->f, low, mk);
    }
    auto& other = knowns[c.below(std::size(knowns))];
    lookup(c, ck, other.f, text::lower(other.name), mk);
    lookup(c, ck, std::string_view(other.name), text::lower(other.name), mk);
    for (auto& g : mk.groups()) {
      std::set<std::string> spellings;
      for (auto& s : g.second) {
        spellings.insert(s.substr(0, s.find('\n')));
      }
      c.nontrivial(g.second.size() > 1);
      if (spellings.size() > 1) {
        c.label("one name in several spellings");
      }
    }
  }
}
