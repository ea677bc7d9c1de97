// C26: a lookup finds the preferred registered route whenever one matches.
#include "route_ref.hpp"
#include <fitoria/web/routable.hpp>
#include <fitoria/web/router.hpp>

static pbt::Rule rule(
    "histories of registrations, lookups and optimisations of a router: "
    "patterns grown from each other (shared prefixes, extensions, truncations, "
    "a segment swapped for a parameter or wildcard) in any order and under "
    "several methods, looked up with paths made from them; non-trivial: at "
    "least two routes registered and one lookup made that more than one of "
    "them matches, or that fails although a longer or shorter pattern is there");

namespace fi = fitoria;
namespace web = fi::web;
namespace http = fi::http;
namespace {
using router = web::router<int, int>;
using toks = std::vector<ref::tok>;
const http::verb methods[] = { http::verb::get, http::verb::post, http::verb::unknown,
                               http::verb::head, http::verb::put };

struct entry {
  http::verb method;
  std::string pattern;
  toks ts;
  int id;
};
// where a pattern goes, with the parameter names left out
std::string shape(const toks& ts)
{
  std::string s;
  for (auto& t : ts) {
    s += t.kind == 's' ? "0" + t.value : t.kind == 'p' ? "\1" : "\2";
  }
  return s;
}
// order of preference: at the first place where two matching patterns differ,
// literal text before a parameter before a wildcard (the end before a wildcard)
std::string rank(const toks& ts)
{
  std::string s;
  for (auto& t : ts) {
    s += t.kind == 's' ? std::string(t.value.size(), '1')
        : t.kind == 'p' ? "2" : "3";
  }
  return s;
}
struct model {
  std::vector<entry> all;
  bool insert(entry e)
  {
    for (auto& o : all) {
      if (o.method == e.method && shape(o.ts) == shape(e.ts)) {
        return false;
      }
    }
    all.push_back(std::move(e));
    return true;
  }
  const entry* find(http::verb m, std::string_view path, int* candidates = nullptr) const
  {
    const entry* best = nullptr;
    for (auto& e : all) {
      if ((e.method == m || e.method == http::verb::unknown) && ref::match(e.ts, path)) {
        if (candidates) {
          ++*candidates;
        }
        if (!best || rank(e.ts) < rank(best->ts)
            || (rank(e.ts) == rank(best->ts) && e.method == m)) {
          best = &e;
        }
      }
    }
    return best;
  }
};

std::string gen_seg(pbt::Case& c, int& names)
{
  switch (c.weighted({ 6, 3, 1 })) {
  case 0: {
    std::string s(1, "ab"[c.below(2)]);
    while (s.size() < 4 && c.chance(2, 5)) {
      s += "ab."[c.below(3)];
    }
    return s;
  }
  case 1:
    return "{p" + std::to_string(names++) + "}";
  default:
    return c.chance(1, 2) ? std::string() : ref::gen_pchars(c, 3, true);
  }
}
std::vector<std::string> split(const std::string& s)
{
  std::vector<std::string> v;
  std::size_t i = 0;
  while (i < s.size()) {
    auto e = std::min(s.find('/', i + 1), s.size());
    v.push_back(s.substr(i, e - i));
    i = e;
  }
  return v;
}
// a pattern, usually related to one that is there already
std::string gen_route(pbt::Case& c, const model& m)
{
  int names = 10 * static_cast<int>(m.all.size());
  if (c.chance(1, 25)) {
    return ref::gen_pattern(c, true);
  }
  std::string s;
  if (!m.all.empty() && c.chance(3, 4)) {
    s = m.all[c.below(m.all.size())].pattern;
    if (auto h = s.find('#'); h != s.npos) {
      s.erase(h);
    }
    auto v = split(s);
    switch (c.below(6)) {
    case 0:
      break; // same
    case 1:
      if (!v.empty()) {
        v[c.below(v.size())] = "/" + gen_seg(c, names);
      }
      break;
    case 2:
      v.push_back("/" + gen_seg(c, names));
      break;
    case 3:
      if (!v.empty()) {
        v.pop_back();
      }
      break;
    case 4: {
      // cut or grow the last segment's text
      if (!v.empty() && v.back().find('{') == std::string::npos) {
        if (c.chance(1, 2)) {
          v.back().resize(c.below(v.back().size() + 1));
        } else {
          v.back() += "ab."[c.below(3)];
        }
      }
      break;
    }
    default:
      // different text in the middle of a segment
      if (!v.empty()) {
        auto& w = v[c.below(v.size())];
        if (w.size() > 1 && w.find('{') == std::string::npos) {
          w[1 + c.below(w.size() - 1)] = "ab."[c.below(3)];
        }
      }
    }
    s.clear();
    for (auto& x : v) {
      s += x;
    }
    if (c.chance(1, 6)) {
      s += "/";
    }
  } else {
    for (std::size_t i = 0; c.more(i, 5, 3); ++i) {
      s += "/" + gen_seg(c, names);
    }
  }
  if (c.chance(1, 6) && (s.empty() || s.back() != '}')) {
    s += "#w";
  }
  return s;
}
std::string gen_lookup(pbt::Case& c, const model& m)
{
  if (m.all.empty() || c.chance(1, 20)) {
    return c.chance(1, 2) ? ref::gen_pchars(c, 4, true) : "/" + c.str("ab/.", 6);
  }
  auto& e = m.all[c.below(m.all.size())];
  if (c.chance(1, 4)) {
    return ref::gen_path(c, e.ts);
  }
  // fill with text that other literals may match too
  std::string s;
  for (auto& t : e.ts) {
    if (t.kind == 's') {
      s += t.value;
    } else if (t.kind == 'p') {
      s += std::string(1, "ab"[c.below(2)]) + (c.chance(1, 2) ? c.str("ab.", 3) : "");
    } else if (c.chance(3, 4)) {
      s += c.chance(1, 2) ? c.str("ab/.", 6) : gen_lookup(c, m);
    }
    if (s.size() > 200) {
      break;
    }
  }
  if (c.chance(1, 5)) {
    s = text::mutate(c, s, "ab/.");
  }
  return s;
}

router::route_type make(http::verb m, const std::string& pattern, int id)
{
  auto spelled = std::make_unique<std::string>(pattern);
  return router::route_type(
      web::routable(m, web::path_matcher(*spelled), {}, [=](int x) { return id * 1000 + x; }));
}
bool is(const std::error_code& a, const std::error_code& b)
{
  return a.value() == b.value() && &a.category() == &b.category();
}
void lookup(pbt::Case& c, const router& r, const model& m, http::verb v, const std::string& path)
{
  int n = 0;
  auto want = m.find(v, path, &n);
  auto text = std::make_unique<std::string>(path);
  auto got = r.try_find(v, *text);
  if (m.all.size() > 1 && (n > 1 || n == 0)) {
    c.nontrivial();
  }
  c.label(n > 1 ? "several match" : n ? "one matches" : "none matches");
  REQM(got.has_value() == (want != nullptr),
       want ? "a registered route matches but was not found" : "a route was found that does not match");
  if (!want) {
    REQM(is(got.error(), make_error_code(web::error::route_not_exists)), "wrong error for a lookup that fails");
    return;
  }
  REQ_EQ((*got)(7), want->id * 1000 + 7);
  REQM(got->method() == want->method, "method of the route found");
  REQ_EQ(std::string(got->matcher().pattern()), want->pattern);
  auto caps = got->matcher().match(path);
  REQM(caps, "the route found does not accept the path");
  REQ_EQ(caps->size(), ref::match(want->ts, path)->size());
}
void history(pbt::Case& c, std::size_t most)
{
  auto r = std::make_unique<router>();
  model m;
  int id = 0;
  for (std::size_t i = 0; i < 2 || c.more(i, most, 8); ++i) {
    switch (c.weighted({ 10, 10, 2, 1 })) {
    case 0: {
      auto p = gen_route(c, m);
      auto ts = ref::parse_pattern(p, true);
      if (!ts) {
        break;
      }
      auto v = methods[c.weighted({ 8, 3, 2, 1, 1 })];
      c.in("register", std::to_string(static_cast<int>(v)) + " " + p);
      bool want = m.insert({ v, p, *ts, ++id });
      auto got = r->try_insert(make(v, p, id));
      c.label(want ? "registered" : "refused");
      REQM(got.has_value() == want,
           want ? "a new route was refused" : "a second route with the same method and pattern was accepted");
      if (!want) {
        REQM(is(got.error(), make_error_code(web::error::route_already_exists)), "wrong error for a second route");
      }
      break;
    }
    case 1: {
      auto path = gen_lookup(c, m);
      auto v = methods[c.weighted({ 8, 3, 1, 1, 1 })];
      c.in("look up", std::to_string(static_cast<int>(v)) + " " + path);
      lookup(c, *r, m, v, path);
      break;
    }
    case 2:
      c.op("optimize");
      r->optimize();
      break;
    default: {
      c.op("move");
      auto n = std::make_unique<router>(std::move(*r));
      r = std::move(n);
    }
    }
  }
  // every route is still there, and preference holds, before and after
  for (int round = 0; round < 2; ++round) {
    for (auto& e : m.all) {
      std::string path;
      for (auto& t : e.ts) {
        path += t.kind == 's' ? t.value : t.kind == 'p' ? "q" : "";
      }
      c.in("look up", path);
      lookup(c, *r, m, e.method, path);
      auto p2 = gen_lookup(c, m);
      c.in("look up", p2);
      lookup(c, *r, m, e.method, p2);
    }
    if (round == 0) {
      c.op("optimize");
      r->optimize();
    }
  }
}
}
SECTION("histories", 6000, 200000) { history(c, 40); }
SECTION("short histories", 12000, 300000) { history(c, 8); }

SECTION("orders", 1500, 50000)
{
  // the same routes registered in two orders answer alike
  model m;
  for (std::size_t i = 0; i < 3 || c.more(i, 10, 5); ++i) {
    auto p = gen_route(c, m);
    if (auto ts = ref::parse_pattern(p, true); ts) {
      m.insert({ methods[c.weighted({ 6, 1, 1 })], p, *ts, static_cast<int>(i) });
    }
  }
  auto order = m.all;
  for (std::size_t i = order.size(); i > 1; --i) {
    std::swap(order[i - 1], order[c.below(i)]);
  }
  router r;
  for (auto& e : order) {
    c.in("register", std::to_string(static_cast<int>(e.method)) + " " + e.pattern);
    REQM(r.try_insert(make(e.method, e.pattern, e.id)), "a new route was refused");
  }
  for (int k = 0; k < 10; ++k) {
    auto path = gen_lookup(c, m);
    auto v = methods[c.below(3)];
    c.in("look up", std::to_string(static_cast<int>(v)) + " " + path);
    lookup(c, r, m, v, path);
  }
}
