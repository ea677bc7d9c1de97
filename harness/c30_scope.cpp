// C30: nested scopes compose path, state and middleware outside-in.
#include "c30_table.hpp"
#include "web.hpp"
#include <set>

static pbt::Rule rule(
    "a generated batch of programs that derive scopes and routes from one another "
    "(use, use_state, serve in any order, also on scopes used before and after), "
    "inspected as a whole and called, some through a server, with a middleware "
    "that may answer itself; non-trivial: a route with two or more middlewares or "
    "a state, or a server");

using namespace web_h;
namespace {
std::string list(const std::vector<int>& v)
{
  std::string s;
  for (int i : v) {
    s += std::to_string(i) + " ";
  }
  return s;
}
std::vector<int> expected_trace(const c30::want& w, int stop, int& result)
{
  std::vector<int> t;
  std::size_t n = 0;
  bool stopped = false;
  for (int m : w.marks) {
    t.push_back(m);
    if (m == stop) {
      stopped = true;
      break;
    }
    ++n;
  }
  result = stopped ? -stop : w.handler;
  if (!stopped) {
    t.push_back(w.handler);
  }
  while (n--) {
    t.push_back(-w.marks[n]);
  }
  return t;
}
int gen_stop(pbt::Case& c, const c30::want& w)
{
  int stop = w.marks.empty() || c.chance(2, 3) ? -1 : w.marks[c.below(w.marks.size())];
  c.in("answering middleware", stop);
  return stop;
}
}

SECTION("programs", 4000, 60000)
{
  std::vector<const c30::program*> mine;
  for (auto& p : c30::table()) {
    if (p.run) {
      mine.push_back(&p);
    }
  }
  auto& p = *mine[c.below(mine.size())];
  c.in("program", p.text);
  auto made = p.run();
  REQ_EQ(made.size(), p.expected.size());
  std::map<std::pair<int, int>, const void*> where;
  for (std::size_t i = 0; i < made.size(); ++i) {
    auto& m = made[i];
    auto& w = p.expected[i];
    auto at = [&] { return "route " + std::to_string(i) + " (" + w.pattern + ") of " + w.scope; };
    REQM(m.scope == w.scope, at());
    REQM(m.pattern == w.pattern, at() + ": its pattern is " + m.pattern);
    REQM(m.method == w.method, at() + ": method");
    for (int k = 0; k < 3; ++k) {
      REQM(m.states[k] == w.states[k],
           at() + ": sees state " + std::to_string(m.states[k]) + " instead of " + std::to_string(w.states[k]));
      if (m.at[k]) {
        auto [it, fresh] = where.try_emplace({ k, m.states[k] }, m.at[k]);
        REQM(it->second == m.at[k], at() + ": has a state of its own instead of the shared one");
      }
    }
    c.nontrivial(w.marks.size() > 1 || m.at[0] || m.at[1] || m.at[2]);
  }
  // different registrations are different objects
  std::set<const void*> objects;
  for (auto& [k, o] : where) {
    REQM(objects.insert(o).second, "two registrations share an object");
  }
  for (std::size_t n = 0; n < 1 || c.more(n, 4, 2); ++n) {
    auto i = c.below(made.size());
    auto& w = p.expected[i];
    c.in("call", i);
    c30::call call;
    call.stop = gen_stop(c, w);
    int want = 0;
    auto t = expected_trace(w, call.stop, want);
    int got = made[i].run(call);
    REQ_EQ(list(call.trace), list(t));
    REQ_EQ(got, want);
  }
}

SECTION("servers", 800, 12000)
{
  std::vector<const c30::program*> mine;
  for (auto& p : c30::table()) {
    if (p.serve) {
      mine.push_back(&p);
    }
  }
  auto& p = *mine[c.below(mine.size())];
  c.in("program", p.text);
  c.nontrivial();
  clean_hooks clean;
  net::io_context ioc;
  auto server = p.serve(ioc);
  for (std::size_t n = 0; n < 1 || c.more(n, 4, 2); ++n) {
    auto& w = p.expected[c.below(p.expected.size())];
    std::string path = w.path;
    auto method = w.method;
    bool found = true;
    if (c.chance(1, 8)) {
      path += "/no-such-route";
      found = std::string_view(w.pattern).find('#') != std::string_view::npos;
    }
    c.in("path", path);
    c30::call call;
    call.stop = gen_stop(c, w);
    c30::current = &call;
    int want = 0;
    auto t = expected_trace(w, call.stop, want);
    bool answered = false;
    server.serve_request(path, c30::web::test_request_builder(method).build(),
                         [&](c30::web::test_response r) -> awaitable<void> {
                           answered = true;
                           if (!found) {
                             REQ_EQ(static_cast<int>(r.status().value()), 404);
                             co_return;
                           }
                           REQ_EQ(static_cast<int>(r.status().value()), 200);
                           REQ_EQ(std::string(r.headers().get("x-by").value_or("")), std::to_string(want));
                           if (want > 0) {
                             std::string states;
                             for (int s : w.states) {
                               states += (s < 0 ? std::string("-") : std::to_string(s)) + " ";
                             }
                             REQ_EQ(std::string(r.headers().get("x-states").value_or("")), states);
                             REQ_EQ(std::string(r.headers().get("x-pattern").value_or("")), std::string(w.pattern));
                           }
                         });
    ioc.scheduler::run(true, 1'000'000);
    REQM(answered, "no response");
    REQ_EQ(list(call.trace), found ? list(t) : std::string());
  }
}
