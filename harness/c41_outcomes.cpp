// C41: what a handler returns or throws becomes exactly one documented response.
#include "c41_outcomes.hpp"
#include <cstdlib>
#include <fmt/format.h>
#include <fitoria/log.hpp>
#include <regex>
#include <variant>

static pbt::Rule rule(
    "handlers of 22 result types (responses, strings, vectors of several element types, variants and expecteds nested "
    "in each other, user types with a customisation) and six callable forms, returning a generated value or throwing a "
    "generated exception at once or after a suspension, inside up to five generated layers (the exception handler, the "
    "logger, middlewares that throw before or after and that mark the response) served to one to four concurrent "
    "requests; the response, the log records and, for what nobody catches, the end of that connection alone are "
    "predicted from the layers; non-trivial: a conversion other than of a response, or a layer that catches or logs");

using namespace c41;
namespace {
struct result_type {
  const char* name;
  std::shared_ptr<void> (*make)(pbt::Case&, want_response&);
  bool converts;
};
template <typename T>
std::shared_ptr<void> boxed(pbt::Case& c, want_response& w)
{
  return std::make_shared<T>(make<T>(c, w));
}
const result_type results[] = {
#define X(n, ...) { #__VA_ARGS__, &boxed<__VA_ARGS__>, n != 0 && n != 11 },
  RESULTS(X)
#undef X
};
constexpr std::size_t result_count = std::size(results);

add_fn adder(int n, int f)
{
  // every result type in two of the forms
  static const auto table = [] {
    std::array<std::array<add_fn, 2>, result_count> t {};
    part_a(t.data());
    part_b(t.data());
    part_c(t.data());
    return t;
  }();
  return table[n][f];
}

// ---- the logger --------------------------------------------------------------------------
std::vector<std::pair<lg::level, std::string>> records;
struct recorder : lg::async_writer {
  auto async_write(lg::record_ptr r) -> lg::awaitable<void> override
  {
    records.emplace_back(r->lv, r->msg);
    co_return;
  }
};
net::system_context& background()
{
  return net::system_context::instance();
}
throwing gen_throw(pbt::Case& c, int id)
{
  throwing t;
  t.kind = c.pick<thrown>({ thrown::runtime, thrown::own, thrown::own, thrown::system, thrown::bad_alloc, thrown::integer, thrown::text, thrown::object });
  t.text = "#" + std::to_string(id) + " " + c.str("ab{}%\n\"\\ \xc3\xa9", 8);
  return t;
}
}

SECTION("outcomes", 3000, 60000)
{
  clean_hooks clean;
  net::standin::listeners().clear();
  background().set_threads(0);
  background().run(true);
  records.clear();
  // one for all cases: a logger that ends waits for the background
  static bool logs = [] {
    auto l = lg::async_logger::builder().build();
    l->add_writer(std::make_shared<recorder>());
    lg::registry::global().set_default_logger(l);
    std::atexit([] { background().set_threads(1); });
    return true;
  }();
  plans.clear();
  gen_parts(c);

  int type = static_cast<int>(c.below(result_count)), which = static_cast<int>(c.below(2));
  int form = (type + (which ? 3 : 0)) % forms;
  c.in("result", results[type].name);
  c.in("form", form);
  set_up s;
  s.nested = c.chance(1, 2);
  int escaped = 0, ended = 0;
  bool own_handler = c.chance(3, 4); // of the server, for what nobody catches
  c.in("exception handler", own_handler ? "own" : "default");
  s.on_error = [&](std::exception_ptr e) { (e ? escaped : ended) += 1; };
  // a handler that takes nothing can't tell requests apart
  std::size_t many = form == 5 ? 1 : 1 + c.below(4);
  std::vector<std::unique_ptr<plan>> all;
  for (std::size_t i = 0; i < many; ++i) {
    auto p = std::make_unique<plan>();
    p->id = static_cast<int>(i);
    p->value = results[type].make(c, p->want);
    for (std::size_t k = 0; k < depth; ++k) {
      p->layers[k] = c.pick<layer>({ layer::none, layer::none, layer::catching, layer::catching, layer::logging, layer::logging, layer::before, layer::after, layer::marking });
      if (p->layers[k] == layer::before || p->layers[k] == layer::after) {
        if (c.chance(1, 2)) {
          p->layers[k] = layer::none;
        } else {
          p->raises[k] = gen_throw(c, p->id);
        }
      }
    }
    if (c.chance(1, 3)) {
      p->handler = gen_throw(c, p->id);
    }
    p->wait = static_cast<int>(c.below(4));
    p->method = c.pick<const char*>({ "GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS" });
    p->path = std::string(s.nested ? "/s" : "") + "/a/" + c.pick<const char*>({ "1", "x-y", "{}", "b.c" }) + std::to_string(i);
    if ((p->has_agent = c.chance(2, 3))) {
      p->agent = std::string(text::trim("ua" + std::to_string(i) + c.str("a{}/ ()", 6)));
    }
    std::string q = c.chance(1, 4) ? "?k=v" : "";
    std::string target = p->path;
    for (std::size_t at; (at = target.find_first_of("{}")) != target.npos;) {
      target.replace(at, 1, target[at] == '{' ? "%7B" : "%7D");
    }
    p->request = p->method + " " + target + q + " HTTP/1.1\r\nHost: x\r\nX-Plan: " + std::to_string(i) + "\r\n"
        + (p->has_agent ? "User-Agent: " + p->agent + "\r\n" : std::string()) + "Connection: close\r\n\r\n";
    // what comes of it, from the inside out
    throwing fault = p->handler;
    for (std::size_t k = depth; k-- > 0;) {
      // is this layer reached?
      bool reached = true;
      for (std::size_t o = 0; o < k; ++o) {
        reached = reached && p->layers[o] != layer::before;
      }
      if (!reached) {
        continue;
      }
      switch (p->layers[k]) {
      case layer::before:
        // nothing inside happens
        fault = p->raises[k];
        p->logged.clear();
        p->want = {};
        break;
      case layer::after:
        if (fault.kind == thrown::nothing) {
          fault = p->raises[k];
        }
        break;
      case layer::marking:
        if (fault.kind == thrown::nothing) {
          p->want.more.emplace_back("X-Mark", std::to_string(k));
        }
        break;
      case layer::catching:
        if (is_std(fault.kind)) {
          p->logged.push_back("4[fitoria.middleware.exception_handler] exception: " + what_of(fault.kind, fault.text));
          fault = {};
          p->want = { 500, "", "", {} };
        }
        break;
      case layer::logging:
        if (fault.kind == thrown::nothing) {
          p->logged.push_back("2" + fmt::format("[fitoria.middleware.logger] {} {} {} {} {} ", "127.0.0.1", p->method, p->path, p->want.status, p->agent));
        }
        break;
      default:
        break;
      }
    }
    p->answered = fault.kind == thrown::nothing;
    p->unknown_text = is_std(fault.kind) ? what_of(fault.kind, fault.text) : "";
    std::string shown;
    for (std::size_t k = 0; k < depth; ++k) {
      shown += fmt::format("{}{}", k ? ", " : "", layer_names[static_cast<int>(p->layers[k])]);
    }
    c.in("layers", shown);
    c.in("request", p->request);
    if (p->handler.kind != thrown::nothing) {
      c.in("handler throws", p->handler.text);
    }
    plans[std::to_string(i)] = p.get();
    bool special = results[type].converts && p->handler.kind == thrown::nothing;
    c.nontrivial(special || !p->logged.empty());
    c.label(!p->answered ? "nobody catches" : p->want.status == 500 && !p->logged.empty() ? "caught" : "answered");
    all.push_back(std::move(p));
  }

  net::io_context ioc;
  if (auto seed = c.below(1 << 16); seed) {
    auto sp = std::make_shared<pbt::u64>(seed);
    ioc.pick = [sp](std::size_t n) {
      *sp = pbt::mix(*sp);
      return static_cast<std::size_t>(*sp % n);
    };
  }
  auto b = web::http_server::builder(ioc);
  if (own_handler) {
    b.set_exception_handler(s.on_error);
  }
  adder(type, which)(b, s);
  auto server = b.build();
  REQM(server.bind("127.0.0.1", 8080).has_value(), "bind fails");
  std::vector<std::shared_ptr<seen>> clients;
  for (auto& p : all) {
    clients.push_back(raw_client(ioc, 8080, { step { p->request, 0, false } }, 0, c.chance(1, 2) ? static_cast<int>(c.below(3)) : 0));
  }
  try {
    ioc.scheduler::run(true, 5'000'000);
  } catch (...) {
    REQM(false, "an exception of a handler comes out of the context and ends every connection");
  }
  background().run(true);
  // what the default handler says of exceptions that nobody catches
  std::vector<std::string> said;
  std::erase_if(records, [&](auto& r) {
    if (own_handler || r.first != lg::level::debug || !r.second.starts_with("[fitoria.web.http_server]")) {
      return false;
    }
    said.push_back(r.second);
    return true;
  });

  int expect_escaped = 0;
  for (std::size_t i = 0; i < all.size(); ++i) {
    auto& p = *all[i];
    auto& got = *clients[i];
    REQM(got.connected, "a client is not connected");
    // the handler
    bool called = std::none_of(p.layers.begin(), p.layers.end(), [](layer l) { return l == layer::before; });
    REQM(p.calls == called, fmt::format("request {}: the handler is called {} times", i, p.calls));
    // the response
    if (!p.answered) {
      ++expect_escaped;
      if (!own_handler && !p.unknown_text.empty()) {
        auto it = std::find_if(said.begin(), said.end(), [&](auto& t) { return t.find(p.unknown_text) != t.npos; });
        REQM(it != said.end(), "the default handler doesn't say what was thrown: " + p.unknown_text);
        said.erase(it);
      }
      REQM(got.bytes.empty(), fmt::format("request {}: an exception that nobody catches is answered: {}", i, got.bytes.substr(0, 200)));
      REQM(got.ended || got.error, fmt::format("request {}: the connection stays open", i));
    } else {
      answer a;
      std::size_t at = 0;
      auto wrong = take_answer(got.bytes, at, false, got.ended, a);
      REQM(wrong.empty(), fmt::format("request {}: {}", i, wrong));
      REQM(at == got.bytes.size(), fmt::format("request {}: more than one response", i));
      REQM(a.status == p.want.status, fmt::format("request {}: status {} instead of {}", i, a.status, p.want.status));
      auto types = a.all("Content-Type");
      REQM(p.want.type.empty() ? types.empty() : types == std::vector { p.want.type },
           fmt::format("request {}: Content-Type {} (of {}) instead of {}", i, a.get("Content-Type"), types.size(), p.want.type));
      REQM(a.body == p.want.body, fmt::format("request {}: a body of {} bytes instead of {}", i, a.body.size(), p.want.body.size()));
      for (auto name : { "X-R0", "X-R1", "X-Teapot", "X-Mark" }) {
        std::vector<std::string> w;
        for (auto& [n, v] : p.want.more) {
          if (n == name) {
            w.push_back(v);
          }
        }
        auto g = a.all(name);
        std::sort(w.begin(), w.end());
        std::sort(g.begin(), g.end());
        REQM(w == g, fmt::format("request {}: {} other values of {}", i, g.size(), name));
      }
    }
  }
  REQM(!own_handler || escaped == expect_escaped, fmt::format("{} exceptions reach the server's exception handler instead of {}", escaped, expect_escaped));

  // the log: a session's records in their order, and nothing else
  auto form_of_time = [](std::string_view t) {
    static const std::regex r("\\d\\d:\\d\\d:\\d\\d\\.\\d{6}s");
    return std::regex_match(t.begin(), t.end(), r);
  };
  std::vector<std::pair<lg::level, std::string>> left = records;
  for (auto& p : all) {
    std::size_t from = 0;
    for (auto& l : p->logged) {
      auto msg = l.substr(1);
      bool timed = l[0] == '2';
      std::size_t k = from;
      for (; k < left.size(); ++k) {
        auto& [lv, m] = left[k];
        if (timed ? lv == lg::level::info && m.starts_with(msg) && form_of_time(std::string_view(m).substr(msg.size()))
                  : lv == lg::level::error && m == msg) {
          break;
        }
      }
      if (k == left.size()) {
        std::string have;
        for (auto& [lv, m] : records) {
          have += "\n  " + m;
        }
        REQM(false, fmt::format("request {}: not logged (in this place): {}; logged:{}", p->id, msg, have));
      }
      left.erase(left.begin() + static_cast<std::ptrdiff_t>(k));
      from = k;
    }
  }
  REQM(left.empty(), "logged, but by no layer: " + left[0].second);
}
