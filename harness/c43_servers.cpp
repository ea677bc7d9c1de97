// C43: servers answer on exactly the addresses they are bound to.
#include "server.hpp"
#include <fmt/format.h>
#include <optional>

static pbt::Rule rule(
    "histories of up to 20 steps over one to three servers on one context: binding addresses (IPv4, IPv6 and local ones "
    "in several spellings, some malformed, too long, already taken or failing to open, to take an option, to bind or to "
    "listen), clients connecting from generated addresses with one or two requests, requests served without a connection, "
    "accepts that fail, handlers that never end, turns of the context, and the context ending at any point; compared with "
    "a map from address to server; non-trivial: a bind that fails, two servers with clients, or clients waiting when the "
    "context ends");

using namespace web_h;
namespace {
int handlers_alive = 0;
struct in_handler {
  in_handler()
  {
    ++handlers_alive;
  }
  in_handler(const in_handler&) = delete;
  ~in_handler()
  {
    --handlers_alive;
  }
};
struct identity {
  int n;
};

// an address to bind, and how it is written
struct place {
  bool local = false;
  std::string text; // as given
  std::string canonical; // "" when it isn't an address
  std::uint16_t port = 0;
  std::string key() const
  {
    return local ? "local|" + canonical : canonical + "|" + std::to_string(port);
  }
};
place gen_place(pbt::Case& c)
{
  place p;
  if (c.chance(1, 3)) {
    p.local = true;
    p.text = c.pick<const char*>({ "/pbt/a", "/pbt/b", "/pbt/a b", "relative" });
    if (c.chance(1, 6)) {
      // around the longest name there is
      p.text = "/" + std::string(104 + c.below(6), 'n');
    } else if (c.chance(1, 12)) {
      p.text = "/" + std::string(c.pick<std::size_t>({ 200, 5000 }), 'n');
    }
    if (p.text.size() <= 107) {
      p.canonical = p.text;
    }
    return p;
  }
  struct spelled {
    const char *text, *canonical;
  };
  static const spelled s[] = { { "127.0.0.1", "127.0.0.1" }, { "127.0.0.2", "127.0.0.2" }, { "10.1.2.3", "10.1.2.3" },
                               { "::1", "::1" }, { "0:0:0:0:0:0:0:1", "::1" }, { "2001:DB8::00A", "2001:db8::a" },
                               { "::ffff:127.0.0.1", "::ffff:127.0.0.1" } };
  static const char* malformed[] = { "", "localhost", "127.0.0.1.", "127.0.0", "256.0.0.1", " 127.0.0.1", "127.0.0.1 ",
                                     "1:2", "::1::", "127.0.0.1:80", "g::1", "[::1]" };
  if (c.chance(1, 6)) {
    p.text = malformed[c.below(std::size(malformed))];
  } else {
    auto& x = s[c.below(std::size(s))];
    p.text = x.text;
    p.canonical = x.canonical;
  }
  p.port = c.pick<std::uint16_t>({ 80, 8080, 65535 });
  return p;
}

struct client_of {
  int server = -1;
  std::string local, remote; // addresses the handler must see
  int requests = 1;
  bool stuck = false; // the handler of the (last) request never ends
  std::shared_ptr<seen> got;
  bool judged = false;
};
struct direct {
  int server;
  bool stuck;
  std::shared_ptr<reply> got;
};

struct one {
  std::unique_ptr<web::http_server> s;
};
awaitable<web::response> serve(int n, web::request& r)
{
  in_handler here;
  if (r.path().get("how").value_or("") == "stuck") {
    client_timer t(co_await net::this_coro::executor);
    t.expires_at(client_timer::time_point::max());
    co_await t.async_wait(fi::use_awaitable);
  }
  auto kept = r.state<identity>();
  co_return web::response::ok().set_body(fmt::format("{}|{}|{}|{}", n, kept ? kept->n : -1, r.connection().local(), r.connection().remote()));
}
web::http_server make_server(net::io_context& ioc, pbt::Case& c, int n, int backlog)
{
  auto handler = [n](web::request& r) -> awaitable<web::response> { return serve(n, r); };
  auto with = [&](auto&& b) {
    if (backlog >= 0) {
      b.set_max_listen_connections(backlog);
    }
    // a handler that never ends has no time limit of its own, but reading the
    // next request has
    b.set_exception_handler([](std::exception_ptr) {});
    return b.serve(web::scope().use_state(identity { n * 10 }).serve(web::route::get<"/{how}">(handler))).build();
  };
  if (c.chance(1, 2)) {
    return with(web::http_server::builder(ioc));
  }
  return with(web::http_server::builder(ioc.get_executor()));
}
}

SECTION("histories", 4000, 80000)
{
  clean_hooks clean;
  net::standin::listeners().clear();
  auto& faults = net::standin::acceptor_faults();
  faults = {};
  gen_parts(c);
  REQ_EQ(handlers_alive, 0);
  bool failed = false, ended_early = false;
  std::set<int> used;
  std::vector<std::shared_ptr<seen>> kept; // clients outlive their context
  {
    net::io_context ioc;
    if (auto seed = c.below(1 << 16); seed) {
      auto s = std::make_shared<pbt::u64>(seed);
      ioc.pick = [s](std::size_t n) {
        *s = pbt::mix(*s);
        return static_cast<std::size_t>(*s % n);
      };
    }
    std::size_t many = 1 + c.below(3);
    std::vector<int> backlogs;
    std::vector<std::unique_ptr<web::http_server>> servers;
    for (std::size_t i = 0; i < many; ++i) {
      int backlog = c.pick<int>({ -1, -1, 0, 1, 5, 1000 });
      c.in("most connections waiting", backlog);
      backlogs.push_back(backlog < 0 ? static_cast<int>(net::socket_base::max_listen_connections) : backlog);
      // made in place: a server is neither copied nor moved
      servers.emplace_back(new web::http_server(make_server(ioc, c, static_cast<int>(i), backlog)));
      REQ_EQ(servers[i]->max_listen_connections(), backlogs[i]);
    }
    std::map<std::string, int> bound; // key -> server
    std::vector<place> places;
    std::vector<std::unique_ptr<client_of>> clients;
    std::vector<direct> directs;
    std::uint16_t from_port = 40000;

    auto settle = [&] {
      ioc.scheduler::run(true, 5'000'000);
      for (auto& k : clients) {
        if (k->judged) {
          continue;
        }
        k->judged = true;
        auto& g = *k->got;
        if (k->server < 0) {
          REQM(!g.connected, "connected to an address that nothing is bound to");
          continue;
        }
        REQM(g.connected, "not connected to an address that is bound");
        std::size_t at = 0;
        for (int i = 0; i < k->requests; ++i) {
          if (k->stuck && i + 1 == k->requests) {
            break;
          }
          answer a;
          auto wrong = take_answer(g.bytes, at, false, g.ended, a);
          REQM(wrong.empty(), fmt::format("a request to server {}: {}", k->server, wrong));
          REQ_EQ(a.status, 200);
          REQ_EQ(a.body, fmt::format("{}|{}|{}|{}", k->server, k->server * 10, k->local, k->remote));
        }
        REQM(at == g.bytes.size(), "more than the responses");
      }
      for (auto& d : directs) {
        if (d.stuck) {
          REQM(!d.got->answered, "a request whose handler never ends is answered");
        } else {
          REQM(d.got->answered && d.got->status == 200, "a request without a connection is not answered");
          REQ_EQ(d.got->body, fmt::format("{}|{}|localhost|localhost", d.server, d.server * 10));
        }
      }
      directs.clear();
    };

    for (std::size_t n = 0; c.more(n, 20, 8); ++n) {
      switch (c.weighted({ 5, 6, 2, 2, 1 })) {
      case 0: {
        int k = static_cast<int>(c.below(many));
        auto p = !places.empty() && c.chance(1, 4) ? c.pick(places) : gen_place(c);
        std::error_code fault;
        int where = 0;
        if (c.chance(1, 5)) {
          fault = std::error_code(static_cast<int>(1 + c.below(120)), std::system_category());
          where = static_cast<int>(1 + c.below(4));
          (where == 1 ? faults.open : where == 2 ? faults.option : where == 3 ? faults.bind : faults.listen) = fault;
        }
        c.op("bind", k, p.local ? "local" : std::to_string(p.port), p.text.substr(0, 40), p.text.size(), where);
        fi::expected<const web::http_server&, std::error_code> r = fi::unexpected { std::error_code() };
        try {
          r = p.local ? servers[k]->bind_local(p.text) : servers[k]->bind(p.text, p.port);
        } catch (const std::exception& e) {
          REQM(false, fmt::format("bind throws instead of returning an error: {}", e.what()));
        }
        faults = {};
        bool good = !p.canonical.empty() && !where && !bound.contains(p.key());
        if (good) {
          REQM(r.has_value(), "bind fails: " + (r ? std::string() : r.error().message()));
          REQM(&*r == servers[k].get(), "bind returns another server");
          bound[p.key()] = k;
          auto l = net::standin::listeners().find(p.key());
          REQM(l != net::standin::listeners().end() && l->second->listening, "nothing listens at the address that was bound");
          REQ_EQ(l->second->backlog, backlogs[k]);
          places.push_back(p);
        } else {
          failed = true;
          REQM(!r.has_value(), "bind succeeds where it can't");
          REQM(bool(r.error()), "bind fails without an error");
          if (p.canonical.empty()) {
            // refused whatever the system says
          } else if (where == 1 || where == 2 || where == 3 || (where == 4 && !bound.contains(p.key()))) {
            REQM(r.error() == fault, fmt::format("bind fails with {} instead of {}", r.error().message(), fault.message()));
          } else {
            REQM(r.error() == std::errc::address_in_use, "an address that is taken: " + r.error().message());
          }
        }
        // an address is free again when it was not bound
        for (auto& [key, l] : net::standin::listeners()) {
          REQM(bound.contains(key), "something is left at an address that was not bound");
        }
        break;
      }
      case 1: {
        auto p = !places.empty() && c.chance(6, 7) ? c.pick(places) : gen_place(c);
        if (p.canonical.empty()) {
          break;
        }
        auto k = std::make_unique<client_of>();
        auto it = bound.find(p.key());
        k->server = it == bound.end() ? -1 : it->second;
        k->requests = 1 + static_cast<int>(c.below(2));
        k->stuck = c.chance(1, 6);
        std::string text;
        for (int i = 0; i < k->requests; ++i) {
          text += fmt::format("GET /{} HTTP/1.1\r\nHost: x\r\n{}\r\n", k->stuck && i + 1 == k->requests ? "stuck" : "go", i + 1 == k->requests ? "Connection: close\r\n" : "");
        }
        k->local = p.canonical;
        int start = c.chance(1, 3) ? static_cast<int>(c.below(20)) : 0;
        if (p.local) {
          k->remote = c.chance(1, 2) ? "" : "/pbt/client" + std::to_string(n);
          c.op("client", p.text, k->remote, k->requests, k->stuck, start);
          k->got = raw_client_at<net::local::stream_protocol>(ioc, p.canonical, { step { text, 0, false } }, 0, start, k->remote);
        } else {
          k->remote = c.pick<const char*>({ "127.0.0.1", "192.168.7.9", "::1", "fe80::2" });
          c.op("client", p.canonical, p.port, k->remote, k->requests, k->stuck, start);
          k->got = raw_client_at<net::ip::tcp>(ioc, { net::ip::make_address(p.canonical), p.port }, { step { text, 0, false } }, 0, start,
                                               net::ip::tcp::endpoint(net::ip::make_address(k->remote), from_port++));
        }
        used.insert(k->server);
        kept.push_back(k->got);
        bool refused = k->server < 0;
        clients.push_back(std::move(k));
        // whether it is served is decided when it connects
        if (refused) {
          settle();
        }
        break;
      }
      case 2: {
        int k = static_cast<int>(c.below(many));
        bool stuck = c.chance(1, 6);
        c.op("request", k, stuck);
        auto got = std::make_shared<reply>();
        servers[k]->serve_request(stuck ? "/stuck" : "/go", web::test_request::get().build(), [got](web::test_response res) -> awaitable<void> {
          got->status = static_cast<int>(res.status().value());
          if (auto b = co_await web::async_read_until_eof<std::string>(res.body()); b) {
            got->body = *b;
          }
          got->answered = true;
        });
        directs.push_back({ k, stuck, got });
        break;
      }
      case 3:
        c.op("turns");
        settle();
        break;
      default:
        c.op("accept fails");
        for (auto& [key, l] : net::standin::listeners()) {
          l->next_error = std::make_error_code(c.chance(1, 2) ? std::errc::connection_aborted : std::errc::too_many_files_open);
          l->serve();
        }
      }
    }
    if (c.chance(2, 3)) {
      settle();
    } else {
      // some turns, then the end
      auto turns = c.below(60);
      c.in("turns before the end", turns);
      ioc.scheduler::run(false, turns);
      ended_early = !clients.empty() || !directs.empty();
    }
  }
  REQM(handlers_alive == 0, "a handler is left when the context ended");
  REQM(net::standin::listeners().empty(), "an address is left when the context ended");
  used.erase(-1);
  c.nontrivial(failed || used.size() > 1 || ended_early);
  c.label(ended_early ? "ends early" : used.size() > 1 ? "several servers" : "one server or none");
}
